//@ entry members cover=created,deactivated,self,acts,gone jobs=8 max_seconds=240 thorough_seconds=800
//@ entry lost
//@ entry settings cover=many
//@ entry absent cover=unknown,type
//@ sources esl/simulation/model.cpp esl/simulation/agent_collection.cpp esl/computation/environment.cpp esl/interaction/communicator.cpp esl/agent.cpp esl/simulation/world.cpp esl/simulation/entity.cpp esl/data/producer.cpp esl/simulation/parameter/parametrization.cpp
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds runs of up to 4 steps with two agents at first, in which up to 2 (thorough 3) actions create or deactivate an agent, at every round; every start, end and wake-up time of 64 bits; every value of every parameter
#include "common.hpp"
#include <cassert>
#include <vector>
#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/interaction/message.hpp>
#include <esl/simulation/model.hpp>
using namespace esl;
using namespace esl::interaction;
using esl::simulation::time_point;
using esl::simulation::time_interval;
using esl::simulation::parameter::parametrization;
struct note : message<note, 0x51> {};
struct worker;
struct place;
struct scene {
    std::vector<std::shared_ptr<worker>> all;
    place *m = nullptr;
    time_interval step{0, 0};
    unsigned acts = 0, rounds = 0, steps = 0, changes = 0, created = 0, removed = 0, initialized = 0, terminated = 0, ended = 0;
} *S;
struct worker : public agent {
    bool live = true;
    unsigned gone = 0, born = 0, done = 0, last = ~0u, me = 0;
    explicit worker(identity<worker> i) : agent(identity<agent>(i.digits)) { born = S ? S->rounds : 0; }
    time_point act(time_interval s, std::seed_seq &) override;
};
struct office : computation::environment {
    size_t send_messages(simulation::model &m) override { ++S->rounds; return computation::environment::send_messages(m); }
    size_t activate() override
    {
        size_t n = computation::environment::activate();
        ASSERT(n == S->created, "each new agent is activated once");
        S->created = 0;
        return n;
    }
    size_t deactivate() override
    {
        size_t n = computation::environment::deactivate();
        ASSERT(n == S->removed, "each removed agent is deactivated once");
        S->removed = 0;
        return n;
    }
    void after_run(simulation::model &m) override { ASSERT(S->ended == 0 && S->terminated == 1, "a run is finished once"); ++S->ended; }
};
struct place : simulation::model {
    using model::model;
    void initialize() override { ASSERT(S->steps == 0 && S->initialized == 0, "a model is initialized before its first step"); ++S->initialized; hire(); hire(); }
    void terminate() override { ASSERT(S->terminated == 0, "a model is terminated once"); ++S->terminated; }
    time_point step(time_interval s) override
    {
        ASSERT(s.upper == end, "a step may last until the end");
        ASSERT(S->steps == 0 ? s.lower == start : s.lower == S->step.upper, "a step starts where the last one ended");
        ASSERT(s.lower < end, "no step starts after the end");
        ASSERT(S->initialized == 1 && S->terminated == 0, "steps happen between the beginning and the end of a run");
        S->step = s;
        time_point next = model::step(s);
        ASSERT(next > s.lower && next <= end && time == next, "time advances to the next event");
        for(auto &w : S->all) {
            ASSERT(!w->live || agents.local_agents_.count(w->identifier) == 1, "a live agent is listed");
            ASSERT(w->live || agents.local_agents_.count(w->identifier) == 0, "a removed agent is not listed");
            ASSERT(agents.global_agents_.count(w->identifier) == w->live, "the global list has the live agents");
            ASSERT(!w->live || w->done > 0 || w->born + 1 >= S->rounds, "a live agent acts");
        }
        S->step.upper = next;
        ++S->steps;
        return next;
    }
    void hire()
    {
        auto w = create<worker>();
        for(auto &o : S->all) ASSERT(!(o->identifier == w->identifier), "agents have different identities");
        w->me = S->all.size();
        S->all.push_back(w);
        ++S->created;
    }
};
time_point worker::act(time_interval s, std::seed_seq &)
{
    ASSERT(s.lower == S->step.lower && s.upper == S->step.upper, "an agent is told the current step");
    ASSERT(live || gone == S->rounds, "a removed agent acts no more once the round is over");
    ASSERT(last != S->rounds, "an agent acts at most once a round");
    COVER("acts");
    last = S->rounds;
    ++done;
    unsigned n = S->acts++;
    if(S->changes < TH(2, 3)) {
        unsigned c = CHOOSE(4, nm("change", n));
        if(c == 1) { S->changes++; S->m->hire(); COVER("created"); }
        if(c >= 2) {
            auto w = S->all[c - 2];
            if(w->live) {
                S->changes++;
                ++S->removed;
                S->m->agents.deactivate(w);
                w->live = false;
                w->gone = S->rounds;
                COVER("deactivated");
                if(w.get() == this) COVER("self");
                else if(w->last != S->rounds) COVER("gone");
            }
        }
    }
    if(S->steps + 1 >= TH(4, 4)) return s.upper;
    time_point next = SYM_U64(nm("next", n));
    ASSUME(s.lower < next && next <= s.upper);
    return next;
}
HARNESS(members)
{
    scene sc;
    S = &sc;
    office e;
    time_point start = SYM_U64("start"), end = SYM_U64("end");
    ASSUME(start < end);
    place m(e, parametrization(0, start, end, 0, 1));
    sc.m = &m;
    e.run(m);
    ASSERT(sc.initialized == 1 && sc.terminated == 1 && sc.ended == 1, "a run begins and ends once");
    ASSERT(sc.step.upper == end, "a run lasts until the end");
}
HARNESS(lost)
{
    // a message to nobody is an error, not lost
    scene sc;
    S = &sc;
    office e;
    place m(e, parametrization(0, 0, 10, 0, 1));
    sc.m = &m;
    m.hire();
    m.hire();
    identity<agent> to = sc.all[0]->identifier;
    bool removed = CHOOSE(2, "removed");
    if(removed) m.agents.deactivate(sc.all[0]);
    else { to.digits.back() = SYM_U64("to"); ASSUME(to.digits.back() > 1 || to.digits.size() > 1); for(auto &w : sc.all) ASSUME(!(w->identifier == to)); }
    sc.all[1]->create_message<note>(to, 3);
    ASSERT(ends<esl::exception>([&] { e.send_messages(m); }) == 1, "a message to an agent that does not exist is an error");
}
HARNESS(settings)
{
    uint64_t sample = SYM_U64("sample"), verbosity = SYM_U64("verbosity");
    uint32_t threads = SYM_U32("threads");
    time_point start = SYM_U64("start"), end = SYM_U64("end");
    parametrization p(sample, start, end, verbosity, threads);
    ASSERT(p.get<std::uint64_t>("sample") == sample && p.get<time_point>("start") == start && p.get<time_point>("end") == end, "parameters are kept");
    ASSERT(p.get<std::uint64_t>("verbosity") == verbosity && p.get<std::uint64_t>("threads") == threads, "parameters are kept");
    double extra = SYM_DOUBLE("extra");
    ASSUME(extra == extra);
    p.values["extra"] = std::make_shared<simulation::parameter::constant<double>>(extra);
    parametrization q = p;
    ASSERT(q.get<double>("extra") == extra, "parameters are kept");
    computation::environment e;
    simulation::model m(e, q);
    ASSERT(m.sample == sample && m.start == start && m.end == end && m.time == start && m.verbosity == verbosity, "a model has the parameters it was given");
    ASSERT(m.threads == (threads == 0 ? 1 : threads), "a model has the number of threads it was given, at least one");
    ASSERT(m.parameters.get<double>("extra") == extra, "a model has the parameters it was given");
    if(threads > 1) COVER("many");
}
HARNESS(absent)
{
    parametrization p;
    ASSERT(p.get<time_point>("end") == p.get<time_point>("start") + 1 && p.get<std::uint64_t>("threads") == 1, "the default is one step on one thread");
    const char *names[] = {"sample", "start", "end", "verbosity", "threads"};
    unsigned k = CHOOSE(6, "name");
    if(k == 5) {
        std::string name(1 + CHOOSE(2, "length"), 'x');
        for(unsigned i = 0; i < name.size(); ++i) name[i] = SYM_U8(nm("c", i));
        COVER("unknown");
        ASSERT(ends<std::out_of_range>([&] { p.get<std::uint64_t>(name); }) == 1, "a parameter that does not exist is an error");
    } else {
        COVER("type");
        ASSERT(ends<std::out_of_range>([&] { p.get<double>(names[k]); }) == 1, "a parameter of another type is an error");
        ASSERT(ends<std::out_of_range>([&] { p.get<std::int32_t>(names[k]); }) == 1, "a parameter of another type is an error");
    }
}
