//@ entry steps cover=message,round,late,skipped,finished jobs=8 max_seconds=400 thorough_seconds=800
//@ sources esl/simulation/model.cpp esl/simulation/agent_collection.cpp esl/computation/environment.cpp esl/interaction/communicator.cpp esl/agent.cpp esl/simulation/world.cpp esl/simulation/entity.cpp esl/data/producer.cpp esl/simulation/parameter/parametrization.cpp
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds 2 agents, 2 (thorough 3) steps, one message between any two agents sent at any action, at most one repeated round per step; every start, end, wake-up and delivery time of 64 bits; steps at or after the time the last one returned
#include "common.hpp"
#include <cassert>
#include <vector>
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/interaction/message.hpp>
#include <esl/simulation/model.hpp>
using namespace esl;
using namespace esl::interaction;
using esl::simulation::time_point;
using esl::simulation::time_interval;
struct note : message<note, 0x51> { unsigned id = 0; };
struct letter { unsigned to; time_point at; bool handled; };
struct walker;
struct scene {
    std::vector<std::shared_ptr<walker>> agents;
    std::vector<letter> letters;
    time_interval step{0, 0};
    unsigned acts = 0, sends = 0, again = 0;
} *S;
struct walker : public agent {
    unsigned me = 0, done = 0, handled = 0;
    time_point announced = 0;
    explicit walker(identity<walker> i) : agent(identity<agent>(i.digits))
    {
        ESL_REGISTER_CALLBACK(note, 0, [this](auto m, time_interval s, std::seed_seq &) { return read(m->id, s); }, "");
    }
    time_point read(unsigned id, time_interval s)
    {
        letter &l = S->letters[id];
        ASSERT(l.to == me, "a message goes to its recipient");
        ASSERT(!l.handled, "a message is handled once");
        ASSERT(s.lower == S->step.lower && s.upper == S->step.upper && l.at <= s.lower, "a message is not handled before it is due");
        l.handled = true;
        ++handled;
        COVER("message");
        return s.upper;
    }
    time_point act(time_interval s, std::seed_seq &) override
    {
        ASSERT(s.lower == S->step.lower && s.upper == S->step.upper, "an agent is told the current step");
        for(auto &[at, m] : inbox) {
            bool handled = S->letters[std::dynamic_pointer_cast<note>(m)->id].handled;
            ASSERT(handled || at > s.lower, "messages that are due are read before acting");
        }
        ASSERT(done == 0 || announced <= s.lower || handled > 0, "an agent acts when it announced it would, or when it got a message");
        handled = 0;
        ++done;
        unsigned n = S->acts++;
        time_point next = SYM_U64(nm("next", n));
        ASSUME(s.lower <= next && next <= s.upper);
        if(S->again > 0) ASSUME(next > s.lower);
        else if(next == s.lower) { S->again++; COVER("round"); }
        announced = next;
        if(S->sends < TH(1, 1) && CHOOSE(2, nm("send", n))) {
            unsigned to = CHOOSE(S->agents.size(), nm("to", n));
            time_point at = SYM_U64(nm("at", n));
            unsigned id = S->letters.size();
            S->letters.push_back({to, at, false});
            S->sends++;
            auto m = create_message<note>(S->agents[to]->identifier, at);
            m->id = id;
            m->sent = SYM_U64(nm("sent", n)); // a note for people: has no effect
            if(at < s.lower) COVER("late");
        }
        return next;
    }
};
HARNESS(steps)
{
    scene sc;
    S = &sc;
    time_point start = SYM_U64("start"), end = SYM_U64("end");
    ASSUME(start < end);
    computation::environment e;
    simulation::model m(e, simulation::parameter::parametrization(0, start, end, 0, 1));
    ASSERT(m.start == start && m.end == end && m.time == start && m.threads == 1, "a model starts with its parameters");
    for(unsigned i = 0; i < 2; ++i) {
        sc.agents.push_back(m.create<walker>());
        sc.agents.back()->me = i;
    }
    time_point t = start;
    for(unsigned i = 0; i < TH(2, 3); ++i) {
        sc.step = time_interval(t, end);
        sc.again = 0;
        time_point next = m.step(sc.step), expected = end;
        ASSERT(next > t && m.time == next, "time advances to the next event");
        for(auto &a : sc.agents) {
            ASSERT(a->done > 0 && a->announced > t, "every agent that is due has acted");
            expected = std::min(expected, a->announced);
            ASSERT(a->outbox.empty(), "messages do not stay in an outbox");
        }
        for(auto &l : sc.letters) {
            ASSERT(l.handled || l.at > t, "every message that is due is delivered");
            if(!l.handled) expected = std::min(expected, l.at);
        }
        ASSERT(next == expected, "the next step is when the first agent wants to act or the first message is due");
        ASSERT(m.messages_sent == sc.letters.size(), "messages are counted once");
        t = next;
        if(t >= end) { COVER("finished"); return; }
        if(i == 0 && CHOOSE(2, nm("skip", i))) { time_point u = SYM_U64(nm("skip", i)); ASSUME(t <= u && u < end); t = u; COVER("skipped"); }
    }
}
