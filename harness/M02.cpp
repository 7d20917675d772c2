//@ threads
//@ entry pair cover=message,round,finished jobs=4 max_seconds=200 preempt=1 thorough_preempt=2
//@ entry split cover=message,round jobs=8 max_seconds=200 preempt=1
//@ entry orders cover=round jobs=4 max_seconds=200
//@ entry failure cover=first,second jobs=4 max_seconds=60 preempt=1
//@ entry exchange cover=message,round tier=thorough jobs=8 thorough_seconds=900 thorough_preempt=1
//@ sources esl/simulation/model.cpp esl/simulation/agent_collection.cpp esl/computation/environment.cpp esl/interaction/communicator.cpp esl/agent.cpp esl/simulation/world.cpp esl/simulation/entity.cpp esl/data/producer.cpp esl/simulation/parameter/parametrization.cpp
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds the same model run with one thread and with several: pair: 2 agents on 2 threads for 1 (thorough 2) steps, one of them may send a message; split: 3 agents on 2 (thorough 2 or 4) threads for 1 step, one may send; these two for every order in which the threads reach their synchronising operations with at most 1 (pair thorough: 2) preemptions of a thread that could go on; exchange (thorough): 2 agents on 2 threads for 1 step with a message from each, with at most 1 preemption; orders: the same without messages, for every such order; failure: 2 or 3 agents on 2 threads of which any throw an exception, with at most 1 preemption; at most one repeated round per step; symbolic start, end, sample, wake-up and delivery times of 64 bits
//@ bounds threads change only where a synchronising operation or an atomic access begins (between such points accesses are checked to be free of data races); no spurious wake-ups, sequentially consistent atomics
#include "common.hpp"
#include <cassert>
#include <vector>
#include <iterator>
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/interaction/message.hpp>
#include <esl/simulation/model.hpp>
using namespace esl;
using namespace esl::interaction;
using esl::simulation::time_point;
using esl::simulation::time_interval;
typedef uint64_t u64;
enum { ACTS = 3 };
struct note : message<note, 0x51> { unsigned id = 0; };
struct event {
    unsigned kind, id;              // 0 acts, 1 reads
    time_point lower, upper;
    unsigned n;
    uint32_t seed[10];
};
struct plan {                       // what an agent does, decided beforehand
    time_point next[ACTS], at = 0;
    bool send = false;
    unsigned to = 0;
} plans[3];
unsigned agents, limit;
struct walker : public agent {
    unsigned me = 0, done = 0, n = 0;
    event log[12];
    std::vector<std::shared_ptr<walker>> *all = nullptr;
    explicit walker(identity<walker> i) : agent(identity<agent>(i.digits))
    {
        ESL_REGISTER_CALLBACK(note, 0, [this](auto m, time_interval s, std::seed_seq &r) { record(1, m->id, s, r); return s.upper; }, "");
    }
    void record(unsigned kind, unsigned id, time_interval s, std::seed_seq &r)
    {
        if(n >= 12) return;
        event &e = log[n++];
        e.kind = kind; e.id = id; e.lower = s.lower; e.upper = s.upper;
        e.n = r.size();
        if(e.n <= 10) r.param(e.seed);
    }
    time_point act(time_interval s, std::seed_seq &r) override
    {
        record(0, done, s, r);
        plan &p = plans[me];
        time_point next = done < limit ? p.next[done] : s.upper;
        if(next < s.lower) next = s.lower;
        if(done > 0 && next == s.lower) next = s.upper;
        if(done == 0 && p.send) create_message<note>((*all)[p.to]->identifier, p.at)->id = me;
        ++done;
        return next;
    }
};
struct result {
    time_point next[2];
    u64 sent = 0;
    std::vector<std::shared_ptr<walker>> all;
};
static void run(result &r, unsigned threads, time_point start, time_point end, u64 sample, unsigned steps)
{
    computation::environment e;
    simulation::model m(e, simulation::parameter::parametrization(sample, start, end, 0, threads));
    ASSERT(m.threads == threads, "as many threads as asked for");
    for(unsigned i = 0; i < agents; ++i) {
        r.all.push_back(m.create<walker>());
        r.all.back()->me = i;
    }
    for(auto &a : r.all) a->all = &r.all;
    time_point t = start;
    for(unsigned i = 0; i < steps; ++i) {
        r.next[i] = t >= end ? t : m.step(time_interval(t, end));
        t = r.next[i];
    }
    r.sent = m.messages_sent;
    if(t >= end) COVER("finished");
}
static void compare(unsigned n, unsigned threads, unsigned steps, unsigned senders)
{
    agents = n;
    limit = steps + 1 < ACTS ? steps + 1 : ACTS;
    time_point start = SYM_U64("start"), end = SYM_U64("end");
    u64 sample = SYM_U64("sample");
    ASSUME(start < end);
    bool sends = false;
    for(unsigned i = 0; i < n; ++i) {
        plan &p = plans[i];
        for(unsigned k = 0; k < limit; ++k) {
            p.next[k] = SYM_U64(nm(nm("next", i), k));
            ASSUME(p.next[k] <= end);
        }
        if(i < senders) p.send = CHOOSE(2, nm("send", i));
        if(p.send) {
            p.to = CHOOSE(n, nm("to", i));
            p.at = SYM_U64(nm("at", i));
        }
    }
    result one, many;
    run(one, 1, start, end, sample, steps);
    run(many, threads, start, end, sample, steps);
    for(unsigned s = 0; s < steps; ++s) ASSERT(one.next[s] == many.next[s], "the time of the next event does not depend on the threads");
    ASSERT(one.sent == many.sent, "as many messages");
    for(unsigned i = 0; i < n; ++i) {
        walker &a = *one.all[i], &b = *many.all[i];
        ASSERT(a.n == b.n && a.done == b.done, "an agent acts and reads as often whatever the threads");
        ASSERT(a.inbox.size() == b.inbox.size(), "the messages left to deliver are the same");
        for(unsigned k = 0; k < a.n; ++k) {
            event &x = a.log[k], &y = b.log[k];
            ASSERT(x.kind == y.kind && x.id == y.id, "in the same order");
            ASSERT(x.lower == y.lower && x.upper == y.upper, "at the same time");
            ASSERT(x.n == y.n && x.n > 0, "with a seed of the same size");
            for(unsigned j = 0; j < x.n && j < 10; ++j) ASSERT(x.seed[j] == y.seed[j], "with the same random seed");
            if(x.kind) COVER("message");
            if(k && !x.kind) COVER("round");
        }
    }
}
struct broken { unsigned who; };
struct failing : public agent {
    unsigned me = 0, acts = 0;
    bool fails = false;
    explicit failing(identity<failing> i) : agent(identity<agent>(i.digits)) {}
    time_point act(time_interval s, std::seed_seq &) override
    {
        ++acts;
        if(fails) throw broken{me};
        return s.upper;
    }
};
static unsigned first_failure(unsigned n, unsigned threads, const bool *fails, time_point start, time_point end)
{
    computation::environment e;
    simulation::model m(e, simulation::parameter::parametrization(0, start, end, 0, threads));
    std::vector<std::shared_ptr<failing>> all;
    for(unsigned i = 0; i < n; ++i) {
        all.push_back(m.create<failing>());
        all.back()->me = i;
        all.back()->fails = fails[i];
    }
    unsigned who = n;
    try { m.step(time_interval(start, end)); } catch(const broken &b) { who = b.who; }
    for(auto &a : all) ASSERT(a->acts <= 1, "an agent acts at most once when another fails");
    return who;
}
HARNESS(failure)
{
    const unsigned n = 2 + CHOOSE(2, "agents");
    time_point start = SYM_U64("start"), end = SYM_U64("end");
    ASSUME(start < end);
    bool fails[3];
    for(unsigned i = 0; i < n; ++i) fails[i] = CHOOSE(2, nm("fails", i));
    unsigned one = first_failure(n, 1, fails, start, end), many = first_failure(n, 2, fails, start, end);
    ASSERT(one == many, "the same exception comes out of the step whatever the threads");
    for(unsigned i = 0; i < n; ++i) if(fails[i]) ASSERT(many < n && fails[many], "a failure is told to who takes the step");
    if(many < n) { if(fails[0]) COVER("first"); else COVER("second"); }
}
HARNESS(pair) { compare(2, 2, TH(1, 2), 1); }
HARNESS(split) { compare(3, TH(2, 2 + 2 * CHOOSE(2, "more")), 1, 1); }
HARNESS(orders) { compare(2, 2, 1, 0); }
HARNESS(exchange) { compare(2, 2, 1, 2); }
