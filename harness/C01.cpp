//@ entry inbox cover=future,due,unknown,equal,ordered jobs=8 max_seconds=120
//@ entry shuffled cover=swapped,kept jobs=8 max_seconds=120
//@ entry handlers cover=several,none
//@ entry sending
//@ sources esl/interaction/communicator.cpp
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds inboxes of up to 3 (thorough 4) messages of 3 types with every 64-bit delivery time, every step of 64-bit bounds, 3 callbacks with every priority and every time they can return; random order: 5 seeds
#include "common.hpp"
#include <cassert>
#include <algorithm>
#include <vector>
#include <esl/interaction/communicator.hpp>
#include <esl/interaction/message.hpp>
using namespace esl;
using namespace esl::interaction;
using esl::simulation::time_point;
using esl::simulation::time_interval;
struct msg_a : message<msg_a, 0x51> { unsigned id = 0; };
struct msg_b : message<msg_b, 0x52> { unsigned id = 0; };
struct msg_c : message<msg_c, 0x53> { unsigned id = 0; };
struct call { unsigned message, callback; };
struct station : communicator {
    std::vector<call> done;
    std::vector<time_point> returned;
    unsigned n = 0;
    explicit station(scheduling s) : communicator(s) {}
    time_point handled(unsigned m, unsigned c, const time_interval &step, time_interval expected)
    {
        ASSERT(step.lower == expected.lower && step.upper == expected.upper, "a callback is told the current step");
        done.push_back({m, c});
        time_point t = SYM_U64(nm("t", n++));
        ASSUME(step.lower <= t && t <= step.upper);
        returned.push_back(t);
        return t;
    }
    template<class T> void on(unsigned c, int8_t priority, time_interval expected)
    {
        register_callback<T>([this, c, expected](std::shared_ptr<T> m, time_interval s, std::seed_seq &) {
            ASSERT(m != nullptr, "a callback gets messages of its type");
            return handled(m->id, c, s, expected);
        }, priority);
    }
    void lock() { locked_ = true; }
};
struct sent { unsigned type; time_point at; int order; };
template<class T> static std::shared_ptr<header> make(unsigned id) { auto m = std::make_shared<T>(); m->id = id; return m; }
struct scene {
    time_interval step{0, 0};
    int pr[3];
    std::vector<sent> ms;
    station s;
    explicit scene(communicator::scheduling o) : s(o)
    {
        step.lower = SYM_U64("lower");
        step.upper = SYM_U64("upper");
        ASSUME(step.lower < step.upper);
        for(unsigned i = 0; i < 3; ++i) pr[i] = (int8_t)SYM_U8(nm("priority", i));
        s.on<msg_a>(0, pr[0], step);
        s.on<msg_a>(1, pr[1], step);
        s.on<msg_b>(2, pr[2], step);
    }
    void arrive(unsigned type, time_point at)
    {
        unsigned id = ms.size();
        std::shared_ptr<header> m = type == 0 ? make<msg_a>(id) : type == 1 ? make<msg_b>(id) : make<msg_c>(id);
        m->received = at;
        m->sent = SYM_U64(nm("sent", id)); // has no effect
        s.inbox.insert({at, m});
        ms.push_back({type, at, -1});
    }
    int priority(unsigned m) const { return ms[m].type == 0 ? std::max(pr[0], pr[1]) : pr[2]; }
    void run()
    {
        std::vector<call> &d = s.done;
        const size_t before = s.inbox.size();
        std::seed_seq seed{1};
        time_point next = s.process_messages(step, seed);
        check(next);
        ASSERT(s.inbox.size() == before, "reading an inbox does not lose messages");
    }
    void check(time_point next)
    {
        std::vector<call> &d = s.done;
        size_t expected = 0;
        time_point first = step.upper;
        for(unsigned i = 0; i < ms.size(); ++i) {
            if(ms[i].at > step.lower) { COVER("future"); first = std::min(first, ms[i].at); continue; }
            if(ms[i].type == 2) { COVER("unknown"); continue; }
            COVER("due");
            expected += ms[i].type == 0 ? 2 : 1;
        }
        ASSERT(d.size() == expected, "every due message goes to every callback for its type, once");
        for(size_t k = 0; k < d.size(); ++k) {
            const sent &m = ms[d[k].message];
            ASSERT(m.type < 2 && m.at <= step.lower, "only messages that are due are handled");
            ASSERT(ms[d[k].message].order < 0, "a message is handled once");
            ms[d[k].message].order = k;
            if(m.type == 0) {
                ASSERT(k + 1 < d.size() && d[k + 1].message == d[k].message && d[k].callback + d[k + 1].callback == 1, "the callbacks for a message are called together");
                ASSERT(pr[d[k].callback] >= pr[d[k + 1].callback], "the callback with the higher priority first");
                ++k;
            } else ASSERT(d[k].callback == 2, "the callback of the type");
        }
        for(unsigned i = 0; i < ms.size(); ++i)
            for(unsigned j = 0; j < ms.size(); ++j) {
                if(ms[i].order < 0 || ms[j].order < 0 || i == j) continue;
                if(priority(i) > priority(j)) ASSERT(ms[i].order < ms[j].order, "messages of higher priority first");
                else if(priority(i) == priority(j)) {
                    COVER("equal");
                    if(s.schedule == communicator::in_order && (ms[i].at < ms[j].at || (ms[i].at == ms[j].at && i < j))) {
                        COVER("ordered");
                        ASSERT(ms[i].order < ms[j].order, "messages of one priority in the order of delivery");
                    } else if(s.schedule == communicator::random && i < j) {
                        if(ms[i].order < ms[j].order) COVER("kept"); else COVER("swapped");
                    }
                }
            }
        for(auto &t : s.returned) first = std::min(first, t);
        ASSERT(next == first, "the next event is the first one announced by a callback or waiting in the inbox, within the step");
    }
};
HARNESS(inbox)
{
    scene c(communicator::in_order);
    unsigned n = CHOOSE(TH(4, 5), "n");
    for(unsigned i = 0; i < n; ++i) { unsigned y = CHOOSE(3, nm("type", i)); c.arrive(y, SYM_U64(nm("at", i))); }
    c.run();
}
HARNESS(shuffled)
{
    scene c(communicator::random);
    for(unsigned i = 0; i < 3; ++i) { unsigned y = CHOOSE(2, nm("type", i)); c.arrive(y, SYM_U64(nm("at", i))); }
    unsigned k = CHOOSE(5, "seed");
    std::seed_seq seed{k};
    time_point next = c.s.process_messages(c.step, seed);
    c.check(next);
    // the same seed gives the same order
    std::vector<call> d = c.s.done;
    c.s.done.clear();
    std::seed_seq again{k};
    c.s.process_messages(c.step, again);
    bool same = d.size() == c.s.done.size();
    for(size_t i = 0; same && i < d.size(); ++i) same = d[i].message == c.s.done[i].message && d[i].callback == c.s.done[i].callback;
    ASSERT(same, "the order depends on messages and seed only");
}
HARNESS(handlers)
{
    scene c(communicator::in_order);
    unsigned y = CHOOSE(3, "type");
    auto m = y == 0 ? make<msg_a>(0) : y == 1 ? make<msg_b>(0) : make<msg_c>(0);
    std::seed_seq seed{1};
    time_point next = c.s.process_message(m, c.step, seed), first = c.step.upper;
    ASSERT(c.s.done.size() == (y == 0 ? 2 : y == 1 ? 1 : 0), "a message goes to every callback for its type");
    if(y == 0) COVER("several");
    if(y == 2) COVER("none");
    for(auto &t : c.s.returned) first = std::min(first, t);
    ASSERT(next == first, "the next event is the first one announced");
    c.s.lock();
    ASSERT(ends<std::logic_error>([&] { c.s.on<msg_c>(3, 0, c.step); }) == 1, "callbacks are fixed once the agent is set up");
    ASSERT(c.s.callbacks().size() == 2 && c.s.callbacks().find(msg_c::code) == c.s.callbacks().end(), "a refused callback is not kept");
}
HARNESS(sending)
{
    station s(communicator::random);
    uint64_t a = SYM_U64("a"), b = SYM_U64("b"), t = SYM_U64("t");
    auto m = s.create_message<msg_a>(identity<agent>({a, b}), t);
    ASSERT(s.outbox.size() == 1 && s.outbox[0] == m && s.inbox.empty(), "a message waits in the outbox");
    ASSERT(m->recipient == identity<agent>({a, b}) && m->received == t && m->type == msg_a::code, "it keeps recipient, delivery time and type");
    auto n = make<msg_b>(1);
    s.send_message(n);
    ASSERT(s.outbox.size() == 2 && s.outbox[0] == m && s.outbox[1] == n, "messages are kept in the order sent");
}
