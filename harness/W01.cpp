//@ threads
//@ entry sequential cover=pushed,tried,popped,missed,closed,drained jobs=4
//@ entry producers cover=waited,first,second jobs=8
//@ entry consumers cover=shared,alone,none jobs=8
//@ entry attempts cover=pushed,blocked,popped,missed jobs=8
//@ entry wakes cover=pushed,tried,failed jobs=4
//@ entry closing cover=waiting,early jobs=4
//@ bounds sequential: one thread, every sequence of 5 (7 when thorough) operations out of push of a copy, push of a moved value, try_push of both kinds, pop, try_pop, size, empty and close, symbolic elements
//@ bounds producers: two threads pushing two and one (two) symbolic elements, one thread popping them all; consumers: two threads popping until the queue is closed, two (three) elements pushed by a third; attempts: two threads with try_push, try_pop and push against each other; wakes: two threads waiting, an element pushed in each of the ways for each; closing: two threads that wait while a third closes the queue; for each of these every order in which the threads reach their synchronising operations, two or three threads at a time
//@ bounds threads change only where a synchronising operation begins (between such points accesses are checked to be free of data races, so that no finer interleaving can make a difference, except through atomics); no spurious wake-ups, sequentially consistent atomics
#include "common.hpp"
#include <esl/computation/blocking_queue.hpp>
#include <thread>
#include <deque>
using esl::computation::blocking_queue;
typedef uint64_t u64;

HARNESS(sequential)
{
    blocking_queue<u64> q;
    std::deque<u64> r;
    bool closed = false;
    for(unsigned i = 0; i < TH(5, 7); ++i) {
        unsigned op = CHOOSE(8, nm("op", i));
        u64 v = SYM_U64(nm("v", i));
        u64 out = 77;
        switch(op) {
        case 0: ASSUME(!closed); q.push(v); r.push_back(v); COVER("pushed"); break;
        case 1: { ASSUME(!closed); u64 w = v; q.push(std::move(w)); r.push_back(v); break; }
        case 2: { ASSUME(!closed); bool ok = q.try_push(v); ASSERT(ok, "nobody holds the queue"); r.push_back(v); COVER("tried"); break; }
        case 3: { ASSUME(!closed); u64 w = v; bool ok = q.try_push(std::move(w)); ASSERT(ok, "nobody holds the queue, moving"); r.push_back(v); break; }
        case 4: {
            if(r.empty() && !closed) { ASSUME(false); }
            bool ok = q.pop(out);
            ASSERT(ok == !r.empty(), "pop gives an element when there is one");
            if(ok) { ASSERT(out == r.front(), "pop gives the oldest element"); r.pop_front(); COVER("popped"); if(closed) COVER("drained"); }
            else ASSERT(out == 77, "nothing is written when there is nothing");
            break;
        }
        case 5: {
            bool ok = q.try_pop(out);
            ASSERT(ok == !r.empty(), "try_pop gives an element when there is one");
            if(ok) { ASSERT(out == r.front(), "try_pop gives the oldest element"); r.pop_front(); }
            else { ASSERT(out == 77, "nothing is written when there is nothing to try"); COVER("missed"); }
            break;
        }
        case 6: ASSERT(q.size() == r.size(), "size"); ASSERT(q.empty() == r.empty(), "empty"); break;
        case 7: q.close(); closed = true; COVER("closed"); break;
        }
    }
    ASSERT(q.size() == r.size(), "the final size");
    u64 out;
    while(q.try_pop(out)) { ASSERT(!r.empty() && out == r.front(), "the rest in order"); r.pop_front(); }
    ASSERT(r.empty(), "nothing is lost");
}

HARNESS(producers)
{
    blocking_queue<u64> q;
    u64 a0 = SYM_U64("a0"), a1 = SYM_U64("a1"), b0 = SYM_U64("b0");
    ASSUME(a0 < 100); ASSUME(a1 >= 100); ASSUME(a1 < 200); ASSUME(b0 >= 200); ASSUME(b0 < 300);
    std::thread a([&] { q.push(a0); q.push(std::move(a1)); });
    std::thread b([&] { u64 w = b0; q.push(std::move(w)); if(TH(0, 1)) q.push(b0 + 100); });
    u64 got[4];
    const unsigned n = TH(3, 4);
    if(!q.size()) COVER("waited");
    for(unsigned i = 0; i < n; ++i) ASSERT(q.pop(got[i]), "pop returns an element");
    a.join();
    b.join();
    ASSERT(q.empty(), "each element is popped once");
    unsigned ia = 9, ja = 9, ib = 9, jb = 9;
    for(unsigned i = 0; i < n; ++i) {
        if(got[i] < 100) { ASSERT(ia == 9 && got[i] == a0, "first of a"); ia = i; }
        else if(got[i] < 200) { ASSERT(ja == 9 && got[i] < 200, "second of a"); ja = i; }
        else if(got[i] < 300) { ASSERT(ib == 9 && got[i] == b0, "first of b"); ib = i; }
        else { ASSERT(jb == 9 && got[i] == b0 + 100, "second of b"); jb = i; }
    }
    ASSERT(ia < ja && ja < 9, "in the order of the first producer");
    ASSERT(ib < 9, "that of the second");
    if(TH(0, 1)) ASSERT(ib < jb && jb < 9, "in the order of the second producer");
    if(ia < ib) COVER("first"); else COVER("second");
}

HARNESS(consumers)
{
    blocking_queue<u64> q;
    struct R { unsigned n = 0; u64 v[4]; } r[2];
    auto take = [&q](R *r) {
        u64 p;
        while(q.pop(p)) r->v[r->n++] = p;
    };
    const unsigned n = TH(2, 3);
    u64 base = SYM_U64("base");
    ASSUME(base < 1000);
    std::thread a(take, &r[0]), b(take, &r[1]);
    for(unsigned i = 0; i < n; ++i) q.push(base + i);
    q.close();
    a.join();
    b.join();
    ASSERT(q.empty(), "everything is taken before the consumers leave");
    ASSERT(r[0].n + r[1].n == n, "each element is taken once");
    unsigned seen = 0;
    for(auto &x: r) for(unsigned i = 0; i < x.n; ++i) {
        u64 k = x.v[i] - base;
        ASSERT(k < n, "one of the elements");
        ASSERT(!(seen >> k & 1), "not taken before");
        seen |= 1u << k;
        if(i) ASSERT(x.v[i - 1] < x.v[i], "a consumer sees the order of the queue");
    }
    if(r[0].n && r[1].n) COVER("shared"); else COVER("alone");
    if(!r[0].n) COVER("none");
}

HARNESS(attempts)
{
    blocking_queue<u64> q;
    u64 v0 = SYM_U64("v0");
    u64 v1 = v0 + 1, v2 = v0 + 2;
    q.push(v0);
    bool ok = false, got = false;
    u64 out = v0 - 1;
    std::thread a([&] { if(TH(1, 0)) ok = q.try_push(v1); else { u64 w = v1; ok = q.try_push(std::move(w)); } });
    std::thread b([&] { got = q.try_pop(out); if(TH(0, 1)) q.push(v2); });
    a.join();
    b.join();
    ASSERT(q.size() == 1u + ok - got + TH(0, 1), "an attempt that says it succeeded took effect, and no other");
    if(ok) COVER("pushed"); else COVER("blocked");
    if(got) { ASSERT(out == v0, "the oldest element"); COVER("popped"); }
    else { ASSERT(out == v0 - 1, "untouched"); COVER("missed"); }
    u64 x;
    if(!got) { ASSERT(q.try_pop(x), "still there"); ASSERT(x == v0, "still first"); }
    unsigned s1 = 0, s2 = 0;
    while(q.try_pop(x)) { s1 += x == v1; s2 += x == v2; }
    ASSERT(s1 == ok, "the attempted element");
    ASSERT(s2 == TH(0, 1), "the element of the other thread");
}

HARNESS(wakes)
{
    blocking_queue<u64> q;
    const u64 v = SYM_U64("v");
    const unsigned kind = CHOOSE(4, "kind"), n = 2;
    bool got[2] = {};
    u64 out[2] = {};
    auto f = [&](unsigned i) { got[i] = q.pop(out[i]); };
    std::thread a(f, 0), b([&] { if(n > 1) f(1); });
    for(unsigned i = 0; i < n; ++i) {
        u64 w = v + i;
        bool ok = true;
        switch(kind) {
            case 0: q.push(v + i); COVER("pushed"); break;
            case 1: q.push(static_cast<const u64 &>(w)); break;
            case 2: ok = q.try_push(std::move(w)); COVER("tried"); break;
            case 3: ok = q.try_push(static_cast<const u64 &>(w)); break;
        }
        if(!ok) { q.push(v + i); COVER("failed"); }
    }
    a.join();
    b.join();
    for(unsigned i = 0; i < n; ++i) ASSERT(got[i] && out[i] - v < n, "a waiting thread is woken by an element");
    if(n > 1) ASSERT(out[0] != out[1], "each by another one");
}

HARNESS(closing)
{
    blocking_queue<u64> q;
    u64 v = SYM_U64("v");
    unsigned one = CHOOSE(2, "one");
    if(one) q.push(v);
    bool got[2] = {};
    u64 out[2] = {};
    auto f = [&](unsigned i) { got[i] = q.pop(out[i]); };
    std::thread a(f, 0), b(f, 1);
    (void)q.empty();
    q.close();
    a.join();
    b.join();
    ASSERT(got[0] + got[1] == (int)one, "a waiting thread is released without an element");
    for(unsigned i = 0; i < 2; ++i) if(got[i]) ASSERT(out[i] == v, "the element");
    if(one && got[1]) COVER("early"); else COVER("waiting");
}
