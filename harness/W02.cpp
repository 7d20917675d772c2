//@ threads
//@ entry none cover=idle jobs=4
//@ entry work cover=done jobs=2
//@ entry work2 cover=done jobs=8 preempt=2 thorough_preempt=3
//@ entry task cover=waited,failed jobs=4
//@ entry task2 cover=waited,failed jobs=8 preempt=2 thorough_preempt=3
//@ entry late cover=late jobs=2
//@ entry late2 cover=late jobs=8 preempt=2 thorough_preempt=3
//@ bounds none: pools of one and two threads and of a requested zero, nothing to do; work, task, late: one thread with three pieces of work with symbolic arguments, a task that returns a symbolic value or throws together with a piece of work, work that enqueues more work: every order in which the threads reach their synchronising operations
//@ bounds work2, task2, late2: the same on two threads with two (when thorough three) pieces of work, for every such order with at most 2 (3) preemptions of a thread that could go on
//@ bounds threads change only where a synchronising operation or an atomic access begins (between such points accesses are checked to be free of data races); no spurious wake-ups, sequentially consistent atomics
#include "common.hpp"
#include <stdexcept>
#include <thread>
#include <esl/computation/thread_pool.hpp>
using esl::computation::thread_pool;
typedef uint64_t u64;

HARNESS(none)
{
    unsigned n = CHOOSE(3, "threads");
    {
        thread_pool p(n);
        ASSERT(p.threads >= 1, "a pool has threads");
        if(n) ASSERT(p.threads == n, "as many as asked for");
    }
    if(!n) COVER("idle");
}

static void work(unsigned n, unsigned m)
{
    u64 a = SYM_U64("a");
    u64 got[3] = {};
    unsigned ran[3] = {};
    {
        thread_pool p(n);
        for(unsigned i = 0; i < m; ++i)
            p.enqueue_work([&got, &ran](unsigned i, u64 v) { got[i] = v; ++ran[i]; }, i, a + i);
    }
    for(unsigned i = 0; i < m; ++i) {
        ASSERT(ran[i] == 1, "each piece of work is done exactly once before the pool is gone");
        ASSERT(got[i] == a + i, "with its arguments");
    }
    COVER("done");
}
HARNESS(work) { work(1, 3); }
HARNESS(work2) { work(2, TH(2, 3)); }

static void task(unsigned n, bool extra)
{
    u64 a = SYM_U64("a");
    unsigned bad = CHOOSE(2, "bad");
    unsigned ran = 0;
    bool threw = false;
    u64 r = 0;
    {
        thread_pool p(n);
        auto f = p.enqueue_task([bad](u64 v) -> u64 { if(bad) throw std::runtime_error("task"); return v + 1; }, a);
        if(extra) p.enqueue_work([&ran] { ++ran; });
        try { r = f.get(); COVER("waited"); }
        catch(const std::runtime_error &) { threw = true; COVER("failed"); }
    }
    ASSERT(ran == extra, "the other work is done");
    ASSERT(threw == (bad == 1), "an exception of the task is thrown from the future");
    if(!bad) ASSERT(r == a + 1, "the future gives the result of the task");
}
HARNESS(task) { task(1, true); }
HARNESS(task2) { task(2, TH(0, 1)); }

static void late(unsigned n)
{
    unsigned first = 0, second = 0;
    {
        thread_pool p(n);
        auto f = p.enqueue_task([&] { ++first; p.enqueue_work([&second] { ++second; }); });
        f.get();
        COVER("late");
    }
    ASSERT(first == 1, "the first piece");
    ASSERT(second == 1, "the piece enqueued by the first");
}
HARNESS(late) { late(1); }
HARNESS(late2) { late(2); }
