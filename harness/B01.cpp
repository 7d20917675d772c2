//@ entry pool cover=full,reused,stale jobs=4
//@ entry pool_any cover=live,dead
//@ bounds pools of 1 to 3 (thorough 4) elements; every series of 8 (thorough 10) insertions and erasures of any element ever inserted, with arbitrary values; erasure of every 64-bit index
#include "common.hpp"
#include <cassert>
#include <vector>
#include <esl/computation/block_pool.hpp>
struct item { uint64_t index; uint64_t value; bool live; };
typedef esl::computation::block_pool::static_block_pool<uint64_t> pool_t;
static void check(pool_t &p, const std::vector<item> &m, size_t cap)
{
    size_t live = 0;
    bool kept = true;
    const pool_t &c = p;
    for(auto &i : m) if(i.live) { ++live; kept = kept & (p[i.index] == i.value) & (c[i.index] == i.value); }
    ASSERT(kept, "an element is found under its index until it is erased");
    ASSERT(p.size() == live && p.capacity() == cap, "size");
}
static bool put(pool_t &p, std::vector<item> &m, size_t cap, uint64_t v)
{
    size_t live = 0;
    for(auto &i : m) live += i.live;
    if(live == cap) {
        ASSERT(ends<std::length_error>([&] { p.emplace(v); }) == 1, "a full pool refuses elements");
        COVER("full");
        return false;
    }
    auto r = p.emplace(v);
    for(auto &i : m) {
        ASSERT(r.first > i.index, "indices increase and are never repeated");
        if(i.index % cap == r.first % cap) COVER("reused");
    }
    ASSERT(r.second && r.second->data == v && &p[r.first] == &r.second->data && r.second->index == r.first, "the element is where it is said to be");
    m.push_back({r.first, v, true});
    return true;
}
HARNESS(pool)
{
    size_t cap = 1 + CHOOSE(TH(3, 4), "cap");
    pool_t p(cap);
    std::vector<item> m;
    ASSERT(p.erase(0) == 0 && p.size() == 0, "nothing to erase in an empty pool");
    const unsigned N = TH(8, 10);
    for(unsigned i = 0; i < N; ++i) {
        unsigned k = CHOOSE(m.size() + 1, nm("op", i));
        if(k == m.size()) put(p, m, cap, SYM_U64(nm("v", i)));
        else {
            ASSERT(p.erase(m[k].index) == (m[k].live ? 1 : 0), "an element is erased once");
            if(!m[k].live) COVER("stale");
            m[k].live = false;
        }
        check(p, m, cap);
    }
}
HARNESS(pool_any)
{
    size_t cap = 1 + CHOOSE(TH(3, 4), "cap");
    pool_t p(cap);
    std::vector<item> m;
    unsigned n = CHOOSE(4, "n");
    for(unsigned i = 0; i < n; ++i) put(p, m, cap, i + 10);
    if(!m.empty()) {
        unsigned k = CHOOSE(m.size(), "k");
        p.erase(m[k].index);
        m[k].live = false;
        if(SYM_BOOL("again")) put(p, m, cap, 20);
    }
    uint64_t x = SYM_U64("x");
    bool live = false;
    size_t before = p.size();
    for(auto &i : m) if(i.live && i.index == x) { live = true; i.live = false; }
    ASSERT(p.erase(x) == (live ? 1 : 0), "exactly the indices in use can be erased");
    if(live) COVER("live"); else COVER("dead");
    check(p, m, cap);
    ASSERT(p.size() + live == before, "size");
}
