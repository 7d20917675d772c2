//@ entry q_div jobs=2 cover=rem,norem,few
//@ entry q_divide jobs=2 cover=wide
//@ entry q_sum jobs=2
//@ entry q_many
//@ bounds every part: all 64-bit amounts (operator/: 1 to 5 parts, thorough 1 to 9; 16 parts with amounts below 2^20; divide: 1, 2, 3, 4, 5 and 7 parts); the sum of the parts: amounts below 2^12 (thorough 2^20); for larger amounts it follows from the exact value of each part
#include "common.hpp"
#include <esl/quantity.hpp>
using esl::quantity;
template<class C> static void parts(const C &p, uint64_t a, unsigned n)
{
    ASSERT(p.size() == n, "as many parts as asked for");
    bool ok = true, mono = true;
    for(unsigned i = 0; i < n; ++i) {
        ok = ok & (p[i].amount == a / n + (i < a % n));
        if(i) mono = mono & (p[i - 1].amount >= p[i].amount);
    }
    ASSERT(ok, "each part is its share, the remainder handed out one unit at a time");
    ASSERT(mono, "larger parts come first");
}
template<class C> static void sum(const C &p, uint64_t a)
{
    uint64_t s = 0;
    for(const auto &q : p) s += q.amount;
    ASSERT(s == a, "the parts add up to the whole");
}
HARNESS(q_div)
{
    uint64_t a = SYM_U64("a");
    unsigned n = 1 + CHOOSE(TH(5, 9), "n");
    auto v = quantity(a) / n;
    if(a % n) COVER("rem"); else COVER("norem");
    if(a < n) COVER("few");
    parts(v, a, n);
}
HARNESS(q_divide)
{
    uint64_t a = SYM_U64("a");
    quantity q(a);
    if(a > 1ull << 33) COVER("wide");
    switch(CHOOSE(6, "n")) {
    case 0: parts(q.divide<1>(), a, 1); break;
    case 1: parts(q.divide<2>(), a, 2); break;
    case 2: parts(q.divide<3>(), a, 3); break;
    case 3: parts(q.divide<4>(), a, 4); break;
    case 4: parts(q.divide<5>(), a, 5); break;
    default: parts(q.divide<7>(), a, 7); break;
    }
    ASSERT(q.amount == a, "the divided quantity is unchanged");
}
HARNESS(q_sum)
{
    uint64_t a = RANGE(0, TH(4095, (1 << 20) - 1), "a");
    quantity q(a);
    switch(CHOOSE(8, "n")) {
    case 0: sum(q.divide<2>(), a); break;
    case 1: sum(q.divide<3>(), a); break;
    case 2: sum(q.divide<5>(), a); break;
    case 3: sum(q.divide<7>(), a); break;
    case 4: sum(q / 2, a); break;
    case 5: sum(q / 3, a); break;
    case 6: sum(q / 4, a); break;
    default: sum(q / 5, a); break;
    }
}
HARNESS(q_many)
{
    uint64_t a = RANGE(0, (1 << 20) - 1, "a");
    auto v = quantity(a) / 16;
    parts(v, a, 16);
    sum(v, a);
}
