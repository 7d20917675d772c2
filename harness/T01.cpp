//@ entry time_contains cover=in,below,above
//@ entry time_size cover=empty,one,many
//@ entry kinds
//@ bounds half-open intervals: every pair of 64-bit unsigned bounds and every value; membership in closed and open intervals: every 64-bit signed bound and value
#include "common.hpp"
#include <esl/mathematics/interval.hpp>
#include <esl/simulation/time.hpp>
using esl::mathematics::interval;
HARNESS(time_contains)
{
    uint64_t l = SYM_U64("l"), u = SYM_U64("u"), v = SYM_U64("v");
    const esl::simulation::time_interval i(l, u);
    ASSERT(i.lower == l && i.upper == u, "bounds are kept");
    ASSERT(i.contains(v) == (l <= v && v < u), "from the lower bound up to, not including, the upper bound");
    if(i.contains(v)) COVER("in"); else if(v < l) COVER("below"); else COVER("above");
    uint64_t m = SYM_U64("m");
    ASSUME(l <= m && m <= u);
    const esl::simulation::time_interval a(l, m), b(m, u);
    ASSERT(i.contains(v) == (a.contains(v) || b.contains(v)) && !(a.contains(v) && b.contains(v)), "two adjoining intervals split their union");
}
template<bool L, bool R, class T> static void size(T l, T u, T v, T w)
{
    const interval<T, L, R> i(l, u);
    if(i.empty()) ASSERT(!i.contains(v), "an empty interval contains nothing");
    else {
        T only = L ? l : u;
        ASSERT(i.contains(only), "an interval that is not empty contains something");
    }
    if(i.singleton()) {
        ASSERT(!i.empty(), "a single value is not empty");
        if(i.contains(v) && i.contains(w)) ASSERT(v == w, "a single value is all that is contained");
    } else if(!i.empty()) {
        T a = L ? l : u, b = L ? l + 1 : u - 1;
        ASSERT(i.contains(a) && i.contains(b) && a != b, "otherwise there are at least two values");
    }
    ASSERT(i.degenerate() == (i.empty() || i.singleton()), "degenerate: at most one value");
    if(i.empty()) COVER("empty"); else if(i.singleton()) COVER("one"); else COVER("many");
}
HARNESS(time_size)
{
    uint64_t ul = SYM_U64("l"), uu = SYM_U64("u"), uv = SYM_U64("v"), uw = SYM_U64("w");
    size<true, false, uint64_t>(ul, uu, uv, uw);
    int64_t l = SYM_I64("sl"), u = SYM_I64("su");
    ASSUME(l > -(1ll << 61) && l < (1ll << 61) && u > -(1ll << 61) && u < (1ll << 61));
    int64_t v = SYM_I64("sv"), w = SYM_I64("sw");
    size<false, true, int64_t>(l, u, v, w);
}
HARNESS(kinds)
{
    int64_t l = SYM_I64("l"), u = SYM_I64("u"), v = SYM_I64("v");
    ASSERT((interval<int64_t, true, true>(l, u).contains(v)) == (l <= v && v <= u), "closed");
    ASSERT((interval<int64_t, false, false>(l, u).contains(v)) == (l < v && v < u), "open");
    ASSERT((interval<int64_t, false, true>(l, u).contains(v)) == (l < v && v <= u), "left open");
    ASSERT((interval<int64_t, true, false>(l, u).contains(v)) == (l <= v && v < u), "right open");
    double dl = SYM_DOUBLE("dl"), du = SYM_DOUBLE("du"), dv = SYM_DOUBLE("dv");
    ASSERT((interval<double, true, false>(dl, du).contains(dv)) == (dl <= dv && dv < du), "real numbers");
}
