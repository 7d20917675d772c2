//@ entry grid_points cover=one,many jobs=4
//@ entry grid_large cover=done
//@ entry grid_rounding cover=inside jobs=8
//@ entry hypercube cover=one,many jobs=4
//@ entry improved cover=done jobs=8
//@ entry uniform cover=inside jobs=4
//@ entry parameters cover=found,missing,other
//@ sources esl/simulation/parameter/parametrization.cpp
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds up to 2 parameters with 1 to 3 (thorough 5) points each, or 3 with 1 or 2, or 5, 3 (thorough 5) and 3; hypercubes of 2 parameters with 1 or 2 points or (thorough also 2) 1 with 3; bounds multiples of 1/8 up to 2^20, for rounding any; every sequence of outcomes of the distributions drawn from (whatever the seed); improved hypercubes of 1 and 2 dimensions with 1 to 4 samples and up to 2 candidates (1 for 4)
#include "common.hpp"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <functional>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <unordered_map>
#include <vector>
// any sequence of random numbers: 12 of them give every outcome of the distributions drawn from
static unsigned drawn = 0;
template<typename t>
struct any_generator {
    typedef t result_type;
    any_generator() {}
    template<typename s> explicit any_generator(s &) {}
    static constexpr t min() { return 0; }
    static constexpr t max() { return 12; } // 12 itself would be drawn again
    t operator()() { uint64_t r = RANGE(0, 11, nm("draw", drawn++)); return (t)r; }
};
namespace std { typedef any_generator<uint64_t> any64; typedef any_generator<uint32_t> any32; }
// any outcome of a draw
template<typename t>
struct any_int {
    t lower, upper;
    typedef t result_type;
    t a() const { return lower; }
    t b() const { return upper; }
    t min() const { return lower; }
    t max() const { return upper; }
    void reset() {}
    explicit any_int(t lower = 0, t upper = 1) : lower(lower), upper(upper) {}
    template<typename g> t operator()(g &) { unsigned n = CHOOSE(upper - lower + 1, nm("drawn", drawn++)); return lower + n; }
};
// any outcome of a draw, computed the way libstdc++ does
template<typename t>
struct any_real {
    t lower, upper;
    typedef t result_type;
    t a() const { return lower; }
    t b() const { return upper; }
    t min() const { return lower; }
    t max() const { return upper; }
    void reset() {}
    explicit any_real(t lower = 0, t upper = 1) : lower(lower), upper(upper) { assert(lower <= upper); }
    template<typename g> t operator()(g &) { uint64_t n = RANGE(0, (1ull << 53) - 1, nm("drawn", drawn++)); return t((double)n / 9007199254740992.0) * (upper - lower) + lower; }
};
namespace std { template<typename t> using any_real_distribution = any_real<t>; }
namespace std { template<typename t> using any_int_distribution = any_int<t>; }
#define uniform_real_distribution any_real_distribution
#define uniform_int_distribution any_int_distribution
#define mt19937_64 any64
#define mt19937 any32
#include <esl/simulation/parameter/sampler.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
using namespace esl::simulation::parameter;
typedef std::shared_ptr<interval<double>> par;
static par free_interval(unsigned n, int64_t &lower, int64_t &width)
{
    uint64_t l = RANGE(0, 1ull << 24, nm("lower", n)), w = RANGE(0, 1ull << 24, nm("width", n));
    lower = (int64_t)l - (1ll << 23);
    width = (int64_t)w;
    return std::make_shared<interval<double>>((double)lower / 8, (double)(lower + width) / 8);
}
HARNESS(grid_points)
{
    static const unsigned D[4] = {1, 2, 3, 5};
    const unsigned n = 1 + CHOOSE(3, "n");
    int64_t lower[3], width[3];
    unsigned d[3], total = 1;
    par p[3];
    std::map<par, unsigned> densities;
    for(unsigned k = 0; k < n; ++k) {
        p[k] = free_interval(k, lower[k], width[k]);
        d[k] = D[CHOOSE(n == 3 ? 2 : TH(3, 4), nm("d", k))];
        densities.emplace(p[k], d[k]);
        total *= d[k];
        if(d[k] == 1) COVER("one"); else COVER("many");
    }
    auto s = sampler::grid(densities);
    ASSERT(s.size() == total, "a grid has every combination of points");
    // each combination is there
    for(unsigned c = 0; c < total; ++c) {
        unsigned rest = c, found = 0;
        double want[3];
        for(unsigned k = 0; k < n; ++k) {
            unsigned i = rest % d[k];
            rest /= d[k];
            want[k] = d[k] == 1 ? (double)lower[k] / 8 : (double)(lower[k] * (int64_t)(d[k] - 1) + width[k] * (int64_t)i) / 8 / (d[k] - 1);
        }
        unsigned all = 0;
        for(unsigned j = 0; j < total; ++j) {
            bool same = s[j].size() == n;
            for(unsigned k = 0; k < n; ++k) same = same & (s[j].at(p[k]) == want[k]);
            all += same;
        }
        ASSERT(all >= 1, "a grid has every combination of points");
    }
}
HARNESS(grid_large)
{
    const unsigned d[3] = {5, TH(3, 5), 3};
    par p[3];
    std::map<par, unsigned> densities;
    for(unsigned k = 0; k < 3; ++k) {
        uint64_t l = RANGE(0, 1ull << 20, nm("lower", k)), w = RANGE(1, 1ull << 20, nm("width", k));
        p[k] = std::make_shared<interval<double>>((double)l, (double)(l + 4 * w));
    }
    std::sort(p, p + 3); // the order of parameters is that of their addresses
    for(unsigned k = 0; k < 3; ++k) densities.emplace(p[k], d[k]);
    auto s = sampler::grid(densities);
    ASSERT(s.size() == d[0] * d[1] * d[2], "a grid has every combination of points");
    // where the points of a parameter increase, the combinations differ
    for(unsigned a = 0; a < s.size(); ++a)
        for(unsigned b = 0; b < a; ++b) {
            bool same = true;
            for(unsigned k = 0; k < 3; ++k) same = same & (s[a].at(p[k]) == s[b].at(p[k]));
            ASSERT(!same, "a grid has every combination once");
        }
    COVER("done");
}
HARNESS(grid_rounding)
{
    static const float L[] = {0.f, -1.f, 0.1f, -123456.7f, 1e20f};
    float l = L[CHOOSE(TH(4, 5), "lower")], u = 0;
    uint32_t b = SYM_U32("upper");
    memcpy(&u, &b, 4);
    ASSUME((l <= u) & (u <= 1e30f));
    auto p = std::make_shared<interval<float>>(l, u);
    static const unsigned D[4] = {2, 3, 5, 4};
    const unsigned d = D[CHOOSE(TH(3, 4), "d")];
    std::map<std::shared_ptr<interval<float>>, unsigned> m;
    m.emplace(p, d);
    auto s = sampler::grid(m);
    ASSERT(s.size() == d, "a grid has all points");
    float last = l;
    for(unsigned i = 0; i < d; ++i) {
        float v = s[i].at(p);
        ASSERT(v >= last, "points are spaced from the lower to the upper bound");
        ASSERT(v <= u, "no point lies outside the interval");
        last = v;
    }
    ASSERT(s[0].at(p) == l && last == u, "the bounds are points");
    COVER("inside");
}
HARNESS(hypercube)
{
    const unsigned d = 1 + CHOOSE(3, "d"), n = d > TH(2, 3) ? 1 : 1 + CHOOSE(2, "n");
    int64_t lower[2], width[2];
    par p[2];
    std::vector<par> ps;
    for(unsigned k = 0; k < n; ++k) {
        p[k] = free_interval(k, lower[k], width[k]);
        ps.push_back(p[k]);
    }
    auto s = sampler::latin_hypercube(ps, d);
    if(d == 1) COVER("one"); else COVER("many");
    ASSERT(s.size() == d, "a hypercube has as many samples as points");
    for(unsigned k = 0; k < n; ++k)
        for(unsigned i = 0; i < d; ++i) {
            double want = i == 0 ? (double)lower[k] / 8 : i == d - 1 ? (double)(lower[k] + width[k]) / 8 : p[k]->lower + (p[k]->upper - p[k]->lower) / (d - 1) * i;
            unsigned before = 0, there = 0;
            for(unsigned j = 0; j < d; ++j) there += s[j].at(p[k]) == want;
            ASSERT(there >= 1, "every point of every parameter is sampled");
        }
}
HARNESS(improved)
{
    const unsigned n = 1 + CHOOSE(2, "n"), d = 1 + CHOOSE(4, "d"), dup = d < 4 ? 1 + CHOOSE(2, "duplication") : 1;
    std::seed_seq seed{1};
    auto s = sampler::improved_hypercube_sampling(n, d, seed, dup);
    ASSERT(s.size() == n, "a hypercube has all dimensions");
    for(unsigned k = 0; k < n; ++k) {
        ASSERT(s[k].size() == d, "a hypercube has as many samples as asked for");
        for(unsigned i = 1; i <= d; ++i) {
            unsigned there = 0;
            for(unsigned j = 0; j < d; ++j) there += s[k][j] == i;
            ASSERT(there == 1, "every value of every dimension is sampled once");
        }
    }
    COVER("done");
}
HARNESS(uniform)
{
    static const double L[4] = {0, -3, 100, 1}, U[4] = {1, 3, 100, 1.0000000000000002};
    const unsigned n = 1 + CHOOSE(2, "n"), count = CHOOSE(3, "count");
    std::vector<par> ps;
    for(unsigned k = 0; k < n; ++k) {
        unsigned c = CHOOSE(4, nm("bounds", k));
        ps.push_back(std::make_shared<interval<double>>(L[c], U[c]));
    }
    auto s = sampler::uniform_random(ps, count);
    ASSERT(s.size() == count, "there are as many samples as asked for");
    for(unsigned j = 0; j < count; ++j) {
        ASSERT(s[j].size() == n, "a sample has a value of each parameter");
        for(unsigned k = 0; k < n; ++k) {
            double v = s[j].at(ps[k]);
            ASSERT(v >= ps[k]->lower && v <= ps[k]->upper, "a sample lies in the interval of its parameter");
            COVER("inside");
        }
    }
}
HARNESS(parameters)
{
    uint64_t sample = SYM_U64("sample"), start = SYM_U64("start"), end = SYM_U64("end"), verbosity = SYM_U64("verbosity"), x = SYM_U64("x");
    unsigned threads = SYM_U32("threads");
    parametrization p(sample, start, end, verbosity, threads);
    p.values["x"] = std::make_shared<constant<uint64_t>>(x);
    p.values["y"] = std::make_shared<constant<double>>(2.5);
    ASSERT(p.get<uint64_t>("sample") == sample && p.get<esl::simulation::time_point>("start") == start && p.get<esl::simulation::time_point>("end") == end, "parameters keep their values");
    ASSERT(p.get<uint64_t>("verbosity") == verbosity && p.get<uint64_t>("threads") == threads && p.get<uint64_t>("x") == x && p.get<double>("y") == 2.5, "parameters keep their values");
    COVER("found");
    int e = ends<std::out_of_range>([&] { (void)p.get<uint64_t>("z"); });
    ASSERT(e == 1, "an unknown parameter is refused");
    COVER("missing");
    e = ends<std::out_of_range>([&] { (void)p.get<double>("x"); });
    ASSERT(e == 1, "a parameter of another type is refused");
    e = ends<std::out_of_range>([&] { (void)p.get<uint64_t>("y"); });
    ASSERT(e == 1, "a parameter of another type is refused");
    COVER("other");
}
