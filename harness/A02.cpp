//@ entry shares jobs=8
//@ bounds 1 to 3 amounts (thorough 4), each any multiple of 1/8 from 0 to 3.875 (thorough 7.875)
#include "common.hpp"
#include <esl/algorithms.hpp>
HARNESS(shares)
{
    unsigned n = 1 + CHOOSE(TH(3, 4), "n");
    std::vector<double> f;
    uint64_t units = 0;
    for(unsigned i = 0; i < n; ++i) {
        uint64_t k = RANGE(0, TH(31, 63), nm("k", i));
        units += k;
        f.push_back((double)(int64_t)k / 8.);
    }
    auto r = esl::allocate_fractions<>(f, 0);
    ASSERT(r.size() == n, "one share each");
    int sum = 0;
    for(unsigned i = 0; i < n; ++i) {
        sum += r[i];
        ASSERT(r[i] >= f[i] - 1 && r[i] <= f[i] + 1, "a share is within one unit of the amount");
    }
    ASSERT(sum == (int)(units + 4) / 8, "the shares add up to the rounded total");
}
