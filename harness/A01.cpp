//@ entry power jobs=2
//@ entry arrays
//@ bounds powers: every 64-bit base, exponents 0 to 12 (thorough 24); arrays of up to 6 arbitrary elements; lists of 2 to 5 elements
#include "common.hpp"
#include <esl/algorithms.hpp>
#include <list>
HARNESS(power)
{
    uint64_t x = SYM_U64("x");
    unsigned p = CHOOSE(TH(13, 25), "p");
    uint64_t want = 1;
    for(unsigned i = 0; i < p; ++i) want *= x;
    ASSERT(esl::nonnegative_integer_power<uint64_t>(x, p) == want, "power is repeated multiplication");
    uint32_t y = SYM_U32("y"), w = 1;
    for(unsigned i = 0; i < p; ++i) w *= y;
    ASSERT(esl::nonnegative_integer_power<>(y, p) == w, "power is repeated multiplication");
}
HARNESS(arrays)
{
    std::array<char, 6> a;
    for(unsigned i = 0; i < 6; ++i) a[i] = (char)SYM_U8(nm("a", i));
    std::array<char, 3> b;
    for(unsigned i = 0; i < 3; ++i) b[i] = (char)SYM_U8(nm("b", i));
    auto c = esl::array_concatenate(a, b);
    ASSERT(c.size() == 9, "length of a concatenation");
    for(unsigned i = 0; i < 9; ++i) ASSERT(c[i] == (i < 6 ? a[i] : b[i - 6]), "concatenation keeps both in order");
    auto s = esl::array_slice<2, 7>(c);
    ASSERT(s.size() == 5, "length of a slice");
    for(unsigned i = 0; i < 5; ++i) ASSERT(s[i] == c[i + 2], "a slice has the elements asked for");
    auto f = esl::array_slice<0, 6>(c);
    auto g = esl::array_slice<6, 9>(c);
    ASSERT(f == a && g == b, "slicing undoes concatenation");
    auto t = esl::to_array<1, 4, char>(std::vector<char>(a.begin(), a.end()));
    for(unsigned i = 0; i < 3; ++i) ASSERT(t[i] == a[i + 1], "elements of a range");
    std::list<char> l(a.begin(), a.end());
    auto u = esl::to_array<2, 6, char>(l);
    for(unsigned i = 0; i < 4; ++i) ASSERT(u[i] == a[i + 2], "elements of a range");
    unsigned n = 0;
    std::vector<int> v = {7, 8, 9, 10};
    for(auto [i, e] : esl::enumerate(v)) {
        ASSERT(i == n && &e == &v[n], "enumeration counts from zero");
        ++n;
    }
    ASSERT(n == 4, "enumeration visits every element");
}
