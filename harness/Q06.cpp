//@ entry rate_price jobs=8 cover=negative,positive
//@ entry rate_value jobs=2
//@ entry inflation jobs=2
//@ bounds rates: all fractions with numerator and denominator from 1 to 6 (thorough 12), and with one of them between 5 and 10 thousand million; prices: every value below 2^40 in magnitude (2^28 for the large numerators)
#include "common.hpp"
#include <numeric>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/exchange_rate.hpp>
using namespace esl::economics;
HARNESS(rate_price)
{
    uint64_t n = 1 + CHOOSE(TH(6, 12), "n"), d = 1 + CHOOSE(TH(6, 12), "d");
    const unsigned large = CHOOSE(3, "large");
    if(large == 1) d = 5000000001 + d * 2;
    if(large == 2) n = 9000000007 + n * 2;
    int64_t v = SYM_I64("v");
    const int64_t most = large == 2 ? 1ll << 28 : 1ll << 40;
    ASSUME(v < most), ASSUME(v > -most);
    const iso_4217 c({'E', 'U', 'R'}, 100);
    exchange_rate r(n, d);
    price p = r * price(v, c);
    // reduced fraction
    const int64_t g = std::gcd(n, d);
    int64_t rn = (int64_t)n / g, rd = (int64_t)d / g;
    ASSERT(p.value == v * rn / rd, "price times numerator over denominator, truncated");
    ASSERT(p.valuation == c, "the currency is that of the price");
    if(v < 0) COVER("negative"); else COVER("positive");
    ASSERT((v < 0) == (p.value < 0) || p.value == 0, "the sign of the price is kept");
}
HARNESS(rate_value)
{
    int64_t n = (int64_t)RANGE(0, TH(8, 30), "n") - TH(4, 15), d = RANGE(1, TH(4, 12), "d");
    rate<std::int64_t> r(n, d);
    ASSERT(r.denominator() > 0, "the denominator of a rate is positive");
    ASSERT(r.numerator() * d == n * r.denominator(), "a rate has the value it was made with");
    esx_concretize(r.numerator()), esx_concretize(r.denominator());
    ASSERT((double)r == (double)r.numerator() / (double)r.denominator(), "as a real number");
    uint64_t m = RANGE(1, TH(4, 12), "m");
    exchange_rate e((uint64_t)m, (uint64_t)d), f(e);
    ASSERT(e.numerator() * (uint64_t)d == m * e.denominator() && e.denominator() > 0 && f == e, "an exchange rate has the value it was made with");
}
HARNESS(inflation)
{
    int64_t b = RANGE(1, TH(8, 15), "b"), e = RANGE(0, TH(10, 20), "e");
    const iso_4217 c({'E', 'U', 'R'}, 100);
    uint64_t t = RANGE(1, ~0ull, "t");
    auto i = inflation_rate::from_consumer_prices(price(b, c), price(e, c), t);
    ASSERT(i.numerator() * b == (e - b) * i.denominator(), "relative change of prices");
    ASSERT(i.duration == t, "the period is kept");
}
