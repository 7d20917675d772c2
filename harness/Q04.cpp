//@ entry quote_order cover=same
//@ entry quote_refuse cover=lots,currency
//@ entry quote_arith
//@ entry quote_real
//@ entry quote_lot cover=zero,positive
//@ bounds prices: every value below 2^31 in magnitude; lots: every 32-bit value; currencies: two with different codes, or with different denominators
//@ assume price times lot fits a 64-bit signed number
#include "common.hpp"
#include <esl/economics/markets/quote.hpp>
using namespace esl::economics;
using esl::economics::markets::quote;
static iso_4217 ccy(unsigned i)
{
    switch(i) {
    case 0: return iso_4217({'U', 'S', 'D'}, 100);
    case 1: return iso_4217({'E', 'U', 'R'}, 100);
    default: return iso_4217({'U', 'S', 'D'}, 1000);
    }
}
static const price &P(const quote &q) { return std::get<price>(q.type); }
static void ordered(const quote &x, const quote &y, int64_t a, int64_t b)
{
    ASSERT((x == y) == (a == b), "==");
    ASSERT((x != y) == (a != b), "!=");
    ASSERT((x < y) == (a < b), "<");
    ASSERT((x > y) == (a > b), ">");
    ASSERT((x <= y) == (a <= b), "<=");
    ASSERT((x >= y) == (a >= b), ">=");
    COVER("same");
}
HARNESS(quote_order)
{
    int64_t a = (int64_t)(int32_t)SYM_U32("a"), b = (int32_t)SYM_U32("b");
    uint32_t l = RANGE(1, UINT32_MAX, "l");
    ordered(quote(price(a, ccy(0)), l), quote(price(b, ccy(0)), l), a, b);
}
HARNESS(quote_refuse)
{
    int64_t a = (int32_t)SYM_U32("a"), b = (int32_t)SYM_U32("b");
    uint32_t l = RANGE(1, UINT32_MAX, "l"), m = RANGE(1, UINT32_MAX, "m");
    unsigned c = CHOOSE(3, "c");
    ASSUME(c != 0 || l != m);
    const quote x(price(a, ccy(0)), l), y(price(b, ccy(c)), m);
    ASSERT(x.lot == l && y.lot == m && P(x).value == a, "a quote keeps its price and lot");
    bool eq = false, ne = false, o = false;
    int r0 = ends<std::exception>([&] { eq = x == y; });
    int r1 = ends<std::exception>([&] { ne = x != y; });
    int r2 = ends<std::exception>([&] { o = x < y; });
    int r3 = ends<std::exception>([&] { o = x <= y; });
    int r4 = ends<std::exception>([&] { o = x > y; });
    int r5 = ends<std::exception>([&] { o = x >= y; });
    if(l != m) {
        ASSERT(r0 == 1 && r1 == 1, "testing quotes with different lots for equality is refused");
        COVER("lots");
    } else {
        ASSERT(r0 == 0 && !eq && r1 == 0 && ne, "quotes in different currencies differ");
        COVER("currency");
    }
    ASSERT(r2 == 1 && r3 == 1 && r4 == 1 && r5 == 1, "ordering quotes with different lots or currencies is refused");
}
HARNESS(quote_arith)
{
    int64_t a = (int32_t)SYM_U32("a"), b = (int32_t)SYM_U32("b");
    uint32_t l = RANGE(1, UINT32_MAX, "l"), m = RANGE(1, UINT32_MAX, "m");
    const quote x(price(a, ccy(0)), l), y(price(b, ccy(0)), m);
    quote z;
    int64_t want = 0;
    int r;
    switch(CHOOSE(4, "op")) {
    case 0: want = a + b; r = ends<esl::exception>([&] { z = x + y; }); break;
    case 1: want = a - b; r = ends<esl::exception>([&] { z = x - y; }); break;
    case 2: want = a * b; r = ends<esl::exception>([&] { z = x * y; }); break;
    default: ASSUME(b != 0); want = a / b; r = ends<esl::exception>([&] { z = x / y; });
    }
    if(l != m) {
        ASSERT(r == 1, "arithmetic over different lots is refused");
    } else {
        ASSERT(r == 0 && P(z).value == want, "arithmetic is that of the prices");
        ASSERT(z.lot == l && P(z).valuation == ccy(0), "lot and currency are kept");
    }
    ASSERT(P(x).value == a && P(y).value == b && x.lot == l && y.lot == m, "operands are unchanged");
}
HARNESS(quote_real)
{
    int64_t a = SYM_I64("a");
    uint32_t l = RANGE(1, UINT32_MAX, "l");
    const quote x(price(a, ccy(2)), l);
    ASSERT((double)x == ((double)a / 1000.) / l, "a quote as a number is the price per unit");
    double r = SYM_DOUBLE("r");
    ASSUME(r > -1e6 && r < 1e6);
    quote s(r, x);
    ASSERT(s.lot == l && P(s).valuation == ccy(2), "a similar quote keeps lot and currency");
    quote c(x), d;
    d = x;
    ASSERT(c == x && d == x && c.lot == l && d.lot == l, "copies are equal");
}
HARNESS(quote_lot)
{
    uint32_t l = SYM_U32("l");
    int64_t a = SYM_I64("a");
    bool t = throws([&] { quote q(price(a, ccy(0)), l); });
    ASSERT(t == (l == 0), "a quote is for at least one unit");
    if(l) COVER("positive"); else COVER("zero");
}
