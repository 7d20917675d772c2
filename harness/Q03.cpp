//@ entry p_order cover=same,other,equal
//@ entry p_arith
//@ entry p_mixed
//@ entry p_real
//@ bounds values: every 64-bit signed value for comparisons; results of + - within 64 bits; factors of * within 32 bits; currencies: every code and every positive denominator below 2^20; one operation per execution
//@ assume a sum, difference or product that does not fit a 64-bit signed number is outside the property
#include "common.hpp"
#include <esl/economics/price.hpp>
using namespace esl::economics;
static iso_4217 ccy(const char *c, const char *d)
{
    std::array<char, 3> k;
    for(unsigned i = 0; i < 3; ++i) k[i] = (char)RANGE('A', 'Z', nm(c, i));
    return iso_4217(k, RANGE(1, (1 << 20) - 1, d));
}
static bool same(const iso_4217 &a, const iso_4217 &b)
{
    return (a.code[0] == b.code[0]) & (a.code[1] == b.code[1]) & (a.code[2] == b.code[2]) & (a.denominator == b.denominator);
}
HARNESS(p_order)
{
    int64_t a = SYM_I64("a"), b = SYM_I64("b");
    const iso_4217 c = ccy("c", "cd"), d = ccy("d", "dd");
    const price x(a, c), y(b, d);
    bool s = same(c, d);
    ASSERT((x == y) == (s && a == b), "equal exactly when value and currency are");
    ASSERT((x != y) == !(s && a == b), "unequal exactly when value or currency differ");
    bool lt = false, le = false, gt = false, ge = false;
    int r1 = ends<std::invalid_argument>([&] { lt = x < y; });
    int r2 = ends<std::invalid_argument>([&] { le = x <= y; });
    int r3 = ends<std::invalid_argument>([&] { gt = x > y; });
    int r4 = ends<std::invalid_argument>([&] { ge = x >= y; });
    if(s) {
        ASSERT(r1 + r2 + r3 + r4 == 0, "prices in one currency can be ordered");
        ASSERT(lt == (a < b), "<");
        ASSERT(le == (a <= b), "<=");
        ASSERT(gt == (a > b), ">");
        ASSERT(ge == (a >= b), ">=");
        COVER("same");
        if(a == b) COVER("equal");
    } else {
        ASSERT(r1 == 1 && r2 == 1 && r3 == 1 && r4 == 1, "ordering prices in different currencies is refused");
        COVER("other");
    }
}
HARNESS(p_arith)
{
    int64_t a = SYM_I64("a"), b = SYM_I64("b");
    const iso_4217 c = ccy("c", "cd");
    const price x(a, c), y(b, c);
    switch(CHOOSE(6, "op")) {
    case 0: {
        int64_t r;
        ASSUME(!__builtin_add_overflow(a, b, &r));
        price z = x + y, w(x);
        ASSERT(z.value == r && same(z.valuation, c), "sum");
        price &q = (w += y);
        ASSERT(w == z && &q == &w, "in-place sum");
        break;
    }
    case 1: {
        int64_t r;
        ASSUME(!__builtin_sub_overflow(a, b, &r));
        price z = x - y, w(x);
        ASSERT(z.value == r && same(z.valuation, c), "difference");
        price &q = (w -= y);
        ASSERT(w == z && &q == &w, "in-place difference");
        break;
    }
    case 2: {
        ASSUME(a != INT64_MIN);
        price z = -x;
        ASSERT(z.value == -a && same(z.valuation, c), "negation");
        break;
    }
    case 3: {
        int64_t m = (int32_t)SYM_U32("m"), k = (int32_t)SYM_U32("k");
        uint64_t u = RANGE(0, INT32_MAX, "u");
        const price v(m, c);
        ASSERT((v * k).value == m * k && same((v * k).valuation, c), "price times a signed number");
        ASSERT((v * u).value == m * (int64_t)u && same((v * u).valuation, c), "price times a count");
        ASSERT((u * v).value == m * (int64_t)u && same((u * v).valuation, c), "count times a price");
        price z = v * price(k, c), w(v);
        ASSERT(z.value == m * k && same(z.valuation, c), "product");
        price &q = (w *= price(k, c));
        ASSERT(w == z && &q == &w, "in-place product");
        break;
    }
    case 4: {
        int64_t k = 1 + CHOOSE(5, "k");
        bool neg = SYM_BOOL("neg");
        if(neg) k = -k;
        ASSUME(a != INT64_MIN);
        price z = x / price(k, c), w(x);
        ASSERT(z.value == a / k && same(z.valuation, c), "quotient");
        price &q = (w /= price(k, c));
        ASSERT(w == z && &q == &w, "in-place quotient");
        break;
    }
    default: {
        price w(x), m(std::move(w)), z(b, iso_4217());
        z = x;
        ASSERT(w == x && m == x && z == x, "copies are equal");
        ASSERT(price(a).value == a && same(price(a).valuation, iso_4217()), "default currency");
    }
    }
    ASSERT(x.value == a && y.value == b && same(x.valuation, c) && same(y.valuation, c), "operands are unchanged");
}
HARNESS(p_mixed)
{
    const iso_4217 c = ccy("c", "cd"), d = ccy("d", "dd");
    ASSUME(!same(c, d));
    price x(RANGE(0, 100, "a"), c);
    const price y(RANGE(1, 100, "b"), d);
    volatile int64_t sink;
    switch(CHOOSE(8, "op")) {
    case 0: refused([&] { sink = (x + y).value; }, "adding across currencies is refused"); break;
    case 1: refused([&] { sink = (x - y).value; }, "subtracting across currencies is refused"); break;
    case 2: refused([&] { sink = (x * y).value; }, "multiplying across currencies is refused"); break;
    case 3: refused([&] { sink = (x / y).value; }, "dividing across currencies is refused"); break;
    case 4: refused([&] { x += y; }, "adding across currencies is refused"); break;
    case 5: refused([&] { x -= y; }, "subtracting across currencies is refused"); break;
    case 6: refused([&] { x *= y; }, "multiplying across currencies is refused"); break;
    default: refused([&] { x /= y; }, "dividing across currencies is refused"); break;
    }
}
HARNESS(p_real)
{
    // conversions from and to floating point: truncation to minor units
    const iso_4217 c = ccy("c", "cd");
    double r = SYM_DOUBLE("r");
    ASSUME(r > -1e12 && r < 1e12);
    price p = price::approximate(r, c);
    ASSERT(p.value == (int64_t)(r * c.denominator) && same(p.valuation, c), "a real number is truncated to minor units");
    price like(r, p);
    ASSERT(like == p, "construction alike");
    int64_t a = SYM_I64("a");
    ASSERT((double)price(a, c) == (double)a / c.denominator, "conversion to major units");
}
