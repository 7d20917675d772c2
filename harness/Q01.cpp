//@ entry q_arith cover=sub,throw
//@ entry q_inplace cover=sub,throw
//@ entry q_compare cover=less,equal,greater
//@ entry q_steps
//@ bounds amounts, factors and operands: every 64-bit unsigned value; one operation per execution
#include "common.hpp"
#include <esl/quantity.hpp>
using esl::quantity;

HARNESS(q_arith)
{
    uint64_t a = SYM_U64("a"), b = SYM_U64("b");
    const quantity x(a), y(b);
    ASSERT((x + y).amount == a + b, "sum of two quantities");
    ASSERT((x * y).amount == a * b, "product of two quantities");
    ASSERT((x * b).amount == a * b, "product with a number");
    ASSERT(x.amount == a && y.amount == b, "operands are unchanged");
    quantity z(0);
    int r = ends<esl::exception>([&] { z = x - y; });
    if(a < b) {
        ASSERT(r == 1, "a difference below zero is refused");
        COVER("throw");
    } else {
        ASSERT(r == 0 && z.amount == a - b, "difference of two quantities");
        ASSERT((z + y).amount == a, "adding back restores the quantity");
        COVER("sub");
    }
}
HARNESS(q_inplace)
{
    uint64_t a = SYM_U64("a"), b = SYM_U64("b");
    quantity x(a);
    const quantity y(b);
    x += y;
    ASSERT(x.amount == a + b, "in-place addition");
    x = quantity(a);
    ASSERT(x.amount == a, "assignment");
    x *= b;
    ASSERT(x.amount == a * b, "in-place multiplication");
    x = quantity(a);
    int r = ends<esl::exception>([&] { x -= y; });
    if(a < b) {
        ASSERT(r == 1, "in-place subtraction below zero is refused");
        ASSERT(x.amount == a, "a refused subtraction leaves the quantity unchanged");
        COVER("throw");
    } else {
        ASSERT(r == 0 && x.amount == a - b, "in-place subtraction");
        COVER("sub");
    }
    uint64_t d = RANGE(1, 1000, "d");
    quantity w(a);
    w /= d;
    ASSERT(w.amount == a / d, "in-place division truncates");
    ASSERT(y.amount == b, "operand unchanged");
}
HARNESS(q_compare)
{
    uint64_t a = SYM_U64("a"), b = SYM_U64("b");
    const quantity x(a), y(b);
    ASSERT((x == y) == (a == b), "==");
    ASSERT((x != y) == (a != b), "!=");
    ASSERT((x < y) == (a < b), "<");
    ASSERT((x > y) == (a > b), ">");
    ASSERT((x <= y) == (a <= b), "<=");
    ASSERT((x >= y) == (a >= b), ">=");
    ASSERT((uint64_t)x == a, "conversion to an integer");
    if(a < b) COVER("less");
    if(a == b) COVER("equal");
    if(a > b) COVER("greater");
}
HARNESS(q_steps)
{
    uint64_t a = SYM_U64("a");
    ASSUME(a > 0 && a < ~0ull);
    quantity x(a);
    quantity &r = ++x;
    ASSERT(x.amount == a + 1 && &r == &x, "prefix increment adds one");
    quantity &s = --x;
    ASSERT(x.amount == a && &s == &x, "prefix decrement takes one away");
    --x;
    ASSERT(x.amount == a - 1, "prefix decrement takes one away");
    x = quantity(a);
    quantity o = x++;
    ASSERT(o.amount == a && x.amount == a + 1, "postfix increment");
    x = quantity(a);
    o = x--;
    ASSERT(o.amount == a && x.amount == a - 1, "postfix decrement");
    quantity c(x), m(std::move(c));
    ASSERT(m == x && c == x, "copies are equal");
    ASSERT(quantity().amount == 0, "default is zero");
}
