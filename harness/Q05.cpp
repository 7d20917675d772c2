//@ entry ccy_new cover=ok,bad,zero
//@ entry ccy_cmp cover=same,differ
//@ entry ccy_known
//@ bounds codes: all triples of characters; denominators: every 64-bit value; ordering: three codes
//@ sources esl/economics/currencies.cpp
#include "common.hpp"
#include <esl/economics/currencies.hpp>
#include <esl/economics/iso_4217.hpp>
using esl::economics::iso_4217;
static std::array<char, 3> code(const char *n, char lo = 'A', char hi = 'Z')
{
    std::array<char, 3> k;
    for(unsigned i = 0; i < 3; ++i) k[i] = (char)RANGE(lo, hi, nm(n, i));
    return k;
}
HARNESS(ccy_new)
{
    std::array<char, 3> k;
    for(unsigned i = 0; i < 3; ++i) k[i] = (char)SYM_U8(nm("k", i));
    uint64_t d = SYM_U64("d");
    bool letters = true;
    for(char c : k) letters = letters & (c >= 'A') & (c <= 'Z');
    bool made = false, kept = false;
    int r = ends<esl::exception>([&] { iso_4217 c(k, d); made = true; kept = c.code == k && c.denominator == d; });
    if(letters && d) {
        ASSERT(r == 0 && kept, "a well-formed code is kept as given");
        COVER("ok");
    } else {
        ASSERT(r == 1 && !made, "a malformed code or denominator is refused");
        if(!letters) COVER("bad"); else COVER("zero");
    }
}
HARNESS(ccy_cmp)
{
    auto k = code("k"), l = code("l"), m = code("m");
    uint64_t d = RANGE(1, ~0ull, "d"), e = RANGE(1, ~0ull, "e");
    const iso_4217 a(k, d), b(l, e), c(m, 1);
    bool codes = (k[0] == l[0]) & (k[1] == l[1]) & (k[2] == l[2]);
    bool same = codes && d == e;
    ASSERT((a == b) == same && (a != b) == !same, "equal exactly when code and denominator are");
    if(same) COVER("same"); else COVER("differ");
    if(a == b) ASSERT(std::hash<iso_4217>()(a) == std::hash<iso_4217>()(b), "equal currencies hash alike");
    unsigned nk = ((unsigned)k[0] << 16) | ((unsigned)k[1] << 8) | (unsigned)k[2];
    unsigned nl = ((unsigned)l[0] << 16) | ((unsigned)l[1] << 8) | (unsigned)l[2];
    ASSERT((a < b) == (nk < nl), "ordered by code");
    ASSERT(!(a < a), "irreflexive");
    if(a < b && b < c) ASSERT(a < c, "transitive");
    iso_4217 x(a), y;
    y = a;
    ASSERT(x == a && y == a, "copies are equal");
}
HARNESS(ccy_known)
{
    using namespace esl::economics;
    const iso_4217 all[] = {currencies::USD, currencies::EUR, currencies::GBP, currencies::JPY, currencies::CHF, currencies::CNY};
    const char *names[] = {"USD", "EUR", "GBP", "JPY", "CHF", "CNY"};
    unsigned i = CHOOSE(6, "i"), j = CHOOSE(6, "j");
    ASSERT(all[i].code[0] == names[i][0] && all[i].code[1] == names[i][1] && all[i].code[2] == names[i][2], "a currency carries its own code");
    ASSERT((all[i] == all[j]) == (i == j), "currencies differ");
    ASSERT(all[i].denominator == (i == 3 ? 1u : 100u), "subunits");
}
