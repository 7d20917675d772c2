//@ entry cusip_digit jobs=2
//@ entry cusip_make cover=refused,accepted jobs=2
//@ entry cusip_keep
//@ entry sedol_keep
//@ entry sedol_digit
//@ entry sedol_make cover=refused,accepted
//@ bounds check digits of CUSIP (SEDOL): 2 neighbouring symbols (thorough 3), at every place, free over digits, letters of either case and * @ # (SEDOL: no * @ #) within each of 2 fixed codes; that symbols are kept: all symbols free
#include "common.hpp"
#include <cctype>
#include <esl/economics/finance/cusip.hpp>
#include <esl/economics/finance/sedol.hpp>
using namespace esl::economics::finance;
// an independent valuation of symbols
static unsigned val(unsigned char c)
{
    unsigned v = 0;
    v = (c >= '0') & (c <= '9') ? c - '0' : v;
    v = (c >= 'A') & (c <= 'Z') ? c - 'A' + 10 : v;
    v = (c >= 'a') & (c <= 'z') ? c - 'a' + 10 : v;
    v = c == '*' ? 36 : v;
    v = c == '@' ? 37 : v;
    v = c == '#' ? 38 : v;
    return v;
}
static bool alnum(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
static bool sym(unsigned char c) { return alnum(c) | (c == '*') | (c == '@') | (c == '#'); }
template<size_t N> static std::array<char, N> text(const char *base, bool special)
{
    std::array<char, N> a;
    for(unsigned i = 0; i < N; ++i) a[i] = base[i];
    const unsigned W = TH(2, 3);
    const unsigned at = CHOOSE(N - W + 1, "at");
    for(unsigned i = at; i < at + W; ++i) {
        a[i] = (char)SYM_U8(nm("c", i));
        ASSUME(special ? sym(a[i]) : alnum(a[i]));
    }
    return a;
}
template<size_t N> static std::array<char, N> any()
{
    std::array<char, N> a;
    for(unsigned i = 0; i < N; ++i) { a[i] = (char)SYM_U8(nm("c", i)); ASSUME(alnum(a[i])); }
    return a;
}
static unsigned want(const std::array<char, 8> &c)
{
    unsigned sum = 0;
    for(unsigned i = 0; i < 8; ++i) {
        unsigned v = val(c[i]) * (1 + i % 2);
        sum += v % 10 + v / 10;
    }
    return (10 - sum % 10) % 10;
}
static const char *const cusips[] = {"03783310", "Q*5Z@#9h"};
HARNESS(cusip_keep)
{
    auto c = any<8>();
    std::array<char, 6> i;
    std::array<char, 2> n;
    for(unsigned k = 0; k < 8; ++k) (k < 6 ? i[k] : n[k - 6]) = c[k];
    const cusip a(i, n), b(c);
    ASSERT(a.issuer == i && a.code == n && b.issuer == i && b.code == n, "the symbols are kept");
}
HARNESS(cusip_digit)
{
    auto c = text<8>(cusips[CHOOSE(2, "base")], true);
    ASSERT(cusip(c).checksum() == (char)('0' + want(c)), "check digit of a CUSIP");
}
HARNESS(cusip_make)
{
    auto body = text<8>(cusips[CHOOSE(2, "base")], true);
    std::array<char, 9> c;
    for(unsigned k = 0; k < 8; ++k) c[k] = body[k];
    c[8] = (char)SYM_U8("digit");
    bool right = c[8] == (char)('0' + want(body));
    int r = ends<esl::exception>([&] { cusip a(c); });
    ASSERT(r == (right ? 0 : 1), "a wrong check digit is refused");
    if(right) COVER("accepted"); else COVER("refused");
}
static unsigned swant(const std::array<char, 6> &c)
{
    return (10 - (val(c[0]) + 3 * val(c[1]) + val(c[2]) + 7 * val(c[3]) + 3 * val(c[4]) + 9 * val(c[5])) % 10) % 10;
}
HARNESS(sedol_keep)
{
    auto c = any<6>();
    const sedol s(c), t(std::string(c.begin(), c.end()));
    ASSERT(s.code == c && t.code == c, "the symbols are kept");
}
HARNESS(sedol_digit)
{
    auto c = text<6>(CHOOSE(2, "base") ? "0263494" : "Bz0YxK", false);
    ASSERT(sedol(c).checksum() == (char)('0' + swant(c)), "check digit of a SEDOL");
}
HARNESS(sedol_make)
{
    std::array<char, 6> a = {'B', '0', 'Y', 'B', 'K', 'L'};
    unsigned k = CHOOSE(6, "k");
    a[k] = (char)SYM_U8("c");
    if(alnum(a[k])) {
        sedol s(a);
        ASSERT(s.code == a, "letters and digits are accepted");
        COVER("accepted");
    } else {
        COVER("refused");
        refused([&] { sedol s(a); }, "other symbols are refused");
    }
}
