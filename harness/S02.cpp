//@ entry isin_digit jobs=4 max_seconds=120
//@ entry isin_make
//@ entry country cover=refused,accepted
//@ entry isin_length cover=right,wrong
//@ bounds ISIN check digits: two letters and 9 symbols, of which 2 (thorough 3) neighbouring ones at every place are free over digits and letters, within one fixed ISIN; ISINs from text: all symbols free, up to 15 symbols; countries: every pair of characters
#include "common.hpp"
#include <esl/economics/finance/isin.hpp>
using namespace esl::economics::finance;
using esl::geography::iso_3166_1_alpha_2;
static bool alnum(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
static unsigned luhn(const std::array<char, 11> &s, unsigned check)
{
    // expand letters, then double every second digit from the right
    unsigned d[23], n = 0;
    for(unsigned char c : s) {
        unsigned v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
        if(v >= 10) d[n++] = v / 10;
        d[n++] = v % 10;
    }
    d[n++] = check;
    unsigned sum = 0;
    for(unsigned i = 0; i < n; ++i) {
        unsigned v = d[n - 1 - i];
        if(i % 2) { v *= 2; v = v >= 10 ? v - 9 : v; }
        sum += v;
    }
    return sum % 10;
}
HARNESS(isin_digit)
{
    std::array<char, 11> s = {'U', 'S', '0', '3', 'B', '8', '3', 'X', '1', '0', '0'};
    const unsigned W = TH(2, 3);
    unsigned at = CHOOSE(11 - W + 1, "at");
    for(unsigned i = at; i < at + W; ++i) {
        s[i] = (char)SYM_U8(nm("c", i));
        if(i < 2) ASSUME(s[i] >= 'A' && s[i] <= 'Z');
        else ASSUME(alnum(s[i]));
    }
    std::array<char, 9> code;
    for(unsigned i = 0; i < 9; ++i) code[i] = s[i + 2];
    const isin a(iso_3166_1_alpha_2(std::array<char, 2>{s[0], s[1]}), code);
    char d = a.checksum();
    ASSERT(d >= '0' && d <= '9', "the check digit is a digit");
    ASSERT(luhn(s, d - '0') == 0, "the whole ISIN passes the Luhn test");
}
HARNESS(isin_make)
{
    std::array<char, 11> s;
    for(unsigned i = 0; i < 11; ++i) {
        s[i] = (char)SYM_U8(nm("c", i));
        if(i < 2) ASSUME((s[i] >= 'A') & (s[i] <= 'Z'));
        else ASSUME(alnum(s[i]));
    }
    const iso_3166_1_alpha_2 co(std::array<char, 2>{s[0], s[1]});
    std::array<char, 9> code;
    for(unsigned i = 0; i < 9; ++i) code[i] = s[i + 2];
    auto is = [&](const isin &x) { return x.issuer.code == co.code && x.code == code; };
    ASSERT(is(isin(co, code)), "made from country and code");
    ASSERT(is(isin(s)), "made from eleven symbols");
    ASSERT(is(isin(std::string(s.begin(), s.end()))), "made from text");
    ASSERT(is(isin(co, std::string(code.begin(), code.end()))), "made from country and text");
    ASSERT(is(isin(std::string(s.begin(), s.begin() + 2), std::string(code.begin(), code.end()))), "made from two texts");
    cusip c(std::array<char, 8>{s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9]});
    const isin f(co, c);
    code[8] = c.checksum();
    ASSERT(is(f), "made from a CUSIP, including its check digit");
}
HARNESS(isin_length)
{
    unsigned n = CHOOSE(16, "n"), how = CHOOSE(3, "how");
    std::string t(n, 'A');
    for(unsigned i = 0; i < n; ++i) {
        t[i] = (char)SYM_U8(nm("c", i));
        if(how == 0 && i < 2) ASSUME((t[i] >= 'A') & (t[i] <= 'Z'));
    }
    const iso_3166_1_alpha_2 co(std::array<char, 2>{'G', 'B'});
    bool kept = true;
    const unsigned from = how ? 0 : 2;
    int r = ends<esl::exception>([&] {
        const isin x = how == 0 ? isin(t) : how == 1 ? isin(co, t) : isin(std::string("GB"), t);
        for(unsigned i = 0; i < 9; ++i) kept = kept & (x.code[i] == t[from + i]);
        if(!how) kept = kept & (x.issuer.code[0] == t[0]) & (x.issuer.code[1] == t[1]);
    });
    unsigned want = how ? 9 : 11;
    if(n == want || n == want + 1) {
        ASSERT(r == 0 && kept, "a text of the right length, with or without check digit, is taken");
        COVER("right");
    } else {
        ASSERT(r == 1, "a text of another length is refused");
        COVER("wrong");
    }
}
HARNESS(country)
{
    std::array<char, 2> k = {(char)SYM_U8("a"), (char)SYM_U8("b")};
    bool good = (k[0] >= 'A') & (k[0] <= 'Z') & (k[1] >= 'A') & (k[1] <= 'Z');
    bool kept = false, kept2 = false;
    int r = ends<esl::exception>([&] { iso_3166_1_alpha_2 c(k); kept = c.code == k; });
    int q = ends<esl::exception>([&] { iso_3166_1_alpha_2 c(std::string(k.begin(), k.end())); kept2 = c.code == k; });
    if(good) {
        ASSERT(r == 0 && kept && q == 0 && kept2, "two capital letters are accepted");
        std::array<char, 2> l = {(char)RANGE('A', 'Z', "c"), (char)RANGE('A', 'Z', "d")};
        if(k == l) ASSERT(std::hash<iso_3166_1_alpha_2>()(iso_3166_1_alpha_2(k)) == std::hash<iso_3166_1_alpha_2>()(iso_3166_1_alpha_2(l)), "equal countries hash alike");
        COVER("accepted");
    } else {
        ASSERT(r == 1 && q == 1, "anything else is refused");
        COVER("refused");
    }
    unsigned n = CHOOSE(5, "n");
    if(n != 2) ASSERT(ends<esl::exception>([&] { iso_3166_1_alpha_2 c(std::string(n, 'A')); }) == 1, "a country has two letters");
}
