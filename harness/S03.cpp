//@ entry lei_digits cover=wraps jobs=4 max_seconds=200
//@ entry lei_text cover=accepted,refused,length,unchecked jobs=4
//@ entry lei_make
//@ entry market cover=accepted,refused,length
//@ bounds check digits of legal entities: 4 digits and 12 symbols, of which 2 (thorough 3) neighbouring ones at every place are free over digits and capital letters, within one fixed code; texts: every symbol free one at a time, every pair of check digits, every length to 22; codes from every 16-bit hash and every hash of 64 bits with 16 free bits at either end; markets: every 4 characters
#include "common.hpp"
#include <array>
#include <sstream>
#include <esl/law/legal_entity.hpp>
#include <esl/economics/markets/iso_10383.hpp>
using esl::law::iso_17442;
using esl::economics::markets::iso_10383;
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static bool symbol(char c) { return digit(c) | ((c >= 'A') & (c <= 'Z')); }
// the remainder of the digits of the text, letters being two digits, by 97
static unsigned mod97(const char *s, unsigned n)
{
    unsigned r = 0;
    for(unsigned i = 0; i < n; ++i) {
        unsigned v = s[i] <= '9' ? s[i] - '0' : s[i] - 'A' + 10;
        r = (s[i] <= '9' ? r * 10 : r * 100) + v;
        r %= 97;
    }
    return r;
}
static const char FIXED[] = "529900T8BM49AURSDO55";
struct parts { std::array<char, 4> local; std::array<char, 12> code; };
static parts split(const std::string &t)
{
    parts p;
    for(unsigned i = 0; i < 4; ++i) p.local[i] = t[i];
    for(unsigned i = 0; i < 12; ++i) p.code[i] = t[6 + i];
    return p;
}
HARNESS(lei_digits)
{
    std::string t(FIXED, 18);
    const unsigned W = TH(2, 3);
    unsigned at = CHOOSE(16 - W + 1, "at");
    for(unsigned i = at; i < at + W; ++i) {
        unsigned k = i < 4 ? i : i + 2;
        unsigned letter = i < 4 ? 0 : CHOOSE(2, nm("letter", i));
        uint8_t v = SYM_U8(nm("c", i)) & (letter ? 31 : 15);
        ASSUME(v < (letter ? 26 : 10));
        t[k] = (letter ? 'A' : '0') + v;
    }
    parts p = split(t);
    const iso_17442 e(p.local, p.code);
    auto [a, b] = e.checksum();
    ASSERT(digit(a) & digit(b), "the check digits are digits");
    unsigned check = (a - '0') * 10 + (b - '0');
    ASSERT((check >= 2) & (check <= 98), "the check digits are between 02 and 98");
    t += a;
    t += b;
    ASSERT(mod97(t.data(), 20) == 1, "the code with its check digits leaves 1 when divided by 97");
    if(a == '0') COVER("wraps");
}
HARNESS(lei_text)
{
    std::string t(FIXED, 20);
    bool good = true;
    switch(CHOOSE(4, "case")) {
    case 0: { // any check digits
        t[18] = (char)SYM_U8("a");
        t[19] = (char)SYM_U8("b");
        good = (t[18] == FIXED[18]) & (t[19] == FIXED[19]);
        break;
    }
    case 1: { // any symbol in one place, not checked
        unsigned k = CHOOSE(18, "k");
        t = t.substr(0, 18);
        t[k] = (char)SYM_U8("c");
        good = k < 4 ? digit(t[k]) : k < 6 ? t[k] == '0' : symbol(t[k]);
        COVER("unchecked");
        break;
    }
    case 2: { // any symbol in one place, with the check digits of another code
        unsigned k = CHOOSE(18, "k");
        t[k] = (char)SYM_U8("c");
        good = k < 4 ? digit(t[k]) : k < 6 ? t[k] == '0' : symbol(t[k]);
        if(good) good = mod97(t.data(), 20) == 1;
        break;
    }
    case 3: {
        unsigned n = CHOOSE(23, "n");
        t.resize(n, '0');
        good = n == 18 || n == 20;
        COVER("length");
        break;
    }
    }
    if(good) {
        const iso_17442 e(t);
        parts p = split(t);
        ASSERT(e.local == p.local && e.code == p.code, "a code keeps its symbols");
        COVER("accepted");
    } else {
        COVER("refused");
        refused([&] { iso_17442 e(t); }, "anything but a legal entity code with its check digits is refused");
    }
}
struct thing { uint64_t v; };
template<> struct std::hash<thing> { size_t operator()(const thing &t) const { return t.v; } };
HARNESS(lei_make)
{
    uint64_t h = SYM_U64("h");
    unsigned side = CHOOSE(2, "side");
    if(side) ASSUME(h < 65536);
    else ASSUME(h >= UINT64_MAX - 65535);
    auto e = iso_17442::create(thing{h});
    uint64_t rest = h;
    for(unsigned i = 0; i < 12; ++i) {
        ASSERT(symbol(e.code[i]), "a made code is well-formed");
        if(i < 4) ASSERT(digit(e.local[i]), "a made code is well-formed");
        unsigned v = e.code[i] <= '9' ? e.code[i] - '0' : e.code[i] - 'A' + 10;
        ASSERT(v == rest % 36, "a made code shows the hash");
        rest /= 36;
    }
    const iso_17442 d;
    for(char c : d.local) ASSERT(digit(c), "the default code is well-formed");
    for(char c : d.code) ASSERT(symbol(c), "the default code is well-formed");
    parts p = split(FIXED);
    esx_format = 1;
    std::ostringstream s;
    s << iso_17442(p.local, p.code);
    ASSERT(s.str() == FIXED, "a code is shown with its check digits");
}
HARNESS(market)
{
    std::array<char, 4> k;
    bool good = true;
    for(unsigned i = 0; i < 4; ++i) {
        k[i] = (char)SYM_U8(nm("c", i));
        good = good & symbol(k[i]);
    }
    std::string t(k.begin(), k.end());
    bool kept = false, kept2 = false;
    int r = ends<esl::exception>([&] { iso_10383 m(k); kept = m.code == k; });
    int q = ends<esl::exception>([&] { iso_10383 m(t); kept2 = m.code == k; });
    if(good) {
        COVER("accepted");
        ASSERT(r == 0 && kept && q == 0 && kept2, "four digits or capital letters are accepted");
        const iso_10383 m(k), o;
        ASSERT(m.representation() == t, "a market code shows its symbols");
        ASSERT((m == o) == (k == o.code) && (m != o) == (k != o.code), "markets are equal exactly when their codes are");
        ASSERT((m < o) == (k < o.code) && (m > o) == (k > o.code) && (m <= o) == (k <= o.code) && (m >= o) == (k >= o.code), "markets are ordered by code");
    } else {
        COVER("refused");
        ASSERT(r == 1 && q == 1, "anything else is refused");
    }
    unsigned n = CHOOSE(7, "n");
    if(n != 4) {
        COVER("length");
        ASSERT(ends<esl::exception>([&] { iso_10383 m(std::string(n, 'A')); }) == 1, "a market code has four symbols");
    }
}
