//@ entry id_order cover=prefix,differ,same jobs=2
//@ entry id_trans jobs=2
//@ entry id_copy
//@ entry id_text cover=padded jobs=2
//@ bounds identities of 0 to 3 numbers (thorough 4), every 64-bit value in each place; transitivity: up to 2 numbers (thorough 3); text: two identities of up to 2 numbers below 40 (thorough 3 below 150), widths 0 to 3
#include "common.hpp"
#include <esl/simulation/entity.hpp>
#include <set>
struct one : esl::entity<one> { using esl::entity<one>::entity; };
struct two : one { };
typedef esl::identity<one> id;
static std::vector<uint64_t> digits(const char *len, const char *n, unsigned max, uint64_t hi = ~0ull)
{
    unsigned k = CHOOSE(max + 1, len);
    std::vector<uint64_t> d;
    for(unsigned i = 0; i < k; ++i) d.push_back(RANGE(0, hi, nm(n, i)));
    return d;
}
// -1, 0, 1
static int cmp(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
{
    int r = 0;
    unsigned n = a.size() < b.size() ? a.size() : b.size();
    for(unsigned i = n; i-- > 0;) r = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : r;
    bool tie = true;
    for(unsigned i = 0; i < n; ++i) tie = tie & (a[i] == b[i]);
    if(tie) return a.size() < b.size() ? -1 : a.size() > b.size();
    return r;
}
HARNESS(id_order)
{
    auto da = digits("na", "a", TH(3, 4)), db = digits("nb", "b", TH(3, 4));
    const id a(da), b(db);
    const esl::identity<two> c(db);
    int k = cmp(da, db);
    const std::vector<uint64_t> dc(da.rbegin(), da.rend());
    const id e(std::vector<uint64_t>(dc.rbegin(), dc.rend()));
    ASSERT(std::hash<id>()(a) == std::hash<id>()(e) && std::hash<esl::identity<two>>()(esl::identity<two>(da)) == std::hash<id>()(e), "equal identities hash alike");
    ASSERT((a == b) == (k == 0), "equal exactly when all numbers are");
    ASSERT((a != b) == (k != 0), "!= is the negation of ==");
    ASSERT((a < b) == (k < 0), "ordered lexicographically");
    ASSERT((a > b) == (k > 0), "> mirrors <");
    ASSERT((a <= b) == (k <= 0), "<=");
    ASSERT((a >= b) == (k >= 0), ">=");
    ASSERT((a == c) == (k == 0) && (a < c) == (k < 0), "identities of related types compare by their numbers");
    if(k == 0) {
        COVER("same");
    } else COVER("differ");
    if(da.size() < db.size() && k < 0) COVER("prefix");
}
HARNESS(id_trans)
{
    auto da = digits("na", "a", TH(2, 3)), db = digits("nb", "b", TH(2, 3)), dc = digits("nc", "c", TH(2, 3));
    const id a(da), b(db), c(dc);
    if(a < b && b < c) ASSERT(a < c, "< is transitive");
    if(a == b && b == c) ASSERT(a == c, "== is transitive");
    ASSERT(!(a < a), "< is irreflexive");
}
HARNESS(id_copy)
{
    auto da = digits("na", "a", 4);
    const id a(da);
    id b(a), c;
    c = a;
    id d(std::move(b));
    id e;
    e = id(da);
    ASSERT(a.digits == da && c.digits == da && d.digits == da && e.digits == da, "copies keep all numbers");
    for(size_t i = 0; i < da.size(); ++i) ASSERT(a[i] == da[i], "numbers can be read back");
    auto t = esl::reinterpret_identity_cast<two>(a);
    auto u = esl::dynamic_identity_cast<two>(a);
    id v = t;
    ASSERT(t.digits == da && u.digits == da && v == a, "conversions keep all numbers");
}
HARNESS(id_text)
{
    esx_format = 1;
    auto da = digits("na", "a", TH(2, 3), TH(39, 149)), db = digits("nb", "b", TH(2, 3), TH(39, 149));
    const id a(da), b(db);
    unsigned w = CHOOSE(4, "w");
    std::string s = a.representation(w), t = b.representation(w);
    if(s == t) ASSERT(a == b, "different identities have different texts");
    size_t n = 0;
    for(char c : s) n += c == '-';
    ASSERT(n == (da.empty() ? 0 : da.size() - 1), "numbers are separated by dashes");
    if(!da.empty()) {
        ASSERT(s.front() == '"' && s.back() == '"', "quoted");
        size_t len = 2 + da.size() - 1;
        for(auto x : da) { size_t l = x < 10 ? 1 : x < 100 ? 2 : 3; if(l < w) COVER("padded"); len += l < w ? w : l; }
        ASSERT(s.size() == len, "numbers are padded to the width");
    }
}
