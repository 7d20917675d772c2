//@ entry tickers cover=less,greater,same_base
//@ entry share_classes cover=same_rank,equal,zeros
//@ entry classes_as_keys
//@ entry orders cover=equal
//@ entry reports cover=equal
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ sources esl/economics/currencies.cpp esl/economics/iso_4217.cpp
//@ bounds tickers of identities of 0 to 2 numbers of any 64-bit value; classes of shares with any rank, votes, flags and any preference that is a number; orders and reports of any side, lifetime, state, quantity and identifier, prices to 2^50 in two currencies, lots of 1 and 7, owners of 0 to 2 numbers
#include "common.hpp"
#include <map>
#include <unordered_map>
#include <cmath>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/ticker.hpp>
#include <esl/economics/markets/order_book/order.hpp>
#include <esl/economics/markets/order_book/execution_report.hpp>
#include <esl/economics/finance/share_class.hpp>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::markets;
using namespace esl::economics::markets::order_book;
using finance::share_class;
template<class T> static identity<T> some(const char *len, const char *n)
{
    unsigned k = CHOOSE(3, len);
    std::vector<uint64_t> d;
    for(unsigned i = 0; i < k; ++i) d.push_back(SYM_U64(nm(n, i)));
    return identity<T>(d);
}
template<class T> static int cmp(const identity<T> &a, const identity<T> &b)
{
    for(size_t i = 0; i < a.digits.size() && i < b.digits.size(); ++i) {
        if(a.digits[i] == b.digits[i]) continue;
        return a.digits[i] < b.digits[i] ? -1 : 1;
    }
    return a.digits.size() < b.digits.size() ? -1 : a.digits.size() > b.digits.size();
}
HARNESS(tickers)
{
    identity<law::property> p = some<law::property>("np", "p"), q = some<law::property>("nq", "q"),
                            r = some<law::property>("nr", "r"), s = some<law::property>("ns", "s");
    ticker a(p, q), b(r, s);
    int c = cmp(p, r);
    if(c == 0) { COVER("same_base"); c = cmp(q, s); }
    ASSERT((a == b) == (c == 0), "tickers are equal exactly when both properties are");
    ASSERT((a != b) == (c != 0), "tickers differ exactly when a property does");
    ASSERT((a < b) == (c < 0) && (a > b) == (c > 0), "tickers are ordered by what is traded, then by what is paid with");
    ASSERT((a <= b) == (c <= 0) && (a >= b) == (c >= 0), "the weak orders of tickers follow the strict ones");
    if(c == 0) ASSERT(std::hash<ticker>()(a) == std::hash<ticker>()(b), "equal tickers hash alike");
    if(c < 0) COVER("less");
    if(c > 0) COVER("greater");
    ticker d(a);
    ASSERT(d == a && d.base == p && d.quote == q, "a copy of a ticker is equal to it");
}
struct raw { uint8_t rank, votes; float pref; bool d, c, r; };
static float number(const char *n)
{
    uint32_t u = SYM_U32(n);
    float f;
    ASSUME((u & 0x7fffffff) <= 0x7f800000);
    __builtin_memcpy(&f, &u, 4);
    return f;
}
static raw any(unsigned k)
{
    raw x;
    x.rank = SYM_U8(nm("rank", k)); x.votes = SYM_U8(nm("votes", k));
    x.pref = number(nm("preference", k));
    x.d = SYM_BOOL(nm("dividend", k)); x.c = SYM_BOOL(nm("cumulative", k)); x.r = SYM_BOOL(nm("redeemable", k));
    return x;
}
static share_class make(const raw &x) { return share_class(x.rank, x.votes, x.pref, x.d, x.c, x.r); }
static bool alike(const raw &x, const raw &y)
{
    uint32_t p, q;
    __builtin_memcpy(&p, &x.pref, 4);
    __builtin_memcpy(&q, &y.pref, 4);
    return (x.rank == y.rank) & (x.votes == y.votes) & ((p == q) | (((p | q) & 0x7fffffff) == 0)) & (x.d == y.d) & (x.c == y.c) & (x.r == y.r);
}
HARNESS(share_classes)
{
    raw x = any(0), y = any(1), z = any(2);
    share_class a = make(x), b = make(y), c = make(z);
    bool same = alike(x, y);
    ASSERT((a == b) == same, "share classes are equal exactly when all their rights are");
    bool lt = a < b, gt = b < a, bc = b < c, ac = a < c;
    ASSERT(!(lt & gt), "one share class is not both before and after another");
    ASSERT((lt | gt) == !same, "of two different share classes one comes first");
    ASSERT(!(lt & bc) | ac, "the order of share classes is transitive");
    if(x.rank != y.rank) ASSERT(lt == (x.rank < y.rank), "share classes are ordered by rank first");
    else COVER("same_rank");
    if(same) {
        COVER("equal");
        raw w = x;
        if(x.pref == 0) { w.pref = -0.f; a.preference = 0.f; COVER("zeros"); }
        ASSERT(make(w) == a && std::hash<share_class>()(make(w)) == std::hash<share_class>()(a), "equal share classes hash alike");
    }
    share_class d = a;
    ASSERT(d == a && d.rank == x.rank && d.votes == x.votes && d.preference == x.pref && d.dividend == x.d && d.cumulative == x.c && d.redeemable == x.r,
           "a share class keeps its rights");
}
HARNESS(classes_as_keys)
{
    raw x = any(0), y = any(1);
    bool same = alike(x, y);
    uint64_t n = SYM_U64("n"), m = SYM_U64("m");
    std::map<share_class, uint64_t> issued;
    issued[make(x)] = n;
    issued[make(y)] = m;
    ASSERT(issued.size() == (same ? 1u : 2u), "different share classes are different keys");
    ASSERT(issued.at(make(y)) == m, "shares are found by their class");
    ASSERT(issued.at(make(x)) == (same ? m : n), "shares are found by their class");
}
static quote limit(unsigned k, uint32_t l)
{
    const int64_t B = int64_t(1) << 50;
    int64_t v = int64_t(RANGE(0, 2 * B, nm("price", k))) - B;
    bool eur = SYM_BOOL(nm("eur", k));
    if(eur) return quote(price(v, currencies::EUR), l);
    return quote(price(v, currencies::USD), l);
}
static bool same_quote(const quote &a, const quote &b)
{
    const price &p = std::get<price>(a.type), &q = std::get<price>(b.type);
    return (p.value == q.value) & (p.valuation == q.valuation);
}
static limit_order::side_t side(const char *n) { return SYM_BOOL(n) ? limit_order::sell : limit_order::buy; }
HARNESS(orders)
{
    identity<law::property> p({1}), q({2});
    const uint32_t l0 = CHOOSE(2, "lot") ? 7 : 1;
    identity<agent> o[2] = {some<agent>("na", "a"), some<agent>("nb", "b")};
    bool t[2] = {bool(CHOOSE(2, "t0")), bool(CHOOSE(2, "t1"))};
    limit_order::side_t s[2]; uint32_t n[2]; limit_order::lifetime_t l[2]; quote v[2] = {limit(0, l0), limit(1, l0)};
    for(unsigned k = 0; k < 2; ++k) {
        s[k] = side(nm("side", k)); n[k] = SYM_U32(nm("q", k));
        l[k] = limit_order::lifetime_t(RANGE(0, 2, nm("life", k)));
    }
    limit_order a(t[0] ? ticker(p, q) : ticker(q, p), o[0], s[0], v[0], n[0], l[0]);
    limit_order b(t[1] ? ticker(p, q) : ticker(q, p), o[1], s[1], v[1], n[1], l[1]);
    bool same = (t[0] == t[1]) & (cmp(o[0], o[1]) == 0) & (s[0] == s[1]) & (n[0] == n[1]) & (l[0] == l[1]) & same_quote(v[0], v[1]);
    if(same) COVER("equal");
    ASSERT((a == b) == same, "orders are equal exactly when everything about them is");
    limit_order c(a);
    ASSERT(c == a, "a copy of an order is equal to it");
    ASSERT(a.closed() == (n[0] == 0), "an order is closed exactly when nothing is left");
    c.cancel();
    ASSERT(c.closed() && a.quantity == n[0], "a cancelled order is closed, its copies are not");
    ASSERT(c.side == s[0] && c.owner == o[0] && c.lifetime == l[0] && c.symbol == a.symbol && same_quote(c.limit, v[0]), "an order keeps all else when cancelled");
}
HARNESS(reports)
{
    const uint32_t l0 = CHOOSE(2, "lot") ? 7 : 1;
    identity<agent> o[2] = {some<agent>("na", "a"), some<agent>("nb", "b")};
    execution_report r[2];
    bool same = cmp(o[0], o[1]) == 0;
    uint32_t st[2]; limit_order::side_t s[2]; uint32_t n[2]; uint64_t id[2]; quote v[2] = {limit(0, l0), limit(1, l0)};
    for(unsigned k = 0; k < 2; ++k) {
        st[k] = RANGE(0, 3, nm("state", k)); s[k] = side(nm("side", k)); n[k] = SYM_U32(nm("q", k)); id[k] = SYM_U64(nm("id", k));
        r[k] = execution_report(execution_report::state_t(st[k]), s[k], n[k], id[k], v[k], o[k]);
    }
    same = same & (st[0] == st[1]) & (s[0] == s[1]) & (n[0] == n[1]) & (id[0] == id[1]) & same_quote(v[0], v[1]);
    if(same) COVER("equal");
    ASSERT((r[0] == r[1]) == same, "reports are equal exactly when everything about them is");
    execution_report c(r[0]);
    ASSERT(c == r[0], "a copy of a report is equal to it");
    c = r[1];
    ASSERT(c == r[1] && c.limit.lot == v[1].lot && c.owner == o[1] && c.quantity == n[1] && c.identifier == id[1] && c.side == s[1] && uint32_t(c.state) == st[1], "an assigned report keeps everything");
}
