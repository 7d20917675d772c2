//@ entry amounts
//@ entry prices cover=negative,extreme
//@ entry rates cover=reduced
//@ entry names
//@ entry classes
//@ entry messages cover=classes
//@ sources esl/economics/currencies.cpp esl/economics/iso_4217.cpp esl/economics/finance/dividend.cpp
//@ native esl/economics/price.cpp esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds quantities, identities of up to 3 numbers, intervals, headers and dates of any 64-bit values; currencies of any three capital letters with a denominator up to 9999; prices between -99999 and 99999 (thorough 999999), and the least and greatest value, with denominators 1, 100 and 12345; rates of any 62-bit number over 1, and up to 63 (thorough 1023) over 2 and 3; any symbols of legal entities and countries; classes of shares with any rights; policies and records with up to 2 classes
//@ assume the archive keeps numbers and texts as they are written (an archive in memory takes the place of those of Boost)
#include "archive.hpp"
#include <functional>
#include <esl/economics/currencies.hpp>
#include <esl/economics/exchange_rate.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/interest_rate.hpp>
#include <esl/economics/markets/quote.hpp>
#include <esl/geography/iso_3166_1_alpha_2.hpp>
#include <esl/law/jurisdiction.hpp>
#include <esl/law/legal_entity.hpp>
#include <esl/quantity.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
#include <esl/simulation/time.hpp>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::finance;
using markets::quote;
typedef interaction::message<dividend_announcement_message, interaction::library_message_code<0x0F00>()> announcement_base;
typedef interaction::message<dividend_record, interaction::library_message_code<0x0F01>()> record_base;
BASE_OF(exchange_rate, rate<std::uint64_t>)
BASE_OF(interest_rate, rate<>)
#define MESSAGE(M, B, C) \
    BASE_OF(M, B) \
    BASE_OF(B, interaction::header) \
    BASE_OF(B, type_code<interaction::library_message_code<C>()>) \
    BASE_OF(B, type_marker<M>)
MESSAGE(dividend_announcement_message, announcement_base, 0x0F00)
MESSAGE(dividend_record, record_base, 0x0F01)
BASE_OF(simulation::parameter::constant<uint64_t>, simulation::parameter::parameter_base)
template<class T> static identity<T> some(const char *len, const char *n)
{
    unsigned k = CHOOSE(4, len);
    std::vector<uint64_t> d;
    for(unsigned i = 0; i < k; ++i) d.push_back(SYM_U64(nm(n, i)));
    return identity<T>(d);
}
static iso_4217 currency(unsigned i)
{
    char a = RANGE('A', 'Z', nm("a", i)), b = RANGE('A', 'Z', nm("b", i)), c = RANGE('A', 'Z', nm("c", i));
    uint64_t d = RANGE(1, 9999, nm("denominator", i));
    return iso_4217({a, b, c}, d);
}
static uint64_t before() { return 77; }
HARNESS(amounts)
{
    uint64_t x = SYM_U64("x"), y = SYM_U64("y");
    switch(CHOOSE(5, "what")) {
    case 0: {
        quantity q(x), r(before());
        pass(q, r);
        ASSERT(r.amount == x, "a quantity is read as it was written");
        break;
    }
    case 1: {
        identity<agent> i = some<agent>("n", "d"), j({before(), before()});
        pass(i, j);
        ASSERT(i == j && i.digits.size() == j.digits.size(), "an identity is read as it was written");
        break;
    }
    case 2: {
        simulation::time_interval i(x, y), j(before(), before());
        pass(i, j);
        ASSERT(j.lower == x && j.upper == y, "an interval is read as it was written");
        break;
    }
    case 3: {
        interaction::header a, b;
        a.type = x; a.sent = y; a.received = SYM_U64("received");
        a.sender = some<agent>("n", "sender"); a.recipient = some<agent>("m", "recipient");
        b.type = b.sent = b.received = before();
        pass(a, b);
        ASSERT(b.type == a.type && b.sent == a.sent && b.received == a.received && b.sender == a.sender && b.recipient == a.recipient, "a header is read as it was written");
        break;
    }
    case 4: {
        simulation::parameter::constant<uint64_t> a(x), b(before());
        pass(a, b);
        ASSERT(b.choice == x, "a parameter is read as it was written");
    }
    }
}
HARNESS(prices)
{
    esx_format = 1;
    const unsigned what = CHOOSE(3, "what");
    const iso_4217 other = currencies::JPY;
    if(!what) {
        const iso_4217 c = currency(0);
        iso_4217 d = other;
        pass(c, d);
        ASSERT(d == c, "a currency is read as it was written");
        return;
    }
    static const uint64_t parts[] = {1, 100, 12345};
    char letter = RANGE('A', 'Z', "letter");
    const iso_4217 c({'G', letter, 'P'}, parts[CHOOSE(3, "parts")]);
    int64_t v;
    switch(CHOOSE(3, "value")) {
    case 0: {
        const int64_t most = TH(99999, 999999);
        v = (int64_t)RANGE(0, 2 * most, "v") - most;
        if(v < 0) COVER("negative");
        break;
    }
    case 1: v = INT64_MIN; COVER("extreme"); break;
    default: v = INT64_MAX;
    }
    const price p(v, c);
    if(what == 1) {
        price q(5, other);
        pass(p, q);
        ASSERT(q.value == v && q.valuation == c, "a price is read as it was written");
    } else {
        uint32_t lot = RANGE(1, UINT32_MAX, "lot");
        const quote a(p, lot);
        quote b(price(5, other), 3);
        pass(a, b);
        ASSERT(b.lot == lot, "the lot of a quote is read as it was written");
        const price q = std::get<price>(b.type);
        ASSERT(q.value == v && q.valuation == c, "the price of a quote is read as it was written");
    }
}
HARNESS(rates)
{
    static const uint64_t under[] = {1, 2, 3};
    const unsigned k = CHOOSE(3, "denominator");
    uint64_t d = under[k];
    if(CHOOSE(2, "which")) {
        uint64_t n = RANGE(1, k ? TH(63, 1023) : INT64_MAX, "n");
        exchange_rate a(n, d), b(3, 7);
        pass(a, b);
        ASSERT(b.numerator() == a.numerator() && b.denominator() == a.denominator(), "an exchange rate is read as it was written");
        if(a.denominator() != d) COVER("reduced");
    } else {
        int64_t n = (int64_t)RANGE(0, 2 * (k ? TH(63, 1023) : uint64_t(1) << 61), "n") - int64_t(k ? TH(63, 1023) : uint64_t(1) << 61);
        uint64_t t = SYM_U64("t");
        interest_rate a(rate<>(n, int64_t(d)), t), b(rate<>(int64_t(3), int64_t(7)), 2);
        pass(a, b);
        ASSERT(b.numerator() == a.numerator() && b.denominator() == a.denominator() && b.duration == t, "an interest rate is read as it was written");
    }
}
HARNESS(names)
{
    typedef geography::iso_3166_1_alpha_2 country;
    char a = RANGE('A', 'Z', "u"), b = RANGE('A', 'Z', "v");
    const country c(std::array<char, 2>{a, b});
    country d("FR");
    pass(c, d);
    ASSERT(d.code == c.code, "a country is read as it was written");
    const law::jurisdiction j(c, currency(0));
    law::jurisdiction k(country("FR"), currencies::EUR);
    pass(j, k);
    ASSERT(k.sovereign.code == c.code && k.tender == j.tender, "a jurisdiction is read as it was written");
    std::array<char, 4> l;
    std::array<char, 12> m;
    for(unsigned i = 0; i < 4; ++i) l[i] = SYM_U8(nm("l", i));
    for(unsigned i = 0; i < 12; ++i) m[i] = SYM_U8(nm("m", i));
    for(unsigned i = 0; i < 4; ++i) ASSUME((l[i] >= '0') & (l[i] <= '9'));
    for(unsigned i = 0; i < 12; ++i) ASSUME(((m[i] >= '0') & (m[i] <= '9')) | ((m[i] >= 'A') & (m[i] <= 'Z')));
    const law::iso_17442 e(l, m);
    law::iso_17442 f;
    pass(e, f);
    ASSERT(f.local == l && f.code == m, "a legal entity is read as it was written");
}
static float number(const char *n)
{
    uint32_t u = SYM_U32(n);
    float f;
    ASSUME((u & 0x7fffffff) <= 0x7f800000);
    __builtin_memcpy(&f, &u, 4);
    return f;
}
static share_class any(unsigned k)
{
    uint8_t rank = SYM_U8(nm("rank", k)), votes = SYM_U8(nm("votes", k));
    float p = number(nm("preference", k));
    bool d = SYM_BOOL(nm("dividend", k)), c = SYM_BOOL(nm("cumulative", k)), r = SYM_BOOL(nm("redeemable", k));
    return share_class(rank, votes, d, p, c, r);
}
static bool same(const share_class &a, const share_class &b)
{
    uint32_t p, q;
    __builtin_memcpy(&p, &a.preference, 4);
    __builtin_memcpy(&q, &b.preference, 4);
    return (a.rank == b.rank) & (a.votes == b.votes) & (a.dividend == b.dividend) & (p == q) & (a.cumulative == b.cumulative) & (a.redeemable == b.redeemable);
}
HARNESS(classes)
{
    const share_class a = any(0);
    share_class b(7, 3, false, 2.f, true, true);
    pass(a, b);
    ASSERT(same(a, b), "a class of shares is read as it was written");
}
HARNESS(messages)
{
    esx_format = 1;
    identity<agent> from = some<agent>("n", "from"), to({9});
    uint64_t sent = SYM_U64("sent"), received = SYM_U64("received");
    const unsigned n = CHOOSE(3, "classes");
    auto head = [&](const interaction::header &h, uint64_t type) {
        ASSERT(h.type == type && h.sender == from && h.recipient == to && h.sent == sent && h.received == received, "a message is read with its header");
    };
    if(n) COVER("classes");
    if(CHOOSE(2, "record")) {
        std::map<share_class, std::uint64_t> held;
        for(unsigned i = 0; i < n; ++i) held.emplace(share_class(i + 1), SYM_U64(nm("shares", i)));
        const dividend_record a(from, to, held, sent, received);
        dividend_record b(identity<agent>({5}), identity<agent>({6}), {{share_class(8), 1}}, 1, 2);
        pass(a, b);
        head(b, a.type);
        ASSERT(b.shares_on_record == held, "the shares on record are read as they were written");
    } else {
        std::map<share_class, std::tuple<std::uint64_t, price>> per;
        for(unsigned i = 0; i < n; ++i) {
            uint64_t k = SYM_U64(nm("shares", i)), v = RANGE(0, 99, nm("v", i));
            per.emplace(share_class(i + 1), std::make_tuple(k, price(v, currencies::EUR)));
        }
        uint64_t t[5];
        for(unsigned i = 0; i < 5; ++i) t[i] = SYM_U64(nm("t", i));
        const dividend_policy p(t[0], t[1], {t[2], t[3]}, t[4], currencies::EUR, per);
        dividend_announcement_message a(from, to, p), b;
        a.sent = sent;
        a.received = received;
        pass(a, b);
        head(b, a.type);
        const dividend_policy &q = b.policy;
        ASSERT(q.announcement_date == t[0] && q.ex_dividend_date == t[1] && q.dividend_period.lower == t[2] && q.dividend_period.upper == t[3] && q.payable_date == t[4], "the dates of a dividend are read as they were written");
        ASSERT(q.dividend_currency == currencies::EUR && q.dividend_per_share.size() == per.size(), "the currency of a dividend is read as it was written");
        for(auto &[c, x] : per) {
            auto i = q.dividend_per_share.find(c);
            ASSERT(i != q.dividend_per_share.end() && std::get<0>(i->second) == std::get<0>(x) && std::get<1>(i->second) == std::get<1>(x), "the dividend of each class is read as it was written");
        }
    }
}
