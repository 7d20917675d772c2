//@ entry announce cover=told,early,waiting,again jobs=8 max_seconds=200
//@ entry share cover=paid,loss,none,excluded jobs=8 max_seconds=200
//@ entry holder cover=quoted,requoted,record,later
//@ sources esl/economics/company.cpp esl/economics/finance/shareholder.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/bond.cpp esl/economics/finance/stock.cpp esl/economics/finance/security.cpp esl/economics/finance/dividend.cpp esl/economics/accounting/standard.cpp esl/economics/asset.cpp esl/economics/price.cpp esl/economics/iso_4217.cpp esl/economics/currencies.cpp esl/economics/owner.cpp esl/economics/money.cpp esl/economics/cash.cpp esl/law/property.cpp esl/law/contract.cpp esl/law/legal_person.cpp esl/law/organization.cpp esl/interaction/communicator.cpp esl/agent.cpp esl/data/producer.cpp esl/simulation/entity.cpp
//@ flags -include functional
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds a company with up to 2 shareholders acting 2 (thorough 3) times at increasing times of 64 bits, one dividend or a second one later, announced after time 0; 2 share classes with up to 4 shares each, profits and losses up to 2^40 units of a currency with a denominator of 1 or 8; a shareholder with 2 companies and 2 share classes, and 2 quotes
#include "common.hpp"
#include <cassert>
#include <vector>
#include <esl/economics/company.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/law/jurisdiction.hpp>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::finance;
using esl::simulation::time_interval;
using esl::simulation::time_point;
static law::jurisdiction place(unsigned denominator)
{
    return law::jurisdiction(geography::iso_3166_1_alpha_2(std::array<char, 2>{'U', 'S'}), iso_4217(std::array<char, 3>{'U', 'S', 'D'}, denominator));
}
static const int64_t LIMIT = 1ll << 40;
struct firm : company {
    std::optional<dividend_policy> policy;
    explicit firm(const identity<company> &i, unsigned denominator = 100)
    : agent(identity<agent>(i.digits)), law::owner<law::property>(identity<law::owner<law::property>>(i.digits)), law::owner<cash>(identity<law::owner<law::property>>(i.digits)), law::owner<stock>(identity<law::owner<law::property>>(i.digits)), law::owner<bond>(identity<law::owner<law::property>>(i.digits)), company(i, place(denominator)) {}
    std::optional<dividend_policy> upcoming_dividend(time_interval, std::seed_seq &) override { return policy; }
};
static dividend_policy planned(unsigned n, time_point after)
{
    time_point announced = SYM_U64(nm("announced", n)), ex = SYM_U64(nm("ex", n)), payable = SYM_U64(nm("payable", n));
    ASSUME((after < announced) & (announced <= ex) & (ex <= payable));
    return dividend_policy(announced, ex, {0, 1}, payable);
}
HARNESS(announce)
{
    firm c(identity<company>({1}));
    const unsigned holders = CHOOSE(3, "holders");
    for(uint64_t k = 0; k < holders; ++k) c.shareholders[identity<shareholder>({2, k})][share_class()] = 1;
    dividend_policy p = planned(0, 0);
    c.policy = p;
    std::seed_seq seed{1};
    time_point now = 0;
    bool told = false, second = false;
    for(unsigned n = 0; n < TH(2, 3); ++n) {
        time_point lower = SYM_U64(nm("lower", n)), upper = SYM_U64(nm("upper", n));
        ASSUME((now <= lower) & (lower < upper));
        now = lower;
        if(told && !second && CHOOSE(2, nm("new", n))) {
            second = true;
            told = false;
            p = planned(1, p.payable_date);
            c.policy = p;
            COVER("again");
        }
        unsigned before = c.outbox.size();
        time_point next = c.act({lower, upper}, seed);
        bool due = !told && lower >= p.announcement_date;
        ASSERT(c.outbox.size() == before + (due ? holders : 0), "a dividend is announced once to every shareholder, when it is time");
        for(unsigned k = 0; due && k < holders; ++k) {
            told = true;
            COVER("told");
            unsigned found = 0;
            for(unsigned i = before; i < c.outbox.size(); ++i) {
                auto m = std::dynamic_pointer_cast<dividend_announcement_message>(c.outbox[i]);
                ASSERT(m != nullptr, "a company sends announcements");
                if(m->recipient == identity<agent>({2, k})) ++found;
                ASSERT(m->sender == c.identifier && m->policy.announcement_date == p.announcement_date && m->policy.ex_dividend_date == p.ex_dividend_date && m->policy.payable_date == p.payable_date, "an announcement tells the dividend");
                ASSERT(m->received <= lower, "an announcement is sent at once");
            }
            ASSERT(found == 1, "a dividend is announced once to every shareholder, when it is time");
        }
        if(due) told = true;
        time_point expected = upper;
        if(p.announcement_date > lower) { COVER("early"); if(p.announcement_date < expected) expected = p.announcement_date; }
        else if(p.payable_date > lower) { COVER("waiting"); if(p.payable_date < expected) expected = p.payable_date; }
        ASSERT(next > lower, "a company does not ask to act in the past");
        ASSERT(next <= expected, "a company acts when a dividend is to be announced or paid");
    }
    c.policy = {};
    time_point lower = SYM_U64("l"), upper = SYM_U64("u");
    ASSUME(lower < upper);
    unsigned before = c.outbox.size();
    ASSERT(c.act({lower, upper}, seed) == upper && c.outbox.size() == before, "without a dividend nothing is announced");
}
HARNESS(share)
{
    const unsigned den = CHOOSE(2, "parts") ? 8 : 1;
    firm c(identity<company>({1}), den);
    unsigned n[2], payers = 0, shares = 0;
    bool pays[2];
    std::vector<share_class> cs;
    for(unsigned k = 0; k < 2; ++k) {
        n[k] = CHOOSE(TH(4, 5), nm("n", k));
        pays[k] = CHOOSE(2, nm("pays", k)) == 0;
        cs.push_back(den == 1 ? share_class(k, 1, 0, pays[k]) : share_class(3, 1 + k, 0, pays[k]));
        if(n[k]) c.shares_outstanding[cs[k]] = n[k];
        shares += n[k];
        if(pays[k]) payers += n[k]; else if(n[k]) COVER("excluded");
    }
    ASSERT(c.total_shares() == shares, "the shares of all classes are counted");
    uint64_t drawn = RANGE(0, 2 * LIMIT, "profit");
    int64_t profit = (int64_t)drawn - LIMIT;
    const iso_4217 usd(std::array<char, 3>{'U', 'S', 'D'}, den);
    auto d = c.compute_dividend_per_share(price(profit, usd));
    if(profit <= 0) {
        COVER("loss");
        ASSERT(d.empty(), "a loss is not paid out");
        return;
    }
    if(!payers) COVER("none");
    unsigned entries = 0;
    int64_t total = 0;
    for(unsigned k = 0; k < 2; ++k) {
        auto i = d.find(cs[k]);
        if(!n[k] || !pays[k]) {
            ASSERT(i == d.end(), "only shares with a dividend are paid");
            continue;
        }
        ++entries;
        ASSERT(i != d.end() && std::get<0>(i->second) == n[k], "all shares with a dividend are paid");
        const price &p = std::get<1>(i->second);
        ASSERT(p.valuation == usd, "a dividend is in the currency of the company");
        ASSERT(p.value * (int64_t)shares <= profit, "a share gets no more than its part of the profit");
        ASSERT((p.value + 2) * (int64_t)shares > profit, "a share gets its part of the profit but for rounding");
        total += p.value * (int64_t)n[k];
        COVER("paid");
    }
    ASSERT(d.size() == entries, "only shares with a dividend are paid");
    dividend_policy policy(1, 1, {0, 1}, 1, usd, d);
    ASSERT(policy.total_dividends().value == total && policy.total_dividends().valuation == usd, "the total is what all shares get");
    ASSERT(total <= profit, "no more than the profit is paid out");
}
HARNESS(holder)
{
    shareholder h(identity<shareholder>({1}));
    std::seed_seq seed{1};
    const iso_4217 cur[2] = {iso_4217(std::array<char, 3>{'U', 'S', 'D'}, 100), iso_4217(std::array<char, 3>{'E', 'U', 'R'}, 100)};
    identity<company> cs[2] = {identity<company>({5}), identity<company>({6})};
    identity<law::property> ps[2] = {identity<law::property>({5, 0}), identity<law::property>({6, 0})};
    uint64_t n[2][2], of[2] = {0, 0};
    unsigned same = CHOOSE(2, "same");
    for(unsigned i = 0; i < 2; ++i)
        for(unsigned k = 0; k < 2; ++k) {
            n[i][k] = SYM_U64(nm("n", 2 * i + k));
            ASSUME(n[i][k] < 1ull << 60);
            h.shares[cs[i]][share_class(k)] = n[i][k];
            unsigned which = same ? 0 : i; // two classes of one stock, or all
            h.stocks[std::make_tuple(cs[i], share_class(k))] = ps[which];
            of[which] += n[i][k];
        }
    auto all = h.stock_holdings();
    ASSERT(all.size() == (same ? 1 : 2), "a shareholder lists each stock once");
    for(unsigned i = 0; i < (same ? 1 : 2); ++i) ASSERT(all.at(ps[i]).amount == of[i], "a shareholder lists all its shares");
    // quotes
    int64_t last[2] = {0, 0};
    unsigned lastc[2] = {0, 0};
    bool seen[2] = {false, false};
    std::shared_ptr<law::property> stock_[2] = {std::make_shared<law::property>(ps[0]), std::make_shared<law::property>(ps[1])};
    for(unsigned m = 0; m < 2; ++m) {
        law::property_map<markets::quote> q;
        unsigned which = CHOOSE(3, nm("quoted", m));
        for(unsigned i = 0; i < 2; ++i) if(which == 2 || which == i) {
            last[i] = SYM_I64(nm("price", 2 * m + i));
            lastc[i] = CHOOSE(2, nm("currency", 2 * m + i));
            if(seen[i]) COVER("requoted");
            seen[i] = true;
            q.emplace(stock_[i], markets::quote(price(last[i], cur[lastc[i]])));
        }
        auto msg = std::make_shared<markets::walras::quote_message>(identity<agent>({9}), h.identifier, q);
        h.process_message(msg, {0, 10}, seed);
        for(unsigned i = 0; i < 2; ++i) {
            auto f = h.prices.find(stock_[i]);
            ASSERT((f != h.prices.end()) == seen[i], "a shareholder knows the prices that were quoted");
            if(seen[i]) ASSERT(f->second.value == last[i] && f->second.valuation == cur[lastc[i]], "a shareholder knows the last price");
        }
        COVER("quoted");
    }
    // a dividend
    dividend_policy p = planned(0, 0);
    unsigned from = CHOOSE(3, "from");
    identity<agent> who({from + 5});
    time_point lower = SYM_U64("lower"), upper = SYM_U64("upper");
    ASSUME(lower < upper);
    h.process_message(std::make_shared<dividend_announcement_message>(who, h.identifier, p), {lower, upper}, seed);
    bool due = (lower <= p.ex_dividend_date) & (p.ex_dividend_date <= upper);
    if(due && from < 2) {
        ASSERT(h.outbox.size() == 1, "shares are put on record at the dividend date");
        auto r = std::dynamic_pointer_cast<dividend_record>(h.outbox[0]);
        ASSERT(r && r->recipient == who && r->sender == h.identifier, "shares are put on record with the company");
        for(unsigned k = 0; k < 2; ++k) ASSERT(r->shares_on_record.at(share_class(k)) == n[from][k], "all shares are put on record");
        COVER("record");
    } else {
        ASSERT(h.outbox.empty(), "shares are not put on record at another time or with another company");
        COVER("later");
    }
}
