//@ entry engine cover=other,cancelled,crossed jobs=4 max_seconds=100
//@ entry orders cover=crossed,cancelled,other jobs=8 max_seconds=150
//@ entry data cover=trade,quotes,quiet,unsubscribed jobs=8 max_seconds=150
//@ entry members cover=bought,sold,outsider,left jobs=8 max_seconds=100
//@ entry unlisted
//@ sources esl/economics/markets/market.cpp esl/interaction/communicator.cpp esl/agent.cpp esl/data/producer.cpp esl/simulation/entity.cpp
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds an exchange and a matching engine with 2 tickers and binary tree books; series of 3 (thorough up to 4, as far as the time allows) orders with any limit below 2^30 and quantity of 32 bits and cancellations, by 3 traders, in steps at any time, latencies below 2^32 for each trader; series of 3 (thorough 4) subscriptions, orders and cancellations with 2 subscribers; 2 traders with any supply, lots of one
#include "book.hpp"
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/order_book/matching_engine.hpp>
#include <esl/economics/markets/centralized_exchange.hpp>
using esl::simulation::time_point;
static const iso_4217 usd({'U', 'S', 'D'}, 100);
static ticker symbol(unsigned k) { return ticker(identity<law::property>({10 + k}), identity<law::property>({1})); }
struct view {
    std::vector<execution_report> reports;
    basic_book &b;
    std::optional<quote> bid() const { return b.bid(); }
    std::optional<quote> ask() const { return b.ask(); }
    std::vector<uint64_t> orders() const { return b.orders(); }
};
struct drawn { side_t s; int64_t p; uint32_t q; };
static drawn draw(unsigned i)
{
    drawn d;
    d.s = CHOOSE(2, nm("side", i)) ? limit_order::sell : limit_order::buy;
    d.p = RANGE(0, (1 << 30) - 1, nm("p", i));
    d.q = RANGE(1, UINT32_MAX, nm("q", i));
    return d;
}
HARNESS(engine)
{
    matching_engine e;
    reference m[2];
    for(unsigned i = 0; i < TH(3, 4); ++i) {
        unsigned t = i ? CHOOSE(2, nm("ticker", i)) : 0, k = CHOOSE(m[t].rest.size() + 2, nm("op", i));
        if(k < m[t].rest.size()) {
            if(m[t].rest[k].live) COVER("cancelled");
            e.cancel(symbol(t), m[t].rest[k].id);
            m[t].cancel(k);
        } else if(k == m[t].rest.size()) {
            drawn d = draw(i);
            e.insert(limit_order(symbol(t), identity<agent>({100 + i}), d.s, quote(price(d.p, usd)), d.q));
            m[t].insert(d.s, d.p, d.q, life_t::good_until_cancelled, 100 + i);
            if(m[t].out.size() > 1) COVER("crossed");
        } else {
            uint64_t x = SYM_U64(nm("id", i));
            e.cancel(symbol(2), x);
        }
        unsigned want = 0;
        for(unsigned j = 0; j < 2; ++j) {
            auto b = e.books.find(symbol(j));
            bool used = !m[j].rest.empty() || !m[j].out.empty();
            ASSERT((b != e.books.end()) == used, "there is a book for every ticker that has had orders");
            if(!used) continue;
            ++want;
            if(j) COVER("other");
            agree(*b->second, m[j]);
        }
        ASSERT(e.books.size() == want, "there is one book for each ticker");
    }
}
static const unsigned first = 100, traders = 3;
struct distance : esl::interaction::communication::latency_model {
    uint64_t to[traders];
    simulation::time_duration sample(const identity<agent> &s, const identity<agent> &r, std::seed_seq &) override
    {
        ASSERT(s == identity<agent>({1}), "reports come from the exchange");
        return to[r.digits[0] - first];
    }
};
static identity<agent> trader(unsigned k) { return identity<agent>({first + k}); }
struct floor_ {
    centralized_exchange e;
    std::shared_ptr<binary_tree_order_book> b[2];
    time_point now = 0;
    floor_() : e(identity<centralized_exchange>({1}), {symbol(0), symbol(1)})
    {
        for(unsigned k = 0; k < 2; ++k) {
            b[k] = std::make_shared<binary_tree_order_book>();
            e.books.emplace(symbol(k), b[k]);
        }
    }
    void pass(unsigned i) { now += RANGE(0, UINT32_MAX, nm("gap", i)); }
    // hands over one message in a step of its own
    void hand(std::shared_ptr<interaction::header> m)
    {
        e.outbox.clear();
        m->received = now;
        e.inbox.insert({now, m});
        std::seed_seq seed{1};
        time_point next = e.process_messages({now, now + 1}, seed);
        ASSERT(next > now, "the exchange does not ask for the step again");
        e.inbox.clear();
    }
    void order(unsigned t, unsigned who, const drawn &d)
    {
        auto m = std::make_shared<new_order_single_message>(trader(who), identity<agent>({1}), now, now);
        m->order_details = limit_order(symbol(t), trader(who), d.s, quote(price(d.p, usd)), d.q);
        hand(m);
    }
    void cancel(unsigned t, unsigned who, uint64_t id)
    {
        auto m = std::make_shared<cancel_order_message>(trader(who), identity<agent>({1}), now, now);
        m->symbol = symbol(t);
        m->order = id;
        hand(m);
    }
    void subscribe(unsigned t, unsigned who, market_data_request_message::request_t r)
    {
        hand(std::make_shared<market_data_request_message>(trader(who), identity<agent>({1}), now, now, std::vector<ticker>{symbol(t)}, r));
    }
};
HARNESS(orders)
{
    floor_ f;
    f.now = RANGE(0, uint64_t(1) << 62, "now");
    auto net = std::make_shared<distance>();
    const bool latency = CHOOSE(2, "latency");
    for(unsigned k = 0; k < traders; ++k) net->to[k] = latency ? RANGE(0, UINT32_MAX, nm("latency", k)) : 0;
    if(latency) f.e.communication_model = net;
    reference m[2];
    for(unsigned i = 0; i < TH(3, 4); ++i) {
        unsigned t = i ? CHOOSE(2, nm("ticker", i)) : 0, k = CHOOSE(m[t].rest.size() + 1, nm("op", i));
        drawn d;
        if(k < m[t].rest.size()) {
            if(m[t].rest[k].live) COVER("cancelled");
            f.cancel(t, m[t].rest[k].owner - first, m[t].rest[k].id);
            m[t].cancel(k);
        } else {
            d = draw(i);
            unsigned who = i < traders ? i : CHOOSE(traders, nm("who", i));
            f.order(t, who, d);
            m[t].insert(d.s, d.p, d.q, life_t::good_until_cancelled, first + who);
            if(m[t].out.size() > 1) COVER("crossed");
        }
        view v{{}, *f.b[t]};
        for(auto &h : f.e.outbox) {
            auto r = std::dynamic_pointer_cast<execution_report_message>(h);
            ASSERT(r != nullptr, "without subscribers only reports are sent");
            ASSERT(r->sender == identity<agent>({1}) && r->recipient == r->report.owner, "a report is sent to the owner of its order");
            ASSERT(r->sent == f.now && r->received == f.now + net->to[r->report.owner.digits[0] - first], "a report arrives after the latency of its recipient");
            ASSERT(r->order.symbol == symbol(t), "a report is about an order in its book");
            v.reports.push_back(r->report);
        }
        agree(v, m[t]);
        if(t) COVER("other");
        for(unsigned j = 0; j < 2; ++j) {
            ASSERT(f.b[j]->reports.empty(), "reports are sent once");
            unsigned live = 0;
            for(auto &r : m[j].rest) live += r.live;
            ASSERT(f.b[j]->orders().size() == live, "an order reaches the book of its own ticker only");
        }
        f.pass(i);
    }
}
static bool same(const std::optional<quote> &a, const std::optional<quote> &b) { return a.has_value() == b.has_value() && (!a || value(*a) == value(*b)); }
HARNESS(data)
{
    floor_ f;
    f.now = RANGE(0, uint64_t(1) << 62, "now");
    reference m[2];
    bool sub[2][2] = {};            // subscriber, ticker
    const unsigned stage = CHOOSE(3, "stage");
    if(stage) { f.subscribe(0, 1, market_data_request_message::stream); sub[0][0] = true; f.pass(10); }
    if(stage == 2) { f.subscribe(1, 2, market_data_request_message::stream); sub[1][1] = true; f.pass(11); }
    for(unsigned i = 0; i < TH(3, 4); ++i) {
        unsigned t = i ? CHOOSE(2, nm("ticker", i)) : 0, k = CHOOSE(m[t].rest.size() + 3, nm("op", i));
        if(k > m[t].rest.size()) {
            bool on = k == m[t].rest.size() + 1;
            if(!on) COVER("unsubscribed");
            f.subscribe(t, 1, on ? market_data_request_message::stream : market_data_request_message::cancel);
            sub[0][t] = on;
            ASSERT(f.e.outbox.empty(), "nothing is traded by subscribing");
            f.pass(i);
            continue;
        }
        auto ask = f.b[t]->ask(), bid = f.b[t]->bid();
        if(k < m[t].rest.size()) {
            f.cancel(t, 0, m[t].rest[k].id);
            m[t].cancel(k);
        } else {
            drawn d = draw(i);
            f.order(t, 0, d);
            m[t].insert(d.s, d.p, d.q, life_t::good_until_cancelled, first);
        }
        std::vector<expected> trades;
        for(auto &x : m[t].out) if(x.state == execution_report::match && x.id == basic_book::direct_order) trades.push_back(x);
        view v{{}, *f.b[t]};
        for(unsigned who = 1; who < 3; ++who) {
            bool told = false;
            unsigned n = 0;
            for(auto &h : f.e.outbox) {
                if(auto r = std::dynamic_pointer_cast<execution_report_message>(h)) {
                    if(who == 1) v.reports.push_back(r->report);
                    continue;
                }
                if(h->recipient != trader(who)) continue;
                auto x = std::dynamic_pointer_cast<market_data_message>(h);
                ASSERT(x != nullptr && x->symbol == symbol(t) && x->sender == identity<agent>({1}) && x->sent == f.now && x->received == f.now,
                       "market data is about the book that changed");
                told = true;
                for(auto &y : x->trades) {
                    ASSERT(n < trades.size() && value(y.first) == trades[n].price && y.second == trades[n].q, "every trade is told once, in order");
                    ++n;
                }
                auto a = f.b[t]->ask(), c = f.b[t]->bid();
                ASSERT(x->ask.size() == a.has_value() && x->bid.size() == c.has_value(), "market data has the best quotes");
                if(a) ASSERT(value(x->ask[0].first) == value(*a), "market data has the best ask");
                if(c) ASSERT(value(x->bid[0].first) == value(*c), "market data has the best bid");
            }
            if(sub[who - 1][t]) {
                bool moved = !same(ask, f.b[t]->ask()) || !same(bid, f.b[t]->bid());
                ASSERT(n == trades.size(), "every trade is told to every subscriber");
                ASSERT(told == (moved || n), "subscribers are told of trades and changes of the best quotes only");
                if(n) COVER("trade");
                if(moved && !n) COVER("quotes");
                if(!told) COVER("quiet");
            } else ASSERT(!told, "market data is sent to subscribers only");
        }
        agree(v, m[t]);
        f.pass(i);
    }
}
HARNESS(members)
{
    floor_ f;
    f.now = RANGE(0, uint64_t(1) << 62, "now");
    uint64_t supply[2][2] = {}, bought[2][2] = {}, sold[2][2] = {};   // trader, ticker
    bool on[2] = {true, CHOOSE(2, "both") == 0};
    for(unsigned k = 0; k < 2; ++k) {
        if(!on[k]) continue;
        auto m = std::make_shared<logon_message>(trader(k), identity<agent>({1}), f.now, f.now);
        for(unsigned t = 0; t < 2; ++t) {
            if(k == 1 && t == 1) continue;
            supply[k][t] = RANGE(0, uint64_t(1) << 62, t ? nm("supply_b", k) : nm("supply_a", k));
            m->supply[symbol(t)] = supply[k][t];
        }
        f.hand(m);
        f.now += 1;
    }
    reference m[2];
    for(unsigned i = 0; i < TH(3, 4); ++i) {
        unsigned t = i < 2 ? 0 : CHOOSE(2, nm("ticker", i)), who = i ? CHOOSE(3, nm("who", i)) : 0;
        drawn d = draw(i);
        f.order(t, who, d);
        m[t].insert(d.s, d.p, d.q, life_t::good_until_cancelled, first + who);
        for(auto &x : m[t].out) {
            if(x.state != execution_report::match) continue;
            unsigned k = x.owner - first;
            if(k < 2) (x.side == limit_order::buy ? bought : sold)[k][t] += x.q;
            if(k < 2 && on[k]) { if(x.side == limit_order::buy) COVER("bought"); else COVER("sold"); } else COVER("outsider");
        }
        m[t].out.clear();
        for(auto &r : m[t].rest) if(r.id == fresh) r.id = 0;
        for(unsigned j = 0; j < 2; ++j) {
            auto p = f.e.positions.find(symbol(j));
            ASSERT(p != f.e.positions.end() && p->second.size() == unsigned(on[0]) + on[1], "those logged on have a position in every security");
            for(unsigned k = 0; k < 2; ++k) {
                if(!on[k]) continue;
                auto r = p->second.find(trader(k));
                ASSERT(r != p->second.end() && r->second.supply == supply[k][j], "the supply is what was brought at the logon");
                ASSERT(r->second.bought == bought[k][j] && r->second.sold == sold[k][j], "a position is what was bought and sold");
                uint64_t lo = bought[k][j] < sold[k][j] ? bought[k][j] : sold[k][j], hi = bought[k][j] + sold[k][j] - lo;
                ASSERT(r->second.liquidity_provided() == lo && r->second.liquidity_taken() == hi - lo, "the liquidity provided and taken follow from the position");
            }
        }
        f.pass(i);
    }
    if(supply[0][0] + bought[0][0] < sold[0][0] || supply[0][1] + bought[0][1] < sold[0][1]) return;
    f.hand(std::make_shared<logout_message>(trader(0), identity<agent>({1}), f.now, f.now));
    COVER("left");
    for(unsigned j = 0; j < 2; ++j) {
        auto p = f.e.positions.find(symbol(j));
        ASSERT((p != f.e.positions.end()) == on[1] && (!on[1] || p->second.find(trader(0)) == p->second.end()), "who logged out has no position");
        if(on[1]) ASSERT(p->second.find(trader(1))->second.bought == bought[1][j], "the others keep their positions");
    }
}
HARNESS(unlisted)
{
    floor_ f;
    f.now = 5;
    drawn d = draw(0);
    auto m = std::make_shared<new_order_single_message>(trader(0), identity<agent>({1}), 0, 0);
    uint64_t x = SYM_U64("x"), y = SYM_U64("y");
    m->order_details = limit_order(ticker(identity<law::property>({x}), identity<law::property>({y})), trader(0), d.s, quote(price(d.p, usd)), d.q);
    bool listed = (m->order_details.symbol == symbol(0)) || (m->order_details.symbol == symbol(1));
    std::seed_seq seed{1};
    if(listed) { f.e.insert_order(m, {5, 6}, seed); ASSERT(f.e.outbox.size() == 1, "an order for a listed security is placed"); return; }
    refused([&] { f.e.insert_order(m, {5, 6}, seed); }, "an order for a security without a book is refused");
}
