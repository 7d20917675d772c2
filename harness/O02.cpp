//@ entry trade cover=crossed,partial,several,cancelled,again jobs=8 max_seconds=120
//@ entry reuse cover=crossed,cancelled,again,reused jobs=8 max_seconds=120
//@ entry lifetimes cover=ioc,fok_filled,fok_killed jobs=8 max_seconds=120
//@ entry queue cover=cancelled,left jobs=8 max_seconds=60
//@ entry top cover=top
//@ entry wrong cover=quantity,limit,lot
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds books of 4 (thorough 5) prices, lots of 1, 2 or 100 times the denominator; every series of 4 (thorough 5) operations: orders of either side at any of the lowest 3 (4) prices with any quantity of 32 bits, and cancellations of any order ever placed; lifetimes: 2 resting orders, one of each lifetime, one more; reuse: the same for a book with two places and two prices; queue: 4 orders of one side at 2 prices, two cancellations, one order against them
//@ assume in all but the entry `top`: orders below the highest price (at the highest, insertion fails: known finding)
#include "book.hpp"
#include <esl/economics/markets/order_book/static_order_book.hpp>
static const iso_4217 usd({'U', 'S', 'D'}, 100);
static const int64_t low = 28;
static const unsigned prices = TH(3, 4);
static unsigned lot(unsigned i) { return i == 0 ? 100 : i == 1 ? 200 : 10000; }
static limit_order make(side_t s, int64_t p, uint32_t q, life_t l, uint64_t o, unsigned lt)
{
    return limit_order(ticker(), identity<agent>({o}), s, quote(price(p, usd), lt), q, l);
}
static void put(static_order_book &b, reference &m, unsigned lt, unsigned i, life_t l = life_t::good_until_cancelled, int side = -1, int64_t at = -1)
{
    if(side < 0) side = CHOOSE(2, nm("side", i));
    side_t s = side ? limit_order::sell : limit_order::buy;
    int64_t p = at >= 0 ? at : low + CHOOSE(prices, nm("p", i));
    uint32_t q = RANGE(1, UINT32_MAX, nm("q", i));
    b.insert(make(s, p, q, l, 100 + i, lt));
    size_t before = m.out.size();
    m.insert(s, p, q, l, 100 + i);
    if(m.out.size() > before + 1) COVER("crossed");
    if(m.out.size() == before + 3) COVER("partial");
    if(m.out.size() >= before + 4) COVER("several");
}
static unsigned capacity = 5;
#define BOOK const unsigned lt = lot(CHOOSE(3, "lot")); static_order_book b(quote(price(low, usd), lt), quote(price(low + prices, usd), lt), capacity); reference m; agree(b, m);
HARNESS(trade)
{
    BOOK
    for(unsigned i = 0; i < TH(4, 5); ++i) {
        unsigned k = CHOOSE(m.rest.size() + 1, nm("op", i));
        if(k < m.rest.size()) {
            if(m.rest[k].live) COVER("cancelled"); else COVER("again");
            b.cancel(m.rest[k].id);
            m.cancel(k);
        } else put(b, m, lt, i);
        agree(b, m);
    }
}
// a book for two orders: places and levels are used again
HARNESS(reuse)
{
    capacity = 2;
    BOOK
    unsigned placed = 0;
    for(unsigned i = 0; i < TH(4, 5); ++i) {
        unsigned live = 0;
        for(auto &r : m.rest) live += r.live;
        unsigned k = CHOOSE(m.rest.size() + (live < 2), nm("op", i));
        if(k < m.rest.size()) {
            if(m.rest[k].live) COVER("cancelled"); else COVER("again");
            b.cancel(m.rest[k].id);
            m.cancel(k);
        } else {
            put(b, m, lt, i, life_t::good_until_cancelled, -1, low + CHOOSE(2, nm("at", i)));
            if(m.rest.size() > 2) COVER("reused");
        }
        agree(b, m);
    }
}
HARNESS(lifetimes)
{
    BOOK
    put(b, m, lt, 0);
    agree(b, m);
    put(b, m, lt, 1);
    agree(b, m);
    life_t l = CHOOSE(2, "l") ? life_t::fill_or_kill : life_t::immediate_or_cancel;
    put(b, m, lt, 2, l);
    if(l == life_t::immediate_or_cancel) COVER("ioc");
    else if(m.out[0].state == execution_report::cancel) COVER("fok_killed"); else COVER("fok_filled");
    agree(b, m);
    put(b, m, lt, 3, life_t::good_until_cancelled, -1, low + 1);
    agree(b, m);
}
HARNESS(queue)
{
    BOOK
    int side = CHOOSE(2, "side");
    for(unsigned i = 0; i < 4; ++i) {
        int64_t p = low + CHOOSE(2, nm("at", i));
        put(b, m, lt, i, life_t::good_until_cancelled, side, p);
        agree(b, m);
    }
    for(unsigned i = 0; i < 2; ++i) {
        unsigned k = CHOOSE(4, nm("k", i));
        COVER("cancelled");
        b.cancel(m.rest[k].id);
        m.cancel(k);
        agree(b, m);
    }
    put(b, m, lt, 4, life_t::good_until_cancelled, 1 - side, side ? low + 1 : low);
    for(auto &r : m.rest) if(r.live && r.side == (side ? limit_order::sell : limit_order::buy)) COVER("left");
    agree(b, m);
}
// the highest price is a valid one
HARNESS(top)
{
    BOOK
    side_t s = CHOOSE(2, "s") ? limit_order::sell : limit_order::buy;
    uint32_t q = RANGE(1, UINT32_MAX, "q");
    COVER("top");
    int e = ends<esl::exception>([&] { b.insert(make(s, low + prices, q, life_t::good_until_cancelled, 100, lt)); });
    ASSERT(e == 0, "an order at the highest price is accepted");
    m.insert(s, low + prices, q, life_t::good_until_cancelled, 100);
    agree(b, m);
}
// refused orders change nothing
HARNESS(wrong)
{
    BOOK
    put(b, m, lt, 0);
    agree(b, m);
    side_t s = CHOOSE(2, "s") ? limit_order::sell : limit_order::buy;
    int64_t p = RANGE(0, 1 << 20, "p");
    uint32_t q = SYM_U32("q");
    switch(CHOOSE(3, "what")) {
    case 0: COVER("quantity"); q = 0; p = low; break;
    case 1: COVER("limit"); if(SYM_BOOL("above")) { ASSUME(p > low + prices); } else { ASSUME(p < low); } break;
    case 2: {
        uint32_t lot2 = SYM_U32("lot2");
        ASSUME(lot2 > 0 && lot2 != lt);
        limit_order o(ticker(), identity<agent>({7}), s, quote(price(p, usd), lot2), q);
        // refused by a report or, as every comparison of different lots, by an exception
        if(ends<esl::exception>([&] { b.insert(o); }) == 0) {
            ASSERT(b.reports.size() == 1 && b.reports[0].state == execution_report::invalid, "an order with another lot is refused");
            b.reports.clear();
        }
        COVER("lot");
        agree(b, m);
        return;
    }
    }
    b.insert(make(s, p, q, life_t::good_until_cancelled, 7, lt));
    ASSERT(b.reports.size() == 1 && b.reports[0].state == execution_report::invalid && b.reports[0].quantity == q && value(b.reports[0].limit) == p && b.reports[0].side == s, "a wrong order is refused");
    b.reports.clear();
    agree(b, m);
    uint64_t x = SYM_U64("x");
    ASSUME(x != m.rest[0].id);
    b.cancel(x);
    agree(b, m);
}
