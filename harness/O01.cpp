//@ entry trade cover=crossed,partial,several,cancelled jobs=8 max_seconds=200
//@ entry lifetimes fork=1 cover=ioc,fok_filled,fok_killed jobs=4 max_seconds=60
//@ entry nothing
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds every series of 5 (thorough up to 6, as far as the time allows) operations: orders of either side with any limit below 2^30, any quantity of 32 bits and distinct owners, and cancellations of any order ever placed; lifetimes: 2 resting orders and one of each lifetime; lot of 7
#include "book.hpp"
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
static const iso_4217 usd({'U', 'S', 'D'}, 100);
static side_t put(binary_tree_order_book &b, reference &m, unsigned i, life_t l = life_t::good_until_cancelled)
{
    side_t s = CHOOSE(2, nm("side", i)) ? limit_order::sell : limit_order::buy;
    int64_t p = RANGE(0, (1 << 30) - 1, nm("p", i));
    uint32_t q = RANGE(1, UINT32_MAX, nm("q", i));
    limit_order o(ticker(), identity<agent>({100 + i}), s, quote(price(p, usd), 7), q, l);
    b.insert(o);
    size_t before = m.out.size();
    m.insert(s, p, q, l, 100 + i);
    if(m.out.size() > before + 1) COVER("crossed");
    if(m.out.size() == before + 3) COVER("partial");
    if(m.out.size() >= before + 4) COVER("several");
    return s;
}
HARNESS(trade)
{
    binary_tree_order_book b;
    reference m;
    for(unsigned i = 0; i < TH(5, 6); ++i) {
        unsigned k = CHOOSE(m.rest.size() + 1, nm("op", i));
        if(k < m.rest.size()) {
            if(m.rest[k].live) COVER("cancelled");
            b.cancel(m.rest[k].id);
            m.cancel(k);
        } else put(b, m, i);
        agree(b, m);
    }
}
HARNESS(lifetimes)
{
    binary_tree_order_book b;
    reference m;
    put(b, m, 0);
    agree(b, m);
    put(b, m, 1);
    agree(b, m);
    life_t l = CHOOSE(2, "l") ? life_t::fill_or_kill : life_t::immediate_or_cancel;
    put(b, m, 2, l);
    if(l == life_t::immediate_or_cancel) COVER("ioc");
    else if(m.out[0].state == execution_report::cancel) COVER("fok_killed"); else COVER("fok_filled");
    agree(b, m);
    put(b, m, 3);
    agree(b, m);
}
HARNESS(nothing)
{
    binary_tree_order_book b;
    reference m;
    agree(b, m);
    put(b, m, 0);
    agree(b, m);
    side_t s = CHOOSE(2, "s") ? limit_order::sell : limit_order::buy;
    int64_t p = RANGE(0, (1 << 30) - 1, "p");
    limit_order o(ticker(), identity<agent>({7}), s, quote(price(p, usd), 7), 0);
    b.insert(o);
    agree(b, m);
    uint64_t x = SYM_U64("x");
    bool own = false;
    for(auto &r : m.rest) own = own | (r.id == x);
    ASSUME(!own);
    b.cancel(x);
    agree(b, m);
}
