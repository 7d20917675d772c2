// A reference order book: price, then time priority; trades at the resting limit.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <cassert>
#include <vector>
#include <esl/economics/markets/order_book/basic_book.hpp>
#include <esl/economics/markets/order_book/order.hpp>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::markets;
using namespace esl::economics::markets::order_book;
typedef limit_order::side_t side_t;
typedef limit_order::lifetime_t life_t;
struct resting { uint64_t id; side_t side; int64_t price; uint32_t q; uint64_t owner; bool live; };
struct expected { execution_report::state_t state; side_t side; uint32_t q; uint64_t id; int64_t price; uint64_t owner; };
static const uint64_t fresh = ~0ull - 1;
static int64_t value(const quote &q) { return std::get<price>(q.type).value; }
struct reference {
    std::vector<resting> rest;      // by arrival
    std::vector<expected> out;
    int best(side_t s) const
    {
        int b = -1;
        for(unsigned i = 0; i < rest.size(); ++i)
            if(rest[i].live && rest[i].side == s)
                if(b < 0 || (s == limit_order::buy ? rest[i].price > rest[b].price : rest[i].price < rest[b].price)) b = i;
        return b;
    }
    static bool crosses(side_t s, int64_t p, int64_t r) { return s == limit_order::buy ? p >= r : p <= r; }
    void insert(side_t s, int64_t p, uint32_t q, life_t l, uint64_t owner)
    {
        const side_t o = s == limit_order::buy ? limit_order::sell : limit_order::buy;
        if(l == life_t::fill_or_kill) {
            uint64_t have = 0;
            for(auto &r : rest) if(r.live && r.side == o && crosses(s, p, r.price)) have += r.q;
            if(have < q) { out.push_back({execution_report::cancel, s, q, basic_book::direct_order, p, owner}); return; }
        }
        while(q > 0) {
            int b = best(o);
            if(b < 0 || !crosses(s, p, rest[b].price)) break;
            resting &r = rest[b];
            uint32_t x = q < r.q ? q : r.q;
            out.push_back({execution_report::match, s, x, basic_book::direct_order, r.price, owner});
            out.push_back({execution_report::match, o, x, r.id, r.price, r.owner});
            q -= x;
            r.q -= x;
            if(r.q == 0) r.live = false;
        }
        if(q == 0) return;
        if(l != life_t::good_until_cancelled) out.push_back({execution_report::cancel, s, q, basic_book::direct_order, p, owner});
        else {
            out.push_back({execution_report::placement, s, q, fresh, p, owner});
            rest.push_back({fresh, s, p, q, owner, true});
        }
    }
    void cancel(unsigned k)
    {
        resting &r = rest[k];
        if(!r.live) return;
        out.push_back({execution_report::cancel, r.side, r.q, r.id, r.price, r.owner});
        r.live = false;
    }
};
// compares what the book reported since the last call, and its state, with the reference
template<class book_t> static void agree(book_t &b, reference &m)
{
    ASSERT(b.reports.size() == m.out.size(), "as many reports as events");
    for(unsigned i = 0; i < m.out.size(); ++i) {
        const execution_report &r = b.reports[i];
        const expected &e = m.out[i];
        ASSERT(r.state == e.state && r.side == e.side, "kind and side of a report");
        ASSERT(r.quantity == e.q, "quantity of a report");
        ASSERT(value(r.limit) == e.price, "price of a report");
        ASSERT(r.owner.digits.size() == 1 && r.owner.digits[0] == e.owner, "owner of a report");
        if(e.id == fresh) {
            ASSERT(r.identifier != basic_book::direct_order, "an order in the book has an identifier");
            resting *n = nullptr;
            for(auto &x : m.rest) {
                ASSERT(x.id == fresh || x.id != r.identifier, "identifiers are not repeated");
                if(x.id == fresh && !n) n = &x;
            }
            n->id = r.identifier;
        } else
            ASSERT(r.identifier == e.id, "identifier of a report");
    }
    b.reports.clear();
    m.out.clear();
    int x = m.best(limit_order::buy), y = m.best(limit_order::sell);
    auto bid = b.bid(), ask = b.ask();
    ASSERT(bid.has_value() == (x >= 0) && ask.has_value() == (y >= 0), "there is a best quote when there are orders");
    if(x >= 0) ASSERT(value(*bid) == m.rest[x].price, "best bid");
    if(y >= 0) ASSERT(value(*ask) == m.rest[y].price, "best ask");
    if(x >= 0 && y >= 0) ASSERT(value(*bid) < value(*ask), "the book is not crossed");
    std::vector<uint64_t> ids = b.orders(), want;
    for(auto &r : m.rest) if(r.live) want.push_back(r.id);
    std::sort(ids.begin(), ids.end());
    std::sort(want.begin(), want.end());
    ASSERT(ids == want, "the orders in the book are those placed and neither executed nor cancelled");
}
