//@ entry parties cover=moved,self,refused,stranger,new,gone jobs=8
//@ entry filters cover=in,out,self,refused,house,both jobs=8
//@ entry take cover=again,new
//@ entry stock cover=merge,refused,zero jobs=8
//@ sources esl/economics/owner.cpp esl/economics/asset.cpp esl/law/property.cpp esl/interaction/transfer.cpp esl/interaction/communicator.cpp esl/agent.cpp esl/data/producer.cpp esl/simulation/entity.cpp
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ bounds 3 owners, 2 fungible properties and 1 infungible, every quantity below 2^60 held and transferred, the parties and their order; 2 (thorough 3) transfers in a row to and from an owner with filters; 2 (thorough 3) insertions and withdrawals of a stock
#include "common.hpp"
#include <cassert>
#include <vector>
#include <esl/economics/owner.hpp>
#include <esl/economics/fungibility.hpp>
#include <esl/interaction/transfer.hpp>
using namespace esl;
using namespace esl::economics::accounting;
using esl::interaction::transfer;
using esl::law::property;
typedef law::owner<property> holder;
struct apple : property, economics::fungible { using property::property; };
struct house : property, economics::infungible { using property::property; };
static const uint64_t LIMIT = 1ull << 60;
static uint64_t amount(const char *name)
{
    uint64_t a = SYM_U64(name);
    ASSUME(a < LIMIT);
    return a;
}
template<class M, class K> static uint64_t held(const M &m, const std::shared_ptr<K> &p)
{
    auto i = m.find(p);
    return i == m.end() ? 0 : i->second.amount;
}
static void deliver(holder &h, std::shared_ptr<transfer> t)
{
    std::seed_seq seed{1};
    h.process_message(t, {0, 10}, seed);
}
HARNESS(parties)
{
    std::vector<std::shared_ptr<holder>> o;
    for(uint64_t i = 0; i < 3; ++i) o.push_back(std::make_shared<holder>(identity<holder>({i + 1})));
    std::shared_ptr<property> p[2];
    for(uint64_t k = 0; k < 2; ++k) p[k] = std::make_shared<property>(identity<property>({9, k}));
    unsigned from = CHOOSE(3, "from"), to = CHOOSE(2, "to");
    if(from == 2) to = 2 * to; // a transfer to itself, or from the third
    uint64_t before[3][2] = {}, asked[2] = {};
    for(unsigned i = 0; i < 3; ++i)
        for(unsigned k = 0; k < 2; ++k)
            if((i != 2 || from == 2) && CHOOSE(2, nm("has", 2 * i + k))) {
                before[i][k] = amount(nm("held", 2 * i + k));
                o[i]->inventory.insert({p[k], quantity(before[i][k])});
            }
    inventory_filter<property> items;
    for(unsigned k = 0; k < 2; ++k)
        if(CHOOSE(2, nm("part", k))) {
            asked[k] = amount(nm("asked", k));
            // an equal property, not the same object
            items.insert(std::make_shared<property>(p[k]->identifier), quantity(asked[k]));
        }
    auto t = std::make_shared<transfer>(o[from]->identifier, o[to]->identifier, identity<holder>(o[from]->identifier.digits), identity<holder>(o[to]->identifier.digits), items);
    bool enough = true;
    for(unsigned k = 0; k < 2; ++k) enough = enough & (before[from][k] >= asked[k]);
    if(from == to) COVER("self");
    unsigned first = CHOOSE(2, "first");
    for(unsigned n = 0; n < 3; ++n) {
        unsigned i = first ? 2 - n : n;
        bool refused = false;
        uint64_t was = 0, wanted = 0;
        identity<property> which;
        try {
            deliver(*o[i], t);
        } catch(const insufficent_inventory &e) {
            refused = true;
            was = e.before.amount;
            wanted = e.withdrawal.amount;
            which = e.identifier;
        }
        if(i != from || from == to) ASSERT(!refused, "only who transfers can lack the property");
        else {
            ASSERT(refused == !enough, "a transfer is refused exactly when more is asked than is held");
            if(refused) {
                COVER("refused");
                unsigned k = which == p[0]->identifier ? 0 : 1;
                ASSERT(which == p[k]->identifier && was == before[from][k] && wanted == asked[k], "the refusal tells what was held and what was asked");
                ASSERT(held(o[i]->inventory, p[k]) == before[i][k], "what is refused is not taken");
                return;
            }
        }
        if(i != from && i != to) COVER("stranger");
    }
    for(unsigned i = 0; i < 3; ++i)
        for(unsigned k = 0; k < 2; ++k) {
            uint64_t after = held(o[i]->inventory, p[k]);
            uint64_t expected = before[i][k];
            if(from != to && i == from) expected -= asked[k];
            if(from != to && i == to) expected += asked[k];
            if(before[i][k] == 0 && after) COVER("new");
            if(before[i][k] && after == 0) COVER("gone");
            ASSERT(after == expected, "a transfer moves exactly what it lists");
        }
    if(from != to) COVER("moved");
}
struct trader : public virtual law::owner<apple>, public virtual law::owner<house> {
    explicit trader(const identity<holder> &i) : agent(identity<agent>(i.digits)), holder(i), law::owner<apple>(i), law::owner<house>(i) {}
};
HARNESS(filters)
{
    trader h(identity<holder>({1}));
    identity<holder> me({1}), other({2});
    std::shared_ptr<apple> a[2];
    for(uint64_t k = 0; k < 2; ++k) a[k] = std::make_shared<apple>(identity<property>({9, k}));
    std::shared_ptr<house> b;
    // the house before or after the apples
    if(CHOOSE(2, "later")) b = std::make_shared<house>(identity<property>({9, 2}));
    else b = std::make_shared<house>(identity<property>({8}));
    uint64_t has[2] = {0, 0};
    bool owns = false;
    for(unsigned n = 0; n < TH(2, 3); ++n) {
        // an apple of either kind, the house, or the house and an apple
        unsigned kind = CHOOSE(3, nm("kind", n)), what = CHOOSE(4, nm("what", n));
        bool house_too = what >= 2, apple_too = what != 2;
        unsigned which = what == 3 ? 0 : what;
        inventory_filter<property> items;
        uint64_t q = 0;
        if(house_too) {
            if(kind == 0 && owns) return;
            if(kind != 0 && !owns) return;
            items.insert(b, quantity(1));
            COVER("house");
        }
        if(apple_too) {
            q = amount(nm("q", n));
            items.insert(a[which], quantity(q));
            if(house_too) COVER("both");
        }
        const identity<holder> &from = kind == 0 ? other : me, &to = kind == 1 ? other : me;
        auto t = std::make_shared<transfer>(identity<agent>(from.digits), identity<agent>({1}), from, to, items);
        int e = ends<insufficent_inventory>([&] { deliver(h, t); });
        if(kind == 1 && apple_too) {
            ASSERT(e == (q > has[which] ? 1 : 0), "a transfer is refused exactly when more is asked than is held");
        } else ASSERT(e == 0, "only a transfer to another of more than is held is refused");
        if(kind == 0) { COVER("in"); if(apple_too) has[which] += q; if(house_too) owns = true; }
        if(kind == 1 && e == 0) { COVER("out"); if(apple_too) has[which] -= q; if(house_too) owns = false; }
        if(kind == 2) COVER("self");
        if(e == 1) COVER("refused");
        // what else a refused transfer lists may have left already
        if(e == 1 && what == 3) return;
        for(unsigned k = 0; k < 2; ++k) {
            ASSERT(held(h.inventory, std::shared_ptr<property>(a[k])) == has[k], "the inventory has what was received and not sent");
            ASSERT(held(h.law::owner<apple>::properties.items, a[k]) == has[k], "the properties of a type are those in the inventory");
        }
        ASSERT(held(h.inventory, std::shared_ptr<property>(b)) == (owns ? 1 : 0), "the inventory has what was received and not sent");
        ASSERT(h.law::owner<house>::properties.items.size() == (owns ? 1 : 0), "the properties of a type are those in the inventory");
    }
}
HARNESS(take)
{
    law::owner<apple> h(identity<holder>({1}));
    std::shared_ptr<apple> a[2];
    for(uint64_t k = 0; k < 2; ++k) a[k] = std::make_shared<apple>(identity<property>({9, k}));
    uint64_t has[2] = {0, 0};
    for(unsigned n = 0; n < 2; ++n) {
        unsigned k = CHOOSE(2, nm("what", n));
        uint64_t q = amount(nm("q", n));
        if(has[k]) COVER("again"); else COVER("new");
        h.take(a[k], quantity(q));
        has[k] += q;
        for(unsigned j = 0; j < 2; ++j) {
            ASSERT(held(h.inventory, std::shared_ptr<property>(a[j])) == has[j], "the inventory has all that was taken");
            ASSERT(held(h.properties.items, a[j]) == has[j], "the properties of a type are those in the inventory");
        }
    }
}
HARNESS(stock)
{
    std::shared_ptr<apple> a[2];
    for(uint64_t k = 0; k < 2; ++k) a[k] = std::make_shared<apple>(identity<property>({9, k}));
    inventory_filter<apple> s;
    uint64_t has[2] = {0, 0};
    for(unsigned n = 0; n < TH(2, 3); ++n) {
        unsigned out = CHOOSE(2, nm("out", n)), what = CHOOSE(3, nm("what", n));
        uint64_t q[2] = {0, 0};
        for(unsigned k = 0; k < 2; ++k) if(what == 2 || what == k) q[k] = amount(nm("q", 2 * n + k));
        inventory_filter<apple> other;
        if(what == 2) {
            COVER("merge");
            for(unsigned k = 0; k < 2; ++k) other.insert(a[k], quantity(q[k]));
        }
        bool enough = !out | ((has[0] >= q[0]) & (has[1] >= q[1]));
        int e = ends<insufficent_inventory>([&] {
            if(what == 2) { if(out) s.erase(other); else s.insert(other); }
            else if(out) s.erase(a[what], quantity(q[what]));
            else s.insert(a[what], quantity(q[what]));
        });
        ASSERT(e == (enough ? 0 : 1), "a withdrawal is refused exactly when more is asked than is held");
        if(e) { COVER("refused"); return; }
        if(out && what != 2 && q[what] == 0) COVER("zero");
        for(unsigned k = 0; k < 2; ++k) {
            has[k] = out ? has[k] - q[k] : has[k] + q[k];
            ASSERT(held(s.items, a[k]) == has[k], "a stock has what went in and not out");
        }
    }
    // into and out of an inventory
    law::property_map<quantity> m;
    s.insert_into(m);
    s.insert_into(m);
    for(unsigned k = 0; k < 2; ++k) ASSERT(held(m, std::shared_ptr<property>(a[k])) == 2 * has[k], "an inventory gains the whole stock");
    s.erase_from(m);
    for(unsigned k = 0; k < 2; ++k) ASSERT(held(m, std::shared_ptr<property>(a[k])) == has[k], "an inventory loses the whole stock");
}
