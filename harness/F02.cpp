//@ entry cash_value cover=domestic,foreign,unknown jobs=4
//@ entry stock_value cover=gain,debt,unknown jobs=4
//@ entry lending_value cover=short,unknown jobs=4
//@ entry money_amounts jobs=4
//@ sources esl/economics/company.cpp esl/economics/finance/shareholder.cpp esl/economics/finance/bondholder.cpp esl/economics/finance/bond.cpp esl/economics/finance/stock.cpp esl/economics/finance/security.cpp esl/economics/finance/dividend.cpp esl/economics/accounting/standard.cpp esl/economics/asset.cpp esl/economics/price.cpp esl/economics/iso_4217.cpp esl/economics/currencies.cpp esl/economics/owner.cpp esl/economics/money.cpp esl/economics/cash.cpp esl/law/property.cpp esl/law/contract.cpp esl/law/legal_person.cpp esl/law/organization.cpp esl/interaction/communicator.cpp esl/agent.cpp esl/data/producer.cpp esl/simulation/entity.cpp
//@ native esl/data/output_base.cpp esl/data/channel.cpp
//@ flags -include functional
//@ bounds quantities below 2^30, prices within 2^30 of zero, lots of 1, 2, 3, 10 and 100, sizes of lending contracts up to 1000, loans up to 2^50; exchange rates with numerator and denominator up to 12; two currencies of equal denominators
#include "common.hpp"
#include <cassert>
#include <vector>
#include <esl/economics/accounting/standard.hpp>
#include <esl/economics/finance/securities_lending_contract.hpp>
using namespace esl;
using namespace esl::economics;
using namespace esl::economics::finance;
using accounting::standard;
static const iso_4217 USD(std::array<char, 3>{'U', 'S', 'D'}, 100), EUR(std::array<char, 3>{'E', 'U', 'R'}, 100);
static const unsigned LOTS[] = {1, 2, 3, 10, 100};
static int64_t around(const char *n)
{
    uint64_t v = RANGE(0, 1ull << 31, n);
    return (int64_t)v - (1ll << 30);
}
HARNESS(cash_value)
{
    standard s(USD);
    uint64_t q = RANGE(0, (1ull << 30) - 1, "q");
    unsigned num = 1 + CHOOSE(12, "num"), den = 1 + CHOOSE(12, "den");
    bool known = CHOOSE(2, "known");
    if(known) s.foreign_currencies.emplace(EUR, exchange_rate(num, den));
    cash d(USD), f(EUR);
    price p = s.value(d, quantity(q));
    ASSERT(p.value == (int64_t)q && p.valuation == USD, "domestic cash is worth its amount");
    p = s.value((const money &)d, quantity(q));
    ASSERT(p.value == (int64_t)q && p.valuation == USD, "domestic money is worth its amount");
    COVER("domestic");
    if(known) {
        p = s.value(f, quantity(q));
        ASSERT(p.value == (int64_t)(q * num / den), "foreign cash is worth its amount at the exchange rate");
        ASSERT(p.valuation == USD, "foreign cash is valued in the reporting currency");
        COVER("foreign");
    } else {
        int e = ends<std::domain_error>([&] { (void)s.value(f, quantity(q)); });
        ASSERT(e == 1, "money without an exchange rate is not valued");
        COVER("unknown");
    }
}
HARNESS(stock_value)
{
    standard s(USD);
    stock a(identity<law::property>({4}), identity<company>({1}), share_class()), b(identity<law::property>({5}), identity<company>({1}), share_class());
    const unsigned lot = LOTS[CHOOSE(5, "lot")];
    int64_t v = around("price");
    uint64_t q = RANGE(0, (1ull << 30) - 1, "q");
    s.mark_to_market.emplace(a.identifier, markets::quote(price(v, EUR), lot));
    price p = s.value(a, quantity(q));
    ASSERT(p.value == v * (int64_t)q / (int64_t)lot, "shares are worth their price by lot");
    ASSERT(p.valuation == EUR, "shares are valued in the currency they are quoted in");
    if(v < 0) COVER("debt"); else COVER("gain");
    int e = ends<std::logic_error>([&] { (void)s.value(b, quantity(q)); });
    ASSERT(e == 1, "shares without a price are not valued");
    COVER("unknown");
}
HARNESS(lending_value)
{
    standard s(USD);
    const unsigned lot = LOTS[CHOOSE(5, "lot")];
    int64_t v = around("price");
    uint64_t q = RANGE(0, (1ull << 20) - 1, "q"), size = 1 + RANGE(0, 999, "size");
    identity<law::property> a({4}), b({5});
    securities_lending_contract c(identity<agent>({1}), identity<agent>({2}), a, quantity(size)), d(identity<agent>({1}), identity<agent>({2}), b, quantity(size));
    ASSERT(c.identifier != d.identifier && c.security == a && c.size.amount == size, "contracts for different securities differ");
    s.mark_to_market.emplace(a, markets::quote(price(v, USD), lot));
    price p = s.value(c, quantity(q));
    ASSERT(p.value == -(v * (int64_t)size * (int64_t)q / (int64_t)lot) && p.valuation == USD, "lent shares are owed at their price by lot");
    int e = ends<std::logic_error>([&] { (void)s.value(d, quantity(q)); });
    ASSERT(e == 1, "shares without a price are not valued");
    COVER("unknown");
    loan l(identity<agent>({1}), identity<agent>({2}));
    ASSERT(l.lender() == identity<agent>({1}) && l.borrower() == identity<agent>({2}), "a loan knows lender and borrower");
    uint64_t lent = RANGE(0, (1ull << 50) - 1, "lent");
    p = s.value(l, quantity(lent));
    ASSERT(p.value == -(int64_t)lent * 100 && p.valuation == USD, "a loan is owed in whole units of the reporting currency");
    COVER("short");
}
HARNESS(money_amounts)
{
    const unsigned den = CHOOSE(2, "den") ? 8 : 1;
    const iso_4217 cur(std::array<char, 3>{'X', 'A', 'U'}, den);
    cash m(cur), n(iso_4217(std::array<char, 3>{'X', 'A', 'G'}, den));
    uint64_t q = RANGE(0, 1ull << 40, "q");
    price p = m.price(quantity(q));
    ASSERT(p.value == (int64_t)q && p.valuation == cur, "a quantity of money has its price");
    uint64_t drawn = RANGE(0, 1ull << 41, "eighths");
    int64_t e = (int64_t)drawn - (1ll << 40);
    double real = (double)e / 8;
    p = m.price(real);
    ASSERT(p.value == e * (int64_t)den / 8 && p.valuation == cur, "a real amount is rounded towards zero to units of the currency");
    if(e >= 0) ASSERT(m.amount(real).amount == (uint64_t)(e * (int64_t)den / 8), "a real amount is rounded towards zero to units of the currency");
    ASSERT(m == cash(cur) && !(m == n), "cash is equal exactly in the same currency");
    ASSERT((money &)m != (money &)n && !((money &)m != (money &)m), "money is equal exactly in the same currency");
    ASSERT(m.identifier == cash(cur).identifier && m.identifier != n.identifier, "cash is identified by its currency");
}
