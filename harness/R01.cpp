//@ entry sequences cover=several,none
//@ entry sets cover=several
//@ entry tables cover=several
//@ entry tuples
//@ entry outputs cover=written,buffered
//@ entry fields cover=quoted,plain
//@ sources esl/data/output_base.cpp
//@ native esl/data/channel.cpp
//@ bounds containers of up to 3 (thorough 5) elements of any value; outputs of one and two variables with up to 2 streams, 2 (thorough 3) values at times up to 999; fields of up to 4 (thorough 6) characters, with the usual and with other delimiter, quote and escape
#include "common.hpp"
#include <ostream>
#include <sstream>
#include <streambuf>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
// each element shows as '@', and is noted
static std::vector<uint64_t> *shown;
struct item {
    uint64_t n = 0;
    bool operator==(const item &o) const { return n == o.n; }
    bool operator<(const item &o) const { return n < o.n; }
};
static std::ostream &operator<<(std::ostream &o, const item &i)
{
    shown->push_back(i.n);
    return o << '@';
}
namespace std {
template<> struct hash<item> { size_t operator()(const item &i) const { return i.n; } };
}
#include <esl/data/representation.hpp>
#include <esl/data/format/delimiter_separated_values.hpp>
#include <esl/data/output.hpp>
#include <esl/data/stream.hpp>
struct line : std::streambuf {
    std::string text;
    int_type overflow(int_type c) override { text.push_back((char)c); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { text.append(s, n); return n; }
};
template<class T> static void check(const T &x, const std::vector<uint64_t> &want, const char *open, const char *between, const char *close, const char *pair = nullptr)
{
    line l;
    std::ostream o(&l);
    std::vector<uint64_t> seen;
    shown = &seen;
    o << x;
    std::string t = open;
    for(size_t i = 0; i < want.size(); ++i) {
        if(i) t += pair && i % 2 ? pair : between;
        t += '@';
    }
    t += close;
    ASSERT(seen.size() == want.size(), "every element is shown once");
    for(size_t i = 0; i < want.size(); ++i) ASSERT(seen[i] == want[i], "the elements are shown in their order");
    ASSERT(l.text == t, "the elements are shown between brackets, with separators");
}
static std::vector<item> draw(std::vector<uint64_t> &want)
{
    std::vector<item> v;
    unsigned n = CHOOSE(TH(4, 6), "n");
    for(unsigned i = 0; i < n; ++i) {
        v.push_back({SYM_U64(nm("x", i))});
        want.push_back(v.back().n);
    }
    if(n > 1) COVER("several");
    if(!n) COVER("none");
    return v;
}
HARNESS(sequences)
{
    esx_format = 1;
    std::vector<uint64_t> want;
    const std::vector<item> v = draw(want);
    check(v, want, "[", ", ", "]");
    std::queue<item> q;
    for(auto &i : v) q.push(i);
    check(q, want, "[", ", ", "]");
    ASSERT(q.size() == v.size(), "a queue is left as it was");
    check(std::list<item>(v.begin(), v.end()), want, "[", " <-> ", "]");
    check(std::forward_list<item>(v.begin(), v.end()), want, "[", " -> ", "]");
    if(v.size() == 3) check(std::array<item, 3>{v[0], v[1], v[2]}, want, "[", ", ", "]");
    if(v.size() == 1) check(std::array<item, 1>{v[0]}, want, "[", ", ", "]");
}
HARNESS(sets)
{
    esx_format = 1;
    std::vector<uint64_t> unsorted, want;
    const std::vector<item> v = draw(unsorted);
    const std::set<item> s(v.begin(), v.end());
    for(auto &i : s) want.push_back(i.n);
    check(s, want, "{", ", ", "}");
    std::unordered_set<item> u;
    for(auto &i : v) u.insert(item{i.n & 7});
    want.clear();
    for(auto &i : u) want.push_back(i.n);
    check(u, want, "{", ", ", "}");
}
template<class T> static void table(const T &m)
{
    std::vector<uint64_t> want;
    for(auto &[k, v] : m) { want.push_back(k.n); want.push_back(v.n); }
    check(m, want, "{", ", ", "}", ": ");
}
HARNESS(tables)
{
    esx_format = 1;
    std::vector<uint64_t> keys;
    const std::vector<item> v = draw(keys);
    std::map<item, item> m;
    boost::container::flat_map<item, item> f;
    std::unordered_map<item, item> u;
    for(unsigned i = 0; i < v.size(); ++i) {
        item x{SYM_U64(nm("y", i))};
        m.emplace(v[i], x);
        f.emplace(v[i], x);
        u.emplace(item{v[i].n & 7}, x);
    }
    table(m);
    table(f);
    table(u);
}
HARNESS(tuples)
{
    esx_format = 1;
    item a{SYM_U64("a")}, b{SYM_U64("b")}, c{SYM_U64("c")};
    check(std::make_tuple(a), {a.n}, "(", ", ", ")");
    check(std::make_tuple(a, b), {a.n, b.n}, "(", ", ", ")");
    check(std::make_tuple(a, b, c), {a.n, b.n, c.n}, "(", ", ", ")");
    check(std::make_tuple(std::vector<item>{a, b}), {a.n, b.n}, "([", ", ", "])");
}
template<class O, class... V> static void put(O &out, std::vector<uint64_t> &want, std::string &text, unsigned streams, uint64_t t, V... v)
{
    std::string at;
    for(uint64_t d = t, k = 0; k == 0 || d; ++k) { at.insert(at.begin(), char('0' + d % 10)); d /= 10; }
    out.put(t, v...);
    if(out.buffered) return;
    for(uint64_t n : {v.n...}) {
        for(unsigned k = 0; k < streams; ++k) want.push_back(n);
        text += "(" + at + ", @)\n";
    }
}
HARNESS(outputs)
{
    esx_format = 1;
    const bool buffered = CHOOSE(2, "buffered");
    const unsigned streams = CHOOSE(3, "streams"), n = TH(2, 3);
    line l[2];
    std::ostream o[2]{std::ostream(&l[0]), std::ostream(&l[1])};
    esl::data::output<item> one("one", buffered);
    esl::data::output<item, item> two("two", buffered);
    const bool pair = CHOOSE(2, "pair");
    esl::data::output_base &out = pair ? static_cast<esl::data::output_base &>(two) : one;
    ASSERT(out.name == (pair ? "two" : "one") && out.buffered == buffered, "an output keeps its name");
    for(unsigned k = 0; k < streams; ++k) out.streams.push_back(std::make_shared<esl::data::stream>(o[k]));
    std::vector<uint64_t> want, seen;
    shown = &seen;
    std::string text;
    uint64_t t[3], x[3], y[3];
    for(unsigned i = 0; i < n; ++i) {
        t[i] = RANGE(0, 999, nm("t", i));
        x[i] = SYM_U64(nm("x", i));
        y[i] = SYM_U64(nm("y", i));
        if(pair) put(two, want, text, streams, t[i], item{x[i]}, item{y[i]});
        else put(one, want, text, streams, t[i], item{x[i]});
    }
    ASSERT((pair ? two.values.size() : one.values.size()) == n, "an output keeps every value");
    for(unsigned i = 0; i < n; ++i) {
        if(pair) ASSERT(std::get<0>(two.values[i]) == t[i] && std::get<1>(two.values[i]).n == x[i] && std::get<2>(two.values[i]).n == y[i], "an output keeps its values and their times in order");
        else ASSERT(std::get<0>(one.values[i]) == t[i] && std::get<1>(one.values[i]).n == x[i], "an output keeps its values and their times in order");
    }
    ASSERT(seen.size() == want.size(), "every value is written once to every stream unless buffered");
    for(unsigned i = 0; i < want.size(); ++i) ASSERT(seen[i] == want[i], "values are written in order");
    for(unsigned k = 0; k < 2; ++k) ASSERT(l[k].text == (k < streams ? text : std::string()), "each value is written with its time");
    if(buffered) COVER("buffered"); else if(streams) COVER("written");
}
HARNESS(fields)
{
    esx_format = 1;
    unsigned n = CHOOSE(TH(5, 7), "n");
    const bool usual = CHOOSE(2, "usual") == 0;
    const char delimiter = usual ? ',' : ';', quote = usual ? '"' : '\'', escape = usual ? '\\' : '^';
    std::string t(n, ' ');
    for(unsigned i = 0; i < n; ++i) t[i] = (char)SYM_U8(nm("c", i));
    namespace dsv = esl::data::format::delimiter_separated_values;
    const std::string r = usual ? dsv::render(t) : dsv::render(t, delimiter, quote, escape);
    std::string back;
    bool inside = false;
    for(size_t i = 0; i < r.size(); ++i) {
        if(r[i] == quote) { inside = !inside; continue; }
        if(r[i] == escape) {
            ++i;
            ASSERT(i < r.size(), "something follows an escape");
        } else if(r[i] == delimiter) ASSERT(inside, "a delimiter within a field is between quotes");
        back.push_back(r[i]);
    }
    ASSERT(!inside, "quotes are closed");
    ASSERT(back == t, "the text of a field is read back");
    if(!r.empty() && r[0] == quote) COVER("quoted"); else COVER("plain");
}
