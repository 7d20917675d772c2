//@ entry children cover=deep
//@ entry copies
//@ bounds parents of 0 to 3 numbers, every 64-bit value; 4 children made in a row through either interface (thorough 6), two generations
#include "common.hpp"
#include <esl/simulation/entity.hpp>
struct thing : esl::entity<thing> { using esl::entity<thing>::entity; thing(const thing &o) : esl::entity<thing>(o) {} };
typedef esl::identity<thing> id;
static id parent(const char *len, const char *n)
{
    unsigned k = CHOOSE(4, len);
    std::vector<uint64_t> d;
    for(unsigned i = 0; i < k; ++i) d.push_back(SYM_U64(nm(n, i)));
    return id(d);
}
HARNESS(children)
{
    const unsigned N = TH(4, 6);
    id p = parent("np", "p"), q = parent("nq", "q");
    ASSUME(!(p == q));
    thing a(p), b(q);
    std::vector<id> kids;
    for(unsigned i = 0; i < N; ++i) {
        id k = a.create<thing>();
        ASSERT(k.digits.size() == p.digits.size() + 1, "a child's identity extends its parent's");
        bool pre = true;
        for(size_t j = 0; j < p.digits.size(); ++j) pre = pre & (k[j] == p[j]);
        ASSERT(pre, "a child's identity starts with its parent's");
        for(auto &o : kids) ASSERT(!(o == k) && o < k, "siblings have different, increasing identities");
        ASSERT(!(k == p) && p < k, "a child differs from its parent");
        kids.push_back(k);
    }
    ASSERT(a.identifier == p, "making children leaves the parent as it is");
    id o = b.create<thing>();
    if(p.digits.size() == q.digits.size())
        for(auto &k : kids) ASSERT(!(k == o), "children of different parents of one generation differ");
    thing c(kids[0]), d(kids[1]);
    id g = c.create<thing>(), h = d.create<thing>();
    ASSERT(!(g == h), "cousins differ");
    for(auto &k : kids) ASSERT(!(k == g) && !(k == h), "grandchildren differ from children");
    COVER("deep");
}
HARNESS(copies)
{
    id p = parent("np", "p");
    thing a(p);
    id k = a.create<thing>();
    thing c(a);
    ASSERT(c == a && !(c != a) && c.identifier == p, "a copy is the same entity");
    id m = c.create<thing>();
    ASSERT(!(m == k), "a copy does not hand out an identity again that was taken before");
    id q = parent("nq", "q");
    thing b(q);
    ASSERT((a == b) == (p == q), "entities are equal exactly when their identities are");
    ASSERT((a != b) == !(p == q), "entities differ exactly when their identities do");
    thing e(id(std::vector<uint64_t>(p.digits)));
    ASSERT(std::hash<esl::entity<thing>>()(a) == std::hash<esl::entity<thing>>()(e), "equal entities hash alike");
}
