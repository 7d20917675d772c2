// Bit-blasting front line: integer bit-vector queries are translated to CNF
// (each expression once, cached) and decided by MiniSat under assumptions.
// Queries it does not finish within its budget go to Z3 / cvc5.
#include "solver.h"
#include <minisat/core/Solver.h>

using Minisat::Lit;
using Minisat::mkLit;
typedef Minisat::lbool mlbool;

namespace {
Minisat::Solver *sat = nullptr;
Lit T;
typedef std::vector<Lit> Bits;
std::unordered_map<Expr *, Bits> bits;
struct PairHash { size_t operator()(const std::pair<int, int> &p) const { return (size_t)p.first * 0x9E3779B97F4A7C15ull ^ (size_t)p.second * 0xC2B2AE3D27D4EB4Full; } };
std::unordered_map<std::pair<int, int>, Lit, PairHash> ands, xors;
uint64_t clauses = 0;

Lit F() { return ~T; }
bool isT(Lit a) { return a == T; }
bool isF(Lit a) { return a == ~T; }
Lit fresh() { return mkLit(sat->newVar()); }
void reset()
{
    delete sat;
    sat = new Minisat::Solver();
    bits.clear();
    ands.clear();
    xors.clear();
    clauses = 0;
    T = fresh();
    sat->addClause(T);
}
void cl(Lit a, Lit b) { ++clauses; sat->addClause(a, b); }
void cl(Lit a, Lit b, Lit c) { ++clauses; sat->addClause(a, b, c); }

Lit And(Lit a, Lit b)
{
    if(isF(a) || isF(b)) return F();
    if(isT(a)) return b;
    if(isT(b)) return a;
    if(a == b) return a;
    if(a == ~b) return F();
    if(b < a) std::swap(a, b);
    auto &s = ands[{Minisat::toInt(a), Minisat::toInt(b)}];
    if(s.x) return s;
    Lit r = fresh();
    cl(~r, a); cl(~r, b); cl(r, ~a, ~b);
    s = r;
    return r;
}
Lit Or(Lit a, Lit b) { return ~And(~a, ~b); }
Lit Xor(Lit a, Lit b)
{
    if(isF(a)) return b;
    if(isF(b)) return a;
    if(isT(a)) return ~b;
    if(isT(b)) return ~a;
    if(a == b) return F();
    if(a == ~b) return T;
    bool neg = Minisat::sign(a) ^ Minisat::sign(b);
    if(Minisat::sign(a)) a = ~a;
    if(Minisat::sign(b)) b = ~b;
    if(b < a) std::swap(a, b);
    auto &s = xors[{Minisat::toInt(a), Minisat::toInt(b)}];
    if(!s.x) {
        Lit r = fresh();
        cl(~r, a, b); cl(~r, ~a, ~b); cl(r, ~a, b); cl(r, a, ~b);
        s = r;
    }
    return neg ? ~s : s;
}
Lit Mux(Lit c, Lit a, Lit b)
{
    if(isT(c)) return a;
    if(isF(c)) return b;
    if(a == b) return a;
    if(isT(a)) return Or(c, b);
    if(isF(a)) return And(~c, b);
    if(isT(b)) return Or(~c, a);
    if(isF(b)) return And(c, a);
    if(a == ~b) return Xor(c, b);
    Lit r = fresh();
    cl(~c, ~a, r); cl(~c, a, ~r); cl(c, ~b, r); cl(c, b, ~r);
    cl(a, b, ~r); cl(~a, ~b, r);
    return r;
}
Lit Maj(Lit a, Lit b, Lit c)
{
    if(isF(a)) return And(b, c);
    if(isT(a)) return Or(b, c);
    if(isF(b)) return And(a, c);
    if(isT(b)) return Or(a, c);
    if(isF(c)) return And(a, b);
    if(isT(c)) return Or(a, b);
    if(a == b) return a;
    if(a == c) return a;
    if(b == c) return b;
    if(a == ~b) return c;
    if(a == ~c) return b;
    if(b == ~c) return a;
    Lit r = fresh();
    cl(~a, ~b, r); cl(~a, ~c, r); cl(~b, ~c, r);
    cl(a, b, ~r); cl(a, c, ~r); cl(b, c, ~r);
    return r;
}
Bits Add(const Bits &a, const Bits &b, Lit cin, Lit *cout = nullptr)
{
    Bits r(a.size());
    Lit c = cin;
    for(size_t i = 0; i < a.size(); ++i) {
        r[i] = Xor(Xor(a[i], b[i]), c);
        if(i + 1 < a.size() || cout) c = Maj(a[i], b[i], c);
    }
    if(cout) *cout = c;
    return r;
}
Bits Not(const Bits &a) { Bits r(a); for(auto &x : r) x = ~x; return r; }
Bits K_(u128 v, unsigned w) { Bits r(w); for(unsigned i = 0; i < w; ++i) r[i] = (v >> i) & 1 ? T : F(); return r; }
Lit Ult(const Bits &a, const Bits &b)
{
    Lit c = T;                      // a - b: carry out set iff a >= b
    for(size_t i = 0; i < a.size(); ++i) c = Maj(a[i], ~b[i], c);
    return ~c;
}
Lit Eq(const Bits &a, const Bits &b)
{
    Lit r = T;
    for(size_t i = 0; i < a.size(); ++i) { r = And(r, ~Xor(a[i], b[i])); if(isF(r)) break; }
    return r;
}
Bits MuxB(Lit c, const Bits &a, const Bits &b) { Bits r(a.size()); for(size_t i = 0; i < a.size(); ++i) r[i] = Mux(c, a[i], b[i]); return r; }
Bits Mul(const Bits &a, const Bits &b)
{
    unsigned w = a.size();
    unsigned ca = 0, cb = 0;
    for(auto l : a) ca += !isF(l);
    for(auto l : b) cb += !isF(l);
    const Bits &x = ca < cb ? b : a, &y = ca < cb ? a : b;
    Bits acc = K_(0, w);
    for(unsigned i = 0; i < w; ++i) {
        if(isF(y[i])) continue;
        Bits t = K_(0, w);
        for(unsigned j = 0; i + j < w; ++j) t[i + j] = And(x[j], y[i]);
        acc = Add(acc, t, F());
    }
    return acc;
}
Bits Shift(K k, const Bits &a, const Bits &s)
{
    unsigned w = a.size();
    Lit fill = k == K::AShr ? a[w - 1] : F();
    Bits r = a;
    Lit big = F();
    for(unsigned i = 0; i < s.size(); ++i) {
        if(i < 31 && (1u << i) < w) {
            unsigned d = 1u << i;
            Bits t(w);
            for(unsigned j = 0; j < w; ++j)
                t[j] = k == K::Shl ? (j >= d ? r[j - d] : F()) : (j + d < w ? r[j + d] : fill);
            r = MuxB(s[i], t, r);
        } else big = Or(big, s[i]);
    }
    Bits f(w, fill);
    return MuxB(big, f, r);
}
// restoring division
void DivRem(const Bits &a, const Bits &b, Bits &q, Bits &r)
{
    unsigned w = a.size();
    q = K_(0, w);
    // the remainder stays below the divisor: no more bits than a constant has
    unsigned n = w;
    while(n > 1 && isF(b[n - 1])) --n;
    if(!isT(b[n - 1])) n = w;
    Bits rem = K_(0, n + 1);
    Bits bb(b.begin(), b.begin() + n);
    bb.push_back(F());
    for(int i = (int)w - 1; i >= 0; --i) {
        for(int j = (int)n; j > 0; --j) rem[j] = rem[j - 1];
        rem[0] = a[i];
        Lit c;
        Bits d = Add(rem, Not(bb), T, &c);
        q[i] = c;
        rem = MuxB(c, d, rem);
    }
    rem.pop_back();
    rem.resize(w, F());
    r = rem;
    // division by zero as in SMT-LIB: q = all ones, r = a (the circuit gives this)
}
const Bits &blast(Expr *e);

Bits build(Expr *e)
{
    unsigned w = e->w;
    switch(e->k) {
    case K::Const: return K_(e->v, w);
    case K::Sym: { Bits r(w); for(auto &l : r) l = fresh(); return r; }
    case K::Add: return Add(blast(e->a), blast(e->b), F());
    case K::Sub: return Add(blast(e->a), Not(blast(e->b)), T);
    case K::Mul: return Mul(blast(e->a), blast(e->b));
    case K::UDiv: case K::URem: {
        Bits q, r;
        DivRem(blast(e->a), blast(e->b), q, r);
        return e->k == K::UDiv ? q : r;
    }
    case K::SDiv: case K::SRem: {
        Bits a = blast(e->a), b = blast(e->b), q, r;
        Lit sa = a[w - 1], sb = b[w - 1];
        Bits zero = K_(0, w);
        Bits na = MuxB(sa, Add(zero, Not(a), T), a), nb = MuxB(sb, Add(zero, Not(b), T), b);
        DivRem(na, nb, q, r);
        if(e->k == K::SDiv) return MuxB(Xor(sa, sb), Add(zero, Not(q), T), q);
        return MuxB(sa, Add(zero, Not(r), T), r);
    }
    case K::And: { Bits r(w); const Bits a = blast(e->a), b = blast(e->b); for(unsigned i = 0; i < w; ++i) r[i] = And(a[i], b[i]); return r; }
    case K::Or: { Bits r(w); const Bits a = blast(e->a), b = blast(e->b); for(unsigned i = 0; i < w; ++i) r[i] = Or(a[i], b[i]); return r; }
    case K::Xor: { Bits r(w); const Bits a = blast(e->a), b = blast(e->b); for(unsigned i = 0; i < w; ++i) r[i] = Xor(a[i], b[i]); return r; }
    case K::Shl: case K::LShr: case K::AShr: return Shift(e->k, blast(e->a), blast(e->b));
    case K::Eq: { const Bits a = blast(e->a), b = blast(e->b); return {Eq(a, b)}; }
    case K::Ult: { const Bits a = blast(e->a), b = blast(e->b); return {Ult(a, b)}; }
    case K::Ule: { const Bits a = blast(e->a), b = blast(e->b); return {~Ult(b, a)}; }
    case K::Slt: case K::Sle: {
        Bits a = blast(e->a), b = blast(e->b);
        a.back() = ~a.back();
        b.back() = ~b.back();
        return {e->k == K::Slt ? Ult(a, b) : ~Ult(b, a)};
    }
    case K::Ite: { Lit c = blast(e->a)[0]; const Bits a = blast(e->b), b = blast(e->c); return MuxB(c, a, b); }
    case K::Concat: { Bits r = blast(e->b); const Bits h = blast(e->a); r.insert(r.end(), h.begin(), h.end()); return r; }
    case K::Extract: { const Bits a = blast(e->a); return Bits(a.begin() + e->aux, a.begin() + e->aux + w); }
    case K::ZExt: { Bits r = blast(e->a); r.resize(w, F()); return r; }
    case K::SExt: { Bits r = blast(e->a); Lit s = r.back(); r.resize(w, s); return r; }
    default: assert(0);
    }
    return {};
}
const Bits &blast(Expr *e)
{
    auto it = bits.find(e);
    if(it != bits.end()) return it->second;
    Bits b = build(e);
    return bits.emplace(e, std::move(b)).first->second;
}
}  // namespace

Res blastSolve(const std::vector<Expr *> &cs, const std::set<uint32_t> &syms, Model *m, int64_t conflicts)
{
    if(!sat || clauses > 1500000 || sat->nVars() > 400000) reset();
    Minisat::vec<Lit> as;
    for(auto *c : cs) {
        if(isConst(c)) { if(!c->v) return Res::Unsat; continue; }
        as.push(blast(c)[0]);
    }
    sat->setConfBudget(conflicts);
    sat->setPropBudget(conflicts * 4000);
    mlbool r = sat->solveLimited(as);
    if(Minisat::toInt(r) == 1) return Res::Unsat;
    if(Minisat::toInt(r) != 0) return Res::Unknown;
    for(uint32_t s : syms) {
        u128 v = 0;
        const Bits &b = blast(g_syms[s].e);
        for(size_t i = 0; i < b.size(); ++i) {
            Minisat::Var x = Minisat::var(b[i]);
            if(x < sat->model.size() && Minisat::toInt(sat->modelValue(b[i])) == 0) v |= (u128)1 << i;
        }
        (*m)[s] = v;
    }
    return Res::Sat;
}
void blastReset() { if(sat) reset(); }
