// Differential test of the expression layer: random terms are evaluated by the
// concrete evaluator, the simplifier, MiniSat and Z3; all have to agree.
#include "solver.h"
#include <random>
#include <cstdio>
typedef uint64_t u64;
std::mt19937_64 rng(1);
// A term together with its values under a few models, which are computed node
// by node from constants alone: an oracle for every rewriting of the builder.
static const int NM = 12;
struct T { Expr *e; u128 v[NM]; unsigned w() const { return e->w; } };
typedef std::vector<Expr *> &A;
template<class F> static T mk(F f, std::initializer_list<T> xs)
{
    T r;
    std::vector<Expr *> as;
    for(auto &x : xs) as.push_back(x.e);
    r.e = f(as);
    for(int i = 0; i < NM; ++i) {
        std::vector<Expr *> cs;
        for(auto &x : xs) cs.push_back(mkConst(x.v[i], x.e->w));
        Expr *c = f(cs);
        if(!isConst(c)) { printf("not folded %s\n", dumpExpr(c, 4).c_str()); exit(1); }
        r.v[i] = c->v;
    }
    return r;
}
static T Cst(u128 v, unsigned w) { return mk([=](A) { return mkConst(v, w); }, {}); }
static T Bin(K k, T a, T b) { return mk([=](A x) { return mkBin(k, x[0], x[1]); }, {a, b}); }
static T Ite(T c, T a, T b) { return mk([=](A x) { return mkIte(x[0], x[1], x[2]); }, {c, a, b}); }
static T Cat(T a, T b) { return mk([=](A x) { return mkConcat(x[0], x[1]); }, {a, b}); }
static T Ext(T a, unsigned o, unsigned w) { return mk([=](A x) { return mkExtract(x[0], o, w); }, {a}); }
static T ZX(T a, unsigned w) { return mk([=](A x) { return mkZExt(x[0], w); }, {a}); }
static T SX(T a, unsigned w) { return mk([=](A x) { return mkSExt(x[0], w); }, {a}); }
static T FBin(K k, T a, T b) { return mk([=](A x) { return mkFBin(k, x[0], x[1]); }, {a, b}); }
static T FUn(K k, T a, unsigned w, unsigned m) { return mk([=](A x) { return mkFUn(k, x[0], w, m); }, {a}); }
static T term(std::vector<T> &syms, unsigned w, int d);
// comparisons of terms that share parts: minima, maxima, sums, products
static T term(std::vector<T> &syms, unsigned w, int d);
static T minmax(std::vector<T> &syms, unsigned w, int d)
{
    static const K lt[] = {K::Ult, K::Ule, K::Slt, K::Sle};
    T l[4] = {term(syms, w, d), term(syms, w, d), term(syms, w, d), Cst(rng(), w)};
    K k = lt[rng() % 4];
    bool mn = rng() % 2;
    T r = l[rng() % 4];
    for(int i = rng() % 5; i-- > 0;) {
        T x = l[rng() % 4];
        if(rng() % 6 == 0) x = r;
        if(rng() % 8 == 0) k = lt[rng() % 4];
        T c = rng() % 2 ? Bin(k, r, x) : Bin(k, x, r);
        if(rng() % 8 == 0) mn = !mn;
        bool first = rng() % 2;
        r = first == mn ? Ite(c, r, x) : Ite(c, x, r);
    }
    return r;
}
static T compare(std::vector<T> &syms, unsigned w, int d)
{
    static const K cmp[] = {K::Eq, K::Ult, K::Ule, K::Slt, K::Sle};
    static const K op[] = {K::Add, K::Sub, K::Mul, K::And, K::Or, K::UDiv, K::URem};
    T x = term(syms, w, d - 1), y = term(syms, w, d - 1);
    if(d > 1 && rng() % 4 == 0) x = minmax(syms, w, d - 2);
    if(d > 1 && rng() % 4 == 0) y = minmax(syms, w, d - 2);
    for(int i = rng() % 3; i-- > 0;) {
        T &z = rng() % 2 ? x : y;
        if(rng() % 2) {
            T c = Bin(cmp[rng() % 5], rng() % 2 ? x : y, rng() % 2 ? x : y);
            z = rng() % 2 ? Ite(c, x, y) : Ite(c, y, x);
        } else z = Bin(op[rng() % 7], rng() % 2 ? x : y, rng() % 2 ? x : y);
    }
    return Bin(cmp[rng() % 5], x, y);
}
// the remainder of a long sum, as of a text of digits
static T remainder(std::vector<T> &syms)
{
    unsigned w = 24 + rng() % 105, n = 1 + rng() % 9;
    T r = Cst(rng() % 50, w);
    for(unsigned i = 0; i < n; ++i) {
        unsigned x = 1 + rng() % 12;
        r = Bin(K::Mul, r, Cst(rng() % 3 ? 10 + 90 * (rng() % 2) : rng() % 70000, w));
        T t = term(syms, x, 1);
        r = Bin(K::Add, r, rng() % 4 ? ZX(t, w) : Cst(rng() % 100, w));
        if(w > 65 && rng() % 3 == 0) r = Bin(K::Or, Bin(K::Shl, ZX(Ext(r, 64, w - 64), w), Cst(64, w)), ZX(Ext(r, 0, 64), w));
    }
    if(rng() % 3 == 0) { unsigned x = 1 + rng() % w; r = ZX(Ext(r, 0, x), w); }
    return Bin(rng() % 8 ? K::URem : K::UDiv, r, Cst(1 + rng() % (rng() % 2 ? 100 : 70000), w));
}
// the truncated quotient of integers, scaled by powers of two
static T quotient(std::vector<T> &syms)
{
    auto num = [](double x) { uint64_t u; memcpy(&u, &x, 8); return Cst(u, 64); };
    T r = FUn(rng() % 2 ? K::SIToF : K::UIToF, term(syms, 1 + rng() % 20, rng() % 2), 64, 0);
    bool done = false;
    for(int i = rng() % 4; i-- >= 0;) {
        double p = (double)(1 << rng() % 5);
        if(!done && rng() % 2) { p = 1 + rng() % 300; done = rng() % 8; }
        else if(rng() % 2) { r = FBin(K::FMul, num(p), r); continue; }
        r = FBin(K::FDiv, r, num(p));
    }
    r = FUn(K::FRound, r, 64, rng() % 4 ? 3 : rng() % 5);
    return rng() % 2 ? FUn(K::FToSI, r, 64, 0) : r;
}
static T fterm(std::vector<T> &syms, int d)
{
    static const K ops[] = {K::FAdd, K::FSub, K::FMul, K::FDiv};
    unsigned r = rng() % 10;
    if(d == 0 || r < 4) {
        if(rng() % 4 == 0) { double x = (double)(int64_t)(rng() % 21) - 10; if(rng() % 3 == 0) x /= 4; uint64_t u; memcpy(&u, &x, 8); return Cst(u, 64); }
        return FUn(rng() % 2 ? K::SIToF : K::UIToF, term(syms, 1 + rng() % 20, d > 0 ? d - 1 : 0), 64, 0);
    }
    if(r == 5) return FUn(K::FRound, fterm(syms, d - 1), 64, rng() % 5);
    if(r == 6) { u128 sb = (u128)1 << 63; return rng() % 2 ? Bin(K::Xor, Cst(sb, 64), fterm(syms, d - 1)) : Bin(K::And, Cst(sb - 1, 64), fterm(syms, d - 1)); }
    if(r == 4) return Ite(term(syms, 1, d - 1), fterm(syms, d - 1), fterm(syms, d - 1));
    return FBin(ops[rng() % 4], fterm(syms, d - 1), fterm(syms, d - 1));
}
static T term(std::vector<T> &syms, unsigned w, int d)
{
    unsigned r = rng() % 100;
    if(d == 0 || r < 8) {
        if(rng() % 3 == 0) { u128 v = rng() % 3 ? rng() % 20 : ((u128)rng() << 64 | rng()); return Cst(v, w); }
        for(int i = 0; i < 8; ++i) { T s = syms[rng() % syms.size()]; if(s.w() == w) return s; if(s.w() < w && rng() % 2) return ZX(s, w); if(s.w() > w) return Ext(s, rng() % (s.w() - w + 1), w); }
        return Cst(rng(), w);
    }
    static const K bin[] = {K::Add, K::Sub, K::Mul, K::UDiv, K::SDiv, K::URem, K::SRem, K::And, K::Or, K::Xor, K::Shl, K::LShr, K::AShr};
    static const K cmp[] = {K::Eq, K::Ult, K::Ule, K::Slt, K::Sle};
    static const K fcmp[] = {K::FOeq, K::FOlt, K::FOle, K::FUno};
    if(w == 1 && rng() % 8 == 0) return FBin(fcmp[rng() % 4], fterm(syms, d - 1), fterm(syms, d - 1));
    if(w == 16 && rng() % 8 == 0) return FUn(K::FToSI, fterm(syms, d - 1), 16, 0);
    if(w == 1 && rng() % 4) {
        unsigned x = 1 + rng() % 16;
        if(rng() % 4 == 0) {
            unsigned y = 16 + rng() % 10;
            T f = rng() % 2 ? ZX(syms[8], y) : Cst(1 + rng() % 40, y);
            auto ext = [&](T e) { return rng() % 2 ? SX(e, y) : ZX(e, y); };
            return Bin(cmp[rng() % 5], Bin(K::Mul, ext(term(syms, x, d - 1)), f), Bin(K::Mul, ext(term(syms, x, d - 1)), f));
        }
        return compare(syms, x, d);
    }
    switch(rng() % 8) {
    case 0: return Ite(term(syms, 1, d - 1), term(syms, w, d - 1), term(syms, w, d - 1));
    case 1: if(w > 1) { unsigned l = 1 + rng() % (w - 1); return Cat(term(syms, w - l, d - 1), term(syms, l, d - 1)); }
    case 2: { unsigned x = w + rng() % 8; return Ext(term(syms, x, d - 1), rng() % (x - w + 1), w); }
    case 3: { unsigned x = 1 + rng() % w; return rng() % 2 ? ZX(term(syms, x, d - 1), w) : SX(term(syms, x, d - 1), w); }
    default: { K k = bin[rng() % 13]; T b = term(syms, w, d - 1); if((k == K::SDiv || k == K::SRem)) b = Bin(K::Or, b, Cst(1, w)); return Bin(k, term(syms, w, d - 1), b); }
    }
}
// orderSolve against the bit-blaster, on comparisons of a few small symbols
static Expr *cmpTerm(std::vector<Expr *> &s, int d)
{
    if(d == 0 || rng() % 3 == 0) return rng() % 8 ? s[rng() % s.size()] : mkConst(rng() % 7, 4);
    Expr *a = cmpTerm(s, d - 1), *b = cmpTerm(s, d - 1);
    switch(rng() % 3) {
    case 0: return mkIte(mkBin(K::Ult, a, b), a, b);
    case 1: return mkIte(mkBin(K::Ule, a, b), b, a);
    default: return mkIte(mkBin(K::Ule, cmpTerm(s, d - 1), cmpTerm(s, d - 1)), a, b);
    }
}
static Expr *cmpForm(std::vector<Expr *> &s, std::vector<Expr *> &bs, int d)
{
    if(d == 0 || rng() % 2) {
        if(rng() % 6 == 0) return bs[rng() % bs.size()];
        static const K ks[] = {K::Ult, K::Ule, K::Eq};
        Expr *e = mkBin(ks[rng() % 3], cmpTerm(s, 2), cmpTerm(s, 2));
        return rng() % 3 ? e : mkNot(e);
    }
    static const K ks[] = {K::And, K::Or, K::Xor, K::Eq};
    Expr *e = mkBin(ks[rng() % 4], cmpForm(s, bs, d - 1), cmpForm(s, bs, d - 1));
    return rng() % 3 ? e : mkNot(e);
}
static int orderTest(int n)
{
    std::vector<Expr *> s, bs;
    for(int i = 0; i < 5; ++i) s.push_back(mkSym("o" + std::to_string(i), 4));
    s.push_back(mkSymRange("or", 4, 2, 5));
    for(int i = 0; i < 2; ++i) bs.push_back(mkSym("ob" + std::to_string(i), 1));
    int bad = 0, sat = 0, unsat = 0, unknown = 0;
    for(int i = 0; i < n; ++i) {
        std::vector<Expr *> cs = {mkRaw(K::Ule, mkConst(2, 4), s.back()), mkRaw(K::Ule, s.back(), mkConst(5, 4))};
        for(int k = 2 + rng() % 8; k--;) cs.push_back(cmpForm(s, bs, rng() % 3));
        std::set<uint32_t> syms;
        bool f = false;
        for(auto *c : cs) { f |= isConst(c) && !c->v; for(auto x : *c->syms) syms.insert(x); }
        if(f) continue;
        Model m1, m2;
        if(i % 50 == 0) blastReset();
        Res a = orderSolve(cs, syms, &m1), b = blastSolve(cs, syms, &m2, 1000000);
        if(a == Res::Unknown) { ++unknown; continue; }
        a == Res::Sat ? ++sat : ++unsat;
        bool ok = a == b;
        if(a == Res::Sat) for(auto *c : cs) if(!evalExpr(c, m1)) ok = false;
        if(!ok) { ++bad; printf("order mismatch %d %d\n", (int)a, (int)b); for(auto *c : cs) printf("  %s\n", dumpExpr(c, 9).c_str()); }
    }
    printf("order: sat %d unsat %d left %d bad %d\n", sat, unsat, unknown, bad);
    return bad;
}
int main(int argc, char **argv)
{
    int n = argc > 1 ? atoi(argv[1]) : 2000;
    if(orderTest(n * 5)) return 1;
    std::vector<T> syms;
    Model models[NM];
    auto sym = [&](Expr *e) {
        T t;
        t.e = e;
        u128 top = e->hi < (u64)maskw(e->w) ? (u128)e->hi : maskw(e->w);
        for(int i = 0; i < NM; ++i)
            models[i][e->aux] = t.v[i] = i == 0 ? (u128)e->lo : i == 1 ? top : i == 2 ? e->lo + (top - e->lo) / 2 : e->lo + rng() % (u64)(top - e->lo + 1);
        syms.push_back(t);
    };
    for(unsigned w : {1, 3, 4, 8, 8, 13, 16, 20}) sym(mkSym("v" + std::to_string(syms.size()), w));
    sym(mkSymRange("r0", 8, 3, 20));
    sym(mkSymRange("r1", 16, 0, 11));
    int bad = 0;
    extern bool g_confirm;
    for(int i = 0; i < n; ++i) {
        unsigned w = 1 + rng() % 16;
        T tt = rng() % 8 == 0 ? quotient(syms) : rng() % 8 == 0 ? remainder(syms) : rng() % 4 ? term(syms, w, 4) : compare(syms, w, 4);
        Expr *t = tt.e;
        w = t->w;
        for(int j = 0; j < NM; ++j) {
            u128 v = tt.v[j];
            if(evalExpr(t, models[j]) != v) { ++bad; printf("value mismatch %s\n", dumpExpr(t, 9).c_str()); }
            if(v > maskw(w) || v < (w <= 64 ? t->lo : 0) || (w <= 64 && v > t->hi)) { ++bad; printf("range mismatch %s\n", dumpExpr(t, 9).c_str()); }
        }
        {
            // what constraints tell about each other
            T x = term(syms, 8, 2), y = term(syms, 8, 2), z = term(syms, 8, 2);
            static const K rel[] = {K::Ult, K::Ule, K::Slt, K::Sle, K::Eq};
            auto r = [&](T a, T b) { return rng() % 2 ? Bin(rel[rng() % 5], a, b) : Bin(rel[rng() % 5], b, a); };
            T mn = Ite(r(x, y), x, y), rest = Bin(rng() % 2 ? K::Sub : K::Add, x, mn);
            T fs[4] = {r(x, y), r(mn, z), r(rest, z), r(Ite(r(rest, z), rest, z), Bin(K::Sub, z, y))};
            int j = rng() % NM;
            std::vector<Expr *> cs;
            for(auto &f : fs) cs.push_back(f.v[j] || rng() % 16 == 0 ? f.e : mkNot(f.e));
            bool ch = false;
            auto ds = withFacts(cs, ch);
            for(int k = 0; k < NM; ++k) {
                bool a = true, b = true;
                for(auto *c : cs) a = a && evalExpr(c, models[k]);
                for(auto *c : ds) b = b && evalExpr(c, models[k]);
                if(a != b) { ++bad; printf("facts mismatch\n"); }
            }
        }
        {
            // differences that are remainders
            unsigned v = 1 + rng() % 16;
            T x = term(syms, v, 2), y = rng() % 2 ? Cst(1 + rng(), v) : term(syms, v, 2);
            K k = rng() % 2 ? K::UDiv : K::SDiv;
            T p = Bin(K::Mul, Bin(k, x, y), y);
            if(isConst(y.e) && rng() % 2) p = Bin(K::Mul, Bin(k, x, y), Bin(K::Sub, Cst(0, v), y));
            T d = Bin(rng() % 2 ? K::Sub : K::Add, x, p);
            T sh = Cst(rng() % v, v);
            T d2 = Bin(K::Add, Bin(K::Shl, x, sh), Bin(K::Shl, p, sh));
            for(int k = 0; k < NM; ++k)
                if(evalExpr(d.e, models[k]) != d.v[k] || evalExpr(d2.e, models[k]) != d2.v[k]) { ++bad; printf("remainder mismatch\n"); }
        }
        if(isConst(t) || t->hasfp || argc > 2) continue;
        int j = rng() % NM;
        std::vector<Expr *> cs;
        for(auto &s : syms) { Expr *q = mkBin(K::Eq, mkConst(s.v[j], s.w()), s.e); if(!isConst(q)) cs.push_back(q); }
        u128 v = tt.v[j];
        auto c2 = cs;
        c2.push_back(mkRaw(K::Eq, mkConst(v, w), t));
        Model mm;
        g_confirm = true;
        if(solve(c2, &mm) != Res::Sat) { ++bad; printf("not sat: %s\n", dumpExpr(t, 9).c_str()); }
        c2.back() = mkNot(mkRaw(K::Eq, mkConst(v, w), t));
        g_confirm = true;
        if(solve(c2, &mm) != Res::Unsat) { ++bad; printf("not unsat: %s\n", dumpExpr(t, 9).c_str()); }
        // a genuine search query: t == random value
        std::vector<Expr *> c3 = {mkRaw(K::Eq, mkConst(rng() & (u64)maskw(w), w), t), mkRaw(K::Ule, mkConst(3, 8), syms[8].e), mkRaw(K::Ule, syms[8].e, mkConst(20, 8)), mkRaw(K::Ule, syms[9].e, mkConst(11, 16))};
        g_confirm = true;
        solve(c3, &mm);
    }
    printf("selftest: %d terms, bad %d, queries %llu fast %llu confirmed %llu mismatches %llu\n", n, bad, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.fast,
           (unsigned long long)g_ss.confirmed, (unsigned long long)g_ss.mismatch);
    return bad || g_ss.mismatch ? 1 : 0;
}
