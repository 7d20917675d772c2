// Conjunctions that only compare numbers (and minima and maxima of numbers)
// are decided here: integer difference constraints, kept closed, with a case
// split for each disjunction.  The verdict is exact either way; everything
// else is left to the other solvers.
#include "solver.h"

namespace {
struct Atom { int x, y; i128 w; };       // x - y <= w
struct Alt { std::vector<Atom> atoms; std::vector<std::pair<Expr *, bool>> forms; };
typedef std::vector<Alt> Clause;
const i128 INF = (i128)1 << 100;
const int MAXN = 40;

struct Search {
    std::unordered_map<Expr *, int> node;
    std::vector<Expr *> terms{nullptr};  // node 0 is the number zero
    std::vector<Clause> defs;
    std::vector<Atom> base;
    int n = 1;
    unsigned splits = 0;
    bool unsupported = false, gaveup = false;

    struct State {
        i128 d[MAXN][MAXN];
        std::vector<Clause> clauses;
        std::vector<std::pair<Expr *, bool>> queue;
    };

    int term(Expr *e)
    {
        auto it = node.find(e);
        if(it != node.end()) return it->second;
        if(e->w > 64 || n >= MAXN) { unsupported = true; return 0; }
        if(e->k == K::ZExt) {
            int r = term(e->a);
            node[e] = r;
            return r;
        }
        int v = -1;
        auto fresh = [&]() {
            v = n++;
            terms.push_back(e);
            node[e] = v;
            base.push_back({v, 0, (i128)e->hi});
            base.push_back({0, v, -(i128)e->lo});
            if(e->w < 64) base.push_back({v, 0, (i128)maskw(e->w)});
        };
        if(n + 1 >= MAXN) { unsupported = true; return 0; }
        switch(e->k) {
            case K::Const:
                fresh();
                base.push_back({v, 0, (i128)e->v});
                base.push_back({0, v, -(i128)e->v});
                return v;
            case K::Sym: fresh(); return v;
            case K::Ite: {
                fresh();
                int a = term(e->b), b = term(e->c);
                Expr *c = e->a;
                bool lt = c->k == K::Ult || c->k == K::Ule;
                if(lt && c->a == e->b && c->b == e->c) {            // min
                    base.push_back({v, a, 0}); base.push_back({v, b, 0});
                    defs.push_back({Alt{{{a, v, 0}}, {}}, Alt{{{b, v, 0}}, {}}});
                } else if(lt && c->a == e->c && c->b == e->b) {     // max
                    base.push_back({a, v, 0}); base.push_back({b, v, 0});
                    defs.push_back({Alt{{{v, a, 0}}, {}}, Alt{{{v, b, 0}}, {}}});
                } else {
                    form(c);
                    defs.push_back({Alt{{{v, a, 0}, {a, v, 0}}, {{c, true}}}, Alt{{{v, b, 0}, {b, v, 0}}, {{c, false}}}});
                }
                return v;
            }
            default: unsupported = true; return 0;
        }
    }
    // registers the terms of a formula
    void form(Expr *f)
    {
        if(unsupported) return;
        switch(f->k) {
            case K::Const: return;
            case K::Sym: term(f); return;
            case K::And: case K::Or: case K::Xor: form(f->a); form(f->b); return;
            case K::Ite: form(f->a); form(f->b); form(f->c); return;
            case K::Ult: case K::Ule: term(f->a); term(f->b); return;
            case K::Eq:
                if(f->a->w == 1) { form(f->a); form(f->b); return; }
                term(f->a); term(f->b);
                return;
            default: unsupported = true; return;
        }
    }
    bool assertAtom(State &s, const Atom &t)
    {
        if(s.d[t.x][t.y] <= t.w) return true;
        if(s.d[t.y][t.x] < INF && s.d[t.y][t.x] + t.w < 0) return false;
        for(int i = 0; i < n; ++i) {
            if(s.d[i][t.x] >= INF) continue;
            i128 l = s.d[i][t.x] + t.w;
            for(int j = 0; j < n; ++j) {
                if(s.d[t.y][j] >= INF) continue;
                i128 v = l + s.d[t.y][j];
                if(v < s.d[i][j]) {
                    if(i == j && v < 0) return false;
                    s.d[i][j] = v;
                }
            }
        }
        return true;
    }
    bool assertForm(State &s, Expr *f, bool pos)
    {
        switch(f->k) {
            case K::Const: return (f->v != 0) == pos;
            case K::Sym: {
                int v = node.at(f);
                return pos ? assertAtom(s, {0, v, -1}) : assertAtom(s, {v, 0, 0});
            }
            case K::And: case K::Or:
                if((f->k == K::And) == pos) return assertForm(s, f->a, pos) && assertForm(s, f->b, pos);
                s.clauses.push_back({Alt{{}, {{f->a, pos}}}, Alt{{}, {{f->b, pos}}}});
                return true;
            case K::Xor:
                s.clauses.push_back({Alt{{}, {{f->a, true}, {f->b, !pos}}}, Alt{{}, {{f->a, false}, {f->b, pos}}}});
                return true;
            case K::Ite:
                s.clauses.push_back({Alt{{}, {{f->a, true}, {f->b, pos}}}, Alt{{}, {{f->a, false}, {f->c, pos}}}});
                return true;
            case K::Ult: case K::Ule: {
                int a = node.at(f->a), b = node.at(f->b);
                bool strict = f->k == K::Ult;
                if(!pos) { std::swap(a, b); strict = !strict; }
                return assertAtom(s, {a, b, strict ? -1 : 0});
            }
            case K::Eq: {
                if(f->a->w == 1) {
                    if(isConst(f->a)) return assertForm(s, f->b, (f->a->v != 0) == pos);
                    if(isConst(f->b)) return assertForm(s, f->a, (f->b->v != 0) == pos);
                    s.clauses.push_back({Alt{{}, {{f->a, true}, {f->b, pos}}}, Alt{{}, {{f->a, false}, {f->b, !pos}}}});
                    return true;
                }
                int a = node.at(f->a), b = node.at(f->b);
                if(pos) return assertAtom(s, {a, b, 0}) && assertAtom(s, {b, a, 0});
                s.clauses.push_back({Alt{{{a, b, -1}}, {}}, Alt{{{b, a, -1}}, {}}});
                return true;
            }
            default: return false;
        }
    }
    bool take(State &s, const Alt &a)
    {
        for(auto &t : a.atoms)
            if(!assertAtom(s, t)) return false;
        for(auto &f : a.forms)
            if(!assertForm(s, f.first, f.second)) return false;
        return true;
    }
    // an atomic formula as difference constraints, when it is one
    bool direct(const std::pair<Expr *, bool> &f, Atom &t)
    {
        Expr *e = f.first;
        bool pos = f.second;
        while(e->k == K::Eq && e->a->w == 1 && (isConst(e->a) || isConst(e->b))) {
            if(isConst(e->a)) { pos = pos == (e->a->v != 0); e = e->b; }
            else { pos = pos == (e->b->v != 0); e = e->a; }
        }
        if(e->k == K::Sym) { int v = node.at(e); t = pos ? Atom{0, v, -1} : Atom{v, 0, 0}; return true; }
        if(e->k != K::Ult && e->k != K::Ule) return false;
        int a = node.at(e->a), b = node.at(e->b);
        bool strict = e->k == K::Ult;
        if(!pos) { std::swap(a, b); strict = !strict; }
        t = {a, b, strict ? -1 : 0};
        return true;
    }
    bool search(State &s)
    {
        for(;;) {
            bool progress = false;
            size_t best = SIZE_MAX, bestSize = SIZE_MAX;
            for(size_t i = 0; i < s.clauses.size();) {
                Clause &c = s.clauses[i];
                bool satisfied = false;
                for(size_t j = 0; j < c.size() && !satisfied;) {
                    bool dead = false, sure = true;
                    auto see = [&](const Atom &t) {
                        if(s.d[t.y][t.x] < INF && s.d[t.y][t.x] + t.w < 0) dead = true;
                        if(s.d[t.x][t.y] > t.w) sure = false;
                    };
                    for(auto &t : c[j].atoms) see(t);
                    for(auto &f : c[j].forms) {
                        Atom t;
                        if(isConst(f.first)) { if((f.first->v != 0) != f.second) dead = true; }
                        else if(direct(f, t)) see(t);
                        else sure = false;
                    }
                    if(dead) { c.erase(c.begin() + j); continue; }
                    if(sure) satisfied = true;
                    ++j;
                }
                if(satisfied) { s.clauses.erase(s.clauses.begin() + i); continue; }
                if(c.empty()) return false;
                if(c.size() == 1) {
                    Alt a = std::move(c[0]);
                    s.clauses.erase(s.clauses.begin() + i);
                    if(!take(s, a)) return false;
                    progress = true;
                    continue;
                }
                if(c.size() < bestSize) { best = i; bestSize = c.size(); }
                ++i;
            }
            if(progress) continue;
            if(s.clauses.empty()) return true;
            if(++splits > 400) { gaveup = true; return false; }
            Clause c = std::move(s.clauses[best]);
            s.clauses.erase(s.clauses.begin() + best);
            for(auto &a : c) {
                auto t = std::make_unique<State>(s);
                if(take(*t, a) && search(*t)) { s = *t; return true; }
                if(gaveup) return false;
            }
            return false;
        }
    }
};
}

Res orderSolve(const std::vector<Expr *> &cs, const std::set<uint32_t> &syms, Model *m)
{
    if(syms.size() > 30) return Res::Unknown;
    Search q;
    for(auto *c : cs) {
        if(c->hasfp) return Res::Unknown;
        q.form(c);
        if(q.unsupported) return Res::Unknown;
    }
    auto s = std::make_unique<Search::State>();
    for(int i = 0; i < q.n; ++i)
        for(int j = 0; j < q.n; ++j) s->d[i][j] = i == j ? 0 : INF;
    bool ok = true;
    for(auto &t : q.base) ok = ok && q.assertAtom(*s, t);
    if(!ok) return Res::Unsat;
    s->clauses = q.defs;
    for(auto *c : cs)
        if(!q.assertForm(*s, c, true)) return Res::Unsat;
    if(!q.search(*s)) return q.gaveup ? Res::Unknown : Res::Unsat;
    for(int i = 1; i < q.n; ++i)
        if(q.terms[i]->k == K::Sym) (*m)[q.terms[i]->aux] = (u128)(-s->d[0][i]);
    return Res::Sat;
}
