#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <iostream>
#include <fstream>
#include <sstream>

SolverStats g_ss;
unsigned g_queryTimeoutMs = 60000;
bool g_debugSolver = false;
bool g_confirm = false;

static Z3_context ctx = nullptr;
static std::vector<Expr *> translated;
static std::string z3err;


static void onError(Z3_context c, Z3_error_code e)
{
    z3err = Z3_get_error_msg(c, e);
    fprintf(stderr, "z3 error: %s\n", z3err.c_str());
}

static void init()
{
    if(ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);   // terms live until solverReset()
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onError);
}

static Z3_ast keep(Z3_ast a) { return a; }
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_sort fpS(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }

static Z3_ast tr(Expr *e);
static std::unordered_map<Expr *, Z3_ast> fpcache;

static Z3_ast constAst(u128 v, unsigned w)
{
    if(w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(w));
    Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bv(w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(64));
    return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast asBool(Expr *e) { return Z3_mk_eq(ctx, tr(e), constAst(1, 1)); }
static Z3_ast fromBool(Z3_ast b) { return Z3_mk_ite(ctx, b, constAst(1, 1), constAst(0, 1)); }
static Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
static Z3_ast rtz() { return Z3_mk_fpa_rtz(ctx); }

// the floating-point view of a bit-pattern expression
static Z3_ast trF(Expr *e)
{
    auto it = fpcache.find(e);
    if(it != fpcache.end()) return it->second;
    Z3_ast r;
    switch(e->k) {
    case K::FAdd: r = Z3_mk_fpa_add(ctx, rne(), trF(e->a), trF(e->b)); break;
    case K::FSub: r = Z3_mk_fpa_sub(ctx, rne(), trF(e->a), trF(e->b)); break;
    case K::FMul: r = Z3_mk_fpa_mul(ctx, rne(), trF(e->a), trF(e->b)); break;
    case K::FDiv: r = Z3_mk_fpa_div(ctx, rne(), trF(e->a), trF(e->b)); break;
    case K::FSqrt: r = Z3_mk_fpa_sqrt(ctx, rne(), trF(e->a)); break;
    case K::FRound: {
        Z3_ast m;
        switch(e->aux) {
        case 1: m = Z3_mk_fpa_rtn(ctx); break;
        case 2: m = Z3_mk_fpa_rtp(ctx); break;
        case 3: m = rtz(); break;
        case 4: m = Z3_mk_fpa_rna(ctx); break;
        default: m = rne();
        }
        r = Z3_mk_fpa_round_to_integral(ctx, m, trF(e->a));
        break;
    }
    case K::SIToF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), tr(e->a), fpS(e->w)); break;
    case K::UIToF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), tr(e->a), fpS(e->w)); break;
    case K::FExt: case K::FTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rne(), trF(e->a), fpS(e->w)); break;
    case K::Ite: r = Z3_mk_ite(ctx, asBool(e->a), trF(e->b), trF(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, tr(e), fpS(e->w));
    }
    keep(r);
    fpcache[e] = r;
    return r;
}

static Z3_ast tr(Expr *e)
{
    if(e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    switch(e->k) {
    case K::Const: r = constAst(e->v, e->w); break;
    case K::Sym: {
        char buf[32];
        snprintf(buf, sizeof buf, "s%u", e->aux);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, buf), bv(e->w));
        break;
    }
    case K::Add: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case K::And: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case K::Or: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case K::Xor: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case K::Eq: r = fromBool(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break;
    case K::Ult: r = fromBool(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
    case K::Ule: r = fromBool(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break;
    case K::Slt: r = fromBool(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
    case K::Sle: r = fromBool(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
    case K::Ite: r = Z3_mk_ite(ctx, asBool(e->a), tr(e->b), tr(e->c)); break;
    case K::Concat: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
    case K::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, tr(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case K::FOeq: r = fromBool(Z3_mk_fpa_eq(ctx, trF(e->a), trF(e->b))); break;
    case K::FOlt: r = fromBool(Z3_mk_fpa_lt(ctx, trF(e->a), trF(e->b))); break;
    case K::FOle: r = fromBool(Z3_mk_fpa_leq(ctx, trF(e->a), trF(e->b))); break;
    case K::FUno: {
        Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, trF(e->a)), Z3_mk_fpa_is_nan(ctx, trF(e->b))};
        r = fromBool(Z3_mk_or(ctx, 2, o));
        break;
    }
    case K::FToSI: case K::FToUI: {
        // x86-64 semantics: out of range gives the "indefinite" value
        Z3_ast f = trF(e->a);
        unsigned fw = e->a->w;
        auto cv = [&](Z3_ast x, unsigned w) {
            double lim = ldexp(1.0, w - 1);
            Z3_ast lo = fw == 64 ? Z3_mk_fpa_numeral_double(ctx, -lim, fpS(64)) : Z3_mk_fpa_numeral_float(ctx, (float)-lim, fpS(32));
            Z3_ast hi = fw == 64 ? Z3_mk_fpa_numeral_double(ctx, lim, fpS(64)) : Z3_mk_fpa_numeral_float(ctx, (float)lim, fpS(32));
            Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, rtz(), x);
            Z3_ast in[2] = {Z3_mk_fpa_geq(ctx, t, lo), Z3_mk_fpa_lt(ctx, t, hi)};
            return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), Z3_mk_fpa_to_sbv(ctx, rtz(), x, w), constAst((u128)1 << (w - 1), w));
        };
        if(e->k == K::FToSI) r = cv(f, e->w);
        else if(e->w == 64) {
            Z3_ast two63 = fw == 64 ? Z3_mk_fpa_numeral_double(ctx, 9223372036854775808.0, fpS(64)) : Z3_mk_fpa_numeral_float(ctx, 9223372036854775808.0f, fpS(32));
            Z3_ast lo = keep(cv(f, 64));
            Z3_ast hi = keep(cv(Z3_mk_fpa_sub(ctx, rne(), f, two63), 64));
            r = Z3_mk_bvor(ctx, lo, Z3_mk_bvand(ctx, hi, Z3_mk_bvashr(ctx, lo, constAst(63, 64))));
        } else r = Z3_mk_extract(ctx, e->w - 1, 0, keep(cv(f, 64)));
        break;
    }
    default:
        r = Z3_mk_fpa_to_ieee_bv(ctx, trF(e));
    }
    keep(r);
    e->z3 = r;
    translated.push_back(e);
    return r;
}

void solverReset()
{
    for(auto *e : translated) e->z3 = nullptr;
    translated.clear();
    fpcache.clear();
    if(ctx) Z3_del_context(ctx);
    ctx = nullptr;
}

// query cache: sorted id lists -> result
struct VH2 {
    size_t operator()(const std::vector<uint32_t> &v) const
    {
        size_t h = v.size();
        for(auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
        return h;
    }
};
static std::unordered_map<std::vector<uint32_t>, std::pair<Res, Model>, VH2> qcache;

static void extractModel(Z3_model zm, const std::set<uint32_t> &syms, Model *m)
{
    for(uint32_t s : syms) {
        Expr *e = g_syms[s].e;
        Z3_ast v = nullptr;
        u128 val = 0;
        if(Z3_model_eval(ctx, zm, tr(e), true, &v) && v) {
            const char *t = Z3_get_numeral_string(ctx, v);
            for(const char *p = t; *p; ++p) val = val * 10 + (*p - '0');
        }
        (*m)[s] = val;
    }
}

static Res external(const std::string &smt, const std::set<uint32_t> &syms, Model *m, unsigned secs)
{
    // race two independent solvers on the same SMT-LIB text
    char base[] = "/tmp/esxqXXXXXX";
    int fd = mkstemp(base);
    if(fd < 0) return Res::Unknown;
    close(fd);
    std::string f = base;
    {
        std::ofstream o(f);
        o << smt;
        o << "(check-sat)\n";
        for(auto s : syms) o << "(get-value (s" << s << "))\n";
    }
    std::string cmd[2] = {
        "timeout " + std::to_string(secs) + " z3-new -smt2 pp.bv_literals=false " + f + " > " + f + ".z3 2>/dev/null",
        "timeout " + std::to_string(secs) + " cvc5 --produce-models --bv-print-consts-as-indexed-symbols --fp-exp " + f + " > " + f + ".cvc5 2>/dev/null"};
    pid_t p[2];
    for(int i = 0; i < 2; ++i) {
        p[i] = fork();
        if(p[i] == 0) {
            setpgid(0, 0);
            execl("/bin/sh", "sh", "-c", cmd[i].c_str(), (char *)0);
            _exit(127);
        }
    }
    Res r = Res::Unknown;
    int left = 2;
    while(left > 0 && r == Res::Unknown) {
        int st;
        pid_t q = waitpid(-1, &st, 0);
        int which = q == p[0] ? 0 : q == p[1] ? 1 : -1;
        if(q < 0) break;
        if(which < 0) continue;
        --left;
        p[which] = 0;
        std::ifstream in(f + (which == 0 ? ".z3" : ".cvc5"));
        std::stringstream ss;
        ss << in.rdbuf();
        std::string t = ss.str();
        if(t.compare(0, 5, "unsat") == 0) r = Res::Unsat;
        else if(t.compare(0, 3, "sat") == 0) {
            Model mm;
            bool ok = true;
            for(auto s : syms) {
                std::string key = "(s" + std::to_string(s) + " ";
                size_t i = t.find(key);
                if(i == std::string::npos) { ok = false; break; }
                i += key.size();
                u128 v = 0;
                if(t.compare(i, 5, "(_ bv") == 0) {
                    for(i += 5; isdigit(t[i]); ++i) v = v * 10 + (t[i] - '0');
                } else if(t.compare(i, 2, "#x") == 0) {
                    for(i += 2; isxdigit(t[i]); ++i) v = v * 16 + (isdigit(t[i]) ? t[i] - '0' : (tolower(t[i]) - 'a' + 10));
                } else if(t.compare(i, 2, "#b") == 0) {
                    for(i += 2; t[i] == '0' || t[i] == '1'; ++i) v = v * 2 + (t[i] - '0');
                } else { ok = false; break; }
                mm[s] = v;
            }
            if(ok) { r = Res::Sat; if(m) for(auto &kv : mm) (*m)[kv.first] = kv.second; }
        }
    }
    for(int i = 0; i < 2; ++i) if(p[i] > 0) { kill(-p[i], 9); int st; waitpid(p[i], &st, 0); }
    unlink(f.c_str()); unlink((f + ".z3").c_str()); unlink((f + ".cvc5").c_str());
    return r;
}

// What a constraint tells about other expressions: they are replaced by their
// value in the constraints after it, which keeps the conjunction equivalent.
namespace {
struct Facts {
    std::unordered_map<Expr *, Expr *> known, memo;
    bool changed = false;
    void put(Expr *e, u128 v) { if(!isConst(e)) known.emplace(e, mkConst(v, e->w)); }
    void learn(Expr *c, bool holds)
    {
        if(isConst(c) || c->w != 1) return;
        while(c->k == K::Eq && c->a->w == 1 && isConst(c->a)) {
            put(c, holds);
            holds = holds == (c->a->v != 0);
            c = c->b;
        }
        put(c, holds);
        if(c->k == K::And && holds) { learn(c->a, true); learn(c->b, true); return; }
        if(c->k == K::Or && !holds) { learn(c->a, false); learn(c->b, false); return; }
        if(c->k == K::Eq && holds && isConst(c->a)) { put(c->b, c->a->v); return; }
        if(c->k == K::Eq && holds) { same(c->a, c->b); return; }
        if(c->k != K::Ult && c->k != K::Ule && c->k != K::Slt && c->k != K::Sle) return;
        bool sign = c->k == K::Slt || c->k == K::Sle, strict = c->k == K::Ult || c->k == K::Slt;
        K lt = sign ? K::Slt : K::Ult, le = sign ? K::Sle : K::Ule;
        Expr *a = c->a, *b = c->b;
        if(!holds) { std::swap(a, b); strict = !strict; }
        // a < b, or a <= b
        put(mkBin(lt, b, a), 0);
        if(strict) {
            put(mkBin(lt, a, b), 1);
            put(mkBin(le, a, b), 1);
            put(mkBin(le, b, a), 0);
            put(mkBin(K::Eq, a, b), 0);
        } else {
            put(mkBin(le, a, b), 1);
            auto o = known.find(mkBin(le, b, a));
            if(o != known.end() && o->second->v) { put(mkBin(K::Eq, a, b), 1); same(a, b); }
        }
    }
    // a symbol is replaced by what it equals
    void same(Expr *a, Expr *b)
    {
        if(isConst(a) || isConst(b)) { if(isConst(a)) std::swap(a, b); if(isConst(b)) put(a, b->v); return; }
        if(a->k == K::Sym && b->k == K::Sym && a->id < b->id) std::swap(a, b);
        if(a->k != K::Sym) std::swap(a, b);
        if(a->k == K::Sym && !std::count(b->syms->begin(), b->syms->end(), *a->syms->begin())) known.emplace(a, b);
    }
    Expr *rewrite(Expr *e)
    {
        if(isConst(e)) return e;
        auto i = known.find(e);
        if(i != known.end()) { changed = true; return i->second; }
        if(e->k == K::Sym || e->k >= K::FAdd) return e;
        auto j = memo.find(e);
        if(j != memo.end()) return j->second;
        Expr *r = e;
        if(e->k == K::Ite) {
            Expr *c = rewrite(e->a);
            if(isConst(c)) r = rewrite(c->v ? e->b : e->c);
            else {
                Expr *a = rewrite(e->b), *b = rewrite(e->c);
                if(c != e->a || a != e->b || b != e->c) r = mkIte(c, a, b);
            }
        } else {
            Expr *a = rewrite(e->a), *b = e->b ? rewrite(e->b) : nullptr;
            if(a != e->a || b != e->b)
                switch(e->k) {
                    case K::Concat: r = mkConcat(a, b); break;
                    case K::Extract: r = mkExtract(a, e->aux, e->w); break;
                    case K::ZExt: r = mkZExt(a, e->w); break;
                    case K::SExt: r = mkSExt(a, e->w); break;
                    default: r = mkBin(e->k, a, b);
                }
        }
        memo.emplace(e, r);
        return r;
    }
};
}
std::vector<Expr *> withFacts(const std::vector<Expr *> &cs, bool &changed)
{
    Facts f;
    std::vector<Expr *> r;
    for(auto *c : cs) {
        Expr *d = f.rewrite(c);
        if(isConst(d)) {
            if(d->v) continue;
            changed = true;
            return {d};
        }
        r.push_back(d);
        f.memo.clear();
        f.learn(d, true);
        if(d != c) f.learn(c, true);
    }
    changed = f.changed;
    return r;
}

Res solve(const std::vector<Expr *> &cs, Model *m)
{
    std::vector<uint32_t> key;
    for(auto *c : cs) {
        if(isConst(c)) {
            if(!c->v) return Res::Unsat;
            continue;
        }
        key.push_back(c->id);
    }
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = qcache.find(key);
    if(it != qcache.end()) {
        ++g_ss.cacheHits;
        if(m && it->second.first == Res::Sat)
            for(auto &kv : it->second.second) (*m)[kv.first] = kv.second;
        return it->second.first;
    }
    static unsigned sinceReset = 0;
    if(++sinceReset > 5000 || translated.size() > 1000000) { solverReset(); sinceReset = 0; }
    init();
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false;
    std::set<uint32_t> syms;
    for(auto *c : cs) {
        fp |= c->hasfp;
        for(auto s : *c->syms) syms.insert(s);
    }
    Model mm;
    Res res = Res::Unknown;
    unsigned first = std::min(g_queryTimeoutMs, 10000u);
    auto guard = [&]() {
        // the evaluator has to agree with the solver's model
        for(auto *c : cs)
            if(!evalExpr(c, mm)) {
                if(!fp) fprintf(stderr, "esx: model does not satisfy constraint %s\n", dumpExpr(c, getenv("ESX_DEPTH") ? atoi(getenv("ESX_DEPTH")) : 4).c_str());
                res = Res::Unknown;
                break;
            }
    };
    Res expect = Res::Unknown;
    bool confirm = g_confirm;
    g_confirm = false;
    std::vector<Expr *> simpler = cs;
    if(!fp) {
        res = orderSolve(cs, syms, &mm);
        if(res == Res::Sat) guard();
        if(res == Res::Unknown) {
            mm.clear();
            bool changed = false;
            simpler = withFacts(cs, changed);
            if(changed) {
                if(simpler.size() == 1 && isConst(simpler[0])) res = Res::Unsat;
                else {
                    res = orderSolve(simpler, syms, &mm);
                    if(res == Res::Sat) guard();
                }
            }
            if(res == Res::Unknown) {
                mm.clear();
                res = blastSolve(simpler, syms, &mm, 4000);
                if(res == Res::Sat) guard();
            }
        } else ++g_ss.order;
        if(res != Res::Unknown) ++g_ss.fast;
        // have Z3 confirm the verdicts that discharge assertions, and a sample
        // of the others
        static unsigned nth = 0;
        static auto start = std::chrono::steady_clock::now();
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
        if(res == Res::Unsat && (confirm ? g_ss.confirmSeconds < 2 + 0.3 * el : ++nth % 64 == 0 && g_ss.confirmSeconds < 1 + 0.1 * el)) {
            expect = res;
            res = Res::Unknown;
            first = 3000;
        }
    }
    Z3_solver s = nullptr;
    Z3_params ps = nullptr;
    if(res == Res::Unknown) {
        mm.clear();
        s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
        Z3_solver_inc_ref(ctx, s);
        ps = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, ps);
        Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), first);
        Z3_solver_set_params(ctx, s, ps);
        for(auto *c : simpler)
            if(!isConst(c) || !c->v) Z3_solver_assert(ctx, s, asBool(c));
        Z3_lbool r = Z3_solver_check(ctx, s);
        res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
        if(res == Res::Sat) {
            Z3_model zm = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, zm);
            extractModel(zm, syms, &mm);
            Z3_model_dec_ref(ctx, zm);
            guard();
        }
        if(expect != Res::Unknown) {
            g_ss.confirmSeconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if(res == expect) ++g_ss.confirmed;
            else if(res == Res::Unknown) { ++g_ss.confirmTimeout; res = expect; }
            else { ++g_ss.mismatch; fprintf(stderr, "esx: solvers disagree\n"); }
        }
    }
    if(res == Res::Unknown && g_queryTimeoutMs > first) {
        ++g_ss.fallback;
        std::string smt = Z3_solver_to_string(ctx, s);
        smt = std::string(fp ? "(set-logic QF_BVFP)\n" : "(set-logic QF_BV)\n") + smt;
        mm.clear();
        res = external(smt, syms, &mm, (g_queryTimeoutMs - first) / 1000 + 1);
        if(res == Res::Sat)
            for(auto *c : cs)
                if(!evalExpr(c, mm)) { res = Res::Unknown; break; }
    }
    if(s) { Z3_solver_dec_ref(ctx, s); Z3_params_dec_ref(ctx, ps); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    ++g_ss.queries;
    if(fp) ++g_ss.fpQueries;
    g_ss.seconds += dt;
    if(dt > g_ss.maxSeconds) g_ss.maxSeconds = dt;
    if(res == Res::Sat) ++g_ss.sat;
    else if(res == Res::Unsat) ++g_ss.unsat;
    else ++g_ss.unknown;
    static const double slow = getenv("ESX_SLOW") ? atof(getenv("ESX_SLOW")) : 1.0;
    if(g_debugSolver && dt > slow) {
        fprintf(stderr, "esx: slow query %.1fs (%s):", dt, res == Res::Sat ? "sat" : res == Res::Unsat ? "unsat" : "unknown");
        for(auto *c : cs) fprintf(stderr, "\n   %s", dumpExpr(c, getenv("ESX_DEPTH") ? atoi(getenv("ESX_DEPTH")) : 4).c_str());
        fprintf(stderr, "\n");
    }
    if(m && res == Res::Sat)
        for(auto &kv : mm) (*m)[kv.first] = kv.second;
    qcache.emplace(std::move(key), std::make_pair(res, std::move(mm)));
    return res;
}
