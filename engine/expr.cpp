#include "expr.h"

std::vector<SymInfo> g_syms;
uint64_t g_numExprs = 0;

namespace {
struct H { size_t operator()(const Expr *e) const { return e->hash; } };
struct EQ {
    bool operator()(const Expr *x, const Expr *y) const
    {
        return x->k == y->k && x->w == y->w && x->aux == y->aux && x->a == y->a
               && x->b == y->b && x->c == y->c && x->v == y->v;
    }
};
std::unordered_set<Expr *, H, EQ> table;
struct VH {
    size_t operator()(const std::vector<uint32_t> &v) const
    {
        size_t h = v.size();
        for(auto x : v) h = h * 1000003 + x;
        return h;
    }
};
std::unordered_set<std::vector<uint32_t>, VH> symsets;
char *pool = nullptr;
size_t poolLeft = 0;

Expr *allocExpr()
{
    if(poolLeft < sizeof(Expr)) {
        poolLeft = sizeof(Expr) * 8192;
        pool = (char *)malloc(poolLeft);
    }
    Expr *e = new(pool) Expr();
    pool += sizeof(Expr);
    poolLeft -= sizeof(Expr);
    return e;
}

const std::vector<uint32_t> *unionSyms(Expr *a, Expr *b, Expr *c)
{
    static const std::vector<uint32_t> *empty = &*symsets.insert(std::vector<uint32_t>()).first;
    const std::vector<uint32_t> *s[3] = {a ? a->syms : empty, b ? b->syms : empty, c ? c->syms : empty};
    const std::vector<uint32_t> *r = s[0];
    for(int i = 1; i < 3; ++i) {
        if(s[i] == r || s[i]->empty()) continue;
        if(r->empty()) { r = s[i]; continue; }
        std::vector<uint32_t> u;
        std::set_union(r->begin(), r->end(), s[i]->begin(), s[i]->end(), std::back_inserter(u));
        r = &*symsets.insert(std::move(u)).first;
    }
    return r;
}

Expr *intern(K k, unsigned w, Expr *a, Expr *b, Expr *c, uint32_t aux, u128 v)
{
    Expr t;
    t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.aux = aux; t.v = v;
    uint64_t h = (uint64_t)k * 0x9E3779B97F4A7C15ull + w * 31 + aux * 0xC2B2AE3D27D4EB4Full;
    h ^= (uint64_t)v * 0xff51afd7ed558ccdull + (uint64_t)(v >> 64) * 0x9ddfea08eb382d69ull;
    h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull;
    if(a) h = (h ^ a->id) * 0x94D049BB133111EBull;
    if(b) h = ((h << 7 | h >> 57) ^ b->id) * 0x94D049BB133111EBull;
    if(c) h = ((h << 11 | h >> 53) ^ c->id) * 0x94D049BB133111EBull;
    h ^= h >> 31;
    t.hash = h;
    auto it = table.find(&t);
    if(it != table.end()) return *it;
    Expr *e = allocExpr();
    *e = t;
    e->id = ++g_numExprs;
    e->hasfp = k >= K::FAdd || (a && a->hasfp) || (b && b->hasfp) || (c && c->hasfp);
    e->syms = unionSyms(a, b, c);
    if(k == K::Sym) {
        e->syms = &*symsets.insert(std::vector<uint32_t>{aux}).first;
    }
    // trailing zeros
    unsigned tz = 0;
    switch(k) {
    case K::Const: {
        if(v == 0) tz = std::min(w, 255u);
        else while(!((v >> tz) & 1)) ++tz;
        break;
    }
    case K::Mul: tz = std::min<unsigned>(a->tz + b->tz, std::min(w, 255u)); break;
    case K::Add: case K::Sub: case K::Or: case K::Xor: tz = std::min(a->tz, b->tz); break;
    case K::And: tz = std::max(a->tz, b->tz); break;
    case K::Shl: if(b->k == K::Const && b->v < w) tz = std::min<unsigned>(a->tz + (unsigned)b->v, w); break;
    case K::Ite: tz = std::min(b->tz, c->tz); break;
    case K::ZExt: case K::SExt: tz = a->tz >= a->w ? std::min(w, 255u) : a->tz; break;
    case K::Concat: tz = b->tz >= b->w ? std::min<unsigned>(b->w + a->tz, 255u) : b->tz; break;
    default: break;
    }
    e->tz = (uint8_t)tz;
    unsigned ab = w;
    switch(k) {
    case K::Const: for(ab = 0; ab < w && (v >> ab); ++ab) {} break;
    case K::ZExt: ab = a->ab; break;
    case K::And: ab = std::min(a->ab, b->ab); break;
    case K::Or: case K::Xor: ab = std::max(a->ab, b->ab); break;
    case K::Ite: ab = std::max(b->ab, c->ab); break;
    case K::Concat: ab = a->ab ? b->w + a->ab : b->ab; break;
    case K::Add: ab = std::max(a->ab, b->ab) + 1; break;
    case K::Mul: ab = a->ab + b->ab; break;
    case K::UDiv: if(b->k == K::Const && b->v) ab = a->ab; break;
    case K::URem: ab = b->k == K::Const && b->v ? std::min(a->ab, b->ab) : a->ab; break;
    case K::LShr: ab = a->ab; break;
    case K::Extract: ab = a->ab > aux ? a->ab - aux : 0; break;
    default: break;
    }
    if(w <= 64) {
        uint64_t M = (uint64_t)maskw(w), lo = 0, hi = M;
        switch(k) {
        case K::Const: lo = hi = (uint64_t)v; break;
        case K::Add: {
            u128 l = (u128)a->lo + b->lo, h = (u128)a->hi + b->hi;
            if((l >> w) == (h >> w)) { lo = (uint64_t)(l & M); hi = (uint64_t)(h & M); }
            break;
        }
        case K::Sub: if(a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
        case K::Mul: if((u128)a->hi * b->hi <= M) { lo = a->lo * b->lo; hi = a->hi * b->hi; } break;
        case K::UDiv: if(b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
        case K::URem: if(b->lo > 0) { if(a->hi < b->lo) { lo = a->lo; hi = a->hi; } else hi = std::min(a->hi, b->hi - 1); } break;
        case K::And: hi = std::min(a->hi, b->hi); break;
        case K::Or: lo = std::max(a->lo, b->lo); break;
        case K::ZExt: lo = a->lo; hi = a->hi; break;
        case K::SExt: if(a->hi < (1ull << (a->w - 1))) { lo = a->lo; hi = a->hi; } break;
        case K::Ite: lo = std::min(b->lo, c->lo); hi = std::max(b->hi, c->hi); break;
        case K::Concat: lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; break;
        case K::Extract: if(a->w <= 64 && (a->hi >> aux) <= M) { lo = a->lo >> aux; hi = a->hi >> aux; } break;
        default: break;
        }
        if(ab < 64) hi = std::min<uint64_t>(hi, (1ull << ab) - 1);
        e->lo = lo; e->hi = hi;
        unsigned n = 0;
        while(n < w && (hi >> n)) ++n;
        ab = std::min(ab, n);
    }
    e->ab = (uint16_t)std::min(ab, w);
    table.insert(e);
    return e;
}
double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
u128 bitsD(double d) { if(d != d) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &d, 8); return x; }
u128 bitsF(float d) { if(d != d) return 0x7fc00000u; uint32_t x; memcpy(&x, &d, 4); return x; }
}  // namespace

Expr *mkConst(u128 v, unsigned w) { return intern(K::Const, w, 0, 0, 0, 0, v & maskw(w)); }

Expr *mkSym(const std::string &name, unsigned w)
{
    uint32_t id = g_syms.size();
    g_syms.push_back({name, w, nullptr});
    Expr *e = intern(K::Sym, w, 0, 0, 0, id, 0);
    g_syms[id].e = e;
    return e;
}
Expr *mkSymRange(const std::string &name, unsigned w, uint64_t lo, uint64_t hi)
{
    Expr *e = mkSym(name, w);
    e->lo = lo;
    e->hi = hi;
    unsigned n = 0;
    while(n < w && n < 64 && (hi >> n)) ++n;
    e->ab = (uint16_t)n;
    return e;
}
Expr *mkRaw(K k, Expr *a, Expr *b) { return intern(k, 1, a, b, nullptr, 0, 0); }

bool foldBin(K k, u128 a, u128 b, unsigned w, u128 &o)
{
    u128 m = maskw(w);
    switch(k) {
    case K::Add: o = (a + b) & m; return true;
    case K::Sub: o = (a - b) & m; return true;
    case K::Mul: o = (a * b) & m; return true;
    case K::UDiv: o = b ? a / b : m; return true;
    case K::URem: o = b ? a % b : a; return true;
    case K::SDiv: {
        i128 x = sext128(a, w), y = sext128(b, w);
        if(y == 0) o = x < 0 ? 1 : m;
        else if(y == -1) o = (u128)(0 - (u128)x);
        else o = (u128)(x / y);
        o &= m;
        return true;
    }
    case K::SRem: {
        i128 x = sext128(a, w), y = sext128(b, w);
        if(y == 0) o = a;
        else if(y == -1) o = 0;
        else o = (u128)(x % y);
        o &= m;
        return true;
    }
    case K::And: o = a & b; return true;
    case K::Or: o = a | b; return true;
    case K::Xor: o = a ^ b; return true;
    case K::Shl: o = b >= w ? 0 : (a << (unsigned)b) & m; return true;
    case K::LShr: o = b >= w ? 0 : a >> (unsigned)b; return true;
    case K::AShr: {
        i128 x = sext128(a, w);
        unsigned s = b >= w ? w - 1 : (unsigned)b;
        if(s > 127) s = 127;
        o = (u128)(x >> s) & m;
        return true;
    }
    case K::Eq: o = a == b; return true;
    case K::Ult: o = a < b; return true;
    case K::Ule: o = a <= b; return true;
    case K::Slt: o = sext128(a, w) < sext128(b, w); return true;
    case K::Sle: o = sext128(a, w) <= sext128(b, w); return true;
    default: return false;
    }
}

u128 foldFBin(K k, u128 a, u128 b, unsigned w)
{
    if(w == 64) {
        double x = asD(a), y = asD(b);
        switch(k) {
        case K::FAdd: return bitsD(x + y);
        case K::FSub: return bitsD(x - y);
        case K::FMul: return bitsD(x * y);
        case K::FDiv: return bitsD(x / y);
        case K::FRem: return bitsD(fmod(x, y));
        case K::FOeq: return x == y;
        case K::FOlt: return x < y;
        case K::FOle: return x <= y;
        case K::FUno: return (x != x) || (y != y);
        default: break;
        }
    } else {
        float x = asF(a), y = asF(b);
        switch(k) {
        case K::FAdd: return bitsF(x + y);
        case K::FSub: return bitsF(x - y);
        case K::FMul: return bitsF(x * y);
        case K::FDiv: return bitsF(x / y);
        case K::FRem: return bitsF(fmodf(x, y));
        case K::FOeq: return x == y;
        case K::FOlt: return x < y;
        case K::FOle: return x <= y;
        case K::FUno: return (x != x) || (y != y);
        default: break;
        }
    }
    assert(0);
    return 0;
}
static double roundMode(double x, unsigned m)
{
    switch(m) {
    case 0: return nearbyint(x);
    case 1: return floor(x);
    case 2: return ceil(x);
    case 3: return trunc(x);
    case 4: return round(x);
    }
    return x;
}
u128 foldFUn(K k, u128 a, unsigned wa, unsigned w, unsigned aux)
{
    switch(k) {
    case K::FSqrt: return wa == 64 ? bitsD(sqrt(asD(a))) : bitsF(sqrtf(asF(a)));
    case K::FRound: return wa == 64 ? bitsD(roundMode(asD(a), aux)) : bitsF((float)roundMode(asF(a), aux));
    case K::FToSI: {
        double x = wa == 64 ? asD(a) : asF(a);
        double lim = ldexp(1.0, w - 1);
        if(!(x > -lim - 1 && x < lim)) return (u128)1 << (w - 1);   // x86 indefinite value
        return (u128)(i128)x & maskw(w);
    }
    case K::FToUI: {
        double x = wa == 64 ? asD(a) : asF(a);
        double lim = ldexp(1.0, w);
        if(!(x > -1.0 && x < lim)) {
            // what x86-64 code computes for out-of-range uint64 conversions
            if(w == 64) {
                auto cvt = [](double d) -> uint64_t {
                    if(!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull;
                    return (uint64_t)(int64_t)d;
                };
                uint64_t lo = cvt(x), hi = cvt(x - 9223372036854775808.0);
                return lo | (hi & (uint64_t)((int64_t)lo >> 63));
            }
            if(w < 64) {
                if(!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0;
                return (u128)(uint64_t)(int64_t)x & maskw(w);
            }
            return 0;
        }
        return (u128)x & maskw(w);
    }
    case K::SIToF: { i128 x = sext128(a, wa); return w == 64 ? bitsD((double)x) : bitsF((float)x); }
    case K::UIToF: return w == 64 ? bitsD((double)a) : bitsF((float)a);
    case K::FExt: return bitsD((double)asF(a));
    case K::FTrunc: return bitsF((float)asD(a));
    default: break;
    }
    assert(0);
    return 0;
}

static bool commut(K k)
{
    return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
}

Expr *mkNot(Expr *e)
{
    assert(e->w == 1);
    if(isConst(e)) return mkConst(!e->v, 1);
    if(e->k == K::Eq && isConst(e->a) && e->a->w == 1 && e->a->v == 0) return e->b;
    if(e->k == K::Ult) return mkBin(K::Ule, e->b, e->a);
    if(e->k == K::Ule) return mkBin(K::Ult, e->b, e->a);
    if(e->k == K::Slt) return mkBin(K::Sle, e->b, e->a);
    if(e->k == K::Sle) return mkBin(K::Slt, e->b, e->a);
    return intern(K::Eq, 1, mkConst(0, 1), e, nullptr, 0, 0);
}

static bool cancelFactor(Expr *a, Expr *b, Expr *&x, Expr *&y);
static bool cancelFactorU(Expr *a, Expr *b, Expr *&x, Expr *&y);
// A sum without overflow as coefficients of its terms modulo m.
static void termsMod(Expr *e, u128 m, u128 c, std::vector<std::pair<Expr *, u128>> &t, u128 &k, unsigned depth)
{
    if(isConst(e)) { k = (k + c * (e->v % m)) % m; return; }
    if(depth < 64) switch(e->k) {
    case K::ZExt: return termsMod(e->a, m, c, t, k, depth + 1);
    case K::Add:
        if(e->a->ab >= e->w || e->b->ab >= e->w) break;
        termsMod(e->a, m, c, t, k, depth + 1);
        return termsMod(e->b, m, c, t, k, depth + 1);
    case K::Mul:
        if(!isConst(e->a) || e->a->ab + e->b->ab > e->w) break;
        return termsMod(e->b, m, c * (e->a->v % m) % m, t, k, depth + 1);
    case K::Extract:
        if(e->aux || e->a->ab > e->w) break;
        return termsMod(e->a, m, c, t, k, depth + 1);
    case K::Concat: {
        u128 p = 1;
        for(unsigned i = 0; i < e->b->w; ++i) p = p * 2 % m;
        termsMod(e->b, m, c, t, k, depth + 1);
        return termsMod(e->a, m, c * p % m, t, k, depth + 1);
    }
    default: break;
    }
    for(auto &[x, d] : t) if(x == e) { d = (d + c) % m; return; }
    t.push_back({e, c});
}
// a % m with the coefficients of the sum a taken modulo m, if that is smaller
static Expr *remainderOfSum(Expr *a, u128 m)
{
    if(a->ab < 24 || a->hasfp) return nullptr;
    std::vector<std::pair<Expr *, u128>> t;
    u128 k = 0, bound;
    termsMod(a, m, 1, t, k, 0);
    bound = k;
    for(auto &[x, c] : t) {
        if(x->ab > 64) return nullptr;
        bound += c * (((u128)1 << x->ab) - 1);
        if(bound >> 100) return nullptr;
    }
    unsigned n = 16;
    while(bound >> n) ++n;
    if(n + 8 > a->ab) return nullptr;
    std::sort(t.begin(), t.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
    Expr *s = mkConst(k, n);
    for(auto &[x, c] : t) {
        if(c == 0) continue;
        Expr *y = x->w > n ? mkExtract(x, 0, n) : x->w < n ? mkZExt(x, n) : x;
        s = mkBin(K::Add, s, mkBin(K::Mul, mkConst(c, n), y));
    }
    Expr *r = mkBin(K::URem, s, mkConst(m, n));
    return mkZExt(r, a->w);
}
// an extended product that cannot overflow
static bool isNarrowMul(Expr *e)
{
    return e->k == K::ZExt && e->a->k == K::Mul && e->a->a->ab + e->a->b->ab <= e->a->w;
}
static Expr *widen(Expr *e, unsigned w)
{
    if(e->k == K::ZExt) return mkZExt(e->a, w);
    if(e->k == K::Add && std::max(e->a->ab, e->b->ab) < e->w) return mkBin(K::Add, widen(e->a, w), widen(e->b, w));
    return mkZExt(e, w);
}
// x - (x / y) * y, written as a difference (sign 1) or as a sum with the negated product (sign -1)
static Expr *remainderOf(Expr *x, Expr *p, int sign)
{
    unsigned w = x->w;
    if(p->k != K::Mul || isConst(x)) return nullptr;
    for(int n = 0; n < 2; ++n) {
        Expr *q = n ? p->a : p->b, *y = n ? p->b : p->a;
        if((q->k != K::UDiv && q->k != K::SDiv) || q->a != x) continue;
        K k = q->k == K::UDiv ? K::URem : K::SRem;
        if(sign > 0 && q->b == y) return mkBin(k, x, y);
        if(sign < 0 && isConst(y) && isConst(q->b) && ((0 - y->v) & maskw(w)) == q->b->v) return mkBin(k, x, q->b);
    }
    return nullptr;
}
Expr *mkBin(K k, Expr *a, Expr *b)
{
    unsigned w = a->w;
    assert(a->w == b->w);
    bool cmp = k >= K::Eq && k <= K::Sle;
    if(isConst(a) && isConst(b)) {
        u128 o;
        foldBin(k, a->v, b->v, w, o);
        return mkConst(o, cmp ? 1 : w);
    }
    if(w <= 64) {
        switch(k) {
        case K::Ult: if(a->hi < b->lo) return mkConst(1, 1); if(a->lo >= b->hi) return mkConst(0, 1); break;
        case K::Ule: if(a->hi <= b->lo) return mkConst(1, 1); if(a->lo > b->hi) return mkConst(0, 1); break;
        case K::Eq: if(a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1); break;
        default: break;
        }
    }
    if(commut(k)) {
        // constants on the left; otherwise order by id
        if(isConst(b) || (!isConst(a) && b->id < a->id)) std::swap(a, b);
    }
    // operations on values with known zero high bits are done at the narrower width
    if(k == K::SDiv || k == K::SRem) {
        if(a->ab < w && b->ab < w) return mkBin(k == K::SDiv ? K::UDiv : K::URem, a, b);
    } else if(k == K::UDiv || k == K::URem) {
        unsigned n = std::max<unsigned>(std::max(a->ab, b->ab), 1);
        // a zero divisor needs the full width (all ones), so only constants
        if(n < w && isConst(b) && b->v) return mkZExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    } else if(k == K::Mul) {
        unsigned n = std::max<unsigned>(a->ab + b->ab, 1);
        if(n + 8 <= w) return mkZExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    } else if(k == K::Slt || k == K::Sle) {
        if(a->ab < w && b->ab < w) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
    } else if((k == K::Ult || k == K::Ule || k == K::Eq) && !isConst(a) && !isConst(b)) {
        unsigned n = std::max<unsigned>(std::max(a->ab, b->ab), 1);
        if(n < w && (a->k == K::ZExt || b->k == K::ZExt)) return mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n));
    }
    if(k == K::Sub && isConst(b)) return mkBin(K::Add, mkConst(0 - b->v, w), a);
    switch(k) {
    case K::Add:
        if(isConst(a)) {
            if(a->v == 0) return b;
            if(b->k == K::Add && isConst(b->a)) return mkBin(K::Add, mkConst(a->v + b->a->v, w), b->b);
            if(b->k == K::Ite && isConst(b->b) && isConst(b->c))
                return mkIte(b->a, mkBin(K::Add, a, b->b), mkBin(K::Add, a, b->c));
        } else {
            // (a + c1) + b -> c1 + (a + b)
            if(a->k == K::Add && isConst(a->a)) return mkBin(K::Add, a->a, mkBin(K::Add, a->b, b));
            if(b->k == K::Add && isConst(b->a)) return mkBin(K::Add, b->a, mkBin(K::Add, a, b->b));
            if(a->k == K::Sub && a->b == b) return a->a;
            if(b->k == K::Sub && b->b == a) return b->a;
            if(Expr *r = remainderOf(a, b, -1)) return r;
            if(Expr *r = remainderOf(b, a, -1)) return r;
            // the same, both shifted
            if(a->k == K::Concat && b->k == K::Concat && a->b == b->b && isConst(a->b) && a->b->v == 0
               && a->a->k == K::Extract && b->a->k == K::Extract && a->a->aux == 0 && b->a->aux == 0
               && a->a->a->w == w && b->a->a->w == w) {
                Expr *x = a->a->a, *y = b->a->a, *r = remainderOf(x, y, -1);
                if(!r) r = remainderOf(y, x, -1);
                if(r) return mkBin(K::Shl, r, mkConst(a->b->w, w));
            }
        }
        break;
    case K::Sub:
        if(a == b) return mkConst(0, w);
        if(Expr *r = remainderOf(a, b, 1)) return r;
        if(a->k == K::Add && a->a == b) return a->b;
        if(a->k == K::Add && a->b == b) return a->a;
        if(a->k == K::Add && isConst(a->a)) return mkBin(K::Add, a->a, mkBin(K::Sub, a->b, b));
        if(b->k == K::Add && isConst(b->a)) return mkBin(K::Add, mkConst(0 - b->a->v, w), mkBin(K::Sub, a, b->b));
        break;
    case K::Mul:
        if(isConst(a)) {
            if(a->v == 0) return a;
            if(a->v == 1) return b;
            if((a->v & (a->v - 1)) == 0) {
                unsigned s = 0;
                while(!((a->v >> s) & 1)) ++s;
                return mkBin(K::Shl, b, mkConst(s, w));
            }
            if(b->k == K::Mul && isConst(b->a)) return mkBin(K::Mul, mkConst(a->v * b->a->v, w), b->b);
            if(b->k == K::Ite && isConst(b->b) && isConst(b->c))
                return mkIte(b->a, mkBin(K::Mul, a, b->b), mkBin(K::Mul, a, b->c));
        } else if(a->k == K::Mul || b->k == K::Mul || isNarrowMul(a) || isNarrowMul(b)) {
            // one order of the factors for every way to build the product
            std::vector<Expr *> f, todo = {a, b};
            while(!todo.empty() && f.size() <= 16) {
                Expr *e = todo.back();
                todo.pop_back();
                if(e->k == K::Mul) { todo.push_back(e->a); todo.push_back(e->b); }
                else if(isNarrowMul(e)) { todo.push_back(widen(e->a->a, w)); todo.push_back(widen(e->a->b, w)); }
                else f.push_back(e);
            }
            if(f.size() <= 16) {
                u128 c = 1;
                std::vector<Expr *> g;
                for(Expr *e : f) { if(isConst(e)) c = c * e->v & maskw(w); else g.push_back(e); }
                std::sort(g.begin(), g.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
                Expr *e = g[0];
                for(size_t i = 1; i < g.size(); ++i) e = intern(K::Mul, w, e, g[i], nullptr, 0, 0);
                return c == 1 ? e : mkBin(K::Mul, mkConst(c, w), e);
            }
        }
        break;
    case K::UDiv: if(isConst(b) && b->v == 1) return a; break;
    case K::SDiv: if(isConst(b) && b->v == 1 && w > 1) return a; break;
    case K::URem: if(isConst(b) && b->v == 1) return mkConst(0, w);
        if(isConst(b) && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K::And, mkConst(b->v - 1, w), a);
        if(isConst(b) && b->v && !(b->v >> 16)) if(Expr *e = remainderOfSum(a, b->v)) return e;
        break;
    case K::And:
        if(a == b) return a;
        if(isConst(a)) {
            if(a->v == 0) return a;
            if(a->v == maskw(w)) return b;
            if(b->k == K::And && isConst(b->a)) return mkBin(K::And, mkConst(a->v & b->a->v, w), b->b);
            // low mask -> zext(extract)
            u128 m = a->v;
            if(((m + 1) & m) == 0) {
                unsigned n = 0;
                while((m >> n) & 1) ++n;
                return mkZExt(mkExtract(b, 0, n), w);
            }
        }
        if(w == 1 && b == mkNot(a)) return mkConst(0, 1);
        break;
    case K::Or:
        // the halves of a value put together
        for(int i = 0; i < 2; ++i, std::swap(a, b))
            if(a->k == K::Concat && isConst(a->b) && a->b->v == 0 && b->k == K::ZExt && b->a->w <= a->b->w)
                return mkConcat(a->a, mkZExt(b->a, a->b->w));
        if(a == b) return a;
        if(isConst(a)) {
            if(a->v == 0) return b;
            if(a->v == maskw(w)) return a;
        }
        if(w == 1 && b == mkNot(a)) return mkConst(1, 1);
        break;
    case K::Xor:
        if(a == b) return mkConst(0, w);
        if(isConst(a)) {
            if(a->v == 0) return b;
            if(w == 1) return mkNot(b);
            if(b->k == K::Xor && isConst(b->a)) return mkBin(K::Xor, mkConst(a->v ^ b->a->v, w), b->b);
        }
        break;
    case K::Shl: case K::LShr:
        if(isConst(b)) {
            if(b->v == 0) return a;
            if(b->v >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->v;
            if(k == K::Shl) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K::AShr:
        if(isConst(b)) {
            if(b->v == 0) return a;
            unsigned s = b->v >= w ? w - 1 : (unsigned)b->v;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K::Eq: {
        Expr *x, *y;
        if(cancelFactor(a, b, x, y) || cancelFactorU(a, b, x, y)) return mkBin(K::Eq, x, y);
    }
        if(a == b) return mkConst(1, 1);
        if(isConst(a)) {
            if(w == 1) return a->v ? b : mkNot(b);
            switch(b->k) {
            case K::Add: if(isConst(b->a)) return mkBin(K::Eq, mkConst(a->v - b->a->v, w), b->b); break;
            case K::Xor: if(isConst(b->a)) return mkBin(K::Eq, mkConst(a->v ^ b->a->v, w), b->b); break;
            case K::Sub: if(a->v == 0) return mkBin(K::Eq, b->a, b->b); break;
            case K::ZExt:
                if(a->v >> b->a->w) return mkConst(0, 1);
                return mkBin(K::Eq, mkConst(a->v, b->a->w), b->a);
            case K::SExt: {
                u128 t = a->v & maskw(b->a->w);
                if(((u128)sext128(t, b->a->w) & maskw(w)) != a->v) return mkConst(0, 1);
                return mkBin(K::Eq, mkConst(t, b->a->w), b->a);
            }
            case K::Concat: {
                Expr *hi = b->a, *lo = b->b;
                return mkBin(K::And, mkBin(K::Eq, mkConst(a->v >> lo->w, hi->w), hi),
                             mkBin(K::Eq, mkConst(a->v, lo->w), lo));
            }
            case K::Ite:
                if(isConst(b->b) && isConst(b->c)) {
                    bool t = b->b->v == a->v, f = b->c->v == a->v;
                    if(t && f) return mkConst(1, 1);
                    if(!t && !f) return mkConst(0, 1);
                    return t ? b->a : mkNot(b->a);
                }
                if(isConst(b->b) || isConst(b->c))
                    return mkIte(b->a, mkBin(K::Eq, a, b->b), mkBin(K::Eq, a, b->c));
                break;
            default: break;
            }
        } else {
            if(a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
            if(a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
            if(w == 1 && b == mkNot(a)) return mkConst(0, 1);
            for(int i = 0; i < 2; ++i) {
                Expr *x = i ? b : a, *t = i ? a : b;
                if(t->k != K::Ite || (t->b != x && t->c != x)) continue;
                Expr *c = t->a, *o = t->b == x ? t->c : t->b;
                // x == min or max of x and o
                if((c->k == K::Ult || c->k == K::Slt) && ((c->a == x && c->b == o) || (c->a == o && c->b == x))) {
                    bool mn = c->a == t->b;
                    K le = c->k == K::Ult ? K::Ule : K::Sle;
                    return mn ? mkBin(le, x, o) : mkBin(le, o, x);
                }
                return mkBin(K::Or, t->b == x ? c : mkNot(c), mkBin(K::Eq, x, o));
            }
        }
        break;
    case K::Ult: {
        Expr *x, *y;
        if(cancelFactorU(a, b, x, y)) return mkBin(K::Ult, x, y);
    }
        if(a == b) return mkConst(0, 1);
        if(isConst(b)) {
            if(b->v == 0) return mkConst(0, 1);
            if(b->v == 1) return mkBin(K::Eq, mkConst(0, w), a);
            if(a->k == K::ZExt) {
                if(b->v >> a->a->w) return mkConst(1, 1);
                return mkBin(K::Ult, a->a, mkConst(b->v, a->a->w));
            }
        }
        if(isConst(a)) {
            if(a->v == maskw(w)) return mkConst(0, 1);
            if(a->v == 0) return mkNot(mkBin(K::Eq, a, b));
            if(b->k == K::ZExt) {
                if(a->v >= maskw(b->a->w)) return mkConst(0, 1);
                return mkBin(K::Ult, mkConst(a->v, b->a->w), b->a);
            }
        }
        if(a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ult, a->a, b->a);
        break;
    case K::Ule: {
        Expr *x, *y;
        if(cancelFactorU(a, b, x, y)) return mkBin(K::Ule, x, y);
    }
        if(a == b) return mkConst(1, 1);
        if(isConst(a) && a->v == 0) return mkConst(1, 1);
        if(isConst(b) && b->v == maskw(w)) return mkConst(1, 1);
        if(isConst(b) && b->v == 0) return mkBin(K::Eq, b, a);
        if(isConst(b) && a->k == K::ZExt) {
            if(b->v >= maskw(a->a->w)) return mkConst(1, 1);
            return mkBin(K::Ule, a->a, mkConst(b->v, a->a->w));
        }
        if(isConst(a) && b->k == K::ZExt) {
            if(a->v > maskw(b->a->w)) return mkConst(0, 1);
            return mkBin(K::Ule, mkConst(a->v, b->a->w), b->a);
        }
        if(a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ule, a->a, b->a);
        break;
    case K::Slt: case K::Sle: {
        Expr *x, *y;
        if(cancelFactor(a, b, x, y)) return mkBin(k, x, y);
        int64_t al, ah, bl, bh;
        if(w <= 64 && srange(a, al, ah, 4) && srange(b, bl, bh, 4)) {
            if(k == K::Slt) { if(ah < bl) return mkConst(1, 1); if(al >= bh) return mkConst(0, 1); }
            else { if(ah <= bl) return mkConst(1, 1); if(al > bh) return mkConst(0, 1); }
        }
    }
        if(a == b) return mkConst(k == K::Sle, 1);
        // zero-extended values are non-negative
        {
            bool az = a->k == K::ZExt || (isConst(a) && !((a->v >> (w - 1)) & 1));
            bool bz = b->k == K::ZExt || (isConst(b) && !((b->v >> (w - 1)) & 1));
            if(az && bz) return mkBin(k == K::Slt ? K::Ult : K::Ule, a, b);
            if(a->k == K::ZExt && isConst(b)) return mkConst(0, 1);   // b negative
            if(b->k == K::ZExt && isConst(a)) return mkConst(1, 1);   // a negative
        }
        break;
    default: break;
    }
    // distribute over an if-then-else of constants when the other side is constant
    if(isConst(b) && a->k == K::Ite && isConst(a->b) && isConst(a->c) && k != K::Add)
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if(isConst(a) && b->k == K::Ite && isConst(b->b) && isConst(b->c))
        return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    return intern(k, cmp ? 1 : w, a, b, nullptr, 0, 0);
}

// the operands of a nested minimum (or maximum) of one signedness
static void minLeaves(Expr *e, K lt, bool mn, std::vector<Expr *> &out)
{
    if(e->k == K::Ite && e->a->k == lt && out.size() < 64 && e->a->a == (mn ? e->b : e->c) && e->a->b == (mn ? e->c : e->b)) {
        minLeaves(e->b, lt, mn, out);
        minLeaves(e->c, lt, mn, out);
    } else out.push_back(e);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b)
{
    assert(c->w == 1 && a->w == b->w);
    if(isConst(c)) return c->v ? a : b;
    if(a == b) return a;
    if(c->k == K::Eq && c->w == 1 && isConst(c->a) && c->a->w == 1 && c->a->v == 0) {
        return mkIte(c->b, b, a);
    }
    if(a->w == 1) {
        if(isConst(a)) return a->v ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
        if(isConst(b)) return b->v ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
    }
    if(a->k == K::Ite && a->a == c) a = a->b;
    if(b->k == K::Ite && b->a == c) b = b->c;
    if(a == b) return a;
    // minimum and maximum in one form each
    if((c->k == K::Ult || c->k == K::Ule || c->k == K::Slt || c->k == K::Sle) && ((c->a == a && c->b == b) || (c->a == b && c->b == a))) {
        bool mn = c->a == a;
        K lt = c->k == K::Ult || c->k == K::Ule ? K::Ult : K::Slt;
        std::vector<Expr *> leaves;
        minLeaves(a, lt, mn, leaves);
        minLeaves(b, lt, mn, leaves);
        std::sort(leaves.begin(), leaves.end(), [](Expr *p, Expr *q) { return p->id < q->id; });
        leaves.erase(std::unique(leaves.begin(), leaves.end()), leaves.end());
        Expr *r = leaves[0];
        for(size_t i = 1; i < leaves.size(); ++i) {
            Expr *x = r->id < leaves[i]->id ? r : leaves[i], *y = r->id < leaves[i]->id ? leaves[i] : r;
            Expr *q = mkBin(lt, x, y);
            if(isConst(q)) r = (q->v != 0) == mn ? x : y;
            else r = intern(K::Ite, x->w, q, mn ? x : y, mn ? y : x, 0, 0);
        }
        return r;
    }
    return intern(K::Ite, a->w, c, a, b, 0, 0);
}

// hi ++ lo when both are neighbouring pieces of one value
static Expr *merge(Expr *hi, Expr *lo)
{
    if(hi->k == K::Extract && hi->aux >= lo->w && mkExtract(hi->a, hi->aux - lo->w, lo->w) == lo)
        return mkExtract(hi->a, hi->aux - lo->w, hi->w + lo->w);
    if(hi->k == K::ZExt)
        if(Expr *m = merge(hi->a, lo)) return mkZExt(m, hi->w + lo->w);
    if(hi->k == K::SExt)
        if(Expr *m = merge(hi->a, lo)) return mkSExt(m, hi->w + lo->w);
    return nullptr;
}
Expr *mkConcat(Expr *hi, Expr *lo)
{
    unsigned w = hi->w + lo->w;
    if(isConst(hi) && isConst(lo) && w <= 128) return mkConst((hi->v << lo->w) | lo->v, w);
    if(isConst(hi) && hi->v == 0) return mkZExt(lo, w);
    if(Expr *m = merge(hi, lo)) return m;
    if(hi->k == K::Concat)
        if(Expr *m = merge(hi->b, lo)) return mkConcat(hi->a, m);
    if(lo->k == K::Concat) {
        if(Expr *m = merge(hi, lo->a)) return mkConcat(m, lo->b);
        if(isConst(hi) && isConst(lo->a) && hi->w + lo->a->w <= 128) return mkConcat(mkConcat(hi, lo->a), lo->b);
    }
    // hi = extract(zext/sext...) handled by extract simplification
    if(hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if(isConst(hi) && lo->k == K::Ite && isConst(lo->b) && isConst(lo->c))
        return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    return intern(K::Concat, w, hi, lo, nullptr, 0, 0);
}

Expr *mkExtract(Expr *e, unsigned off, unsigned w)
{
    assert(off + w <= e->w && w > 0);
    if(w == e->w) return e;
    if(off >= e->ab) return mkConst(0, w);
    switch(e->k) {
    case K::Const: return mkConst(e->v >> off, w);
    case K::Extract: return mkExtract(e->a, e->aux + off, w);
    case K::Concat:
        if(off >= e->b->w) return mkExtract(e->a, off - e->b->w, w);
        if(off + w <= e->b->w) return mkExtract(e->b, off, w);
        return mkConcat(mkExtract(e->a, 0, off + w - e->b->w), mkExtract(e->b, off, e->b->w - off));
    case K::ZExt:
        if(off >= e->a->w) return mkConst(0, w);
        if(off + w <= e->a->w) return mkExtract(e->a, off, w);
        return mkZExt(mkExtract(e->a, off, e->a->w - off), w);
    case K::SExt:
        if(off + w <= e->a->w) return mkExtract(e->a, off, w);
        if(off < e->a->w) return mkSExt(mkExtract(e->a, off, e->a->w - off), w);
        break;
    case K::Ite:
        if(isConst(e->b) || isConst(e->c))
            return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
        break;
    case K::And: case K::Or: case K::Xor:
        if(isConst(e->a)) return mkBin(e->k, mkExtract(e->a, off, w), mkExtract(e->b, off, w));
        break;
    case K::Add: case K::Mul: case K::Sub:
        if(off == 0 && w <= 32 && e->w <= 64 && (e->a->k == K::ZExt || e->a->k == K::SExt || isConst(e->a))
           && (e->b->k == K::ZExt || e->b->k == K::SExt || isConst(e->b)))
            return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    default: break;
    }
    return intern(K::Extract, w, e, nullptr, nullptr, off, 0);
}

Expr *mkZExt(Expr *e, unsigned w)
{
    if(w == e->w) return e;
    assert(w > e->w);
    if(isConst(e)) return mkConst(e->v, w);
    if(e->k == K::ZExt) return mkZExt(e->a, w);
    if(e->k == K::Ite && isConst(e->b) && isConst(e->c))
        return mkIte(e->a, mkZExt(e->b, w), mkZExt(e->c, w));
    return intern(K::ZExt, w, e, nullptr, nullptr, 0, 0);
}

Expr *mkSExt(Expr *e, unsigned w)
{
    if(w == e->w) return e;
    assert(w > e->w);
    if(isConst(e)) return mkConst((u128)sext128(e->v, e->w), w);
    if(e->k == K::SExt) return mkSExt(e->a, w);
    if(e->k == K::ZExt) return mkZExt(e->a, w);
    if(e->k == K::Ite && isConst(e->b) && isConst(e->c))
        return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
    return intern(K::SExt, w, e, nullptr, nullptr, 0, 0);
}

bool srange(Expr *e, int64_t &lo, int64_t &hi, int depth)
{
    if(e->w > 64) return false;
    int64_t M = (int64_t)(maskw(e->w) >> 1);
    lo = -M - 1; hi = M;
    if(e->k == K::Const) { lo = hi = (int64_t)sext128(e->v, e->w); return true; }
    if(e->hi <= (uint64_t)M) { lo = (int64_t)e->lo; hi = (int64_t)e->hi; return true; }
    if(e->w >= 2 && e->lo > (uint64_t)M) { lo = (int64_t)sext128(e->lo, e->w); hi = (int64_t)sext128(e->hi, e->w); return true; }
    if(depth == 0) return true;
    int64_t al, ah, bl, bh;
    switch(e->k) {
    case K::SExt:
        if(srange(e->a, al, ah, depth - 1)) { lo = al; hi = ah; }
        break;
    case K::Ite:
        if(srange(e->b, al, ah, depth - 1) && srange(e->c, bl, bh, depth - 1)) { lo = std::min(al, bl); hi = std::max(ah, bh); }
        break;
    case K::Add: case K::Sub: case K::Mul:
        if(srange(e->a, al, ah, depth - 1) && srange(e->b, bl, bh, depth - 1)) {
            i128 l, h;
            if(e->k == K::Add) { l = (i128)al + bl; h = (i128)ah + bh; }
            else if(e->k == K::Sub) { l = (i128)al - bh; h = (i128)ah - bl; }
            else {
                i128 p[4] = {(i128)al * bl, (i128)al * bh, (i128)ah * bl, (i128)ah * bh};
                l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4);
            }
            if(l >= (i128)lo && h <= (i128)hi) { lo = (int64_t)l; hi = (int64_t)h; }
        }
        break;
    case K::AShr:
        if(isConst(e->b) && e->b->v < e->w && srange(e->a, al, ah, depth - 1)) { lo = al >> (unsigned)e->b->v; hi = ah >> (unsigned)e->b->v; }
        break;
    case K::Shl:
        if(isConst(e->b) && e->b->v < e->w && srange(e->a, al, ah, depth - 1)) {
            i128 l = (i128)al << (unsigned)e->b->v, h = (i128)ah << (unsigned)e->b->v;
            if(l >= (i128)lo && h <= (i128)hi) { lo = (int64_t)l; hi = (int64_t)h; }
        }
        break;
    case K::Concat:
        // a shift to the left: the low bits of a value above zeros
        if(isConst(e->b) && e->b->v == 0 && e->a->k == K::Extract && e->a->aux == 0 && e->a->a->w == e->w && srange(e->a->a, al, ah, depth - 1)) {
            i128 l = (i128)al << e->b->w, h = (i128)ah << e->b->w;
            if(l >= (i128)lo && h <= (i128)hi) { lo = (int64_t)l; hi = (int64_t)h; }
        }
        break;
    case K::SDiv:
        if(isConst(e->b) && (int64_t)sext128(e->b->v, e->w) > 0 && srange(e->a, al, ah, depth - 1)) {
            int64_t d = (int64_t)sext128(e->b->v, e->w);
            lo = al / d; hi = ah / d;
        }
        break;
    default: break;
    }
    return true;
}

// a and b are x*f and y*f with the same positive f, and neither product
// overflows as a signed number: then they compare like x and y
static bool cancelFactor(Expr *a, Expr *b, Expr *&x, Expr *&y)
{
    if(a->k != b->k || a->w > 64) return false;
    int64_t M = (int64_t)(maskw(a->w) >> 1), fl, fh, l, h;
    auto fits = [&](Expr *v) {
        return srange(v, l, h, 4) && (i128)h * fh <= M && (i128)l * fh >= -(i128)M - 1;
    };
    if(a->k == K::Shl) {
        if(a->b != b->b || !isConst(a->b) || a->b->v >= a->w - 1u) return false;
        fl = fh = 1ll << (unsigned)a->b->v;
        if(!fits(a->a) || !fits(b->a)) return false;
        x = a->a; y = b->a;
        return true;
    }
    if(a->k != K::Mul) return false;
    for(int i = 0; i < 2; ++i)
        for(int j = 0; j < 2; ++j) {
            Expr *f = i ? a->a : a->b, *g = j ? b->a : b->b;
            if(f != g) continue;
            x = i ? a->b : a->a; y = j ? b->b : b->a;
            if(srange(f, fl, fh, 4) && fl >= 1 && fits(x) && fits(y)) return true;
        }
    return false;
}

// the same for unsigned numbers
static bool cancelFactorU(Expr *a, Expr *b, Expr *&x, Expr *&y)
{
    if(a->k != K::Mul || b->k != K::Mul || a->w > 64) return false;
    for(int i = 0; i < 2; ++i)
        for(int j = 0; j < 2; ++j) {
            Expr *f = i ? a->a : a->b, *g = j ? b->a : b->b;
            if(f != g || f->lo < 1) continue;
            x = i ? a->b : a->a; y = j ? b->b : b->a;
            u128 M = maskw(a->w), h = f->hi;
            if(h <= M / std::max<u128>(1, x->hi) && h <= M / std::max<u128>(1, y->hi)) return true;
        }
    return false;
}

// range of the double e
static bool frange(Expr *e, double &lo, double &hi)
{
    if(e->w != 64) return false;
    if(isConst(e)) {
        double d;
        uint64_t u = (uint64_t)e->v;
        memcpy(&d, &u, 8);
        if(d != d) return false;
        lo = hi = d;
        return true;
    }
    if(e->k == K::Ite) {
        double l2, h2;
        if(!frange(e->b, lo, hi) || !frange(e->c, l2, h2)) return false;
        lo = std::min(lo, l2); hi = std::max(hi, h2);
        return true;
    }
    if(!e->franged) return false;
    lo = e->flo; hi = e->fhi;
    return true;
}
static void setFrange(Expr *e)
{
    if(e->w != 64 || e->franged) return;
    double al, ah, bl, bh, lo, hi;
    switch(e->k) {
    case K::SIToF: {
        int64_t l, h;
        if(!srange(e->a, l, h)) return;
        lo = (double)l; hi = (double)h;
        break;
    }
    case K::UIToF:
        if(e->a->w > 64) return;
        lo = (double)e->a->lo; hi = (double)e->a->hi;
        break;
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: {
        if(!frange(e->a, al, ah) || !frange(e->b, bl, bh)) return;
        if(std::isinf(al) || std::isinf(ah) || std::isinf(bl) || std::isinf(bh)) return;
        if(e->k == K::FAdd) { lo = al + bl; hi = ah + bh; }
        else if(e->k == K::FSub) { lo = al - bh; hi = ah - bl; }
        else if(e->k == K::FMul) {
            double p[4] = {al * bl, al * bh, ah * bl, ah * bh};
            lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);
        } else {
            if(bl <= 0 && bh >= 0) return;
            double p[4] = {al / bl, al / bh, ah / bl, ah / bh};
            lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);
        }
        break;
    }
    case K::FRound:
        if(!frange(e->a, al, ah) || std::isinf(al) || std::isinf(ah)) return;
        lo = roundMode(al, e->aux); hi = roundMode(ah, e->aux);
        break;
    default: return;
    }
    e->flo = lo; e->fhi = hi; e->franged = true;
}

static const int64_t FIXMAX = 1ll << 53;
static Expr *c64(int64_t v) { return mkConst((u128)(uint64_t)v, 64); }
static bool inFix(Expr *i, int64_t &lo, int64_t &hi) { return srange(i, lo, hi) && lo >= -FIXMAX && hi <= FIXMAX; }
// e as an integer times 2^-s
static bool fix(Expr *e, Expr *&i, int &s)
{
    if(e->w != 64) return false;
    if(isConst(e)) {
        double d;
        uint64_t u = (uint64_t)e->v;
        memcpy(&d, &u, 8);
        if(!(d > -(double)FIXMAX && d < (double)FIXMAX)) return false;
        s = 0;
        while(d != std::floor(d) && s < 40 && std::fabs(d) < (double)FIXMAX / 2) { d *= 2; ++s; }
        if(d != std::floor(d)) return false;
        i = c64((int64_t)d);
        return true;
    }
    if(e->fx) { i = e->fx; s = e->fs; return true; }
    Expr *a, *b;
    int as, bs;
    int64_t lo, hi;
    if(e->k == K::Ite && fix(e->b, a, as) && fix(e->c, b, bs)) {
        s = std::max(as, bs);
        if(s > as) a = mkBin(K::Shl, a, c64(s - as));
        if(s > bs) b = mkBin(K::Shl, b, c64(s - bs));
        i = mkIte(e->a, a, b);
        if(!inFix(i, lo, hi)) return false;
        e->fx = i; e->fs = s;
        return true;
    }
    if(e->k == K::Xor && isConst(e->a) && e->a->v == ((u128)1 << 63) && fix(e->b, a, s)) {
        i = mkBin(K::Sub, c64(0), a);
        if(!inFix(i, lo, hi)) return false;
        e->fx = i; e->fs = s;
        return true;
    }
    if(e->k == K::And && isConst(e->a) && e->a->v == ((u128)1 << 63) - 1 && fix(e->b, a, s)) {
        i = mkIte(mkBin(K::Slt, a, c64(0)), mkBin(K::Sub, c64(0), a), a);
        if(!inFix(i, lo, hi)) return false;
        e->fx = i; e->fs = s;
        return true;
    }
    return false;
}
// e is a/n rounded once, a an integer and n > 0: as both are below 2^51, a/n is
// further from the next integer away from zero than rounding moves it, so that
// truncation gives the integer quotient. Scaling by powers of two is exact.
static bool quotient(Expr *e, Expr *&a, int64_t &n)
{
    int k = 0, s;
    for(;;) {
        Expr *x = nullptr, *c = nullptr;
        if(e->k == K::FMul && isConst(e->a)) { x = e->b; c = e->a; }
        else if(e->k == K::FMul && isConst(e->b)) { x = e->a; c = e->b; }
        else if(e->k == K::FDiv && isConst(e->b)) { x = e->a; c = e->b; }
        else return false;
        uint64_t u = (uint64_t)c->v;
        int ex = (int)(u >> 52) - 1023;
        if((u & ((1ull << 52) - 1)) || (u >> 63) || ex < -30 || ex > 30) break;
        k += e->k == K::FMul ? ex : -ex;
        e = x;
    }
    if(e->k != K::FDiv || !isConst(e->b) || e->w != 64 || !fix(e->a, a, s)) return false;
    double v = asD(e->b->v);
    if(!(v >= 1 && v < 1e9) || v != std::floor(v)) return false;
    n = (int64_t)v;
    k -= s;
    if(k < -20 || k > 20) return false;
    if(k < 0) n <<= -k;
    int64_t lo, hi;
    if(!srange(a, lo, hi) || lo < -(1ll << (51 - (k > 0 ? k : 0))) || hi > (1ll << (51 - (k > 0 ? k : 0))) || n >= (1ll << 51)) return false;
    if(k > 0) a = mkBin(K::Mul, c64(1ll << k), a);
    return true;
}
static void setFix(Expr *e)
{
    if(e->w != 64 || e->fx || e->k < K::FAdd) return;
    Expr *a, *b, *r = nullptr;
    int as, bs, s = 0;
    int64_t lo, hi;
    switch(e->k) {
    case K::SIToF:
        if(e->a->w <= 64) r = mkSExt(e->a, 64);
        break;
    case K::UIToF:
        if(e->a->w < 64 || e->a->hi <= (uint64_t)FIXMAX) r = mkZExt(e->a, 64);
        break;
    case K::FAdd: case K::FSub:
        if(!fix(e->a, a, as) || !fix(e->b, b, bs)) return;
        s = std::max(as, bs);
        if(s > as) a = mkBin(K::Mul, c64(1ll << (s - as)), a);
        if(s > bs) b = mkBin(K::Mul, c64(1ll << (s - bs)), b);
        if(!inFix(a, lo, hi) || !inFix(b, lo, hi)) return;
        r = mkBin(e->k == K::FAdd ? K::Add : K::Sub, a, b);
        break;
    case K::FMul:
        if(!fix(e->a, a, as) || !fix(e->b, b, bs) || as + bs > 40) return;
        r = mkBin(K::Mul, a, b);
        s = as + bs;
        break;
    case K::FDiv: {
        if(!isConst(e->b) || !fix(e->a, a, as) || !fix(e->b, b, bs)) return;
        int64_t d = (int64_t)(uint64_t)b->v;
        if(d <= 0 || (d & (d - 1))) return;
        int l = 0;
        while((1ll << l) < d) ++l;
        s = as + l - bs;
        r = a;
        if(s < 0) { r = mkBin(K::Mul, c64(1ll << -s), r); s = 0; }
        if(s > 40) return;
        break;
    }
    case K::FRound: {
        if(!fix(e->a, a, as)) {
            int64_t n;
            if(e->aux == 3 && quotient(e->a, a, n)) { r = mkBin(K::SDiv, a, c64(n)); break; }
            return;
        }
        if(as == 0) { r = a; break; }
        Expr *one = c64(1ll << as), *half = c64(1ll << (as - 1)), *sh = c64(as);
        Expr *fl = mkBin(K::AShr, a, sh);                       // floor
        Expr *fr = mkBin(K::And, c64((1ll << as) - 1), a);      // a - floor * 2^as
        switch(e->aux) {
        case 1: r = fl; break;
        case 2: r = mkBin(K::Add, fl, mkZExt(mkNot(mkBin(K::Eq, c64(0), fr)), 64)); break;
        case 3: r = mkBin(K::SDiv, a, one); break;
        case 4: {
            Expr *neg = mkBin(K::Slt, a, c64(0));
            Expr *up = mkIte(neg, mkBin(K::Ult, half, fr), mkBin(K::Ule, half, fr));
            r = mkBin(K::Add, fl, mkZExt(up, 64));
            break;
        }
        case 0: {
            Expr *odd = mkExtract(fl, 0, 1);
            Expr *up = mkIte(odd, mkBin(K::Ule, half, fr), mkBin(K::Ult, half, fr));
            r = mkBin(K::Add, fl, mkZExt(up, 64));
            break;
        }
        default: return;
        }
        break;
    }
    default: return;
    }
    if(!r) return;
    if(!inFix(r, lo, hi)) {
        // the range of the double may be tighter
        double l, h;
        if(!frange(e, l, h) || !(l * std::ldexp(1.0, s) >= -(double)FIXMAX && h * std::ldexp(1.0, s) <= (double)FIXMAX)) return;
    }
    e->fx = r; e->fs = s;
}

Expr *mkFBin(K k, Expr *a, Expr *b)
{
    bool cmp = k >= K::FOeq && k <= K::FUno;
    if(isConst(a) && isConst(b)) return mkConst(foldFBin(k, a->v, b->v, a->w), cmp ? 1 : a->w);
    if(cmp) {
        double al, ah, bl, bh;
        bool ra = frange(a, al, ah), rb = frange(b, bl, bh);
        Expr *x, *y;
        int xs, ys;
        bool fa = fix(a, x, xs), fb = fix(b, y, ys);
        if(k == K::FUno) { if((ra || fa) && (rb || fb)) return mkConst(0, 1); }
        else if(k == K::FOlt && a == b) return mkConst(0, 1);
        else {
            if(ra && rb) {
                if(k == K::FOlt) { if(ah < bl) return mkConst(1, 1); if(al >= bh) return mkConst(0, 1); }
                if(k == K::FOle) { if(ah <= bl) return mkConst(1, 1); if(al > bh) return mkConst(0, 1); }
                if(k == K::FOeq && (ah < bl || bh < al)) return mkConst(0, 1);
            }
            if(a == b && (ra || fa)) return mkConst(1, 1);     // FOeq, FOle
            if(fa && fb) {
                int s = std::max(xs, ys);
                if(s - xs <= 62 && s - ys <= 62) {
                    // 128 bits hold both sides exactly
                    int d = std::max(s - xs, s - ys);
                    unsigned w = d <= 9 ? 64 : 128;
                    auto up = [&](Expr *e, int n) { e = mkSExt(e, w); return n ? mkBin(K::Mul, mkConst((u128)1 << n, w), e) : e; };
                    return mkBin(k == K::FOlt ? K::Slt : k == K::FOle ? K::Sle : K::Eq, up(x, s - xs), up(y, s - ys));
                }
            }
        }
    }
    if((k == K::FAdd || k == K::FMul || k == K::FOeq || k == K::FUno) && b->id < a->id) std::swap(a, b);
    Expr *e = intern(k, cmp ? 1 : a->w, a, b, nullptr, 0, 0);
    setFrange(e);
    setFix(e);
    return e;
}

Expr *mkFUn(K k, Expr *a, unsigned w, unsigned aux)
{
    if(isConst(a)) return mkConst(foldFUn(k, a->v, a->w, w, aux), w);
    if((k == K::FToSI || k == K::FToUI) && a->w == 64 && w <= 64) {
        Expr *x;
        int s;
        if(fix(a, x, s)) {
            if(s) x = mkBin(K::SDiv, x, c64(1ll << s));
            int64_t lo, hi;
            bool r = srange(x, lo, hi);
            if(k == K::FToSI && r && (w == 64 || (lo >= -(1ll << (w - 1)) && hi < (1ll << (w - 1))))) return mkExtract(x, 0, w);
            if(k == K::FToUI && r && lo >= 0 && (w == 64 || hi < (int64_t)(1ull << std::min(w, 62u)))) return mkExtract(x, 0, w);
        }
    }
    Expr *e = intern(k, w, a, nullptr, nullptr, aux, 0);
    setFrange(e);
    setFix(e);
    return e;
}

static u128 evalRec(Expr *e, const Model &m, std::unordered_map<Expr *, u128> &memo)
{
    if(e->k == K::Const) return e->v;
    if(e->k == K::Sym) {
        auto i = m.find(e->aux);
        return i == m.end() ? 0 : i->second;
    }
    auto it = memo.find(e);
    if(it != memo.end()) return it->second;
    u128 r = 0;
    switch(e->k) {
    case K::Ite: r = evalRec(e->a, m, memo) ? evalRec(e->b, m, memo) : evalRec(e->c, m, memo); break;
    case K::Concat: r = (evalRec(e->a, m, memo) << e->b->w) | evalRec(e->b, m, memo); break;
    case K::Extract: r = (evalRec(e->a, m, memo) >> e->aux) & maskw(e->w); break;
    case K::ZExt: r = evalRec(e->a, m, memo); break;
    case K::SExt: r = (u128)sext128(evalRec(e->a, m, memo), e->a->w) & maskw(e->w); break;
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FRem:
    case K::FOeq: case K::FOlt: case K::FOle: case K::FUno:
        r = foldFBin(e->k, evalRec(e->a, m, memo), evalRec(e->b, m, memo), e->a->w);
        break;
    case K::FSqrt: case K::FRound: case K::FToSI: case K::FToUI: case K::SIToF: case K::UIToF: case K::FExt: case K::FTrunc:
        r = foldFUn(e->k, evalRec(e->a, m, memo), e->a->w, e->w, e->aux);
        break;
    default:
        foldBin(e->k, evalRec(e->a, m, memo), evalRec(e->b, m, memo), e->a->w, r);
    }
    memo[e] = r;
    return r;
}

u128 evalExpr(Expr *e, const Model &m)
{
    std::unordered_map<Expr *, u128> memo;
    return evalRec(e, m, memo);
}

std::string dumpExpr(Expr *e, int depth)
{
    static const char *names[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "fround", "foeq", "folt", "fole", "funo", "ftosi", "ftoui", "sitof", "uitof", "fext", "ftrunc"};
    if(e->k == K::Const) return std::to_string((unsigned long long)e->v) + "w" + std::to_string(e->w);
    if(e->k == K::Sym) return g_syms[e->aux].name;
    if(depth == 0) return "...";
    std::string s = std::string("(") + names[(int)e->k];
    if(e->k == K::Extract) s += "[" + std::to_string(e->aux) + ":" + std::to_string(e->w) + "]";
    if(e->a) s += " " + dumpExpr(e->a, depth - 1);
    if(e->b) s += " " + dumpExpr(e->b, depth - 1);
    if(e->c) s += " " + dumpExpr(e->c, depth - 1);
    return s + ")";
}
