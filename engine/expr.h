// Expression layer of the symbolic executor: hash-consed bit-vector DAG with
// constant folding, a concrete evaluator and a translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <cassert>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
    // floating point on bit patterns (width 32 or 64)
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRound,
    FOeq, FOlt, FOle, FUno,
    FToSI, FToUI, SIToF, UIToF, FExt, FTrunc,
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sext128(u128 v, unsigned w)
{
    if(w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    return (i128)((v ^ m) - m);
}

struct Expr {
    K k;
    uint16_t w;
    uint32_t id;
    uint32_t aux;          // Extract offset / symbol id / rounding mode
    bool hasfp;
    Expr *a = nullptr, *b = nullptr, *c = nullptr;
    u128 v = 0;            // Const
    uint64_t hash;
    const std::vector<uint32_t> *syms = nullptr; // sorted symbol ids
    void *z3 = nullptr;    // cached translation
    uint8_t tz = 0;        // known trailing zero bits
    uint64_t lo = 0, hi = ~0ull;   // unsigned range (meaningful for w <= 64)
    double flo, fhi;       // range of a double, meaningful when franged
    bool franged = false;  // neither NaN nor outside [flo, fhi]
    Expr *fx = nullptr;    // this double is exactly fx * 2^-fs (fx: 64-bit signed integer of at most 53 bits); the sign of zero is left open
    int fs = 0;
    uint16_t ab = 0;       // bits at and above ab are known to be zero
};

struct SymInfo { std::string name; unsigned w; Expr *e; };
extern std::vector<SymInfo> g_syms;

Expr *mkConst(u128 v, unsigned w);
Expr *mkSym(const std::string &name, unsigned w);
Expr *mkSymRange(const std::string &name, unsigned w, uint64_t lo, uint64_t hi);
Expr *mkRaw(K k, Expr *a, Expr *b);     // a comparison without simplification
Expr *mkBin(K k, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *e, unsigned off, unsigned w);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkNot(Expr *e);                   // width 1
Expr *mkFUn(K k, Expr *a, unsigned w, unsigned aux);   // conversions, sqrt, round
Expr *mkFBin(K k, Expr *a, Expr *b);
bool srange(Expr *e, int64_t &lo, int64_t &hi, int depth = 6);   // signed range, width <= 64
static inline bool isConst(const Expr *e) { return e->k == K::Const; }

// constant folding shared by the builder and the evaluator
bool foldBin(K k, u128 a, u128 b, unsigned w, u128 &out);
u128 foldFBin(K k, u128 a, u128 b, unsigned w);
u128 foldFUn(K k, u128 a, unsigned wa, unsigned w, unsigned aux);

typedef std::unordered_map<uint32_t, u128> Model;  // symbol id -> value (default 0)
u128 evalExpr(Expr *e, const Model &m);
std::string dumpExpr(Expr *e, int depth = 6);
extern uint64_t g_numExprs;
