// esx: a bounded symbolic executor for LLVM 18 bitcode, deciding path
// feasibility and assertions with Z3.  See /verif/DESIGN.md.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <atomic>
#include <array>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>

using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- options
static std::string o_bc, o_entry = "harness", o_out, o_repo = "/repo/";
static u64 o_maxInst = 20000000, o_maxPaths = ~0ull;
static bool o_forkSelect = false;
static bool o_reduce = true;    // sleep sets
static int o_preempt = -1;      // with a bound on preemptions there are no sleep sets
static double o_maxSeconds = 600;
static bool g_full;             // stopped for lack of memory
// this process holds much, or the machine has little left and this process a good part of it
static bool memoryLow()
{
    if(g_full) return true;
    long mb = 0, free = 0;
    if(FILE *f = fopen("/proc/self/statm", "r")) { long a, r; if(fscanf(f, "%ld %ld", &a, &r) == 2) mb = r / 256; fclose(f); }
    if(mb < 1000) return false;
    if(FILE *f = fopen("/proc/meminfo", "r")) { char l[128]; while(fgets(l, sizeof l, f)) if(sscanf(l, "MemAvailable: %ld", &free) == 1) break; fclose(f); }
    return g_full = mb > 6000 || free / 1024 < 6000;
}
static int o_jobs = 1, o_samples = 6;
static bool o_trace = false;

// ---------------------------------------------------------------- values
struct Val {
    u64 lo = 0, hi = 0;
    Expr *e = nullptr;
    const std::vector<Val> *agg = nullptr;
    uint16_t w = 0;
    bool conc() const { return !e && !agg; }
    u128 c() const { return ((u128)hi << 64) | lo; }
};
static Val cv(u128 v, unsigned w)
{
    Val r;
    v &= maskw(w);
    r.lo = (u64)v; r.hi = (u64)(v >> 64); r.w = w;
    return r;
}
static Val ev(Expr *e)
{
    if(isConst(e)) return cv(e->v, e->w);
    Val r;
    r.e = e; r.w = e->w;
    return r;
}
static Expr *ex(const Val &v) { assert(!v.agg); return v.e ? v.e : mkConst(v.c(), v.w); }
static Val av(std::vector<Val> v)
{
    Val r;
    r.agg = new std::vector<Val>(std::move(v));
    return r;
}

// ---------------------------------------------------------------- memory
struct Content {
    int rc = 0;
    std::vector<uint8_t> b;
    std::vector<Expr *> s;   // empty, or one entry per byte (null = concrete)
};
struct CRef {
    Content *p = nullptr;
    CRef() {}
    explicit CRef(Content *q) : p(q) { if(p) ++p->rc; }
    CRef(const CRef &o) : p(o.p) { if(p) ++p->rc; }
    CRef(CRef &&o) noexcept : p(o.p) { o.p = nullptr; }
    CRef &operator=(CRef o) { std::swap(p, o.p); return *this; }
    ~CRef() { if(p && --p->rc == 0) delete p; }
    Content *mut()
    {
        if(p->rc > 1) {
            Content *n = new Content(*p);
            n->rc = 1;
            --p->rc;
            p = n;
        }
        return p;
    }
};
static CRef newContent(u64 size, uint8_t fill)
{
    Content *c = new Content();
    c->b.assign(size, fill);
    return CRef(c);
}

enum : uint8_t { HK_malloc = 1, HK_new = 2, HK_newarr = 3, HK_exc = 4 };
struct Obj { u64 base; u64 size; uint8_t kind; bool alive; CRef c; };

static const u64 FUNC_BASE = 0x10000000ull, GLOB_BASE = 0x40000000ull,
                 HEAP_BASE = 0x200000000000ull, STACK_BASE = 0x7f0000000000ull;

// ---------------------------------------------------------------- program
struct Op { int reg = -1; Val k; };
struct Func;
struct GepTerm { Op op; int64_t scale; };
struct Inst {
    unsigned opc = 0;
    int dst = -1;
    unsigned w = 0;           // result / operand width
    unsigned aux = 0;         // predicate
    std::vector<Op> ops;
    std::vector<GepTerm> terms;
    int64_t coff = 0;
    Type *ty = nullptr;
    Func *callee = nullptr;
    std::vector<int> succ;
    Instruction *I = nullptr;
    bool visited = false;
    std::vector<u64> cases;    // switch case values (low 64 bits)
    unsigned intr = 0;
};
struct Phi { int dst; std::map<int, Op> in; };
struct Block { std::vector<Phi> phis; std::vector<Inst> insts; };
typedef int (*Handler)(struct State &, Inst &, std::vector<Val> &, Val &);
struct Func {
    Function *F = nullptr;
    u64 addr = 0;
    std::string name;
    bool compiled = false;
    int nregs = 0;
    std::vector<Block> blocks;
    std::vector<int> argRegs;
    std::vector<Type *> byval;
    Handler handler = nullptr;
    u64 calls = 0;
    bool handlerLooked = false;
};

static LLVMContext lctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<Function *, Func *> funcs;
static std::map<u64, Func *> funcByAddr;
static std::map<std::string, Func *> funcByName;
struct Glob { GlobalVariable *g; u64 base, size; CRef init; bool materialised = false; };
static std::vector<Glob> globs;
static std::map<const GlobalVariable *, int> globIdx;
static std::map<u64, std::string> typeinfoName;   // address -> mangled name

// ---------------------------------------------------------------- state
struct Frame {
    Func *f;
    std::vector<Val> regs;
    int block = 0;
    unsigned ip = 0;
    size_t stackMark = 0;
    u64 stackPtr = 0;
};
struct ExcInfo { u64 obj, tinfo, dtor; int handlers; int64_t adj; std::string where, stack; };
struct Input { std::string name; unsigned w; Expr *e; };

// Threads.  The running thread's frames and stack live in the State itself;
// the others are parked here.  Threads switch at synchronising operations only
// (see schedPoint), atomic accesses among them; unordered accesses to the same
// memory in between are reported as data races, by vector clocks.  Sleep sets
// leave one schedule of each set of schedules that differ by the order of
// operations that do not depend on each other.
enum { MAXT = 6 };
typedef std::array<uint32_t, MAXT> VC;
enum : uint8_t { OP_none, OP_lock, OP_join, OP_cond, OP_futex, OP_done, OP_try, OP_unlock, OP_wait, OP_signal, OP_read, OP_write };
struct Thread {
    std::vector<Frame> frames;
    std::vector<Obj> stack;
    u64 stackPtr = 0;
    std::vector<u64> caught;
    u64 inflight = 0, uncaught = 0;
    uint8_t op = OP_none;       // what it does next, or needs before it can go on
    u64 arg = 0, arg2 = 0;      // mutex; thread; condition variable and mutex; address and value or size
    bool fresh = true;          // not started yet
    bool go = false;            // chosen to carry out the operation it stopped at
    bool phase = false;         // a wait that has been notified
    bool joined = false;        // its place may be taken by another thread
    VC vc{};
    std::map<u64, u64> tls;
};
struct Cell { uint8_t wt = 0xff; uint32_t wc = 0; std::array<uint32_t, MAXT> rc{}; };
struct Sync { int owner = -1, again = 0; VC vc{}; };
typedef std::shared_ptr<std::vector<Cell>> Shadow;

struct State {
    std::vector<Frame> frames;
    std::vector<Thread> th;
    int preempted = 0;
    uint32_t sleep = 0;         // threads whose next operation is explored elsewhere, until another one depends on it
    int cur = 0;
    std::map<u64, Sync> sync;
    std::map<u64, Shadow> shadow;
    std::vector<Obj> heap, stack;
    u64 heapPtr = HEAP_BASE, stackPtr = STACK_BASE;
    std::map<int, CRef> globals;
    std::vector<Expr *> pc;
    std::unordered_map<Expr *, u128> eqs;
    Model model;
    std::vector<Input> inputs;
    std::vector<std::pair<std::string, Val>> obs;
    std::map<u64, ExcInfo> exc;
    std::vector<u64> caught;
    u64 inflight = 0;
    u64 uncaught = 0;
    std::string throwWhere, throwStack;
    u64 steps = 0;
    bool approx = false;
    bool abortOk = false;       // a failing assertion of the code under test counts as a refusal
    std::vector<Function *> pending;
    bool inEntry = false;
    int id = 0;
    std::vector<std::string> covers;
    std::map<std::string, unsigned> nameCount;
};

static std::deque<State *> worklist;
static int nextStateId = 0;

struct Violation {
    std::string kind, msg, where, stack;
    std::vector<std::pair<std::string, u128>> inputs;
    bool approx;
};
static std::vector<Violation> violations;
static std::map<std::string, int> violationKeys;
struct Sample {
    std::vector<std::pair<std::string, u128>> inputs;
    std::vector<std::pair<std::string, u128>> obs;
};
static std::vector<Sample> samples;
static std::map<std::string, u64> covers;
static std::map<std::string, u64> incompleteReasons;
static std::map<std::string, std::string> incompleteWhere;
static u64 st_paths = 0, st_inst = 0, st_forks = 0, st_asserts = 0, st_discharged = 0, st_assumeKilled = 0,
           st_errors = 0, st_symDeref = 0, st_asleep = 0;
static std::map<std::string, std::set<unsigned>> repoFuncs;   // name -> lines
static std::set<std::string> externalsModelled;
static std::chrono::steady_clock::time_point tStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }

static std::string demang(const std::string &n) { return llvm::demangle(n); }

static std::string where(State &S)
{
    if(S.frames.empty()) return "?";
    for(auto i = S.frames.rbegin(); i != S.frames.rend(); ++i) {
        auto &b = i->f->blocks[i->block];
        if(i->ip < b.insts.size()) {
            Instruction *I = b.insts[i->ip].I;
            if(I && I->getDebugLoc()) {
                auto *sc = I->getDebugLoc().get();
                std::string f = sc->getFilename().str();
                if(f.size() && f[0] != '/') f = sc->getDirectory().str() + "/" + f;
                return f + ":" + std::to_string(sc->getLine());
            }
        }
    }
    return S.frames.back().f->name;
}
static std::string stackTrace(State &S)
{
    std::string r;
    int n = 0;
    for(auto i = S.frames.rbegin(); i != S.frames.rend() && n < 14; ++i, ++n) {
        auto &b = i->f->blocks[i->block];
        std::string loc;
        if(i->ip < b.insts.size()) {
            Instruction *I = b.insts[i->ip].I;
            if(I)
                for(DILocation *l = I->getDebugLoc().get(); l; l = l->getInlinedAt())
                    loc += (loc.empty() ? " @ " : " < ") + l->getFilename().str() + ":" + std::to_string(l->getLine());
        }
        r += "#" + std::to_string(n) + " " + demang(i->f->name).substr(0, 160) + loc + "\n";
    }
    return r;
}

static std::vector<std::pair<std::string, u128>> inputValues(State &S, const Model &m)
{
    std::vector<std::pair<std::string, u128>> r;
    for(auto &i : S.inputs) r.push_back({i.name, evalExpr(i.e, m)});
    return r;
}

static void incomplete(State &S, const std::string &why)
{
    if(++incompleteReasons[why] == 1) {
        incompleteWhere[why] = where(S) + "\n" + stackTrace(S);
        if(o_trace) fprintf(stderr, "esx: incomplete: %s\n%s", why.c_str(), stackTrace(S).c_str());
    }
}

static void violation(State &S, const std::string &kind, const std::string &msg, const Model &m)
{
    ++st_errors;
    bool exc = kind == "exception";
    std::string w = exc ? S.throwWhere : where(S);
    std::string key = kind + "|" + msg + "|" + w;
    if(++violationKeys[key] > 6) return;
    Violation v;
    v.kind = kind; v.msg = msg; v.where = w; v.stack = exc ? S.throwStack : stackTrace(S); v.approx = S.approx;
    v.inputs = inputValues(S, m);
    violations.push_back(v);
    if(o_trace) fprintf(stderr, "esx: candidate %s: %s at %s\n%s", kind.c_str(), msg.c_str(), w.c_str(), v.stack.c_str());
}

// ---------------------------------------------------------------- solver glue
// constraints of S that share symbols (transitively) with e
static std::vector<Expr *> slice(State &S, Expr *e)
{
    std::vector<Expr *> r;
    std::vector<char> used(S.pc.size(), 0);
    std::unordered_set<uint32_t> syms(e->syms->begin(), e->syms->end());
    bool ch = true;
    while(ch) {
        ch = false;
        for(size_t i = 0; i < S.pc.size(); ++i) {
            if(used[i]) continue;
            bool hit = false;
            for(auto s : *S.pc[i]->syms) if(syms.count(s)) { hit = true; break; }
            if(hit) {
                used[i] = 1;
                ch = true;
                for(auto s : *S.pc[i]->syms) syms.insert(s);
            }
        }
    }
    for(size_t i = 0; i < S.pc.size(); ++i) if(used[i]) r.push_back(S.pc[i]);
    return r;
}
static bool inPc(State &S, Expr *c)
{
    for(auto *x : S.pc) if(x == c) return true;
    return false;
}
// may c be true under the path condition?  On Sat m is a full model of pc and c.
static Res mayBe(State &S, Expr *c, Model *m)
{
    if(isConst(c)) { if(c->v && m) *m = S.model; return c->v ? Res::Sat : Res::Unsat; }
    if(evalExpr(c, S.model)) { if(m) *m = S.model; return Res::Sat; }
    if(inPc(S, mkNot(c))) return Res::Unsat;
    auto cs = slice(S, c);
    cs.push_back(c);
    Model mm = S.model;
    Res r = solve(cs, &mm);
    if(r == Res::Sat && m) *m = std::move(mm);
    return r;
}
static void addCons(State &S, Expr *c)
{
    if(isConst(c)) return;
    if(c->k == K::And && c->w == 1) { addCons(S, c->a); addCons(S, c->b); return; }
    if(inPc(S, c)) return;
    S.pc.push_back(c);
    if(c->k == K::Eq && isConst(c->a) && !isConst(c->b)) S.eqs[c->b] = c->a->v;
    else if(c->w == 1) S.eqs[c] = 1;
    // boolean negation
    if(c->k == K::Eq && isConst(c->a) && c->a->w == 1 && c->a->v == 0) S.eqs[c->b] = 0;
}
static bool known(State &S, const Val &v, u128 &out)
{
    if(!v.e) { out = v.c(); return true; }
    auto i = S.eqs.find(v.e);
    if(i != S.eqs.end()) { out = i->second; return true; }
    return false;
}
static State *forkState(State &S)
{
    State *n = new State(S);
    n->id = ++nextStateId;
    ++st_forks;
    return n;
}
// concretise v in S; the other values are explored by states re-executing the
// current instruction
static u128 concretize(State &S, const Val &v)
{
    u128 k;
    if(known(S, v, k)) return k;
    k = evalExpr(v.e, S.model);
    Expr *eq = mkBin(K::Eq, mkConst(k, v.w), v.e);
    Expr *ne = mkNot(eq);
    Model m;
    Res r = mayBe(S, ne, &m);
    if(r == Res::Sat) {
        State *n = forkState(S);
        addCons(*n, ne);
        n->model = std::move(m);
        worklist.push_back(n);
    } else if(r == Res::Unknown) incomplete(S, "solver gave no answer (concretisation)");
    addCons(S, eq);
    S.eqs[v.e] = k;
    return k;
}

// ---------------------------------------------------------------- globals
static void initBytes(Content *c, u64 off, const Constant *k);
static u128 constVal(const Constant *k, unsigned &w);

static Func *getFunc(Function *F)
{
    auto &f = funcs[F];
    if(!f) {
        f = new Func();
        f->F = F;
        f->name = F->getName().str();
        if(!f->name.empty() && f->name[0] == '\1') f->name = f->name.substr(1);
        f->addr = FUNC_BASE + 16 * funcs.size();
        funcByAddr[f->addr] = f;
        funcByName[f->name] = f;
    }
    return f;
}
static Val constToVal(const Constant *k)
{
    Type *t = k->getType();
    if(t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        std::vector<Val> v;
        unsigned n = t->isStructTy() ? t->getStructNumElements()
                     : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for(unsigned i = 0; i < n; ++i) {
            Constant *el = k->getAggregateElement(i);
            if(!el) { std::cerr << "esx: bad aggregate constant\n"; exit(2); }
            v.push_back(constToVal(el));
        }
        return av(std::move(v));
    }
    unsigned w;
    u128 x = constVal(k, w);
    return cv(x, w);
}
static unsigned scalarWidth(Type *t)
{
    if(t->isIntegerTy()) return t->getIntegerBitWidth();
    if(t->isPointerTy()) return 64;
    if(t->isDoubleTy()) return 64;
    if(t->isFloatTy()) return 32;
    if(t->isX86_FP80Ty()) return 80;
    if(t->isVoidTy()) return 0;
    return 0;
}
static u64 globAddr(const GlobalVariable *g) { return globs[globIdx.at(g)].base; }

static u128 constVal(const Constant *k, unsigned &w)
{
    w = scalarWidth(k->getType());
    if(auto *ci = dyn_cast<ConstantInt>(k)) {
        const APInt &a = ci->getValue();
        u128 v = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
        if(a.getBitWidth() > 64) v |= (u128)a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64;
        return v;
    }
    if(auto *cf = dyn_cast<ConstantFP>(k)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        u128 v = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
        if(a.getBitWidth() > 64) v |= (u128)a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64;
        return v;
    }
    if(isa<ConstantPointerNull>(k) || isa<UndefValue>(k)) return 0;
    if(auto *g = dyn_cast<GlobalVariable>(k)) return globAddr(g);
    if(auto *a = dyn_cast<GlobalAlias>(k)) return constVal(a->getAliasee(), w);
    if(auto *f = dyn_cast<Function>(k)) return getFunc(const_cast<Function *>(f))->addr;
    if(auto *de = dyn_cast<DSOLocalEquivalent>(k)) return constVal(de->getGlobalValue(), w);
    if(auto *ce = dyn_cast<ConstantExpr>(k)) {
        unsigned w1, w2;
        switch(ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
            return (u64)constVal(ce->getOperand(0), w1) + off.getZExtValue();
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
        case Instruction::AddrSpaceCast:
            return constVal(ce->getOperand(0), w1) & maskw(w);
        case Instruction::Sub: return (constVal(ce->getOperand(0), w1) - constVal(ce->getOperand(1), w2)) & maskw(w);
        case Instruction::Add: return (constVal(ce->getOperand(0), w1) + constVal(ce->getOperand(1), w2)) & maskw(w);
        case Instruction::ICmp: {
            u128 a = constVal(ce->getOperand(0), w1), b = constVal(ce->getOperand(1), w2);
            switch(ce->getPredicate()) {
            case CmpInst::ICMP_EQ: return a == b;
            case CmpInst::ICMP_NE: return a != b;
            case CmpInst::ICMP_ULT: return a < b;
            case CmpInst::ICMP_UGT: return a > b;
            default: break;
            }
            break;
        }
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    k->print(os);
    std::cerr << "esx: unsupported constant " << s << "\n";
    exit(2);
}

static void initBytes(Content *c, u64 off, const Constant *k)
{
    Type *t = k->getType();
    if(isa<UndefValue>(k) || k->isNullValue()) return;
    if(auto *cds = dyn_cast<ConstantDataSequential>(k)) {
        StringRef raw = cds->getRawDataValues();
        memcpy(&c->b[off], raw.data(), raw.size());
        return;
    }
    if(t->isStructTy()) {
        auto *sl = DL->getStructLayout(cast<StructType>(t));
        for(unsigned i = 0; i < t->getStructNumElements(); ++i)
            initBytes(c, off + sl->getElementOffset(i), k->getAggregateElement(i));
        return;
    }
    if(t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 sz = DL->getTypeAllocSize(et);
        for(unsigned i = 0; i < n; ++i) initBytes(c, off + i * sz, k->getAggregateElement(i));
        return;
    }
    unsigned w;
    u128 v = constVal(k, w);
    for(unsigned i = 0; i < (w + 7) / 8; ++i) c->b[off + i] = (uint8_t)(v >> (8 * i));
}

static void layoutGlobals()
{
    u64 p = GLOB_BASE;
    for(auto &g : M->globals()) {
        u64 sz = 64;
        if(g.getValueType()->isSized()) sz = std::max<u64>(1, DL->getTypeAllocSize(g.getValueType()));
        if(!g.hasInitializer()) sz = std::max<u64>(sz, 64);
        u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
        p = (p + al - 1) / al * al;
        globIdx[&g] = globs.size();
        globs.push_back({&g, p, sz, CRef(), false});
        if(g.getName().starts_with("_ZTI")) typeinfoName[p] = g.getName().str();
        p += sz + 32;
    }
    for(auto &f : *M) getFunc(&f);
}
static CRef &globInit(int i)
{
    Glob &g = globs[i];
    if(!g.materialised) {
        g.init = newContent(g.size, 0);
        if(g.g->hasInitializer()) initBytes(g.init.p, 0, g.g->getInitializer());
        g.materialised = true;
    }
    return g.init;
}

// ---------------------------------------------------------------- memory access
struct Loc { int region = 0; int idx = -1; u64 base = 0, size = 0; };   // 1 global 2 heap 3 stack

static bool findObj(State &S, u64 a, Loc &l)
{
    if(a >= STACK_BASE) {
        int t = (int)((a - STACK_BASE) >> 36);
        if(t != S.cur && t >= (int)S.th.size()) return false;
        auto &st = t == S.cur ? S.stack : S.th[t].stack;
        auto i = std::upper_bound(st.begin(), st.end(), a, [](u64 x, const Obj &o) { return x < o.base; });
        if(i == st.begin()) return false;
        --i;
        if(a - i->base > i->size) return false;
        l = {3 + t, (int)(i - st.begin()), i->base, i->size};
        return true;
    }
    if(a >= HEAP_BASE) {
        auto i = std::upper_bound(S.heap.begin(), S.heap.end(), a, [](u64 x, const Obj &o) { return x < o.base; });
        if(i == S.heap.begin()) return false;
        --i;
        if(!i->alive || a - i->base > i->size) return false;
        l = {2, (int)(i - S.heap.begin()), i->base, i->size};
        return true;
    }
    if(a >= GLOB_BASE && !globs.empty()) {
        auto i = std::upper_bound(globs.begin(), globs.end(), a, [](u64 x, const Glob &o) { return x < o.base; });
        if(i == globs.begin()) return false;
        --i;
        if(a - i->base > i->size) return false;
        l = {1, (int)(i - globs.begin()), i->base, i->size};
        return true;
    }
    return false;
}
static Content *rd(State &S, const Loc &l)
{
    if(l.region >= 3) return (l.region - 3 == S.cur ? S.stack : S.th[l.region - 3].stack)[l.idx].c.p;
    if(l.region == 2) return S.heap[l.idx].c.p;
    auto i = S.globals.find(l.idx);
    if(i != S.globals.end()) return i->second.p;
    return globInit(l.idx).p;
}
static Content *wr(State &S, const Loc &l)
{
    if(l.region >= 3) return (l.region - 3 == S.cur ? S.stack : S.th[l.region - 3].stack)[l.idx].c.mut();
    if(l.region == 2) return S.heap[l.idx].c.mut();
    auto i = S.globals.find(l.idx);
    if(i == S.globals.end()) i = S.globals.emplace(l.idx, globInit(l.idx)).first;
    return i->second.mut();
}
static std::string memErr(State &S, u64 a, u64 n, bool write)
{
    char buf[200];
    std::string why = "wild address";
    if(a < 4096) why = "null dereference";
    else if(a >= HEAP_BASE && a < STACK_BASE) {
        auto i = std::upper_bound(S.heap.begin(), S.heap.end(), a, [](u64 x, const Obj &o) { return x < o.base; });
        if(i != S.heap.begin()) {
            --i;
            if(a - i->base < i->size + 32) why = i->alive ? "out of bounds (heap)" : "use after free";
        }
    } else if(a >= STACK_BASE) why = "out of bounds (stack)";
    else if(a >= GLOB_BASE) why = "out of bounds (global)";
    snprintf(buf, sizeof buf, "%s of %llu bytes: %s", write ? "write" : "read", (unsigned long long)n, why.c_str());
    return buf;
}

static Expr *byteExpr(Content *c, u64 i) { return !c->s.empty() && c->s[i] ? c->s[i] : mkConst(c->b[i], 8); }

static Val readBytes(Content *c, u64 off, unsigned nbytes)
{
    bool sym = false;
    if(!c->s.empty())
        for(unsigned i = 0; i < nbytes; ++i) if(c->s[off + i]) { sym = true; break; }
    if(!sym) {
        u128 v = 0;
        memcpy(&v, &c->b[off], nbytes);
        return cv(v, nbytes * 8);
    }
    Expr *e = byteExpr(c, off + nbytes - 1);
    for(int i = (int)nbytes - 2; i >= 0; --i) e = mkConcat(e, byteExpr(c, off + i));
    return ev(e);
}
static void setSym(Content *c, u64 i, Expr *e)
{
    if(isConst(e)) {
        c->b[i] = (uint8_t)e->v;
        if(!c->s.empty()) c->s[i] = nullptr;
        return;
    }
    if(c->s.empty()) c->s.assign(c->b.size(), nullptr);
    c->s[i] = e;
}
static void writeBytes(Content *c, u64 off, const Val &v, unsigned nbytes)
{
    if(!v.e) {
        u128 x = v.c();
        memcpy(&c->b[off], &x, nbytes);
        if(!c->s.empty()) for(unsigned i = 0; i < nbytes; ++i) c->s[off + i] = nullptr;
        return;
    }
    Expr *e = v.e;
    if(e->w < nbytes * 8) e = mkZExt(e, nbytes * 8);
    for(unsigned i = 0; i < nbytes; ++i) setSym(c, off + i, mkExtract(e, 8 * i, 8));
}

struct Killed {};     // the current state ends here
static void finishPath(State &S);
static void die(State &S, const std::string &kind, const std::string &msg)
{
    if(S.abortOk && kind == "abort") { finishPath(S); throw Killed(); }
    violation(S, kind, msg, S.model);
    throw Killed();
}
static void unsupported(State &S, const std::string &what)
{
    incomplete(S, "unsupported: " + what);
    throw Killed();
}

static bool leaves(Expr *e, std::set<Expr *> &seen, unsigned max)
{
    if(isConst(e)) return true;
    if(seen.size() > max) return false;
    if(!seen.insert(e).second) return true;
    if(e->k == K::Ite) return leaves(e->b, seen, max) && leaves(e->c, seen, max);
    if(e->k == K::Add && isConst(e->a)) return leaves(e->b, seen, max);
    return false;
}
static bool constLeaves(Expr *e, unsigned max)
{
    std::set<Expr *> seen;
    return leaves(e, seen, max);
}

// Resolves an address to one object; forks for other objects.  off is set to
// the (possibly symbolic) offset.
static bool g_atomic = false;      // the access at hand is an atomic one
static void access(State &S, const Loc &l, u64 off, u64 n, bool write)
{
    if(S.th.size() < 2) return;
    if(l.region == 1 && globs[l.idx].g->isConstant()) return;
    VC &vc = S.th[S.cur].vc;
    if(g_atomic) {
        // reads see what was released by earlier writes
        Sync &y = S.sync[l.base + off];
        for(int i = 0; i < MAXT; ++i) vc[i] = std::max(vc[i], y.vc[i]);
        if(write) { y.vc = vc; ++vc[S.cur]; }
        return;
    }
    Shadow &sh = S.shadow[l.base];
    if(!sh) sh = std::make_shared<std::vector<Cell>>(l.size);
    else if(sh.use_count() > 1) sh = std::make_shared<std::vector<Cell>>(*sh);
    for(u64 i = off; i < off + n && i < sh->size(); ++i) {
        Cell &c = (*sh)[i];
        bool race = c.wt != 0xff && c.wt != S.cur && c.wc > vc[c.wt];
        if(write) {
            for(int t = 0; t < MAXT; ++t) race |= t != S.cur && c.rc[t] > vc[t];
            c.wt = (uint8_t)S.cur;
            c.wc = vc[S.cur];
        } else c.rc[S.cur] = vc[S.cur];
        if(race) die(S, "race", "two threads use the same memory at the same time");
    }
}
static Loc resolve1(State &S, const Val &addr, u64 n, bool write, Val &off);
static Loc resolve(State &S, const Val &addr, u64 n, bool write, Val &off)
{
    Loc l = resolve1(S, addr, n, write, off);
    if(S.th.size() > 1) access(S, l, off.conc() ? off.lo : (u64)evalExpr(off.e, S.model), n, write);
    return l;
}
static Loc resolve1(State &S, const Val &addr, u64 n, bool write, Val &off)
{
    u128 k;
    Loc l;
    if(known(S, addr, k)) {
        u64 a = (u64)k;
        if(!findObj(S, a, l) || a - l.base + n > l.size) die(S, "memory", memErr(S, a, n, write));
        if(write && l.region == 1 && globs[l.idx].g->isConstant()) die(S, "memory", "write to constant memory");
        off = cv(a - l.base, 64);
        return l;
    }
    ++st_symDeref;
    // a choice between a few constant addresses: one path per address
    if(constLeaves(addr.e, 64)) {
        u64 a = (u64)concretize(S, addr);
        return resolve1(S, cv(a, 64), n, write, off);
    }
    u64 a = (u64)evalExpr(addr.e, S.model);
    if(!findObj(S, a, l) || a - l.base + n > l.size) {
        violation(S, "memory", memErr(S, a, n, write), S.model);
        // look for other values of the address
        Model m;
        Expr *ne = mkNot(mkBin(K::Eq, mkConst(a, 64), addr.e));
        // prefer addresses inside the nearest object, if any
        if(mayBe(S, ne, &m) == Res::Sat) {
            addCons(S, ne);
            S.model = m;
            static std::map<int, int> tries;
            if(++tries[S.id] < 8) { State *s = forkState(S); worklist.push_back(s); }
            else incomplete(S, "unresolved symbolic address");
        }
        throw Killed();
    }
    // the range of the address may already pin the object
    if(addr.e->lo >= l.base && addr.e->hi + n <= l.base + l.size && addr.e->hi <= ~0ull - n) {
        off = ev(mkBin(K::Sub, addr.e, mkConst(l.base, 64)));
        return l;
    }
    Expr *o = mkBin(K::Sub, addr.e, mkConst(l.base, 64));
    Expr *in = mkBin(K::Ule, o, mkConst(l.size - n, 64));
    Model m;
    Res r = mayBe(S, mkNot(in), &m);
    if(r == Res::Sat) {
        State *s = forkState(S);
        addCons(*s, mkNot(in));
        s->model = std::move(m);
        worklist.push_back(s);
        addCons(S, in);
    } else if(r == Res::Unknown) incomplete(S, "solver gave no answer (address)");
    off = ev(o);
    return l;
}

static u64 boundOff(State &S, Expr *o, u64 lo, u64 hi, bool max)
{
    // tightest bound by binary search; feasibility queries only
    while(lo < hi) {
        u64 mid = max ? lo + (hi - lo + 1) / 2 : lo + (hi - lo) / 2;
        Model m;
        Expr *c = max ? mkBin(K::Ule, mkConst(mid, 64), o) : mkBin(K::Ule, o, mkConst(mid, 64));
        Res r = mayBe(S, c, &m);
        if(max) { if(r == Res::Unsat) hi = mid - 1; else lo = mid; }
        else { if(r == Res::Unsat) lo = mid + 1; else hi = mid; }
    }
    return lo;
}

static bool slots(State &S, Expr *o, u64 size, u64 n, u64 limit, std::vector<u64> &out)
{
    u64 stride = 1ull << std::min<unsigned>(o->tz, 12);
    u64 first = 0;
    if(o->k == K::Add && isConst(o->a)) {
        stride = 1ull << std::min<unsigned>(o->b->tz, 12);
        first = (u64)o->a->v & (stride - 1);
    }
    u64 lo = std::min<u64>(o->lo, size - n), hi = std::min<u64>(size - n, o->hi);
    if((hi - lo) / stride + 1 > 16) {
        lo = boundOff(S, o, lo, hi, false);
        hi = boundOff(S, o, lo, hi, true);
    }
    if((hi - lo) / stride + 1 > limit) return false;
    u64 x = lo / stride * stride + first;
    if(x < lo) x += stride;
    for(; x <= hi; x += stride) out.push_back(x);
    return true;
}

static Val readAt(State &S, const Val &addr, unsigned nbytes)
{
    Val off;
    Loc l = resolve(S, addr, nbytes, false, off);
    Content *c = rd(S, l);
    if(off.conc()) return readBytes(c, off.lo, nbytes);
    std::vector<u64> sl;
    if(!slots(S, off.e, l.size, nbytes, 600, sl)) {
        u64 k = (u64)concretize(S, off);
        return readBytes(rd(S, l), k, nbytes);
    }
    Expr *r = ex(readBytes(c, sl.back(), nbytes));
    for(int i = (int)sl.size() - 2; i >= 0; --i)
        r = mkIte(mkBin(K::Eq, mkConst(sl[i], 64), off.e), ex(readBytes(c, sl[i], nbytes)), r);
    return ev(r);
}
static void writeAt(State &S, const Val &addr, const Val &v, unsigned nbytes)
{
    Val off;
    Loc l = resolve(S, addr, nbytes, true, off);
    if(off.conc()) { writeBytes(wr(S, l), off.lo, v, nbytes); return; }
    std::vector<u64> sl;
    if(!slots(S, off.e, l.size, nbytes, 64, sl)) {
        u64 k = (u64)concretize(S, off);
        writeBytes(wr(S, l), k, v, nbytes);
        return;
    }
    Content *c = wr(S, l);
    Expr *e = ex(v);
    if(e->w < nbytes * 8) e = mkZExt(e, nbytes * 8);
    // overlapping slots need the old bytes
    std::vector<Expr *> neu(c->b.size(), nullptr);
    for(u64 x : sl) {
        Expr *cnd = mkBin(K::Eq, mkConst(x, 64), off.e);
        for(unsigned i = 0; i < nbytes; ++i) {
            Expr *old = neu[x + i] ? neu[x + i] : byteExpr(c, x + i);
            neu[x + i] = mkIte(cnd, mkExtract(e, 8 * i, 8), old);
        }
    }
    for(u64 i = 0; i < neu.size(); ++i) if(neu[i]) setSym(c, i, neu[i]);
}

static Val ptrAdd(const Val &p, u64 k)
{
    if(!p.e) return cv(p.lo + k, 64);
    return ev(mkBin(K::Add, mkConst(k, 64), p.e));
}
static Val loadTy(State &S, const Val &p, Type *t)
{
    if(t->isStructTy()) {
        std::vector<Val> v;
        auto *sl = DL->getStructLayout(cast<StructType>(t));
        for(unsigned i = 0; i < t->getStructNumElements(); ++i)
            v.push_back(loadTy(S, ptrAdd(p, sl->getElementOffset(i)), t->getStructElementType(i)));
        return av(std::move(v));
    }
    if(t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        std::vector<Val> v;
        for(unsigned i = 0; i < n; ++i) v.push_back(loadTy(S, ptrAdd(p, i * DL->getTypeAllocSize(et)), et));
        return av(std::move(v));
    }
    unsigned w = scalarWidth(t);
    Val r = readAt(S, p, (w + 7) / 8);
    if(r.w != w) { if(r.e) r = ev(mkExtract(r.e, 0, w)); else r = cv(r.c(), w); }
    return r;
}
static void storeTy(State &S, const Val &p, const Val &v, Type *t)
{
    if(t->isStructTy()) {
        auto *sl = DL->getStructLayout(cast<StructType>(t));
        for(unsigned i = 0; i < t->getStructNumElements(); ++i)
            storeTy(S, ptrAdd(p, sl->getElementOffset(i)), (*v.agg)[i], t->getStructElementType(i));
        return;
    }
    if(t->isArrayTy() || t->isVectorTy()) {
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        for(unsigned i = 0; i < n; ++i) storeTy(S, ptrAdd(p, i * DL->getTypeAllocSize(et)), (*v.agg)[i], et);
        return;
    }
    writeAt(S, p, v, (scalarWidth(t) + 7) / 8);
}

static u64 heapAlloc(State &S, u64 size, uint8_t kind)
{
    u64 base = (S.heapPtr + 15) / 16 * 16;
    S.heapPtr = base + size + 32;
    S.heap.push_back({base, size, kind, true, newContent(size, 0xCD)});
    return base;
}
static void heapFree(State &S, u64 a, uint8_t kind)
{
    if(!a) return;
    auto i = std::lower_bound(S.heap.begin(), S.heap.end(), a, [](const Obj &o, u64 x) { return o.base < x; });
    if(i == S.heap.end() || i->base != a) die(S, "memory", "free of a pointer that was not allocated");
    if(!i->alive) die(S, "memory", "double free");
    if(S.th.size() > 1) {
        Loc l{2, (int)(i - S.heap.begin()), i->base, i->size};
        access(S, l, 0, i->size, true);
        S.shadow.erase(i->base);
    }
    (void)kind;
    i->alive = false;
    i->c = CRef();
}

// ---------------------------------------------------------------- compilation
static std::map<const Value *, int> regMap;   // only valid during compile()

static Op mkOp(const Value *v)
{
    Op o;
    if(auto *c = dyn_cast<Constant>(v)) { o.k = constToVal(c); return o; }
    if(isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
    o.reg = regMap.at(v);
    return o;
}

static void compile(Func *f)
{
    f->compiled = true;
    Function *F = f->F;
    regMap.clear();
    int n = 0;
    for(auto &a : F->args()) {
        regMap[&a] = n;
        f->argRegs.push_back(n++);
        f->byval.push_back(a.hasByValAttr() ? a.getParamByValType() : nullptr);
    }
    std::map<const BasicBlock *, int> bi;
    for(auto &b : *F) {
        bi[&b] = bi.size();
        for(auto &i : b)
            if(!i.getType()->isVoidTy()) regMap[&i] = n++;
    }
    f->nregs = n;
    f->blocks.resize(bi.size());
    for(auto &b : *F) {
        Block &B = f->blocks[bi[&b]];
        for(auto &i : b) {
            if(auto *p = dyn_cast<PHINode>(&i)) {
                Phi ph;
                ph.dst = regMap[p];
                for(unsigned j = 0; j < p->getNumIncomingValues(); ++j)
                    ph.in[bi[p->getIncomingBlock(j)]] = mkOp(p->getIncomingValue(j));
                B.phis.push_back(ph);
                continue;
            }
            if(isa<DbgInfoIntrinsic>(i)) continue;
            Inst in;
            in.opc = i.getOpcode();
            in.I = &i;
            in.ty = i.getType();
            in.dst = i.getType()->isVoidTy() ? -1 : regMap[&i];
            in.w = scalarWidth(i.getType());
            if(auto *cb = dyn_cast<CallBase>(&i)) {
                for(auto &a : cb->args()) in.ops.push_back(mkOp(a.get()));
                if(Function *cf = cb->getCalledFunction()) in.callee = getFunc(cf);
                else if(cb->isInlineAsm()) in.callee = nullptr;
                else {
                    Value *cvv = cb->getCalledOperand()->stripPointerCastsAndAliases();
                    if(auto *cf2 = dyn_cast<Function>(cvv)) in.callee = getFunc(cf2);
                }
                in.ops.push_back(mkOp(cb->getCalledOperand()));
                if(auto *ii = dyn_cast<IntrinsicInst>(&i)) in.intr = ii->getIntrinsicID();
                if(auto *iv = dyn_cast<InvokeInst>(&i)) {
                    in.succ.push_back(bi[iv->getNormalDest()]);
                    in.succ.push_back(bi[iv->getUnwindDest()]);
                }
            } else if(auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                in.ops.push_back(mkOp(g->getPointerOperand()));
                for(auto gt = gep_type_begin(g); gt != gep_type_end(g); ++gt) {
                    Value *idx = gt.getOperand();
                    if(StructType *st = gt.getStructTypeOrNull()) {
                        in.coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    } else {
                        int64_t sz = DL->getTypeAllocSize(gt.getIndexedType());
                        if(auto *ci = dyn_cast<ConstantInt>(idx)) in.coff += ci->getSExtValue() * sz;
                        else in.terms.push_back({mkOp(idx), sz});
                    }
                }
            } else if(auto *sw = dyn_cast<SwitchInst>(&i)) {
                in.ops.push_back(mkOp(sw->getCondition()));
                in.succ.push_back(bi[sw->getDefaultDest()]);
                for(auto c : sw->cases()) {
                    in.cases.push_back(c.getCaseValue()->getZExtValue());
                    in.succ.push_back(bi[c.getCaseSuccessor()]);
                }
            } else if(auto *br = dyn_cast<BranchInst>(&i)) {
                if(br->isConditional()) in.ops.push_back(mkOp(br->getCondition()));
                for(unsigned s = 0; s < br->getNumSuccessors(); ++s) in.succ.push_back(bi[br->getSuccessor(s)]);
            } else {
                for(auto &o : i.operands()) in.ops.push_back(mkOp(o.get()));
                if(auto *c = dyn_cast<CmpInst>(&i)) in.aux = c->getPredicate();
                if(auto *a = dyn_cast<AllocaInst>(&i)) in.ty = a->getAllocatedType();
                if(auto *s = dyn_cast<StoreInst>(&i)) in.ty = s->getValueOperand()->getType();
                if(auto *r = dyn_cast<AtomicRMWInst>(&i)) in.aux = r->getOperation();
            }
            B.insts.push_back(std::move(in));
        }
    }
    regMap.clear();
}

static inline const Val &get(Frame &f, const Op &o) { return o.reg >= 0 ? f.regs[o.reg] : o.k; }

static void noteVisit(Inst &in)
{
    in.visited = true;
    for(DILocation *l = in.I->getDebugLoc().get(); l; l = l->getInlinedAt()) {
        DILocalScope *sc = l->getScope();
        DISubprogram *sp = sc ? sc->getSubprogram() : nullptr;
        if(!sp) continue;
        std::string file = sp->getFilename().str();
        if(file.empty() || file[0] != '/') file = sp->getDirectory().str() + "/" + file;
        if(file.compare(0, o_repo.size(), o_repo) != 0) continue;
        std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demang(sp->getLinkageName().str());
        if(nm.size() > 200) nm = nm.substr(0, 197) + "...";
        repoFuncs[file.substr(o_repo.size()) + ": " + nm].insert(l->getLine());
    }
}

// ---------------------------------------------------------------- calls / EH
static void enterBlock(State &S, Frame &f, int to)
{
    Block &B = f.f->blocks[to];
    if(!B.phis.empty()) {
        if(B.phis.size() == 1) {
            auto &p = B.phis[0];
            Val v = get(f, p.in.at(f.block));
            f.regs[p.dst] = v;
        } else {
            std::vector<Val> t;
            t.reserve(B.phis.size());
            for(auto &p : B.phis) t.push_back(get(f, p.in.at(f.block)));
            for(size_t i = 0; i < t.size(); ++i) f.regs[B.phis[i].dst] = t[i];
        }
    }
    f.block = to;
    f.ip = 0;
    (void)S;
}

static u64 stackAlloc(State &S, u64 size)
{
    u64 base = (S.stackPtr + 15) / 16 * 16;
    S.stackPtr = base + size + 32;
    S.stack.push_back({base, size, 0, true, newContent(size, 0xCD)});
    return base;
}

static void pushFrame(State &S, Func *f, const std::vector<Val> &args)
{
    if(!f->compiled) compile(f);
    ++f->calls;
    if(S.frames.size() > 2000) die(S, "recursion", "call depth exceeds 2000");
    Frame fr;
    fr.f = f;
    fr.regs.resize(f->nregs);
    fr.stackMark = S.stack.size();
    fr.stackPtr = S.stackPtr;
    for(size_t i = 0; i < f->argRegs.size(); ++i) {
        if(f->byval[i]) {
            u64 sz = DL->getTypeAllocSize(f->byval[i]);
            u64 a = stackAlloc(S, sz);
            // copy the argument
            Val off;
            Loc l = resolve(S, args[i], sz, false, off);
            u64 o = (u64)concretize(S, off);
            Content *src = rd(S, l);
            Content *dst = S.stack.back().c.mut();
            for(u64 j = 0; j < sz; ++j) setSym(dst, j, byteExpr(src, o + j));
            fr.regs[f->argRegs[i]] = cv(a, 64);
        } else fr.regs[f->argRegs[i]] = args[i];
    }
    S.frames.push_back(std::move(fr));
}
static void popFrame(State &S)
{
    Frame &f = S.frames.back();
    if(!S.shadow.empty()) for(size_t i = f.stackMark; i < S.stack.size(); ++i) S.shadow.erase(S.stack[i].base);
    S.stack.resize(f.stackMark, Obj{0, 0, 0, false, CRef()});
    S.stackPtr = f.stackPtr;
    S.frames.pop_back();
}
// deliver a return value to the call instruction at the top frame
static void deliver(State &S, const Val &v)
{
    if(S.frames.empty()) return;
    Frame &f = S.frames.back();
    Inst &in = f.f->blocks[f.block].insts[f.ip];
    if(in.dst >= 0) f.regs[in.dst] = v;
    if(in.opc == Instruction::Invoke) enterBlock(S, f, in.succ[0]);
    else ++f.ip;
}

static u64 rdPtr(State &S, u64 a)
{
    Val v = readAt(S, cv(a, 64), 8);
    return (u64)concretize(S, v);
}
// RTTI: enumerate (typeinfo, address) of all subobjects
struct Sub { u64 ti; u64 addr; bool pub; };
static void subobjects(State &S, u64 ti, u64 addr, bool pub, std::vector<Sub> &out, bool haveObj)
{
    out.push_back({ti, addr, pub});
    Loc l;
    if(!findObj(S, ti, l) || l.region != 1) return;
    GlobalVariable *g = globs[l.idx].g;
    if(!g->hasInitializer()) return;
    Constant *init = g->getInitializer();
    // which class of type_info?
    u64 vt = rdPtr(S, ti);
    Loc vl;
    std::string vn;
    if(findObj(S, vt, vl) && vl.region == 1) vn = globs[vl.idx].g->getName().str();
    (void)init;
    if(vn.find("__si_class_type_info") != std::string::npos) {
        subobjects(S, rdPtr(S, ti + 16), addr, pub, out, haveObj);
    } else if(vn.find("__vmi_class_type_info") != std::string::npos) {
        unsigned n = (unsigned)concretize(S, readAt(S, cv(ti + 20, 64), 4));
        for(unsigned i = 0; i < n; ++i) {
            u64 b = rdPtr(S, ti + 24 + 16 * i);
            int64_t fl = (int64_t)rdPtr(S, ti + 32 + 16 * i);
            int64_t off = fl >> 8;
            u64 ba = addr;
            if(fl & 1) {   // virtual base
                if(haveObj) { u64 vp = rdPtr(S, addr); ba = addr + (int64_t)rdPtr(S, vp + off); }
            } else ba = addr + off;
            subobjects(S, b, ba, pub && (fl & 2), out, haveObj);
        }
    }
}
static std::string tiName(State &S, u64 ti)
{
    auto i = typeinfoName.find(ti);
    if(i != typeinfoName.end()) return i->second;
    (void)S;
    return "?";
}
static bool tiSame(State &S, u64 a, u64 b) { return a == b || (tiName(S, a) == tiName(S, b) && tiName(S, a) != "?"); }

static int typeidFor(u64 ti) { return (int)((ti - GLOB_BASE) / 16 + 1); }

static void unwind(State &S, u64 excObj)
{
    ExcInfo &x = S.exc.at(excObj);
    std::vector<Sub> subs;
    subobjects(S, x.tinfo, x.obj, true, subs, true);
    while(true) {
        if(S.frames.empty()) break;
        Frame &f = S.frames.back();
        Inst &in = f.f->blocks[f.block].insts[f.ip];
        if(in.opc == Instruction::Invoke) {
            auto *iv = cast<InvokeInst>(in.I);
            LandingPadInst *lp = iv->getLandingPadInst();
            int sel = 0;
            bool take = lp->isCleanup();
            for(unsigned c = 0; c < lp->getNumClauses() && !sel; ++c) {
                if(lp->isCatch(c)) {
                    auto *k = cast<Constant>(lp->getClause(c));
                    unsigned w;
                    u64 ti = (u64)constVal(k, w);
                    if(!ti) { sel = 1; x.adj = 0; take = true; if(true) sel = typeidFor(GLOB_BASE); break; }
                    for(auto &s : subs)
                        if(s.pub && tiSame(S, s.ti, ti)) { sel = typeidFor(ti); x.adj = (int64_t)(s.addr - x.obj); take = true; break; }
                } else {
                    // filter: an empty or non-matching filter catches
                    auto *k = cast<Constant>(lp->getClause(c));
                    bool match = false;
                    for(unsigned e = 0; e < k->getType()->getArrayNumElements(); ++e) {
                        unsigned w;
                        u64 ti = (u64)constVal(k->getAggregateElement(e), w);
                        for(auto &s : subs) if(s.pub && tiSame(S, s.ti, ti)) match = true;
                    }
                    if(!match) { sel = -1; take = true; }
                }
            }
            if(take) {
                enterBlock(S, f, in.succ[1]);
                Inst &l = f.f->blocks[f.block].insts[f.ip];
                // the landing pad is the first non-phi instruction
                f.regs[l.dst] = av({cv(excObj, 64), cv((u128)(int64_t)sel, 32)});
                ++f.ip;
                return;
            }
        }
        if(f.f->F->doesNotThrow()) die(S, "terminate", "exception " + demang(tiName(S, x.tinfo)) + " leaves a noexcept function " + demang(f.f->name));
        popFrame(S);
    }
    // uncaught
    S.throwWhere = x.where;
    S.throwStack = x.stack;
    S.frames.clear();
    throw std::string(demang(tiName(S, x.tinfo)));
}

// ---------------------------------------------------------------- integer / fp operations
static Val mapLanes(const Val &a, const std::function<Val(const Val &)> &f)
{
    std::vector<Val> r;
    for(auto &x : *a.agg) r.push_back(f(x));
    return av(std::move(r));
}
static Val binop(K k, const Val &a, const Val &b)
{
    if(a.agg) {
        std::vector<Val> r;
        for(size_t i = 0; i < a.agg->size(); ++i) r.push_back(binop(k, (*a.agg)[i], (*b.agg)[i]));
        return av(std::move(r));
    }
    bool cmp = k >= K::Eq && k <= K::Sle;
    if(!a.e && !b.e) {
        if(a.w == 64) {
            switch(k) {
            case K::Add: return cv(a.lo + b.lo, 64);
            case K::Sub: return cv(a.lo - b.lo, 64);
            case K::Eq: return cv(a.lo == b.lo, 1);
            case K::Ult: return cv(a.lo < b.lo, 1);
            default: break;
            }
        }
        u128 o;
        foldBin(k, a.c(), b.c(), a.w, o);
        return cv(o, cmp ? 1 : a.w);
    }
    return ev(mkBin(k, ex(a), ex(b)));
}
static Val vnot(const Val &a)
{
    if(a.agg) return mapLanes(a, vnot);
    return a.e ? ev(mkNot(a.e)) : cv(!a.lo, 1);
}
static long double asLD(const Val &v) { long double x = 0; u128 c = v.c(); memcpy(&x, &c, 10); return x; }
static Val fromLD(long double x) { u128 c = 0; memcpy(&c, &x, 10); return cv(c, 80); }

static Val fbin(State &S, unsigned opc, const Val &a, const Val &b)
{
    if(a.agg) {
        std::vector<Val> r;
        for(size_t i = 0; i < a.agg->size(); ++i) r.push_back(fbin(S, opc, (*a.agg)[i], (*b.agg)[i]));
        return av(std::move(r));
    }
    if(a.w == 80) {
        if(a.e || b.e) unsupported(S, "symbolic long double");
        long double x = asLD(a), y = asLD(b);
        switch(opc) {
        case Instruction::FAdd: return fromLD(x + y);
        case Instruction::FSub: return fromLD(x - y);
        case Instruction::FMul: return fromLD(x * y);
        case Instruction::FDiv: return fromLD(x / y);
        default: return fromLD(fmodl(x, y));
        }
    }
    K k = opc == Instruction::FAdd ? K::FAdd : opc == Instruction::FSub ? K::FSub : opc == Instruction::FMul ? K::FMul
          : opc == Instruction::FDiv ? K::FDiv : K::FRem;
    if(k == K::FRem && (a.e || b.e)) unsupported(S, "symbolic frem");
    return ev(mkFBin(k, ex(a), ex(b)));
}
static Val fcmp(State &S, unsigned p, const Val &a, const Val &b)
{
    if(a.agg) {
        std::vector<Val> r;
        for(size_t i = 0; i < a.agg->size(); ++i) r.push_back(fcmp(S, p, (*a.agg)[i], (*b.agg)[i]));
        return av(std::move(r));
    }
    if(a.w == 80) {
        if(a.e || b.e) unsupported(S, "symbolic long double");
        long double x = asLD(a), y = asLD(b);
        bool u = x != x || y != y, r = false;
        switch(p) {
        case CmpInst::FCMP_OEQ: r = x == y; break;
        case CmpInst::FCMP_OGT: r = x > y; break;
        case CmpInst::FCMP_OGE: r = x >= y; break;
        case CmpInst::FCMP_OLT: r = x < y; break;
        case CmpInst::FCMP_OLE: r = x <= y; break;
        case CmpInst::FCMP_ONE: r = !u && x != y; break;
        case CmpInst::FCMP_ORD: r = !u; break;
        case CmpInst::FCMP_UNO: r = u; break;
        case CmpInst::FCMP_UEQ: r = u || x == y; break;
        case CmpInst::FCMP_UGT: r = u || x > y; break;
        case CmpInst::FCMP_UGE: r = u || x >= y; break;
        case CmpInst::FCMP_ULT: r = u || x < y; break;
        case CmpInst::FCMP_ULE: r = u || x <= y; break;
        case CmpInst::FCMP_UNE: r = u || x != y; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        }
        return cv(r, 1);
    }
    Expr *x = ex(a), *y = ex(b);
    auto B = [](K k, Expr *p, Expr *q) { return mkFBin(k, p, q); };
    Expr *r;
    switch(p) {
    case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break;
    case CmpInst::FCMP_OEQ: r = B(K::FOeq, x, y); break;
    case CmpInst::FCMP_OGT: r = B(K::FOlt, y, x); break;
    case CmpInst::FCMP_OGE: r = B(K::FOle, y, x); break;
    case CmpInst::FCMP_OLT: r = B(K::FOlt, x, y); break;
    case CmpInst::FCMP_OLE: r = B(K::FOle, x, y); break;
    case CmpInst::FCMP_ONE: r = mkBin(K::Or, B(K::FOlt, x, y), B(K::FOlt, y, x)); break;
    case CmpInst::FCMP_ORD: r = mkNot(B(K::FUno, x, y)); break;
    case CmpInst::FCMP_UNO: r = B(K::FUno, x, y); break;
    case CmpInst::FCMP_UEQ: r = mkNot(mkBin(K::Or, B(K::FOlt, x, y), B(K::FOlt, y, x))); break;
    case CmpInst::FCMP_UGT: r = mkNot(B(K::FOle, x, y)); break;
    case CmpInst::FCMP_UGE: r = mkNot(B(K::FOlt, x, y)); break;
    case CmpInst::FCMP_ULT: r = mkNot(B(K::FOle, y, x)); break;
    case CmpInst::FCMP_ULE: r = mkNot(B(K::FOlt, y, x)); break;
    case CmpInst::FCMP_UNE: r = mkNot(B(K::FOeq, x, y)); break;
    default: r = mkConst(1, 1);
    }
    return ev(r);
}
static Val icmp(unsigned p, const Val &a, const Val &b)
{
    switch(p) {
    case CmpInst::ICMP_EQ: return binop(K::Eq, a, b);
    case CmpInst::ICMP_NE: return vnot(binop(K::Eq, a, b));
    case CmpInst::ICMP_UGT: return binop(K::Ult, b, a);
    case CmpInst::ICMP_UGE: return binop(K::Ule, b, a);
    case CmpInst::ICMP_ULT: return binop(K::Ult, a, b);
    case CmpInst::ICMP_ULE: return binop(K::Ule, a, b);
    case CmpInst::ICMP_SGT: return binop(K::Slt, b, a);
    case CmpInst::ICMP_SGE: return binop(K::Sle, b, a);
    case CmpInst::ICMP_SLT: return binop(K::Slt, a, b);
    default: return binop(K::Sle, a, b);
    }
}
static Val vite(State &S, const Val &c, const Val &a, const Val &b)
{
    if(c.agg) {
        std::vector<Val> r;
        for(size_t i = 0; i < a.agg->size(); ++i) r.push_back(vite(S, (*c.agg)[i], (*a.agg)[i], (*b.agg)[i]));
        return av(std::move(r));
    }
    u128 k;
    if(known(S, c, k)) return k ? a : b;
    if(a.agg) {
        std::vector<Val> r;
        for(size_t i = 0; i < a.agg->size(); ++i) r.push_back(vite(S, c, (*a.agg)[i], (*b.agg)[i]));
        return av(std::move(r));
    }
    return ev(mkIte(c.e, ex(a), ex(b)));
}
static Val cast1(State &S, unsigned opc, const Val &a, unsigned w)
{
    switch(opc) {
    case Instruction::Trunc: return a.e ? ev(mkExtract(a.e, 0, w)) : cv(a.c(), w);
    case Instruction::ZExt: return a.e ? ev(mkZExt(a.e, w)) : cv(a.c(), w);
    case Instruction::SExt: return a.e ? ev(mkSExt(a.e, w)) : cv((u128)sext128(a.c(), a.w), w);
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if(w < a.w) return a.e ? ev(mkExtract(a.e, 0, w)) : cv(a.c(), w);
        return a.e ? ev(mkZExt(a.e, w)) : cv(a.c(), w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::FPToSI: case Instruction::FPToUI:
        if(a.w == 80) {
            if(a.e) unsupported(S, "symbolic long double");
            long double x = asLD(a);
            return opc == Instruction::FPToSI ? cv((u128)(i128)(int64_t)x, w) : cv((u64)x, w);
        }
        return ev(mkFUn(opc == Instruction::FPToSI ? K::FToSI : K::FToUI, ex(a), w, 0));
    case Instruction::SIToFP: case Instruction::UIToFP:
        if(w == 80) {
            if(a.e) unsupported(S, "symbolic long double");
            return opc == Instruction::SIToFP ? fromLD((long double)sext128(a.c(), a.w)) : fromLD((long double)a.c());
        }
        return ev(mkFUn(opc == Instruction::SIToFP ? K::SIToF : K::UIToF, ex(a), w, 0));
    case Instruction::FPExt:
        if(w == 80) {
            if(a.e) unsupported(S, "symbolic long double");
            u128 c = a.c();
            if(a.w == 64) { double d; u64 t = (u64)c; memcpy(&d, &t, 8); return fromLD(d); }
            float d; uint32_t t = (uint32_t)c; memcpy(&d, &t, 4); return fromLD(d);
        }
        return ev(mkFUn(K::FExt, ex(a), w, 0));
    case Instruction::FPTrunc:
        if(a.w == 80) {
            long double x = asLD(a);
            if(w == 64) { double d = (double)x; u64 t; memcpy(&t, &d, 8); return cv(t, 64); }
            float d = (float)x; uint32_t t; memcpy(&t, &d, 4); return cv(t, 32);
        }
        return ev(mkFUn(K::FTrunc, ex(a), w, 0));
    }
    return a;
}

// ---------------------------------------------------------------- intrinsics and externals
enum { H_OK = 0, H_CONTROL = 1 };   // H_CONTROL: the handler moved the program counter itself

static std::string cstr(State &S, const Val &p)
{
    std::string r;
    u64 a = (u64)concretize(S, p);
    for(int i = 0; i < 400; ++i) {
        Val v = readAt(S, cv(a + i, 64), 1);
        if(v.e) { r += '?'; continue; }
        if(!v.lo) break;
        r += (char)v.lo;
    }
    return r;
}

static int h_malloc(State &S, Inst &, std::vector<Val> &a, Val &r) { r = cv(heapAlloc(S, (u64)concretize(S, a[0]), HK_malloc), 64); return H_OK; }
static int h_new(State &S, Inst &, std::vector<Val> &a, Val &r)
{
    u64 n = (u64)concretize(S, a[0]);
    if(n > (64u << 20)) {
        // allocation failure is modelled by the caller (bad_alloc) -- treat as unsupported
        unsupported(S, "allocation of more than 64 MiB");
    }
    r = cv(heapAlloc(S, n, HK_new), 64);
    return H_OK;
}
static int h_free(State &S, Inst &, std::vector<Val> &a, Val &) { heapFree(S, (u64)concretize(S, a[0]), 0); return H_OK; }
static int h_nop(State &, Inst &in, std::vector<Val> &, Val &r) { if(in.w) r = cv(0, in.w); return H_OK; }

static void copyMem(State &S, const Val &d, const Val &s, u64 n)
{
    if(!n) return;
    Val so, dof;
    Loc sl = resolve(S, s, n, false, so);
    u64 o1 = (u64)concretize(S, so);
    Loc dl = resolve(S, d, n, true, dof);
    u64 o2 = (u64)concretize(S, dof);
    Content *src = rd(S, sl);
    CRef hold(src);
    Content *dst = wr(S, dl);
    if(src == dst || (sl.region == dl.region && sl.idx == dl.idx)) {
        std::vector<uint8_t> b(src->b.begin() + o1, src->b.begin() + o1 + n);
        std::vector<Expr *> e;
        if(!src->s.empty()) e.assign(src->s.begin() + o1, src->s.begin() + o1 + n);
        for(u64 i = 0; i < n; ++i) {
            dst->b[o2 + i] = b[i];
            if(!e.empty() && e[i]) setSym(dst, o2 + i, e[i]);
            else if(!dst->s.empty()) dst->s[o2 + i] = nullptr;
        }
        return;
    }
    memcpy(&dst->b[o2], &src->b[o1], n);
    if(!src->s.empty()) {
        for(u64 i = 0; i < n; ++i) {
            if(src->s[o1 + i]) setSym(dst, o2 + i, src->s[o1 + i]);
            else if(!dst->s.empty()) dst->s[o2 + i] = nullptr;
        }
    } else if(!dst->s.empty())
        for(u64 i = 0; i < n; ++i) dst->s[o2 + i] = nullptr;
}
static void setMem(State &S, const Val &d, const Val &v, u64 n)
{
    if(!n) return;
    Val dof;
    Loc dl = resolve(S, d, n, true, dof);
    u64 o = (u64)concretize(S, dof);
    Content *dst = wr(S, dl);
    Val b = v;
    if(b.w != 8) b = b.e ? ev(mkExtract(b.e, 0, 8)) : cv(b.lo, 8);
    for(u64 i = 0; i < n; ++i) writeBytes(dst, o + i, b, 1);
}
static int h_memcpy(State &S, Inst &, std::vector<Val> &a, Val &r) { copyMem(S, a[0], a[1], (u64)concretize(S, a[2])); r = a[0]; return H_OK; }
static int h_memset(State &S, Inst &, std::vector<Val> &a, Val &r) { setMem(S, a[0], a[1], (u64)concretize(S, a[2])); r = a[0]; return H_OK; }

// --- exceptions
static int h_cxa_alloc(State &S, Inst &, std::vector<Val> &a, Val &r) { r = cv(heapAlloc(S, (u64)concretize(S, a[0]), HK_exc), 64); return H_OK; }
static int h_cxa_free(State &S, Inst &, std::vector<Val> &a, Val &) { heapFree(S, (u64)concretize(S, a[0]), HK_exc); return H_OK; }
static int h_cxa_throw(State &S, Inst &, std::vector<Val> &a, Val &)
{
    u64 o = (u64)concretize(S, a[0]);
    S.exc[o] = {o, (u64)concretize(S, a[1]), (u64)concretize(S, a[2]), 0, 0, where(S), stackTrace(S)};
    S.uncaught++;
    unwind(S, o);
    return H_CONTROL;
}
static int h_cxa_begin(State &S, Inst &, std::vector<Val> &a, Val &r)
{
    u64 o = (u64)concretize(S, a[0]);
    ExcInfo &x = S.exc.at(o);
    x.handlers++;
    S.caught.push_back(o);
    if(S.uncaught) S.uncaught--;
    r = cv(o + x.adj, 64);
    return H_OK;
}
static int h_cxa_end(State &S, Inst &in, std::vector<Val> &, Val &)
{
    (void)in;
    if(S.caught.empty()) return H_OK;
    u64 o = S.caught.back();
    S.caught.pop_back();
    ExcInfo &x = S.exc.at(o);
    if(x.handlers < 0) {          // rethrown
        x.handlers = -x.handlers - 1;
        return H_OK;
    }
    if(--x.handlers == 0) {
        // run no destructor (strings in exceptions are leaked); release the storage lazily
    }
    return H_OK;
}
static int h_cxa_rethrow(State &S, Inst &, std::vector<Val> &, Val &)
{
    if(S.caught.empty()) die(S, "terminate", "rethrow without an active exception");
    u64 o = S.caught.back();
    ExcInfo &x = S.exc.at(o);
    x.handlers = -x.handlers;
    S.uncaught++;
    unwind(S, o);
    return H_CONTROL;
}
static int h_cxa_getptr(State &S, Inst &, std::vector<Val> &a, Val &r) { r = cv((u64)concretize(S, a[0]) + S.exc.at((u64)concretize(S, a[0])).adj, 64); return H_OK; }
// exception pointers: exceptions are never freed, so a pointer is all there is to them
static int h_current_exception(State &S, Inst &, std::vector<Val> &a, Val &)
{
    writeAt(S, a[0], cv(S.caught.empty() ? 0 : S.caught.back(), 64), 8);
    return H_OK;
}
static int h_rethrow_exception(State &S, Inst &, std::vector<Val> &a, Val &)
{
    u64 o = rdPtr(S, (u64)concretize(S, a[0]));
    if(!o) die(S, "terminate", "rethrow of no exception");
    S.uncaught++;
    unwind(S, o);
    return H_CONTROL;
}
static int h_init_primary(State &S, Inst &, std::vector<Val> &a, Val &r)
{
    u64 o = (u64)concretize(S, a[0]);
    S.exc[o] = {o, (u64)concretize(S, a[1]), (u64)concretize(S, a[2]), 0, 0, where(S), stackTrace(S)};
    r = cv(o, 64);
    return H_OK;
}
static int h_excptr_new(State &S, Inst &, std::vector<Val> &a, Val &) { writeAt(S, a[0], a[1], 8); return H_OK; }
static int h_typeid_for(State &S, Inst &, std::vector<Val> &a, Val &r)
{
    r = cv(typeidFor((u64)concretize(S, a[0])), 32);
    return H_OK;
}
static int h_uncaught(State &S, Inst &in, std::vector<Val> &, Val &r) { r = cv(in.w == 1 ? S.uncaught > 0 : S.uncaught, in.w); return H_OK; }
static int h_dyncast(State &S, Inst &, std::vector<Val> &a, Val &r)
{
    u64 p = (u64)concretize(S, a[0]);
    u64 dst = (u64)concretize(S, a[2]);
    u64 vp = rdPtr(S, p);
    int64_t ott = (int64_t)rdPtr(S, vp - 16);
    u64 ti = rdPtr(S, vp - 8);
    u64 whole = p + ott;
    std::vector<Sub> subs;
    subobjects(S, ti, whole, true, subs, true);
    std::set<u64> cand;
    for(auto &s : subs) if(s.pub && tiSame(S, s.ti, dst)) cand.insert(s.addr);
    if(cand.empty()) { r = cv(0, 64); return H_OK; }
    if(cand.size() == 1) { r = cv(*cand.begin(), 64); return H_OK; }
    for(u64 c : cand) {
        std::vector<Sub> in;
        subobjects(S, dst, c, true, in, true);
        for(auto &s : in) if(s.addr == p) { r = cv(c, 64); return H_OK; }
    }
    r = cv(0, 64);
    return H_OK;
}

// --- aborts
static int h_assert_fail(State &S, Inst &, std::vector<Val> &a, Val &)
{
    die(S, "abort", "assertion `" + cstr(S, a[0]) + "' failed in the code under test");
    return H_OK;
}
// of the standard library: file, line, function, condition
static int h_glibcxx_assert_fail(State &S, Inst &, std::vector<Val> &a, Val &)
{
    die(S, "abort", "assertion `" + cstr(S, a[3]) + "' failed in the code under test");
    return H_OK;
}
static int h_abort(State &S, Inst &in, std::vector<Val> &, Val &)
{
    die(S, "abort", std::string("call to ") + (in.callee ? demang(in.callee->name) : "abort"));
    return H_OK;
}

// --- harness interface
static Val freshInput(State &S, const std::string &name, unsigned w, u64 lo = 0, u64 hi = ~0ull)
{
    // symbols are shared between paths: same name, ordinal and range -> same symbol
    static std::map<std::tuple<std::string, unsigned, unsigned, u64, u64>, Expr *> cache;
    unsigned n = S.nameCount[name]++;
    auto &slot = cache[{name, n, w, lo, hi}];
    if(!slot) {
        std::string nm = name + (n ? "#" + std::to_string(n) : "");
        slot = hi == ~0ull && lo == 0 ? mkSym(nm, w) : mkSymRange(nm, w, lo, hi);
    }
    S.inputs.push_back({name, w, slot});
    return ev(slot);
}
static int h_sym(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    unsigned w = (unsigned)concretize(S, a[0]);
    Val v = freshInput(S, cstr(S, a[1]), w);
    r = cast1(S, Instruction::ZExt, v, in.w);
    if(w == in.w) r = v;
    return H_OK;
}
static int h_range(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    // uint64 esx_range(lo, hi, name): lo <= r <= hi
    (void)in;
    std::string name = cstr(S, a[2]);
    u128 kl, kh;
    if(known(S, a[0], kl) && known(S, a[1], kh)) {
        u64 lo = (u64)kl, hi = (u64)kh;
        if(lo > hi) { ++st_assumeKilled; throw Killed(); }
        unsigned w = 1;
        while(w < 64 && (hi >> w)) ++w;
        Val v = freshInput(S, name, w, lo, hi);
        if(lo > 0) S.pc.push_back(mkRaw(K::Ule, mkConst(lo, w), v.e));
        if(hi != (u64)maskw(w)) S.pc.push_back(mkRaw(K::Ule, v.e, mkConst(hi, w)));
        S.model[v.e->aux] = lo;
        if(lo == hi) v = cv(lo, 64);
        else if(w < 64) v = ev(mkZExt(ex(v), 64));
        r = v;
        return H_OK;
    }
    Val v = freshInput(S, name, 64);
    Expr *c = mkBin(K::And, mkBin(K::Ule, ex(a[0]), v.e), mkBin(K::Ule, v.e, ex(a[1])));
    if(isConst(c)) { if(!c->v) { ++st_assumeKilled; throw Killed(); } }
    else {
        Model m;
        if(mayBe(S, c, &m) != Res::Sat) { ++st_assumeKilled; throw Killed(); }
        addCons(S, c);
        S.model = m;
    }
    r = v;
    return H_OK;
}
static int h_assume(State &S, Inst &, std::vector<Val> &a, Val &)
{
    Val c = a[0];
    if(c.w != 1) c = vnot(binop(K::Eq, c, cv(0, c.w)));
    if(!c.e) { if(!c.lo) { ++st_assumeKilled; throw Killed(); } return H_OK; }
    Model m;
    Res r = mayBe(S, c.e, &m);
    if(r == Res::Unsat) { ++st_assumeKilled; throw Killed(); }
    if(r == Res::Unknown) { incomplete(S, "solver gave no answer (assume)"); throw Killed(); }
    addCons(S, c.e);
    S.model = std::move(m);
    return H_OK;
}
static int h_assert(State &S, Inst &, std::vector<Val> &a, Val &)
{
    ++st_asserts;
    Val c = a[0];
    if(c.w != 1) c = vnot(binop(K::Eq, c, cv(0, c.w)));
    std::string msg = cstr(S, a[1]);
    if(!c.e) {
        if(!c.lo) die(S, "assert", msg);
        ++st_discharged;
        return H_OK;
    }
    if(getenv("ESX_DUMP")) fprintf(stderr, "assert %s: %s\n", msg.c_str(), dumpExpr(c.e, 10).c_str());
    Model m;
    g_confirm = true;
    Res r = mayBe(S, mkNot(c.e), &m);
    g_confirm = false;
    if(r == Res::Unsat) { ++st_discharged; return H_OK; }
    if(r == Res::Unknown) { incomplete(S, "solver gave no answer (assertion): " + msg); addCons(S, c.e); if(!evalExpr(c.e, S.model)) throw Killed(); return H_OK; }
    violation(S, "assert", msg, m);
    // go on with the executions that satisfy it
    r = mayBe(S, c.e, &m);
    if(r != Res::Sat) throw Killed();
    addCons(S, c.e);
    S.model = std::move(m);
    return H_OK;
}
static int h_cover(State &S, Inst &, std::vector<Val> &a, Val &)
{
    S.covers.push_back(cstr(S, a[0]));
    ++covers[S.covers.back()];
    return H_OK;
}
static int h_observe(State &S, Inst &, std::vector<Val> &a, Val &)
{
    S.obs.push_back({cstr(S, a[1]), a[0]});
    return H_OK;
}
static int h_issym(State &S, Inst &in, std::vector<Val> &a, Val &r) { u128 k; r = cv(!known(S, a[0], k), in.w); return H_OK; }
static int h_concretize(State &S, Inst &, std::vector<Val> &a, Val &r) { r = cv(concretize(S, a[0]), a[0].w); return H_OK; }
static int h_fail(State &S, Inst &, std::vector<Val> &a, Val &) { ++st_asserts; die(S, "assert", cstr(S, a[0])); return H_OK; }
static int h_abort_ok(State &S, Inst &, std::vector<Val> &a, Val &) { S.abortOk = a[0].c() & 1; return H_OK; }
static int h_stop(State &, Inst &, std::vector<Val> &, Val &) { ++st_assumeKilled; throw Killed(); }
static int h_is_native(State &, Inst &in, std::vector<Val> &, Val &r) { r = cv(0, in.w); return H_OK; }

// --- math
static double d_of(const Val &v) { double d; memcpy(&d, &v.lo, 8); return d; }
static Val d_val(double d) { u64 t; memcpy(&t, &d, 8); return cv(t, 64); }
template<double (*fn)(double)> static int h_m1(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    if(a[0].e) { S.approx = true; r = freshInput(S, "approx_" + in.callee->name, 64); return H_OK; }
    r = d_val(fn(d_of(a[0])));
    return H_OK;
}
template<double (*fn)(double, double)> static int h_m2(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    if(a[0].e || a[1].e) { S.approx = true; r = freshInput(S, "approx_" + in.callee->name, 64); return H_OK; }
    r = d_val(fn(d_of(a[0]), d_of(a[1])));
    return H_OK;
}
static int fround_(State &S, Inst &in, std::vector<Val> &a, Val &r, unsigned mode)
{
    (void)S; (void)in;
    if(a[0].agg) unsupported(S, "vector rounding");
    r = ev(mkFUn(K::FRound, ex(a[0]), a[0].w, mode));
    return H_OK;
}
static int h_floor(State &S, Inst &i, std::vector<Val> &a, Val &r) { return fround_(S, i, a, r, 1); }
static int h_ceil(State &S, Inst &i, std::vector<Val> &a, Val &r) { return fround_(S, i, a, r, 2); }
static int h_trunc(State &S, Inst &i, std::vector<Val> &a, Val &r) { return fround_(S, i, a, r, 3); }
static int h_round(State &S, Inst &i, std::vector<Val> &a, Val &r) { return fround_(S, i, a, r, 4); }
static int h_rint(State &S, Inst &i, std::vector<Val> &a, Val &r) { return fround_(S, i, a, r, 0); }
static int h_sqrt(State &, Inst &, std::vector<Val> &a, Val &r) { r = ev(mkFUn(K::FSqrt, ex(a[0]), a[0].w, 0)); return H_OK; }
static int h_lround(State &, Inst &in, std::vector<Val> &a, Val &r)
{
    r = ev(mkFUn(K::FToSI, mkFUn(K::FRound, ex(a[0]), a[0].w, 4), in.w, 0));
    return H_OK;
}
static int h_lrint(State &, Inst &in, std::vector<Val> &a, Val &r)
{
    r = ev(mkFUn(K::FToSI, mkFUn(K::FRound, ex(a[0]), a[0].w, 0), in.w, 0));
    return H_OK;
}
static int h_guard_acquire(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    Val v = readAt(S, a[0], 1);
    r = cv(concretize(S, v) == 0, in.w);
    return H_OK;
}
static int h_guard_release(State &S, Inst &, std::vector<Val> &a, Val &) { writeAt(S, a[0], cv(1, 8), 1); return H_OK; }

static int h_clock(State &S, Inst &in, std::vector<Val> &, Val &r)
{
    // monotonic clock stub: a constant; no harness asserts on wall-clock time
    (void)S;
    r = cv(1000000000ull, in.w);
    return H_OK;
}

// --- threads
static void park(State &S)
{
    Thread &t = S.th[S.cur];
    t.frames.swap(S.frames); t.stack.swap(S.stack); t.caught.swap(S.caught);
    t.stackPtr = S.stackPtr; t.inflight = S.inflight; t.uncaught = S.uncaught;
}
static void unpark(State &S, int n)
{
    S.cur = n;
    Thread &t = S.th[n];
    S.frames.swap(t.frames); S.stack.swap(t.stack); S.caught.swap(t.caught);
    t.frames.clear(); t.stack.clear(); t.caught.clear();
    S.stackPtr = t.stackPtr; S.inflight = t.inflight; S.uncaught = t.uncaught;
}
static void switchTo(State &S, int n)
{
    if(n == S.cur) return;
    park(S);
    unpark(S, n);
}
static bool enabled(State &S, int n)
{
    Thread &t = S.th[n];
    switch(t.op) {
    case OP_lock: return S.sync[t.arg].owner < 0;
    case OP_join: return S.th[t.arg].op == OP_done;
    case OP_futex: {
        g_atomic = true;
        Loc l;
        bool ok = findObj(S, t.arg, l);
        Val v = ok ? readBytes(rd(S, l), t.arg - l.base, 4) : cv(0, 32);
        g_atomic = false;
        return (u64)concretize(S, v) != t.arg2;
    }
    case OP_cond: case OP_done: return false;
    default: return true;
    }
}
static void take(State &S, int n)
{
    S.th[n].go = !S.th[n].fresh;
    S.th[n].fresh = false;
    switchTo(S, n);
}
static void record(State &S, const char *name, unsigned n, unsigned k)
{
    (void)n;
    S.inputs.push_back({name, 8, mkConst(k, 8)});
}
// may the next operations of two threads not be swapped?
static bool dependent(const Thread &a, const Thread &b)
{
    u64 ma[2] = {}, mb[2] = {};     // mutexes and condition variables
    auto sync = [](const Thread &t, u64 *m) {
        switch(t.op) {
        case OP_lock: case OP_try: case OP_unlock: case OP_signal: m[0] = t.arg; break;
        case OP_wait: m[0] = t.arg; m[1] = t.arg2; break;
        }
    };
    auto mem = [](const Thread &t) { return t.op == OP_read || t.op == OP_write || t.op == OP_futex; };
    if(mem(a) && mem(b)) {
        if(a.op != OP_write && b.op != OP_write) return false;
        u64 na = a.op == OP_futex ? 4 : a.arg2, nb = b.op == OP_futex ? 4 : b.arg2;
        return a.arg < b.arg + nb && b.arg < a.arg + na;
    }
    sync(a, ma);
    sync(b, mb);
    for(u64 x : ma) for(u64 y : mb) if(x && x == y) return true;
    return false;
}
// the next thread to run, any that can: one state for each
static void choose(State &S)
{
    int c[MAXT];
    unsigned n = 0;
    for(int i = 0; i < (int)S.th.size(); ++i) if(enabled(S, i)) c[n++] = i;
    if(!n) die(S, "deadlock", "every thread waits");
    bool mine = false;              // could the running thread go on?
    for(unsigned k = 0; k < n; ++k) mine |= c[k] == S.cur;
    auto go = [&](State &s, unsigned k, uint32_t sleep) {
        s.sleep = 0;
        if(mine && c[k] != s.cur) ++s.preempted;
        for(unsigned j = 0; j < n; ++j)
            if((sleep >> c[j] & 1) && !dependent(s.th[c[j]], s.th[c[k]])) s.sleep |= 1u << c[j];
        if(n > 1) record(s, "sched", n, k);
        take(s, c[k]);
    };
    int first = -1;
    uint32_t sleep = S.sleep;
    for(unsigned k = 0; o_reduce && k < n; ++k) {       // starting and joining: nothing else depends on it
        uint8_t op = S.th[c[k]].op;
        if(op == OP_none || op == OP_join) { go(S, k, sleep); return; }
    }
    for(unsigned k = 0; k < n; ++k) {
        if(sleep >> c[k] & 1) continue;
        if(o_preempt >= 0 && mine && c[k] != S.cur && S.preempted >= o_preempt) continue;
        if(first < 0) first = k;
        else {
            State *o = forkState(S);
            go(*o, k, sleep);
            worklist.push_back(o);
        }
        if(o_reduce) sleep |= 1u << c[k];
    }
    if(first < 0) { ++st_asleep; throw Killed(); }
    go(S, first, S.sleep);
}
static bool many(State &S)
{
    int n = 0;
    for(auto &t : S.th) n += t.op != OP_done;
    return n > 1;
}
// true when the running thread may carry out its operation now; otherwise the
// instruction is executed again when the thread is chosen
static bool schedPoint(State &S, uint8_t op = OP_none, u64 arg = 0, u64 arg2 = 0)
{
    if(S.th.empty()) return true;
    Thread &t = S.th[S.cur];
    if(t.go) { t.go = false; t.op = OP_none; return true; }
    t.op = op; t.arg = arg; t.arg2 = arg2;
    if(!many(S)) {
        if(!enabled(S, S.cur)) die(S, "deadlock", "every thread waits");
        t.op = OP_none;
        return true;
    }
    int me = S.cur;
    choose(S);
    if(S.cur == me) { S.th[me].go = false; S.th[me].op = OP_none; return true; }
    return false;
}
static void acquire(State &S, u64 a) { if(S.th.empty()) return; VC &v = S.th[S.cur].vc, &y = S.sync[a].vc; for(int i = 0; i < MAXT; ++i) v[i] = std::max(v[i], y[i]); }
static void release(State &S, u64 a) { if(S.th.empty()) return; VC &v = S.th[S.cur].vc, &y = S.sync[a].vc; for(int i = 0; i < MAXT; ++i) y[i] = std::max(y[i], v[i]); ++v[S.cur]; }
static bool usesTrylock() { static int r = -1; if(r < 0) { auto *f = M->getFunction("pthread_mutex_trylock"); r = f && !f->use_empty(); } return r; }
// an atomic access is about to be made
static bool atomicPoint(State &S, const Val &p, Type *t, bool write)
{
    if(S.th.empty()) return true;
    return schedPoint(S, write ? OP_write : OP_read, (u64)concretize(S, p), DL->getTypeStoreSize(t));
}
// a recursive mutex that the thread holds already
static bool lockAgain(State &S, u64 m)
{
    auto i = S.sync.find(m);
    if(i == S.sync.end() || i->second.owner != S.cur) return false;
    if((u64)concretize(S, loadTy(S, cv(m + 16, 64), Type::getInt32Ty(lctx))) != 1) return false; // __kind
    ++i->second.again;
    return true;
}
static int h_lock(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    u64 m = (u64)concretize(S, a[0]);
    if(lockAgain(S, m)) { r = cv(0, in.w); return H_OK; }
    if(!schedPoint(S, OP_lock, m)) return H_CONTROL;
    Sync &y = S.sync[m];
    if(y.owner >= 0) die(S, "deadlock", "a thread locks a mutex it holds");
    y.owner = S.cur;
    acquire(S, m);
    r = cv(0, in.w);
    return H_OK;
}
static int h_trylock(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    u64 m = (u64)concretize(S, a[0]);
    if(lockAgain(S, m)) { r = cv(0, in.w); return H_OK; }
    if(!schedPoint(S, OP_try, m)) return H_CONTROL;
    Sync &y = S.sync[m];
    if(y.owner >= 0) { r = cv(16, in.w); return H_OK; }
    y.owner = S.cur;
    acquire(S, m);
    r = cv(0, in.w);
    return H_OK;
}
static int h_unlock(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    u64 m = (u64)concretize(S, a[0]);
    auto held = S.sync.find(m);
    if(held != S.sync.end() && held->second.owner == S.cur && held->second.again) { --held->second.again; r = cv(0, in.w); return H_OK; }
    if(usesTrylock() && !schedPoint(S, OP_unlock, m)) return H_CONTROL;
    Sync &y = S.sync[m];
    if(y.owner != S.cur) die(S, "deadlock", "a thread unlocks a mutex it does not hold");
    y.owner = -1;
    release(S, m);
    r = cv(0, in.w);
    return H_OK;
}
static int h_condwait(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    u64 c = (u64)concretize(S, a[0]), m = (u64)concretize(S, a[1]);
    if(S.th.empty()) die(S, "deadlock", "every thread waits");
    if(!S.th[S.cur].phase) {
        if(!schedPoint(S, OP_wait, c, m)) return H_CONTROL;
        if(S.sync[m].owner != S.cur) die(S, "deadlock", "a thread waits without holding the mutex");
        S.sync[m].owner = -1;
        release(S, m);
        Thread &t = S.th[S.cur];
        t.op = OP_cond; t.arg = c; t.arg2 = m;
        t.phase = true;
        choose(S);
        return H_CONTROL;
    }
    Thread &t = S.th[S.cur];        // notified and chosen: the mutex is free
    t.go = false;
    t.op = OP_none;
    t.phase = false;
    S.sync[m].owner = S.cur;
    acquire(S, m);
    acquire(S, c);
    r = cv(0, in.w);
    return H_OK;
}
static void wake(State &S, int n) { S.th[n].op = OP_lock; S.th[n].arg = S.th[n].arg2; }
static int h_signal(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    u64 c = (u64)concretize(S, a[0]);
    if(!schedPoint(S, OP_signal, c)) return H_CONTROL;
    std::vector<int> w;
    for(int i = 0; i < (int)S.th.size(); ++i) if(S.th[i].op == OP_cond && S.th[i].arg == c) w.push_back(i);
    release(S, c);
    r = cv(0, in.w);
    if(w.size() > 1) {
        for(unsigned k = 1; k < w.size(); ++k) {
            State *n = forkState(S);
            record(*n, "wake", w.size(), k);
            wake(*n, w[k]);
            deliver(*n, r);
            worklist.push_back(n);
        }
        record(S, "wake", w.size(), 0);
    }
    if(!w.empty()) wake(S, w[0]);
    return H_OK;
}
static int h_broadcast(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    u64 c = (u64)concretize(S, a[0]);
    if(!schedPoint(S, OP_signal, c)) return H_CONTROL;
    release(S, c);
    for(int i = 0; i < (int)S.th.size(); ++i) if(S.th[i].op == OP_cond && S.th[i].arg == c) wake(S, i);
    r = cv(0, in.w);
    return H_OK;
}
// uint64_t esx_thread(void (*f)(void *), void *arg)
static int h_thread(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    Func *f = funcByAddr.at((u64)concretize(S, a[0]));
    if(S.th.empty()) { S.th.resize(1); S.th[0].vc[0] = 1; S.th[0].fresh = false; S.shadow.clear(); }
    int id = 1, me = S.cur;
    while(id < (int)S.th.size() && !S.th[id].joined) ++id;
    if(id >= MAXT) unsupported(S, "more than 5 threads at a time");
    uint32_t clock = 0;
    if(id == (int)S.th.size()) S.th.emplace_back();
    else { clock = S.th[id].vc[id]; S.th[id] = Thread(); }
    S.th[id].vc = S.th[me].vc;
    S.th[id].vc[id] = clock + 1;
    ++S.th[me].vc[me];
    S.th[id].stackPtr = STACK_BASE + ((u64)id << 36);
    Val arg = a[1];
    park(S);
    unpark(S, id);
    pushFrame(S, f, {arg});
    switchTo(S, me);
    r = cv(id, in.w);
    return H_OK;
}
static int h_join(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    u64 t = (u64)concretize(S, a[0]);
    if(S.th.empty() || t >= S.th.size() || (int)t == S.cur) die(S, "deadlock", "join of something that is no other thread");
    if(!schedPoint(S, OP_join, t)) return H_CONTROL;
    VC &v = S.th[S.cur].vc;
    for(int i = 0; i < MAXT; ++i) v[i] = std::max(v[i], S.th[t].vc[i]);
    S.th[t].joined = true;
    r = cv(0, in.w);
    return H_OK;
}
// the running thread has returned from its first function
static void threadExit(State &S)
{
    S.th[S.cur].op = OP_done;
    choose(S);
}
// bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *, unsigned, bool, seconds, nanoseconds)
static int h_futexwait(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    u64 p = (u64)concretize(S, a[1]), v = (u64)concretize(S, a[2]);
    if(concretize(S, a[3])) unsupported(S, "waiting with a time limit");
    if(!schedPoint(S, OP_futex, p, v)) return H_CONTROL;
    r = cv(1, in.w);
    return H_OK;
}
static std::map<std::string, Handler> handlers = {
    {"_ZSt17current_exceptionv", h_current_exception}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", h_rethrow_exception},
    {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", h_nop}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", h_nop},
    {"_ZNSt15__exception_ptr13exception_ptrC1EPv", h_excptr_new}, {"__cxa_init_primary_exception", h_init_primary},
    {"esx_thread", h_thread}, {"esx_join", h_join},
    {"pthread_cond_wait", h_condwait}, {"pthread_cond_signal", h_signal}, {"pthread_cond_broadcast", h_broadcast}, {"pthread_cond_destroy", h_nop}, {"pthread_cond_init", h_nop},
    {"_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", h_futexwait},
    {"_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj", h_nop},
    {"malloc", h_malloc}, {"free", h_free}, {"_Znwm", h_new}, {"_Znam", h_new}, {"_ZnwmRKSt9nothrow_t", h_new}, {"_ZnamRKSt9nothrow_t", h_new},
    {"_ZnwmSt11align_val_t", h_new}, {"_ZdlPvSt11align_val_t", h_free}, {"_ZdlPvmSt11align_val_t", h_free},
    {"_ZdlPv", h_free}, {"_ZdlPvm", h_free}, {"_ZdaPv", h_free}, {"_ZdaPvm", h_free}, {"_ZdaPvRKSt9nothrow_t", h_free}, {"_ZdlPvRKSt9nothrow_t", h_free},
    {"memcpy", h_memcpy}, {"memmove", h_memcpy}, {"memset", h_memset},
    {"__cxa_allocate_exception", h_cxa_alloc}, {"__cxa_free_exception", h_cxa_free}, {"__cxa_throw", h_cxa_throw},
    {"__cxa_begin_catch", h_cxa_begin}, {"__cxa_end_catch", h_cxa_end}, {"__cxa_rethrow", h_cxa_rethrow},
    {"__cxa_get_exception_ptr", h_cxa_getptr}, {"llvm.eh.typeid.for", h_typeid_for}, {"_ZSt18uncaught_exceptionv", h_uncaught},
    {"_ZSt19uncaught_exceptionsv", h_uncaught}, {"__dynamic_cast", h_dyncast},
    {"__assert_fail", h_assert_fail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", h_glibcxx_assert_fail}, {"abort", h_abort}, {"_ZSt9terminatev", h_abort}, {"__cxa_pure_virtual", h_abort}, {"exit", h_abort},
    {"__cxa_bad_cast_", h_abort}, {"_exit", h_abort},
    {"__cxa_atexit", h_nop}, {"__cxa_thread_atexit", h_nop}, {"atexit", h_nop}, {"__cxa_guard_acquire", h_guard_acquire}, {"__cxa_guard_release", h_guard_release}, {"__cxa_guard_abort", h_nop},
    {"pthread_mutex_lock", h_lock}, {"pthread_mutex_unlock", h_unlock}, {"pthread_mutex_init", h_nop}, {"pthread_mutex_destroy", h_nop}, {"pthread_mutex_trylock", h_trylock},
    {"esx_sym", h_sym}, {"esx_range", h_range}, {"esx_assume", h_assume}, {"esx_assert", h_assert}, {"esx_cover", h_cover}, {"esx_observe", h_observe},
    {"esx_is_symbolic", h_issym}, {"esx_concretize", h_concretize}, {"esx_fail", h_fail}, {"esx_stop", h_stop}, {"esx_abort_ok", h_abort_ok}, {"esx_is_native", h_is_native},
    {"exp", h_m1<exp>}, {"log", h_m1<log>}, {"log2", h_m1<log2>}, {"log10", h_m1<log10>}, {"sin", h_m1<sin>}, {"cos", h_m1<cos>}, {"tan", h_m1<tan>}, {"tanh", h_m1<tanh>}, {"log1p", h_m1<log1p>}, {"expm1", h_m1<expm1>}, {"cbrt", h_m1<cbrt>}, {"erf", h_m1<erf>},
    {"pow", h_m2<pow>}, {"fmod", h_m2<fmod>}, {"atan2", h_m2<atan2>}, {"hypot", h_m2<hypot>}, {"nextafter", h_m2<nextafter>},
    {"floor", h_floor}, {"ceil", h_ceil}, {"trunc", h_trunc}, {"round", h_round}, {"rint", h_rint}, {"nearbyint", h_rint}, {"sqrt", h_sqrt}, {"lround", h_lround}, {"llround", h_lround}, {"lrint", h_lrint},
    {"floorf", h_floor}, {"ceilf", h_ceil}, {"truncf", h_trunc}, {"roundf", h_round}, {"sqrtf", h_sqrt},
    {"_ZNSt6chrono3_V212system_clock3nowEv", h_clock}, {"_ZNSt6chrono3_V212steady_clock3nowEv", h_clock}, {"time", h_clock},
};

static Val addOverflow(State &S, unsigned id, const Val &a, const Val &b)
{
    (void)S;
    unsigned w = a.w;
    auto B = [](K k, Expr *x, Expr *y) { return mkBin(k, x, y); };
    Expr *x = ex(a), *y = ex(b), *r, *o;
    switch(id) {
    case Intrinsic::uadd_with_overflow: r = B(K::Add, x, y); o = B(K::Ult, r, x); break;
    case Intrinsic::usub_with_overflow: r = B(K::Sub, x, y); o = B(K::Ult, x, y); break;
    case Intrinsic::umul_with_overflow: {
        r = B(K::Mul, x, y);
        if(w <= 64) {
            Expr *z = B(K::Mul, mkZExt(x, 2 * w), mkZExt(y, 2 * w));
            o = mkNot(B(K::Eq, mkConst(0, w), mkExtract(z, w, w)));
        } else o = mkConst(0, 1);
        break;
    }
    case Intrinsic::sadd_with_overflow: {
        r = B(K::Add, x, y);
        Expr *z = B(K::Add, mkSExt(x, w + 1), mkSExt(y, w + 1));
        o = mkNot(B(K::Eq, z, mkSExt(r, w + 1)));
        break;
    }
    case Intrinsic::ssub_with_overflow: {
        r = B(K::Sub, x, y);
        Expr *z = B(K::Sub, mkSExt(x, w + 1), mkSExt(y, w + 1));
        o = mkNot(B(K::Eq, z, mkSExt(r, w + 1)));
        break;
    }
    default: {
        r = B(K::Mul, x, y);
        Expr *z = B(K::Mul, mkSExt(x, 2 * w), mkSExt(y, 2 * w));
        o = mkNot(B(K::Eq, z, mkSExt(r, 2 * w)));
    }
    }
    return av({ev(r), ev(o)});
}

static bool intrinsic(State &S, Inst &in, std::vector<Val> &a, Val &r)
{
    switch(in.intr) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
    case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start: r = cv(0, 64); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = a[0]; return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(S, a[0], a[1], (u64)concretize(S, a[2])); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: setMem(S, a[0], a[1], (u64)concretize(S, a[2])); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: r = a[0]; return true;
    case Intrinsic::is_constant: r = cv(0, 1); return true;
    case Intrinsic::objectsize: r = cv(~(u128)0, in.w); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: die(S, "abort", "trap instruction (undefined behaviour made visible by the compiler)"); return true;
    case Intrinsic::stacksave: r = cv(S.stackPtr, 64); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::threadlocal_address: {
        r = a[0];
        if(S.cur) {
            u64 g = (u64)concretize(S, a[0]);
            auto it = S.th[S.cur].tls.find(g);
            if(it == S.th[S.cur].tls.end()) {
                Loc l;
                if(!findObj(S, g, l) || l.region != 1) unsupported(S, "thread-local variable");
                u64 h = heapAlloc(S, l.size, HK_malloc);
                Content *src = globInit(l.idx).p;
                Loc d;
                findObj(S, h, d);
                Content *dst = wr(S, d);
                dst->b = src->b;
                dst->s = src->s;
                it = S.th[S.cur].tls.emplace(g, h).first;
            }
            r = cv(it->second, 64);
        }
        return true;
    }
    case Intrinsic::eh_typeid_for: h_typeid_for(S, in, a, r); return true;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        K k = (in.intr == Intrinsic::umax || in.intr == Intrinsic::umin) ? K::Ult : K::Slt;
        bool mx = in.intr == Intrinsic::umax || in.intr == Intrinsic::smax;
        Val lt = binop(k, a[0], a[1]);
        if(o_forkSelect && lt.e && !lt.agg) lt = cv(concretize(S, lt), 1);
        r = mx ? vite(S, lt, a[1], a[0]) : vite(S, lt, a[0], a[1]);
        return true;
    }
    case Intrinsic::abs: {
        auto f = [&](const Val &x) {
            return vite(S, binop(K::Slt, x, cv(0, x.w)), binop(K::Sub, cv(0, x.w), x), x);
        };
        r = a[0].agg ? mapLanes(a[0], f) : f(a[0]);
        return true;
    }
    case Intrinsic::ctpop: {
        Expr *x = ex(a[0]), *s = mkConst(0, in.w);
        for(unsigned i = 0; i < in.w; ++i) s = mkBin(K::Add, s, mkZExt(mkExtract(x, i, 1), in.w));
        r = ev(s);
        return true;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
        Expr *x = ex(a[0]), *s = mkConst(in.w, in.w);
        for(unsigned i = 0; i < in.w; ++i) {
            unsigned bit = in.intr == Intrinsic::ctlz ? i : in.w - 1 - i;
            s = mkIte(mkExtract(x, bit, 1), mkConst(in.w - 1 - i, in.w), s);
        }
        // the loop leaves the highest-priority bit last
        r = ev(s);
        return true;
    }
    case Intrinsic::bswap: {
        Expr *x = ex(a[0]);
        Expr *s = mkExtract(x, 0, 8);
        for(unsigned i = 8; i < in.w; i += 8) s = mkConcat(s, mkExtract(x, i, 8));
        r = ev(s);
        return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Val sh = binop(K::URem, a[2], cv(in.w, in.w));
        Val inv = binop(K::Sub, cv(in.w, in.w), sh);
        Val z = binop(K::Eq, sh, cv(0, in.w));
        if(in.intr == Intrinsic::fshl)
            r = vite(S, z, a[0], binop(K::Or, binop(K::Shl, a[0], sh), binop(K::LShr, a[1], inv)));
        else r = vite(S, z, a[1], binop(K::Or, binop(K::Shl, a[0], inv), binop(K::LShr, a[1], sh)));
        return true;
    }
    case Intrinsic::usub_sat: r = vite(S, binop(K::Ult, a[0], a[1]), cv(0, in.w), binop(K::Sub, a[0], a[1])); return true;
    case Intrinsic::uadd_sat: {
        Val s = binop(K::Add, a[0], a[1]);
        r = vite(S, binop(K::Ult, s, a[0]), cv(~(u128)0, in.w), s);
        return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        r = addOverflow(S, in.intr, a[0], a[1]);
        return true;
    case Intrinsic::fabs:
        if(a[0].w == 80) { r = fromLD(fabsl(asLD(a[0]))); return true; }
        r = binop(K::And, a[0], cv(maskw(in.w - 1), in.w)); return true;
    case Intrinsic::copysign:
        r = binop(K::Or, binop(K::And, a[0], cv(maskw(in.w - 1), in.w)), binop(K::And, a[1], cv((u128)1 << (in.w - 1), in.w)));
        return true;
    case Intrinsic::sqrt: return h_sqrt(S, in, a, r), true;
    case Intrinsic::floor: return h_floor(S, in, a, r), true;
    case Intrinsic::ceil: return h_ceil(S, in, a, r), true;
    case Intrinsic::trunc: return h_trunc(S, in, a, r), true;
    case Intrinsic::round: return h_round(S, in, a, r), true;
    case Intrinsic::rint: case Intrinsic::nearbyint: return h_rint(S, in, a, r), true;
    case Intrinsic::lround: case Intrinsic::llround: return h_lround(S, in, a, r), true;
    case Intrinsic::fmuladd: r = fbin(S, Instruction::FAdd, fbin(S, Instruction::FMul, a[0], a[1]), a[2]); return true;
    case Intrinsic::minnum: case Intrinsic::maxnum: {
        Val lt = in.intr == Intrinsic::minnum ? fcmp(S, CmpInst::FCMP_OLT, a[0], a[1]) : fcmp(S, CmpInst::FCMP_OGT, a[0], a[1]);
        Val bn = fcmp(S, CmpInst::FCMP_UNO, a[1], a[1]);
        r = vite(S, lt, a[0], vite(S, bn, a[0], a[1]));
        return true;
    }
    case Intrinsic::exp: return h_m1<exp>(S, in, a, r), true;
    case Intrinsic::log: return h_m1<log>(S, in, a, r), true;
    case Intrinsic::pow: return h_m2<pow>(S, in, a, r), true;
    case Intrinsic::exp2: return h_m1<exp2>(S, in, a, r), true;
    case Intrinsic::log2: return h_m1<log2>(S, in, a, r), true;
    case Intrinsic::log10: return h_m1<log10>(S, in, a, r), true;
    case Intrinsic::ldexp: {
        if(a[0].e || a[1].e) unsupported(S, "symbolic ldexp");
        r = d_val(ldexp(d_of(a[0]), (int)a[1].lo));
        return true;
    }
    case Intrinsic::is_fpclass: {
        unsigned m = (unsigned)a[1].lo;
        Expr *x = ex(a[0]);
        unsigned w = x->w, mant = w == 64 ? 52 : 23, ex_ = w - 1 - mant;
        Expr *E = mkExtract(x, mant, ex_), *Mx = mkExtract(x, 0, mant), *sg = mkExtract(x, w - 1, 1);
        Expr *e1 = mkBin(K::Eq, mkConst(maskw(ex_), ex_), E), *e0 = mkBin(K::Eq, mkConst(0, ex_), E), *m0 = mkBin(K::Eq, mkConst(0, mant), Mx);
        auto And = [](Expr *p, Expr *q) { return mkBin(K::And, p, q); };
        Expr *pos = mkNot(sg), *res = mkConst(0, 1);
        auto add = [&](unsigned bit, Expr *c) { if(m & bit) res = mkBin(K::Or, res, c); };
        Expr *quiet = mkExtract(Mx, mant - 1, 1);
        add(1, And(e1, And(mkNot(m0), mkNot(quiet))));
        add(2, And(e1, And(mkNot(m0), quiet)));
        add(4, And(sg, And(e1, m0)));
        add(8, And(sg, And(mkNot(e1), mkNot(e0))));
        add(16, And(sg, And(e0, mkNot(m0))));
        add(32, And(sg, And(e0, m0)));
        add(64, And(pos, And(e0, m0)));
        add(128, And(pos, And(e0, mkNot(m0))));
        add(256, And(pos, And(mkNot(e1), mkNot(e0))));
        add(512, And(pos, And(e1, m0)));
        r = ev(res);
        return true;
    }
    case Intrinsic::load_relative: {
        Val p = binop(K::Add, a[0], a[1].w == 64 ? a[1] : cast1(S, Instruction::SExt, a[1], 64));
        Val o = readAt(S, p, 4);
        r = binop(K::Add, a[0], cast1(S, Instruction::SExt, o, 64));
        return true;
    }
    case Intrinsic::vector_reduce_add: {
        Val s = (*a[0].agg)[0];
        for(size_t i = 1; i < a[0].agg->size(); ++i) s = binop(K::Add, s, (*a[0].agg)[i]);
        r = s;
        return true;
    }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
        K k = in.intr == Intrinsic::vector_reduce_or ? K::Or : in.intr == Intrinsic::vector_reduce_and ? K::And : in.intr == Intrinsic::vector_reduce_xor ? K::Xor : K::Mul;
        Val s = (*a[0].agg)[0];
        for(size_t i = 1; i < a[0].agg->size(); ++i) s = binop(k, s, (*a[0].agg)[i]);
        r = s;
        return true;
    }
    default: break;
    }
    return false;
}

// ---------------------------------------------------------------- stepping
// follow a two-way branch; returns true if S goes on in the true side
static bool branch(State &S, Expr *c, State **other)
{
    *other = nullptr;
    auto i = S.eqs.find(c);
    if(i != S.eqs.end()) return i->second != 0;
    bool v = evalExpr(c, S.model) != 0;
    Expr *mine = v ? c : mkNot(c), *oth = v ? mkNot(c) : c;
    Model m;
    Res r = mayBe(S, oth, &m);
    if(r == Res::Sat) {
        *other = forkState(S);
        addCons(**other, oth);
        (*other)->model = std::move(m);
        addCons(S, mine);
    } else if(r == Res::Unknown) {
        incomplete(S, "solver gave no answer (branch)");
        addCons(S, mine);
    } else {
        S.eqs[c] = v;
    }
    return v;
}

static void doCall(State &S, Inst &in, Func *callee, std::vector<Val> &args)
{
    Val r;
    if(in.intr && intrinsic(S, in, args, r)) { deliver(S, r); return; }
    if(!callee->handlerLooked) {
        callee->handlerLooked = true;
        auto h = handlers.find(callee->name);
        if(h != handlers.end()) callee->handler = h->second;
    }
    if(callee->handler) {
        if(callee->name.compare(0, 4, "esx_") != 0) externalsModelled.insert(callee->name);
        int k = callee->handler(S, in, args, r);
        if(k == H_OK) {
            if(in.dst >= 0 && in.w && !r.agg && r.w != in.w) r = r.e ? ev(mkExtract(r.e, 0, in.w)) : cv(r.c(), in.w);
            deliver(S, r);
        }
        return;
    }
    if(callee->F->isDeclaration()) unsupported(S, "external function " + demang(callee->name));
    pushFrame(S, callee, args);
}

static void finishPath(State &S)
{
    ++st_paths;
    if((int)samples.size() < o_samples || (st_paths % 997 == 0 && samples.size() < 4u * o_samples)) {
        if(!S.approx) {
            Sample s;
            s.inputs = inputValues(S, S.model);
            for(auto &o : S.obs) s.obs.push_back({o.first, o.second.e ? evalExpr(o.second.e, S.model) : o.second.c()});
            samples.push_back(s);
        }
    }
}

// one instruction; throws Killed when the state ends
static void step(State &S)
{
    Frame &f = S.frames.back();
    Inst &in = f.f->blocks[f.block].insts[f.ip];
    if(!in.visited) noteVisit(in);
    ++st_inst;
    if(++S.steps > o_maxInst) {
        violation(S, "nontermination", "more than " + std::to_string(o_maxInst) + " instructions on one path", S.model);
        incomplete(S, "instruction bound");
        throw Killed();
    }
    switch(in.opc) {
    case Instruction::Add: f.regs[in.dst] = binop(K::Add, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::Sub: f.regs[in.dst] = binop(K::Sub, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::Mul: f.regs[in.dst] = binop(K::Mul, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::And: f.regs[in.dst] = binop(K::And, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::Or: f.regs[in.dst] = binop(K::Or, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::Xor: f.regs[in.dst] = binop(K::Xor, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::Shl: f.regs[in.dst] = binop(K::Shl, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::LShr: f.regs[in.dst] = binop(K::LShr, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::AShr: f.regs[in.dst] = binop(K::AShr, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        const Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
        if(b.agg) unsupported(S, "vector division");
        u128 k;
        if(known(S, b, k)) { if(!k) die(S, "division", "division by zero"); }
        else {
            Expr *z = mkBin(K::Eq, mkConst(0, b.w), b.e);
            Model m;
            Res r = mayBe(S, z, &m);
            if(r == Res::Sat) {
                violation(S, "division", "division by zero", m);
                if(mayBe(S, mkNot(z), &m) != Res::Sat) throw Killed();
                addCons(S, mkNot(z));
                S.model = m;
            } else if(r == Res::Unknown) incomplete(S, "solver gave no answer (divisor)");
        }
        K kk = in.opc == Instruction::UDiv ? K::UDiv : in.opc == Instruction::SDiv ? K::SDiv : in.opc == Instruction::URem ? K::URem : K::SRem;
        f.regs[in.dst] = binop(kk, a, b);
        break;
    }
    case Instruction::ICmp: f.regs[in.dst] = icmp(in.aux, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::FCmp: f.regs[in.dst] = fcmp(S, in.aux, get(f, in.ops[0]), get(f, in.ops[1])); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        f.regs[in.dst] = fbin(S, in.opc, get(f, in.ops[0]), get(f, in.ops[1]));
        break;
    case Instruction::FNeg: {
        Val a = get(f, in.ops[0]);
        if(a.w == 80) f.regs[in.dst] = fromLD(-asLD(a));
        else if(a.agg) f.regs[in.dst] = mapLanes(a, [](const Val &x) { return binop(K::Xor, x, cv((u128)1 << (x.w - 1), x.w)); });
        else f.regs[in.dst] = binop(K::Xor, a, cv((u128)1 << (a.w - 1), a.w));
        break;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
        Val a = get(f, in.ops[0]);
        if(a.agg) {
            unsigned w = scalarWidth(cast<FixedVectorType>(in.ty)->getElementType());
            f.regs[in.dst] = mapLanes(a, [&](const Val &x) { return cast1(S, in.opc, x, w); });
        } else f.regs[in.dst] = cast1(S, in.opc, a, in.w);
        break;
    }
    case Instruction::BitCast: {
        Val a = get(f, in.ops[0]);
        if(a.agg || in.ty->isVectorTy()) {
            // through a flat bit string
            Expr *e = nullptr;
            if(a.agg) for(auto &x : *a.agg) e = e ? mkConcat(ex(x), e) : ex(x);
            else e = ex(a);
            if(in.ty->isVectorTy()) {
                unsigned n = cast<FixedVectorType>(in.ty)->getNumElements(), w = scalarWidth(cast<FixedVectorType>(in.ty)->getElementType());
                std::vector<Val> v;
                for(unsigned i = 0; i < n; ++i) v.push_back(ev(mkExtract(e, i * w, w)));
                f.regs[in.dst] = av(std::move(v));
            } else f.regs[in.dst] = ev(e);
        } else f.regs[in.dst] = a;
        break;
    }
    case Instruction::Freeze: case Instruction::AddrSpaceCast: f.regs[in.dst] = get(f, in.ops[0]); break;
    case Instruction::Select:
        if(o_forkSelect || in.I->getType()->isPointerTy()) {
            Val c = get(f, in.ops[0]);
            if(c.e && !c.agg) {
                f.regs[in.dst] = concretize(S, c) ? get(f, in.ops[1]) : get(f, in.ops[2]);
                break;
            }
        }
        f.regs[in.dst] = vite(S, get(f, in.ops[0]), get(f, in.ops[1]), get(f, in.ops[2])); break;
    case Instruction::GetElementPtr: {
        Val p = get(f, in.ops[0]);
        if(p.agg) unsupported(S, "vector of pointers");
        if(in.coff) p = ptrAdd(p, (u64)in.coff);
        for(auto &t : in.terms) {
            Val i = get(f, t.op);
            if(i.w < 64) i = cast1(S, Instruction::SExt, i, 64);
            u128 k;
            if(known(S, i, k)) { p = ptrAdd(p, (u64)k * (u64)t.scale); continue; }
            Expr *s = mkBin(K::Mul, mkConst((u64)t.scale, 64), i.e);
            p = ev(mkBin(K::Add, ex(p), s));
        }
        f.regs[in.dst] = p;
        break;
    }
    case Instruction::Alloca: {
        u64 n = (u64)concretize(S, get(f, in.ops[0]));
        u64 a = stackAlloc(S, n * DL->getTypeAllocSize(in.ty));
        S.frames.back().regs[in.dst] = cv(a, 64);
        break;
    }
    case Instruction::Load: {
        if(cast<LoadInst>(in.I)->isAtomic()) {
            if(!atomicPoint(S, get(f, in.ops[0]), in.ty, false)) return;
            g_atomic = true;
            struct G { ~G() { g_atomic = false; } } g;
            f.regs[in.dst] = loadTy(S, get(f, in.ops[0]), in.ty);
            break;
        }
        Val v = loadTy(S, get(f, in.ops[0]), in.ty);
        f.regs[in.dst] = v;
        break;
    }
    case Instruction::Store:
        if(cast<StoreInst>(in.I)->isAtomic()) {
            if(!atomicPoint(S, get(f, in.ops[1]), in.ty, true)) return;
            g_atomic = true;
            struct G { ~G() { g_atomic = false; } } g;
            storeTy(S, get(f, in.ops[1]), get(f, in.ops[0]), in.ty);
            break;
        }
        storeTy(S, get(f, in.ops[1]), get(f, in.ops[0]), in.ty); break;
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
        if(!atomicPoint(S, get(f, in.ops[0]), in.ty, true)) return;
        g_atomic = true;
        struct G { ~G() { g_atomic = false; } } g;
        Val p = get(f, in.ops[0]), x = get(f, in.ops[1]);
        Val old = loadTy(S, p, in.ty), nv;
        switch(in.aux) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = binop(K::Add, old, x); break;
        case AtomicRMWInst::Sub: nv = binop(K::Sub, old, x); break;
        case AtomicRMWInst::And: nv = binop(K::And, old, x); break;
        case AtomicRMWInst::Or: nv = binop(K::Or, old, x); break;
        case AtomicRMWInst::Xor: nv = binop(K::Xor, old, x); break;
        default: unsupported(S, "atomicrmw");
        }
        storeTy(S, p, nv, in.ty);
        f.regs[in.dst] = old;
        break;
    }
    case Instruction::AtomicCmpXchg: {
        if(!atomicPoint(S, get(f, in.ops[0]), cast<StructType>(in.ty)->getElementType(0), true)) return;
        g_atomic = true;
        struct G { ~G() { g_atomic = false; } } g;
        Val p = get(f, in.ops[0]), c = get(f, in.ops[1]), n = get(f, in.ops[2]);
        Type *t = cast<StructType>(in.ty)->getElementType(0);
        Val old = loadTy(S, p, t);
        Val eq = binop(K::Eq, old, c);
        storeTy(S, p, vite(S, eq, n, old), t);
        f.regs[in.dst] = av({old, eq});
        break;
    }
    case Instruction::ExtractValue: {
        auto *x = cast<ExtractValueInst>(in.I);
        Val v = get(f, in.ops[0]);
        for(unsigned i : x->indices()) { Val t = (*v.agg)[i]; v = t; }
        f.regs[in.dst] = v;
        break;
    }
    case Instruction::InsertValue: {
        auto *x = cast<InsertValueInst>(in.I);
        std::function<Val(const Val &, ArrayRef<unsigned>, const Val &)> ins = [&](const Val &v, ArrayRef<unsigned> ix, const Val &nv) -> Val {
            if(ix.empty()) return nv;
            std::vector<Val> c = *v.agg;
            c[ix[0]] = ins(c[ix[0]], ix.slice(1), nv);
            return av(std::move(c));
        };
        f.regs[in.dst] = ins(get(f, in.ops[0]), x->getIndices(), get(f, in.ops[1]));
        break;
    }
    case Instruction::ExtractElement: {
        Val v = get(f, in.ops[0]);
        u64 i = (u64)concretize(S, get(f, in.ops[1]));
        f.regs[in.dst] = (*v.agg)[i];
        break;
    }
    case Instruction::InsertElement: {
        std::vector<Val> c = *get(f, in.ops[0]).agg;
        u64 i = (u64)concretize(S, get(f, in.ops[2]));
        c[i] = get(f, in.ops[1]);
        f.regs[in.dst] = av(std::move(c));
        break;
    }
    case Instruction::ShuffleVector: {
        auto *x = cast<ShuffleVectorInst>(in.I);
        const Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
        std::vector<Val> r;
        for(int m : x->getShuffleMask()) {
            size_t n = a.agg->size();
            if(m < 0) r.push_back((*a.agg)[0]);
            else r.push_back((size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
        }
        f.regs[in.dst] = av(std::move(r));
        break;
    }
    case Instruction::Br: {
        if(in.ops.empty()) { enterBlock(S, f, in.succ[0]); return; }
        Val c = get(f, in.ops[0]);
        if(!c.e) { enterBlock(S, f, in.succ[c.lo ? 0 : 1]); return; }
        State *o;
        bool v = branch(S, c.e, &o);
        if(o) {
            enterBlock(*o, o->frames.back(), in.succ[v ? 1 : 0]);
            worklist.push_back(o);
        }
        enterBlock(S, S.frames.back(), in.succ[v ? 0 : 1]);
        return;
    }
    case Instruction::Switch: {
        Val c = get(f, in.ops[0]);
        u128 k;
        if(known(S, c, k)) {
            int to = in.succ[0];
            for(size_t i = 0; i < in.cases.size(); ++i) if(in.cases[i] == (u64)k) { to = in.succ[i + 1]; break; }
            enterBlock(S, f, to);
            return;
        }
        // group by destination
        std::map<int, Expr *> dest;
        Expr *any = mkConst(0, 1);
        for(size_t i = 0; i < in.cases.size(); ++i) {
            Expr *eq = mkBin(K::Eq, mkConst(in.cases[i], c.w), c.e);
            any = mkBin(K::Or, any, eq);
            auto &d = dest[in.succ[i + 1]];
            d = d ? mkBin(K::Or, d, eq) : eq;
        }
        {
            Expr *none = mkNot(any);
            auto &d = dest[in.succ[0]];
            d = d ? mkBin(K::Or, d, none) : none;
        }
        int mine = -1;
        Expr *mineC = nullptr;
        for(auto &kv : dest) {
            if(mine < 0 && evalExpr(kv.second, S.model)) { mine = kv.first; mineC = kv.second; continue; }
            Model m;
            Res r = mayBe(S, kv.second, &m);
            if(r == Res::Sat) {
                State *o = forkState(S);
                addCons(*o, kv.second);
                o->model = std::move(m);
                enterBlock(*o, o->frames.back(), kv.first);
                worklist.push_back(o);
            } else if(r == Res::Unknown) incomplete(S, "solver gave no answer (switch)");
        }
        if(mine < 0) throw Killed();
        addCons(S, mineC);
        enterBlock(S, S.frames.back(), mine);
        return;
    }
    case Instruction::Ret: {
        Val r;
        if(!in.ops.empty()) r = get(f, in.ops[0]);
        popFrame(S);
        deliver(S, r);
        return;
    }
    case Instruction::Call: case Instruction::Invoke: {
        std::vector<Val> args;
        args.reserve(in.ops.size() - 1);
        for(size_t i = 0; i + 1 < in.ops.size(); ++i) args.push_back(get(f, in.ops[i]));
        Func *callee = in.callee;
        if(!callee) {
            if(cast<CallBase>(in.I)->isInlineAsm()) {
                Val r;
                if(in.dst >= 0) { if(!in.w) unsupported(S, "inline asm"); r = args.empty() ? cv(0, in.w) : args[0]; }
                deliver(S, r);
                return;
            }
            u64 a = (u64)concretize(S, get(f, in.ops.back()));
            auto i = funcByAddr.find(a);
            if(i == funcByAddr.end()) die(S, "memory", a < 4096 ? "call through a null pointer" : "call through a wild pointer");
            callee = i->second;
        }
        doCall(S, in, callee, args);
        return;
    }
    case Instruction::Resume: {
        Val v = get(f, in.ops[0]);
        u64 o = (*v.agg)[0].lo;
        popFrame(S);
        unwind(S, o);
        return;
    }
    case Instruction::LandingPad: unsupported(S, "landing pad reached by normal flow"); break;
    case Instruction::Unreachable: die(S, "abort", "unreachable code executed"); break;
    default: unsupported(S, std::string("instruction ") + in.I->getOpcodeName());
    }
    ++S.frames.back().ip;
}

// run a state until it ends
static void runState(State *S)
{
    try {
        while(true) {
            if(S->frames.empty()) {
                if(S->cur) { threadExit(*S); continue; }
                if(S->pending.empty()) {
                    finishPath(*S);
                    break;
                }
                Function *F = S->pending.back();
                S->pending.pop_back();
                if(S->pending.empty()) { S->inEntry = true; S->steps = 0; }
                pushFrame(*S, getFunc(F), {});
                continue;
            }
            step(*S);
            if((st_inst & 0xfff) == 0 && (elapsed() > o_maxSeconds || memoryLow())) { worklist.push_back(S); return; }
        }
    } catch(Killed &) {
    } catch(std::string &t) {
        violation(*S, "exception", "uncaught exception of type " + t, S->model);
    }
    delete S;
}

// ---------------------------------------------------------------- output
static std::string js(const std::string &s)
{
    std::string r = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string dec(u128 v)
{
    if(!v) return "0";
    std::string s;
    while(v) { s += '0' + (char)(v % 10); v /= 10; }
    std::reverse(s.begin(), s.end());
    return s;
}
static void kvs(std::ostream &o, const std::vector<std::pair<std::string, u128>> &v)
{
    o << "[";
    for(size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << "[" << js(v[i].first) << ",\"" << dec(v[i].second) << "\"]";
    o << "]";
}
static void writeOut(const std::string &file, bool complete)
{
    std::ofstream o(file);
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    o << "{\"entry\":" << js(o_entry) << ",\"complete\":" << (complete && incompleteReasons.empty() ? "true" : "false")
      << ",\"paths\":" << st_paths << ",\"instructions\":" << st_inst << ",\"forks\":" << st_forks << ",\"asserts\":" << st_asserts
      << ",\"discharged\":" << st_discharged << ",\"assume_killed\":" << st_assumeKilled << ",\"asleep\":" << st_asleep << ",\"unexplored\":" << worklist.size()
      << ",\"candidates\":" << st_errors << ",\"symbolic_addresses\":" << st_symDeref << ",\"exprs\":" << g_numExprs
      << ",\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown
      << ",\"query_cache_hits\":" << g_ss.cacheHits << ",\"fp_queries\":" << g_ss.fpQueries << ",\"fallback_queries\":" << g_ss.fallback
      << ",\"trylocks\":" << usesTrylock() << ",\"fast_queries\":" << g_ss.fast << ",\"order_queries\":" << g_ss.order << ",\"z3_confirmed\":" << g_ss.confirmed << ",\"z3_confirm_timeouts\":" << g_ss.confirmTimeout << ",\"solver_mismatches\":" << g_ss.mismatch << ",\"solver_s\":" << g_ss.seconds << ",\"max_query_s\":" << g_ss.maxSeconds << ",\"wall_s\":" << elapsed()
      << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024;
    o << ",\"incomplete\":{";
    bool first = true;
    for(auto &i : incompleteReasons) { o << (first ? "" : ",") << js(i.first) << ":{\"count\":" << i.second << ",\"where\":" << js(incompleteWhere[i.first]) << "}"; first = false; }
    o << "},\"covers\":{";
    first = true;
    for(auto &i : covers) { o << (first ? "" : ",") << js(i.first) << ":" << i.second; first = false; }
    o << "},\"functions\":{";
    first = true;
    for(auto &i : repoFuncs) {
        o << (first ? "" : ",") << js(i.first) << ":[";
        bool g = true;
        for(unsigned l : i.second) { o << (g ? "" : ",") << l; g = false; }
        o << "]";
        first = false;
    }
    o << "},\"externals\":[";
    first = true;
    for(auto &i : externalsModelled) { o << (first ? "" : ",") << js(i); first = false; }
    o << "],\"violations\":[";
    first = true;
    for(auto &v : violations) {
        o << (first ? "" : ",") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"stack\":" << js(v.stack)
          << ",\"approx\":" << (v.approx ? "true" : "false") << ",\"inputs\":";
        kvs(o, v.inputs);
        o << "}";
        first = false;
    }
    o << "],\"samples\":[";
    first = true;
    for(auto &s : samples) {
        o << (first ? "" : ",") << "{\"inputs\":";
        kvs(o, s.inputs);
        o << ",\"obs\":";
        kvs(o, s.obs);
        o << "}";
        first = false;
    }
    o << "]}\n";
}

static void resetStats()
{
    violations.clear(); violationKeys.clear(); samples.clear(); covers.clear(); incompleteReasons.clear(); incompleteWhere.clear();
    st_paths = st_inst = st_forks = st_asserts = st_discharged = st_assumeKilled = st_errors = st_symDeref = st_asleep = 0;
    g_ss = SolverStats();
}

static int realMain()
{
    tStart = std::chrono::steady_clock::now();
    SMDiagnostic err;
    M = parseIRFile(o_bc, err, lctx);
    if(!M) { err.print("esx", errs()); return 2; }
    DL = &M->getDataLayout();
    layoutGlobals();
    Function *entry = M->getFunction(o_entry);
    if(!entry || entry->isDeclaration()) { fprintf(stderr, "esx: no entry function %s\n", o_entry.c_str()); return 2; }
    State *S = new State();
    S->pending.push_back(entry);
    if(auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
        if(auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, Function *>> v;
            for(auto &o : ca->operands()) {
                auto *cs = cast<ConstantStruct>(o.get());
                if(auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
            }
            std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for(auto i = v.rbegin(); i != v.rend(); ++i) S->pending.push_back(i->second);
        }
    }
    worklist.push_back(S);
    size_t target = o_jobs > 1 ? (size_t)o_jobs * 24 : 0;
    auto limit = [&] { return g_full || elapsed() > o_maxSeconds || st_paths > o_maxPaths; };
    if(o_jobs > 1) {
        // breadth first until there is enough work to share; a state is run
        // only to its next fork
        while(!worklist.empty() && worklist.size() < target && !limit()) {
            State *s = worklist.front();
            worklist.pop_front();
            size_t before = worklist.size();
            bool ended = false;
            try {
                while(worklist.size() == before) {
                    if(s->frames.empty()) {
                        if(s->cur) { threadExit(*s); continue; }
                        if(s->pending.empty()) { finishPath(*s); ended = true; break; }
                        Function *F = s->pending.back();
                        s->pending.pop_back();
                        if(s->pending.empty()) { s->inEntry = true; s->steps = 0; }
                        pushFrame(*s, getFunc(F), {});
                        continue;
                    }
                    step(*s);
                    if((st_inst & 0xfff) == 0 && limit()) break;
                }
            } catch(Killed &) { ended = true;
            } catch(std::string &t) {
                violation(*s, "exception", "uncaught exception of type " + t, s->model);
                ended = true;
            }
            if(ended) delete s;
            else worklist.push_back(s);
        }
        if(!worklist.empty() && !limit()) {
            auto *next = (std::atomic<unsigned> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            new(next) std::atomic<unsigned>(0);
            std::vector<State *> all(worklist.begin(), worklist.end());
            std::vector<pid_t> kids;
            solverReset();
            for(int j = 0; j < o_jobs; ++j) {
                pid_t p = fork();
                if(p == 0) {
                    resetStats();
                    worklist.clear();
                    u64 left = 0;
                    while(true) {
                        unsigned i = next->fetch_add(1);
                        if(i >= all.size()) break;
                        if(limit()) { ++left; continue; }
                        worklist.push_back(all[i]);
                        while(!worklist.empty() && !limit()) {
                            State *s = worklist.back();
                            worklist.pop_back();
                            runState(s);
                        }
                    }
                    if(left) incompleteReasons[g_full ? "memory bound: unexplored states" : "time bound: unexplored states"] += left;
                    if(!worklist.empty()) incompleteReasons[g_full ? "memory bound: unexplored states" : "time bound: unexplored states"] += worklist.size();
                    writeOut(o_out + "." + std::to_string(j), worklist.empty() && !left);
                    _exit(0);
                }
                kids.push_back(p);
            }
            bool bad = false;
            for(pid_t p : kids) {
                int st;
                waitpid(p, &st, 0);
                if(!WIFEXITED(st) || WEXITSTATUS(st)) bad = true;
            }
            if(bad) incompleteReasons["a worker process died"]++;
            worklist.clear();
            writeOut(o_out, true);
            return 0;
        }
    } else {
        while(!worklist.empty() && !limit()) {
            State *s = worklist.back();
            worklist.pop_back();
            runState(s);
        }
    }
    if(!worklist.empty()) incompleteReasons[g_full ? "memory bound: unexplored states" : "time bound: unexplored states"] += worklist.size();
    writeOut(o_out, worklist.empty());
    return 0;
}

static int g_rc;
int main(int argc, char **argv)
{
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if(a == "--entry") o_entry = nx();
        else if(a == "--out") o_out = nx();
        else if(a == "--repo") o_repo = nx();
        else if(a == "--preempt") { o_preempt = std::stoi(nx()); o_reduce = o_preempt < 0; }
        else if(a == "--fork") o_forkSelect = nx() == "1";
        else if(a == "--max-inst") o_maxInst = std::stoull(nx());
        else if(a == "--max-seconds") o_maxSeconds = std::stod(nx());
        else if(a == "--max-paths") o_maxPaths = std::stoull(nx());
        else if(a == "--query-ms") g_queryTimeoutMs = std::stoul(nx());
        else if(a == "--jobs") o_jobs = std::stoi(nx());
        else if(a == "--samples") o_samples = std::stoi(nx());
        else if(a == "--trace") o_trace = true;
        else if(a == "--debug-solver") g_debugSolver = true;
        else o_bc = a;
    }
    if(o_out.empty()) o_out = "/dev/stdout";
    // deep expression recursion needs a large stack
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t t;
    pthread_create(&t, &at, [](void *) -> void * { g_rc = realMain(); return nullptr; }, nullptr);
    pthread_join(t, nullptr);
    fflush(nullptr);
    _exit(g_rc);
}
