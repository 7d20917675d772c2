// Native side of the harness interface: replays one set of inputs against the
// code compiled from /repo by the ordinary compiler.
// usage: ESX_INPUTS=<file: lines "name value"> ./harness <entry>
#include "esx.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <fstream>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <unistd.h>
#include <csignal>
#include <ucontext.h>

static std::vector<std::pair<std::string, uint64_t>> in;
static size_t pos = 0;
extern "C" int esx_format = 1;

static void done(int code)
{
    fflush(stdout);
    _exit(code);
}
static uint64_t next(const char *name)
{
    if(pos >= in.size()) return 0;      // beyond the recorded prefix
    if(in[pos].first != name) {
        printf("ESX-DIVERGED expected %s got %s\n", in[pos].first.c_str(), name);
        done(3);
    }
    return in[pos++].second;
}
extern "C" uint64_t esx_next(const char *name) { return next(name); }
extern "C" {
uint64_t esx_sym(uint32_t bits, const char *name)
{
    uint64_t v = next(name);
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t esx_range(uint64_t lo, uint64_t hi, const char *name)
{
    uint64_t v = next(name);
    if(v < lo || v > hi) { printf("ESX-ASSUME range %s\n", name); done(4); }
    return v;
}
void esx_assume(bool c) { if(!c) { printf("ESX-ASSUME\n"); done(4); } }
void esx_assert(bool c, const char *what) { if(!c) { printf("ESX-VIOLATED %s\n", what); done(1); } }
void esx_cover(const char *label) { printf("ESX-COVER %s\n", label); }
void esx_observe(uint64_t v, const char *label) { printf("ESX-OBS %s %llu\n", label, (unsigned long long)v); }
uint64_t esx_concretize(uint64_t v) { return v; }
bool esx_is_symbolic(uint64_t) { return false; }
bool esx_is_native(void) { return true; }
static bool abortOk = false;
void esx_abort_ok(bool on) { abortOk = on; }
void esx_fail(const char *what) { printf("ESX-VIOLATED %s\n", what); done(1); abort(); }
void esx_stop(void) { printf("ESX-ASSUME\n"); done(4); abort(); }
}
static void onSig(int s)
{
    if(s == SIGABRT && abortOk) _exit(0);
    char b[64];
    int n = snprintf(b, sizeof b, "ESX-SIGNAL %d\n", s);
    (void)!write(1, b, n);
    _exit(5);
}
#ifndef ESX_ASAN
// a call of a function no source defines here jumps to address 0: no verdict
static void onSegv(int s, siginfo_t *, void *u)
{
    if(((ucontext_t *)u)->uc_mcontext.gregs[REG_RIP] < 4096) {
        (void)!write(1, "ESX-UNDEFINED\n", 14);
        _exit(6);
    }
    onSig(s);
}
#endif
int main(int argc, char **argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
#ifndef ESX_ASAN
    struct sigaction sa = {};
    sa.sa_sigaction = onSegv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr);
    signal(SIGBUS, onSig); signal(SIGFPE, onSig); signal(SIGILL, onSig);
#else
    signal(SIGFPE, onSig);
#endif
    signal(SIGABRT, onSig);
    if(const char *f = getenv("ESX_INPUTS")) {
        std::ifstream s(f);
        std::string n;
        uint64_t v;
        while(s >> n >> v)
            if(n.compare(0, 7, "approx_") != 0) in.push_back({n, v});   // results of cut libm calls
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, (std::string("harness_") + argv[1]).c_str());
    if(!fn) { printf("ESX-NOENTRY\n"); return 6; }
    try {
        fn();
    } catch(...) {
        std::type_info *t = abi::__cxa_current_exception_type();
        printf("ESX-EXCEPTION %s\n", t ? t->name() : "?");
        done(2);
    }
    printf("ESX-END\n");
    done(0);
}
