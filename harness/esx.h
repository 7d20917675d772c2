// Harness interface.  Under esx these functions are intrinsics of the
// symbolic executor; in the native replay build (esx_native.cpp) they read the
// values of one solver model from a file.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
extern "C" {
uint64_t esx_sym(uint32_t bits, const char *name);
uint64_t esx_range(uint64_t lo, uint64_t hi, const char *name);   // inclusive, unsigned
void esx_assume(bool c);
void esx_assert(bool c, const char *what);
void esx_cover(const char *label);
void esx_observe(uint64_t v, const char *label);
uint64_t esx_concretize(uint64_t v);   // splits the path per value
bool esx_is_symbolic(uint64_t v);
bool esx_is_native(void);
extern int esx_format;                 // 1: execute stream formatting exactly
void esx_abort_ok(bool on);             // on: a failing assert() of the code under test ends the path well
[[noreturn]] void esx_fail(const char *what);
[[noreturn]] void esx_stop(void);
}
#define SYM_U64(n) esx_sym(64, n)
#define SYM_I64(n) ((int64_t)esx_sym(64, n))
#define SYM_U32(n) ((uint32_t)esx_sym(32, n))
#define SYM_U8(n) ((uint8_t)esx_sym(8, n))
#define SYM_BOOL(n) ((bool)(esx_sym(8, n) & 1))
static inline double SYM_DOUBLE(const char *n)
{
    uint64_t u = esx_sym(64, n);
    double d;
    std::memcpy(&d, &u, 8);
    return d;
}
static inline uint64_t RANGE(uint64_t lo, uint64_t hi, const char *n) { return esx_range(lo, hi, n); }
// a small structural choice: one path per value
static inline unsigned CHOOSE(unsigned n, const char *name) { return (unsigned)esx_concretize(esx_range(0, n - 1, name)); }
#define ASSUME(c) esx_assume(c)
#define ASSERT(c, what) esx_assert((c), what)
#define COVER(l) esx_cover(l)
#define OBSERVE(v) esx_observe((uint64_t)(v), #v)
// HARNESS(name) { ... }
#define HARNESS(name) extern "C" void harness_##name(void)
