#pragma once
#include "esx.h"
#include <cassert>
#include <exception>
#include <stdexcept>
#include <string>
#include <utility>
// how a call ends: 0 returns, 1 throws E (or derived), 2 throws something else
template<class E, class F> int ends(F &&f)
{
    try { f(); return 0; }
    catch(const E &) { return 1; }
    catch(...) { return 2; }
}
template<class F> bool throws(F &&f)
{
    try { f(); return false; } catch(...) { return true; }
}
// the call must not come back: it throws, or it ends in a failed assert().
// Ends the path in the second case, so nothing may follow it.
template<class F> void refused(F &&f, const char *what)
{
    esx_abort_ok(true);
    bool back = false;
    try { f(); back = true; } catch(...) {}
    esx_abort_ok(false);
    ASSERT(!back, what);
}
// a name with an index appended, e.g. nm("k", 3) == "k3"
struct nm {
    char s[24];
    nm(const char *b, unsigned i)
    {
        unsigned n = 0;
        while(b[n]) { s[n] = b[n]; ++n; }
        if(i >= 10) s[n++] = '0' + i / 10 % 10;
        s[n++] = '0' + i % 10;
        s[n] = 0;
    }
    operator const char *() const { return s; }
};
#ifdef ESX_THOROUGH
#define TH(quick, thorough) (thorough)
#else
#define TH(quick, thorough) (quick)
#endif
