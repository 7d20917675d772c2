// std::string and the string streams, instantiated from the library headers.
// Locale-dependent formatting is replaced: when esx_format is 0 (the default)
// insertions do nothing; when it is 1 integers, strings and characters are
// written in the "C" locale.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <sstream>
#include <iostream>
#include <locale>
#include <cstdint>
extern "C" int esx_format;
extern "C" bool esx_is_symbolic(uint64_t);

namespace std {
// the C locale has no facets here; only ctype<char>::widen is needed
// (std::endl, put), and it is served by a hand-made identity table
alignas(16) static char ctype_store[sizeof(ctype<char>)];
struct ctype_fake_init {
    ctype_fake_init();
};
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale &) throw() : _M_impl(nullptr) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_size(0), _M_word(nullptr), _M_ios_locale() {}
ios_base::~ios_base() {}
ios_base::failure::failure(const string &s) : system_error(error_code()) {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}

template<> void basic_ios<char>::_M_cache_locale(const locale &)
{
    _M_ctype = (const ctype<char> *)ctype_store;
    _M_num_put = nullptr;
    _M_num_get = nullptr;
}
template<> void basic_ios<char>::init(basic_streambuf<char> *sb)
{
    _M_cache_locale(locale());
    _M_fill = ' ';
    _M_fill_init = true;
    _M_tie = nullptr;
    _M_exception = goodbit;
    _M_streambuf = sb;
    _M_streambuf_state = sb ? goodbit : badbit;
}
template<> void basic_ios<char>::clear(iostate s) { _M_streambuf_state = _M_streambuf ? s : iostate(s | badbit); }
template<> basic_ostream<char>::sentry::sentry(basic_ostream<char> &os) : _M_ok(true), _M_os(os) {}

static void raw(ostream &o, const char *s, streamsize n)
{
    if(!esx_format || !o.rdbuf()) return;
    o.rdbuf()->sputn(s, n);
}
static void padded(ostream &o, const char *s, streamsize n)
{
    if(!esx_format || !o.rdbuf()) return;
    streamsize w = o.width();
    bool left = (o.flags() & ios_base::adjustfield) == ios_base::left;
    char f = o.fill();
    if(w > n && !left) for(streamsize i = n; i < w; ++i) o.rdbuf()->sputc(f);
    o.rdbuf()->sputn(s, n);
    if(w > n && left) for(streamsize i = n; i < w; ++i) o.rdbuf()->sputc(f);
    o.width(0);
}
static void number(ostream &o, unsigned long v, bool neg)
{
    if(!esx_format) return;
    char b[24];
    int i = 24;
    unsigned base = (o.flags() & ios_base::hex) ? 16 : (o.flags() & ios_base::oct) ? 8 : 10;
    do {
        unsigned d = v % base;
        b[--i] = d < 10 ? '0' + d : 'a' + d - 10;
        v /= base;
    } while(v);
    if(neg) b[--i] = '-';
    padded(o, b + i, 24 - i);
}
template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long v) { number(*this, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); return *this; }
template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(unsigned long v) { number(*this, v, false); return *this; }
template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long long v) { number(*this, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); return *this; }
template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(unsigned long long v) { number(*this, v, false); return *this; }
template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(bool v) { number(*this, v, false); return *this; }
template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(double) { raw(*this, "<double>", 8); return *this; }
template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long double) { raw(*this, "<double>", 8); return *this; }
template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(const void *) { raw(*this, "<pointer>", 9); return *this; }
template<> basic_ostream<char> &basic_ostream<char>::operator<<(int v) { return _M_insert((long)v); }
template<> basic_ostream<char> &basic_ostream<char>::operator<<(short v) { return _M_insert((long)v); }
template<> basic_ostream<char> &basic_ostream<char>::put(char c) { raw(*this, &c, 1); return *this; }
template<> basic_ostream<char> &basic_ostream<char>::write(const char *s, streamsize n) { raw(*this, s, n); return *this; }
template<> basic_ostream<char> &basic_ostream<char>::flush() { return *this; }
template<> basic_ostream<char> &__ostream_insert(basic_ostream<char> &o, const char *s, streamsize n) { padded(o, s, n); return o; }

template<> basic_ostream<char> &basic_ostream<char>::operator<<(basic_streambuf<char> *) { return *this; }
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template class basic_string<char>;
template basic_ostream<char> &endl(basic_ostream<char> &);
template basic_ostream<char> &flush(basic_ostream<char> &);
template basic_ostream<char> &operator<<(basic_ostream<char> &, char);
template basic_ostream<char> &operator<<(basic_ostream<char> &, unsigned char);
template basic_ostream<char> &operator<<(basic_ostream<char> &, const char *);
template basic_ostream<char> &operator<<(basic_ostream<char> &, const string &);
template string operator+(const char *, const string &);
template string operator+(const string &, const string &);
template string operator+(const string &, const char *);

ctype_fake_init::ctype_fake_init()
{
    auto *c = (ctype<char> *)ctype_store;
    (void)c;
    // _M_widen_ok and _M_widen (see bits/locale_facets.h) are the first two
    // members after the tables
    char *p = ctype_store + 56;
    *p++ = 1;
    for(int i = 0; i < 256; ++i) p[i] = (char)i;
}
static ctype_fake_init ctype_fake __attribute__((init_priority(101)));
}
// cout, cerr, clog: real ostreams without a buffer
alignas(16) char esx_cout[sizeof(std::ostream)] asm("_ZSt4cout");
alignas(16) char esx_cerr[sizeof(std::ostream)] asm("_ZSt4cerr");
alignas(16) char esx_clog[sizeof(std::ostream)] asm("_ZSt4clog");
alignas(16) char esx_cin[sizeof(std::istream)] asm("_ZSt3cin");
struct esx_ios_init {
    esx_ios_init()
    {
        new(esx_cout) std::ostream(nullptr);
        new(esx_cerr) std::ostream(nullptr);
        new(esx_clog) std::ostream(nullptr);
    }
};
static esx_ios_init ios_init_ __attribute__((init_priority(102)));
