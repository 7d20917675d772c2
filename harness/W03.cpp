//@ threads
//@ entry alone cover=ended
//@ entry together cover=first,second jobs=4 max_seconds=100 preempt=2
//@ sources esl/data/channel.cpp
//@ bounds one thread writing a number of 32 bits, text and ends of lines in any order of 3 (thorough 4); two threads, each writing two texts and an end of line to one stream through channels of their own, for every order of their synchronising operations with at most 2 preemptions of a thread that could go on
#include "common.hpp"
#include <sstream>
#include <string>
#include <thread>
#include <esl/data/channel.hpp>
using namespace esl::data;
struct page : std::streambuf {
    char text[64];
    unsigned n = 0;
    int_type overflow(int_type c) override { text[n++] = (char)c; return c; }
    std::streamsize xsputn(const char *s, std::streamsize k) override
    {
        for(std::streamsize i = 0; i < k; ++i) text[n + i] = s[i];
        n += k;
        return k;
    }
    std::string str() const { return std::string(text, n); }
};
HARNESS(alone)
{
    esx_format = 1;
    page p;
    std::ostream s(&p);
    channel c(severity::notice, s);
    std::string want;
    for(unsigned i = 0; i < TH(3, 4); ++i) {
        switch(CHOOSE(4, nm("op", i))) {
            case 0: c << std::string("text"); want += "text"; break;
            case 1: c << 'x' << 7; want += "x7"; break;
            case 2: c << std::endl; want += "\n"; COVER("ended"); break;
            case 3: c << channel::endl; want += "\n"; break;
        }
        ASSERT(p.str() == want, "what is written to a channel is in its stream, in order");
    }
}
HARNESS(together)
{
    esx_format = 1;
    page p;
    std::ostream s(&p);
    const bool manip = CHOOSE(2, "manipulator");
    auto job = [&](const char *x, const char *y) {
        channel c(severity::notice, s);
        c << x;
        c << y;
        if(manip) c << channel::endl; else c << std::endl;
    };
    std::thread t([&] { job("aaa", "bbb"); });
    job("ccc", "ddd");
    t.join();
    std::string r = p.str(), mine, other;
    ASSERT(r.size() == 14, "nothing that is written to a channel is lost");
    size_t i = 0;
    std::string seen;
    while(i < r.size()) {
        if(r[i] == '\n') { seen += '\n'; ++i; continue; }
        ASSERT(i + 3 <= r.size() && r[i] == r[i + 1] && r[i] == r[i + 2], "what one thread writes at once is not mixed with the other's");
        seen += r[i];
        i += 3;
    }
    size_t a = seen.find('a'), b = seen.find('b'), c = seen.find('c'), d = seen.find('d');
    ASSERT(a != std::string::npos && c != std::string::npos && a < b && c < d && b < seen.size() && d < seen.size(), "each thread's texts keep their order");
    if(a < c) COVER("first"); else COVER("second");
}
