// Stand-in for the log: evaluates and discards what is logged.
#ifndef ME_LOG_HPP
#define ME_LOG_HPP
#include <esl/data/filesystem.hpp>
#include <iostream>
#include <sstream>
#include <boost/current_function.hpp>
#include <esl/data/severity.hpp>
#include <esl/data/null_ostream.hpp>
#include <esl/data/channel.hpp>
#include <esl/data/terminal.hpp>
#include <esl/data/representation.hpp>
#include <esl/data/output.hpp>
#include <esl/simulation/time.hpp>
namespace esl::data {
    struct esx_log_sink
    {
        template<class t> const esx_log_sink &operator<<(const t &) const { return *this; }
        const esx_log_sink &operator<<(std::ostream &(*)(std::ostream &)) const { return *this; }
        const esx_log_sink &operator<<(std::ios_base &(*)(std::ios_base &)) const { return *this; }
    };
}
#define LOG(level) ::esl::data::esx_log_sink()
#endif
