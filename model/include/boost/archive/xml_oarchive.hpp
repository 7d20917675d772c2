// Stand-in used only for the symbolic encoding: no archive is written.
#ifndef VERIF_XML_OARCHIVE_HPP
#define VERIF_XML_OARCHIVE_HPP
#include <ostream>
#include <boost/serialization/nvp.hpp>
namespace boost { namespace archive {
struct xml_oarchive {
    explicit xml_oarchive(std::ostream &) {}
    template<class T> void register_type() {}
    template<class T> xml_oarchive &operator<<(const T &) { return *this; }
};
}}
#endif
