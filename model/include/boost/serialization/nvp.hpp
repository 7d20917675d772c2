// Stand-in used only for the symbolic encoding: serialisation is never
// executed by a harness, and clang rejects binding bit-fields to the real
// make_nvp's non-const reference.
#ifndef VERIF_NVP_HPP
#define VERIF_NVP_HPP
#include <boost/config.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/level.hpp>
#include <boost/serialization/tracking.hpp>
namespace boost { namespace serialization {
template<class T> struct nvp {
    const char *n; const T *v;
    const char *name() const { return n; }
    T &value() const { return const_cast<T &>(*v); }
    const T &const_value() const { return *v; }
};
template<class T> nvp<T> make_nvp(const char *n, const T &v) { return nvp<T>{n, &v}; }
}
using serialization::nvp;
using serialization::make_nvp;
}
#define BOOST_NVP(v) boost::make_nvp(#v, v)
#define BOOST_SERIALIZATION_NVP(name) boost::serialization::make_nvp(#name, name)
#define BOOST_SERIALIZATION_BASE_OBJECT_NVP(name) boost::serialization::make_nvp(#name, boost::serialization::base_object<name>(*this))
#endif
