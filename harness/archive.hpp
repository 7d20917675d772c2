#pragma once
// An archive in memory: what is written is kept as a sequence of numbers.
#include "common.hpp"
#include <array>
#include <cstring>
#include <map>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/void_cast_fwd.hpp>
#include <boost/serialization/base_object.hpp>
template<bool loading> struct memory {
    typedef boost::mpl::bool_<loading> is_loading;
    typedef boost::mpl::bool_<!loading> is_saving;
    std::vector<uint64_t> &tape;
    std::size_t at = 0;
    explicit memory(std::vector<uint64_t> &t) : tape(t) {}
    template<class...> void register_type() {}
    uint64_t word(uint64_t w)
    {
        if constexpr(loading) {
            ASSERT(at < tape.size(), "no more is read than was written");
            return tape[at++];
        } else tape.push_back(w);
        return w;
    }
    std::size_t count(std::size_t n)
    {
        n = word(n);
        if(loading) ASSERT(n <= tape.size(), "a number of elements is read as it was written");
        return n;
    }
    template<class T> void one(T &x)
    {
        if constexpr(std::is_floating_point_v<T>) {
            std::conditional_t<sizeof(T) == 8, uint64_t, uint32_t> b;
            std::memcpy(&b, &x, sizeof b);
            b = word(b);
            std::memcpy(&x, &b, sizeof b);
        } else if constexpr(std::is_arithmetic_v<T> || std::is_enum_v<T>) x = static_cast<T>(word(static_cast<uint64_t>(x)));
        else boost::serialization::serialize_adl(*this, x, 0);
    }
    template<class T> void all(T &x)
    {
        std::size_t n = count(x.size());
        if constexpr(loading) x.resize(n);
        for(std::size_t i = 0; i < n; ++i) one(x[i]);
    }
    void one(std::string &x) { all(x); }
    template<class T> void one(std::vector<T> &x) { all(x); }
    template<class T, std::size_t n> void one(std::array<T, n> &x) { for(auto &y : x) one(y); }
    template<class T, std::size_t n> void one(T (&x)[n]) { for(auto &y : x) one(y); }
    template<class... A> void one(std::tuple<A...> &x) { std::apply([this](auto &... y) { (one(y), ...); }, x); }
    template<class A, class B> void one(std::pair<A, B> &x) { one(const_cast<std::remove_const_t<A> &>(x.first)); one(x.second); }
    template<class K, class V> void one(std::map<K, V> &x) { table<K, V>(x); }
    template<class K, class V> void one(std::unordered_map<K, V> &x) { table<K, V>(x); }
    template<class K, class V, class M> void table(M &x)
    {
        std::size_t n = count(x.size());
        if constexpr(loading) {
            x.clear();
            for(std::size_t i = 0; i < n; ++i) {
                K k;
                V v;
                one(k);
                one(v);
                x.emplace(k, v);
            }
        } else
            for(auto &[k, v] : x) {
                one(const_cast<K &>(k));
                one(v);
            }
    }
    template<class T> memory &operator&(const boost::serialization::nvp<T> &x) { one(const_cast<std::remove_const_t<T> &>(x.const_value())); return *this; }
    template<class T> memory &operator&(T &x) { one(const_cast<std::remove_const_t<T> &>(x)); return *this; }
    template<class T> memory &operator<<(const T &x) { return *this & x; }
    template<class T> memory &operator>>(const T &x) { return *this & x; }
    template<class T> memory &operator>>(T &x) { return *this & x; }
};
// types with virtual functions are not written by pointer here
#define BASE_OF(D, B) \
    namespace boost::serialization { \
    template<> inline const void_cast_detail::void_caster &void_cast_register(const D *, const B *) \
    { \
        static long none; \
        return reinterpret_cast<const void_cast_detail::void_caster &>(none); \
    } \
    }
// writes x and reads it into y
template<class T> void pass(const T &x, T &y)
{
    std::vector<uint64_t> tape;
    memory<false> out(tape);
    out.one(const_cast<T &>(x));
    memory<true> in(tape);
    in.one(y);
    ASSERT(in.at == tape.size(), "all that was written is read");
}
