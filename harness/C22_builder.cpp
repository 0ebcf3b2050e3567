// C22: building an array from a native nested range preserves every element.
// vf: use=bits
#include "arrays.h"
#include <sparrow/builder/builder.hpp>
#include <array>
#include <span>
#include <string>
#include <tuple>
#include <variant>
using namespace vf;
using u8 = std::uint8_t;
using i32 = std::int32_t;
using i64 = std::int64_t;
using element = array_traits::const_reference;

template <class T>
static auto* as(const element& e)
{
    const typename element::base_type& b = e;
    return std::get_if<detail::array_const_reference_t<T>>(&b);
}

// arbitrary values; is(e, v): e is the element v
template <class T>
struct any;
template <class T>
    requires std::is_scalar_v<T>
struct any<T>
{
    static T make()
    {
        if constexpr (std::is_same_v<T, float>)
            return std::bit_cast<float>(std::uint32_t(vf_bits("float", 32)));
        else if constexpr (std::is_same_v<T, double>)
            return std::bit_cast<double>(vf_bits("double", 64));
        else if constexpr (std::is_same_v<T, bool>)
            return vf_bool("bool");
        else
            return T(vf_bits("int", 8 * sizeof(T)));
    }
    // an encoding keeps one of the values that compare equal
    static inline bool exact = true;
    static void is(const element& e, const T& v)
    {
        if constexpr (std::is_floating_point_v<T>)
            if (!exact)
            {
                auto* p = as<T>(e);
                vf_assert(p != nullptr && e.has_value() && p->has_value(), "a value is there");
                const T w = p->get();
                vf_assert((w == v) || (w != w && v != v), "the value of an element, up to equality");
                return;
            }
        vf_assert(is_element<T>(e, true, v), "the value of an element");
    }
    static void missing(const element& e)
    {
        auto* p = as<T>(e);
        vf_assert(p != nullptr && !e.has_value() && !p->has_value(), "missing elements are missing");
    }
};
// (missing values may hold anything)
template <class T>
struct any<nullable<T>>
{
    static nullable<T> make() { return nullable<T>(any<T>::make(), vf_bool("has")); }
    static void is(const element& e, const nullable<T>& v)
    {
        if (vf_split(v.has_value()))
            any<T>::is(e, v.get());
        else
            any<T>::missing(e);
    }
};
template <>
struct any<std::string>
{
    static inline u64 most = 2;
    static std::string make()
    {
        std::string s;
        auto n = vf_pick("length", 0, most);
        for (u64 k = 0; k < n; ++k) s.push_back(char(vf_bits("char", 8)));
        return s;
    }
    static void is(const element& e, const std::string& v)
    {
        auto* p = as<std::string>(e);
        vf_assert(p != nullptr && e.has_value() && p->has_value() && p->get().size() == v.size(), "the size of a string");
        for (u64 k = 0; k < v.size(); ++k) vf_assert(p->get()[k] == v[k], "the characters of a string");
    }
    static void missing(const element& e)
    {
        auto* p = as<std::string>(e);
        vf_assert(p != nullptr && !e.has_value() && !p->has_value(), "missing elements are missing");
    }
};
template <class V>
static void is_list(const element& e, const V& v)
{
    auto* p = as<list_value>(e);
    vf_assert(p != nullptr && e.has_value() && p->has_value() && p->get().size() == v.size(), "the size of a list");
    for (u64 k = 0; k < v.size(); ++k) any<typename V::value_type>::is(p->get()[k], v[k]);
}
static void no_list(const element& e)
{
    auto* p = as<list_value>(e);
    vf_assert(p != nullptr && !e.has_value() && !p->has_value(), "missing elements are missing");
}
template <class T>
struct any<std::vector<T>>
{
    static inline u64 most = 2;
    static std::vector<T> make()
    {
        std::vector<T> v;
        auto n = vf_pick("size", 0, most);
        for (u64 k = 0; k < n; ++k) v.push_back(any<T>::make());
        return v;
    }
    static void is(const element& e, const std::vector<T>& v) { is_list(e, v); }
    static void missing(const element& e) { no_list(e); }
};
template <class T, std::size_t N>
struct any<std::array<T, N>>
{
    static std::array<T, N> make()
    {
        std::array<T, N> v;
        for (auto& x : v) x = any<T>::make();
        return v;
    }
    static void is(const element& e, const std::array<T, N>& v) { is_list(e, v); }
    static void missing(const element& e) { no_list(e); }
};
template <class... T>
struct any<std::tuple<T...>>
{
    using V = std::tuple<T...>;
    static V make() { return V{any<T>::make()...}; }
    static void is(const element& e, const V& v)
    {
        auto* p = as<struct_value>(e);
        vf_assert(p != nullptr && e.has_value() && p->has_value() && p->get().size() == sizeof...(T), "the fields of a struct");
        [&]<std::size_t... I>(std::index_sequence<I...>)
        {
            (any<T>::is(p->get()[I], std::get<I>(v)), ...);
        }(std::make_index_sequence<sizeof...(T)>());
    }
    static void missing(const element& e)
    {
        auto* p = as<struct_value>(e);
        vf_assert(p != nullptr && !e.has_value() && !p->has_value(), "missing elements are missing");
    }
};
template <class... T>
struct any<std::variant<T...>>
{
    using V = std::variant<T...>;
    template <std::size_t I = 0>
    static V make(u64 w)
    {
        if constexpr (I + 1 < sizeof...(T))
            if (w != I) return make<I + 1>(w);
        return V(std::in_place_index<I>, any<std::variant_alternative_t<I, V>>::make());
    }
    static V make() { return make<0>(vf_pick("alternative", 0, sizeof...(T) - 1)); }
    template <std::size_t I = 0>
    static void is(const element& e, const V& v)
    {
        if constexpr (I < sizeof...(T))
        {
            if (v.index() == I)
                any<std::variant_alternative_t<I, V>>::is(e, std::get<I>(v));
            else
                is<I + 1>(e, v);
        }
    }
};
template <class T>
struct any<dict_encode<T>>
{
    static dict_encode<T> make() { return dict_encode<T>(any<T>::make()); }
    static void is(const element& e, const dict_encode<T>& v) { any<T>::is(e, v.get()); }
    static void missing(const element& e) { any<T>::missing(e); }
};
template <class T>
struct any<run_end_encode<T>>
{
    static run_end_encode<T> make() { return run_end_encode<T>(any<T>::make()); }
    static void is(const element& e, const run_end_encode<T>& v) { any<T>::is(e, v.get()); }
    static void missing(const element& e) { any<T>::missing(e); }
};

// the array has the elements of the range
template <class A, class V>
static void compare(A&& typed, const V& v)
{
    vf_assert(typed.size() == v.size(), "the length of the range");
    array a(std::move(typed));
    vf_assert(a.size() == v.size(), "also type-erased");
    for (u64 k = 0; k < v.size(); ++k) any<typename V::value_type>::is(a[k], v[k]);
    auto* x = get_arrow_array(a);
    vf_assert(x->length == i64(v.size()) && x->offset == 0, "the length of the structure");
    if constexpr (detail::is_nullable_like<typename V::value_type>)
    {
        i64 missing = 0;
        for (u64 k = 0; k < v.size(); ++k) missing += !v[k].has_value();
        if (x->dictionary == nullptr && x->n_buffers > 0) vf_assert(x->null_count == missing, "the null count");
    }
    vf_cover("built");
}
template <class T>
static void built(u64 most, u64 least = 0)
{
    vf_leak_check lc;
    const u64 n = vf_pick("n", least, most);
    std::vector<T> v;
    for (u64 k = 0; k < n; ++k) v.push_back(any<T>::make());
    compare(build(v), v);
}
// the expansion of an encoding of the range
template <class E, class T>
static void encoded(u64 most, u64 least = 0)
{
    vf_leak_check lc;
    const u64 n = vf_pick("n", least, most);
    std::vector<T> v;
    for (u64 k = 0; k < n; ++k) v.push_back(any<T>::make());
    if constexpr (std::is_floating_point_v<T>) any<T>::exact = false;
    E e(v);
    auto typed = build(e);
    vf_assert(typed.size() == v.size(), "the length of the range");
    array a(std::move(typed));
    vf_assert(a.size() == v.size(), "also type-erased");
    for (u64 k = 0; k < n; ++k) any<T>::is(a[k], v[k]);
    vf_cover("built");
}

// --- any number of fixed width values
template <class T>
static void long_range()
{
    auto n = vf_size("n");
    auto i = vf_size("i");
    vf_assume(i < n);
    auto* d = static_cast<const T*>(vf_bytes("data", n * sizeof(T), sizeof(T)));
    {
        auto a = build(std::span<const T>(d, n));
        vf_assert(a.size() == n, "the length of the range");
        const auto& c = a;
        vf_assert(c[i].has_value() && same_value<T>(c[i].get(), d[i]), "the element");
        vf_assert(get_arrow_array(a)->null_count == 0 && get_arrow_array(a)->length == i64(n), "nothing is missing");
        array e(std::move(a));
        vf_assert(is_element<T>(e[i], true, d[i]), "also type-erased");
        vf_cover("built");
    }
    ::operator delete(const_cast<T*>(d));
}
HARNESS(long_int32) { long_range<i32>(); }
HARNESS(long_uint8) { long_range<u8>(); }
HARNESS(long_double) { long_range<double>(); }

// --- any number of optional values
template <class T>
static void long_optional()
{
    auto n = vf_size("n");
    auto i = vf_size("i");
    vf_assume(i < n);
    auto* d = static_cast<const T*>(vf_bytes("data", n * sizeof(T), sizeof(T)));
    auto* f = static_cast<const u8*>(vf_bytes("flags", n, 1));
    {
        auto a = build(std::views::iota(std::uint32_t(0), std::uint32_t(n)) | std::views::transform([d, f](std::uint32_t k) { return nullable<T>(T(d[k]), (f[k] & 1) != 0); }));
        vf_assert(a.size() == n, "the length of the range");
        const auto& c = a;
        const bool has = f[i] & 1;
        vf_assert(c[i].has_value() == has, "missing where the range is");
        if (has) vf_assert(same_value<T>(c[i].get(), d[i]), "the element");
        vf_cover("built");
    }
    ::operator delete(const_cast<T*>(d));
    ::operator delete(const_cast<u8*>(f));
}


// --- values
HARNESS(int32) { built<i32>(4); }  // vf: nosum unroll=8
HARNESS(float32) { built<float>(3); }  // vf: nosum unroll=8
HARNESS(optional_int32) { built<nullable<i32>>(4); }  // vf: nosum unroll=8
HARNESS(optional_double) { built<nullable<double>>(3); }  // vf: nosum unroll=8
HARNESS(optional_uint8_nine) { built<nullable<u8>>(9, 9); }  // vf: nosum unroll=10 thorough
// --- strings
HARNESS(text) { built<std::string>(3); }  // vf: nosum unroll=8
HARNESS(optional_text) { built<nullable<std::string>>(3); }  // vf: nosum unroll=8
// --- lists
HARNESS(lists) { built<std::vector<i32>>(3); }  // vf: nosum unroll=8
HARNESS(optional_lists) { built<nullable<std::vector<i32>>>(3); }  // vf: nosum unroll=8
HARNESS(lists_of_optional) { built<std::vector<nullable<i32>>>(2); }  // vf: nosum unroll=8
HARNESS(lists_of_text) { built<std::vector<std::string>>(2); }  // vf: nosum unroll=8
HARNESS(lists_of_lists) { built<std::vector<std::vector<std::int16_t>>>(2); }  // vf: nosum unroll=8
// --- fixed size lists
HARNESS(triples) { built<std::array<i32, 3>>(2); }  // vf: nosum unroll=8
HARNESS(optional_pairs) { built<nullable<std::array<nullable<i32>, 2>>>(2); }  // vf: nosum unroll=8
// --- structs
HARNESS(structs) { built<std::tuple<i32, u8>>(3); }  // vf: nosum unroll=8
HARNESS(optional_structs) { built<nullable<std::tuple<nullable<i32>, u8>>>(2); }  // vf: nosum unroll=8
HARNESS(structs_of_text) { built<std::tuple<std::string, float>>(2); }  // vf: nosum unroll=8
HARNESS(structs_of_lists) { built<std::tuple<std::vector<i32>, i32>>(2); }  // vf: nosum unroll=8
HARNESS(lists_of_structs) { built<std::vector<std::tuple<i32, u8>>>(2); }  // vf: nosum unroll=8
// --- unions
HARNESS(unions) { built<std::variant<i32, float>>(3); }  // vf: nosum unroll=8
HARNESS(unions_of_optional) { built<std::variant<nullable<i32>, nullable<u8>>>(2); }  // vf: nosum unroll=8
HARNESS(unions_of_text) { built<std::variant<i32, std::string>>(2); }  // vf: nosum unroll=8
// --- encodings
HARNESS(dictionary) { encoded<dict_encode<std::vector<i32>>, i32>(3); }  // vf: nosum unroll=8
HARNESS(dictionary_optional) { encoded<dict_encode<std::vector<nullable<i32>>>, nullable<i32>>(3); }  // vf: nosum unroll=8
HARNESS(dictionary_float) { encoded<dict_encode<std::vector<float>>, float>(2); }  // vf: nosum unroll=8
HARNESS(dictionary_text) { encoded<dict_encode<std::vector<std::string>>, std::string>(2); }  // vf: nosum unroll=8
HARNESS(runs) { encoded<run_end_encode<std::vector<i32>>, i32>(4); }  // vf: nosum unroll=8
HARNESS(runs_optional) { encoded<run_end_encode<std::vector<nullable<i32>>>, nullable<i32>>(3); }  // vf: nosum unroll=8
HARNESS(runs_float) { encoded<run_end_encode<std::vector<float>>, float>(3); }  // vf: nosum unroll=8
HARNESS(runs_text) { encoded<run_end_encode<std::vector<std::string>>, std::string>(2); }  // vf: nosum unroll=8
HARNESS(no_runs) { encoded<run_end_encode<std::vector<i32>>, i32>(0); }  // vf: nosum unroll=8
HARNESS(lists_of_keys) { built<dict_encode<std::vector<i32>>>(2); }  // vf: nosum unroll=8
HARNESS(optional_lists_of_keys) { built<nullable<dict_encode<std::vector<nullable<i32>>>>>(2); }  // vf: nosum unroll=8
HARNESS(structs_of_keys) { built<nullable<std::tuple<dict_encode<nullable<std::string>>, u8>>>(2); }  // vf: nosum unroll=8
HARNESS(lists_of_runs) { built<run_end_encode<std::vector<i32>>>(2); }  // vf: nosum unroll=8
// --- large lists
HARNESS(large_lists)  // vf: nosum unroll=8
{
    const u64 n = vf_pick("n", 0, 2);
    std::vector<std::vector<i32>> v;
    for (u64 k = 0; k < n; ++k) v.push_back(any<std::vector<i32>>::make());
    auto a = build(v, large_list_flag);
    static_assert(std::is_same_v<decltype(a), big_list_array>);
    compare(std::move(a), v);
}
// --- the range given stays as it is
HARNESS(given_range)  // vf: nosum unroll=8
{
    std::vector<std::string> v{any<std::string>::make(), any<std::string>::make()};
    const auto w = v;
    auto a = build(v);
    vf_assert(v.size() == 2 && v[0] == w[0] && v[1] == w[1], "the range given stays as it is");
    vf_cover("given");
}
