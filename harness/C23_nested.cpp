// C23: nested equality is an equivalence and nested ordering a strict weak order consistent with it.
#include "vf.h"
#include <sparrow/builder/builder_utils.hpp>
#include <sparrow/builder/nested_eq.hpp>
#include <sparrow/builder/nested_less.hpp>
#include <sparrow/utils/nullable.hpp>
#include <array>
#include <bit>
#include <cmath>
#include <cstdint>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
using namespace sparrow;
using u8 = std::uint8_t;
using u64 = std::uint64_t;
using i32 = std::int32_t;

// arbitrary values and what equality and order mean for them: -1, 0, 1
template <class T>
struct any;
template <class T>
    requires std::is_integral_v<T>
struct any<T>
{
    static T make() { return T(vf_bits("int", 8 * sizeof(T))); }
    static int order(const T& x, const T& y) { return x < y ? -1 : y < x; }
};
template <>
struct any<bool>
{
    static bool make() { return vf_bool("bool"); }
    static int order(bool x, bool y) { return int(x) - int(y); }
};
// not-a-number is one value, after all numbers
template <class T>
    requires std::is_floating_point_v<T>
struct any<T>
{
    static T make()
    {
        if constexpr (sizeof(T) == 4)
            return std::bit_cast<float>(std::uint32_t(vf_bits("float", 32)));
        else
            return std::bit_cast<double>(vf_bits("double", 64));
    }
    static int order(const T& x, const T& y)
    {
        bool nx = x != x, ny = y != y;
        if (nx || ny) return int(nx) - int(ny);
        return x < y ? -1 : y < x;
    }
};
// missing values come first, whatever they hold
template <class T>
struct any<nullable<T>>
{
    static nullable<T> make() { return nullable<T>(any<T>::make(), vf_bool("has")); }
    static int order(const nullable<T>& x, const nullable<T>& y)
    {
        if (!x.has_value() || !y.has_value()) return int(x.has_value()) - int(y.has_value());
        return any<T>::order(x.get(), y.get());
    }
};
template <class... T>
struct any<std::tuple<T...>>
{
    using V = std::tuple<T...>;
    static V make() { return V{any<T>::make()...}; }
    template <std::size_t I = 0>
    static int order(const V& x, const V& y)
    {
        if constexpr (I == sizeof...(T))
            return 0;
        else
        {
            int c = any<std::tuple_element_t<I, V>>::order(std::get<I>(x), std::get<I>(y));
            return c != 0 ? c : order<I + 1>(x, y);
        }
    }
};
template <class T, class U>
struct any<std::pair<T, U>>
{
    using V = std::pair<T, U>;
    static V make() { return V(any<T>::make(), any<U>::make()); }
    static int order(const V& x, const V& y)
    {
        int c = any<T>::order(x.first, y.first);
        return c != 0 ? c : any<U>::order(x.second, y.second);
    }
};
template <class T, std::size_t N>
struct any<std::array<T, N>>
{
    using V = std::array<T, N>;
    static V make()
    {
        V v;
        for (auto& e : v) e = any<T>::make();
        return v;
    }
    static int order(const V& x, const V& y)
    {
        for (std::size_t k = 0; k < N; ++k)
            if (int c = any<T>::order(x[k], y[k])) return c;
        return 0;
    }
};
// of up to three elements (bounded)
template <class V>
    requires(std::same_as<V, std::string> || std::same_as<V, std::vector<typename V::value_type>>)
struct any<V>
{
    using T = typename V::value_type;
    static inline u64 most = 3;
    static V make()
    {
        V v;
        auto n = vf_pick("n", 0, most);
        for (u64 k = 0; k < n; ++k) v.push_back(any<T>::make());
        return v;
    }
    static int order(const V& x, const V& y)
    {
        for (std::size_t k = 0; k < x.size() && k < y.size(); ++k)
            if (int c = any<T>::order(x[k], y[k])) return c;
        return x.size() < y.size() ? -1 : x.size() > y.size();
    }
};
template <class... T>
struct any<std::variant<T...>>
{
    using V = std::variant<T...>;
    template <std::size_t I = 0>
    static V make(u64 w)
    {
        if constexpr (I + 1 < sizeof...(T))
            if (w != I) return make<I + 1>(w);
        return V(std::in_place_index<I>, any<std::variant_alternative_t<I, V>>::make());
    }
    static V make() { return make<0>(vf_pick("alternative", 0, sizeof...(T) - 1)); }
    template <std::size_t I = 0>
    static int order(const V& x, const V& y)
    {
        if (x.index() != y.index()) return x.index() < y.index() ? -1 : 1;
        if constexpr (I < sizeof...(T))
        {
            if (x.index() == I) return any<std::variant_alternative_t<I, V>>::order(std::get<I>(x), std::get<I>(y));
            return order<I + 1>(x, y);
        }
        return 0;
    }
};
template <class T>
struct any<dict_encode<T>>
{
    static dict_encode<T> make() { return dict_encode<T>(any<T>::make()); }
    static int order(const dict_encode<T>& x, const dict_encode<T>& y) { return any<T>::order(x.get(), y.get()); }
};
template <class T>
struct any<run_end_encode<T>>
{
    static run_end_encode<T> make() { return run_end_encode<T>(any<T>::make()); }
    static int order(const run_end_encode<T>& x, const run_end_encode<T>& y) { return any<T>::order(x.get(), y.get()); }
};

// what the two say about a pair is exactly its structural order: equality is then an equivalence (being the kernel of a
// total order of the structures) and less a strict weak order consistent with it
template <class T>
static void pairs()
{
    const T x = any<T>::make(), y = any<T>::make();
    const int c = any<T>::order(x, y);
    const detail::nested_eq<T> eq{};
    const detail::nested_less<T> less{};
    vf_assert(eq(x, y) == (c == 0), "equal exactly when structurally equal");
    vf_assert(less(x, y) == (c < 0), "less exactly when structurally before");
    vf_assert(eq(y, x) == (c == 0) && less(y, x) == (c > 0), "and the other way round");
    vf_assert(eq(x, x) && !less(x, x), "of a value and itself");
    vf_assert(eq(x, T(x)) && !less(x, T(x)), "of a value and its copy");
    vf_cover("pair");
}
// the laws themselves, without an oracle
template <class T>
static void triples()
{
    const T x = any<T>::make(), y = any<T>::make(), z = any<T>::make();
    const detail::nested_eq<T> eq{};
    const detail::nested_less<T> less{};
    const bool xy = less(x, y), yx = less(y, x), yz = less(y, z), zy = less(z, y), xz = less(x, z), zx = less(z, x);
    vf_assert(!(xy & yx), "asymmetric");
    vf_assert(!(xy & yz) | xz, "transitive");
    vf_assert(!(!xy & !yx & !yz & !zy) | (!xz & !zx), "incomparability is transitive");
    vf_assert(eq(x, y) == (!xy & !yx), "equality is incomparability");
    vf_assert(!(eq(x, y) & eq(y, z)) | eq(x, z), "equality is transitive");
    vf_assert(eq(x, y) == eq(y, x), "equality is symmetric");
    vf_cover("triple");
}
HARNESS(int32_pairs) { pairs<i32>(); }
HARNESS(int32_triples) { triples<i32>(); }
HARNESS(uint8_pairs) { pairs<u8>(); }
HARNESS(uint8_triples) { triples<u8>(); }
HARNESS(uint64_pairs) { pairs<u64>(); }
HARNESS(uint64_triples) { triples<u64>(); }
HARNESS(boolean_pairs) { pairs<bool>(); }
HARNESS(boolean_triples) { triples<bool>(); }
HARNESS(float32_pairs) { pairs<float>(); }
HARNESS(float32_triples) { triples<float>(); }
HARNESS(float64_pairs) { pairs<double>(); }
HARNESS(float64_triples) { triples<double>(); }
HARNESS(optional_pairs) { pairs<nullable<i32>>(); }
HARNESS(optional_triples) { triples<nullable<i32>>(); }
HARNESS(optional_float_pairs) { pairs<nullable<float>>(); }
HARNESS(optional_float_triples) { triples<nullable<float>>(); }
HARNESS(tuple_pairs) { pairs<std::tuple<i32, u8>>(); }
HARNESS(tuple_triples) { triples<std::tuple<i32, u8>>(); }
HARNESS(tuple_of_optional_pairs) { pairs<std::tuple<nullable<i32>, u8, nullable<u8>>>(); }
HARNESS(tuple_of_optional_triples) { triples<std::tuple<nullable<i32>, u8, nullable<u8>>>(); }
HARNESS(pair_pairs) { pairs<std::pair<u8, float>>(); }
HARNESS(pair_triples) { triples<std::pair<u8, float>>(); }
HARNESS(array_pairs) { pairs<std::array<i32, 3>>(); }  // vf: nosum
HARNESS(array_triples) { triples<std::array<i32, 3>>(); }  // vf: nosum
HARNESS(optional_tuple_pairs) { pairs<nullable<std::tuple<i32, nullable<u8>>>>(); }
HARNESS(optional_tuple_triples) { triples<nullable<std::tuple<i32, nullable<u8>>>>(); }
HARNESS(variant_pairs) { pairs<std::variant<i32, u8, float>>(); }
HARNESS(variant_triples) { triples<std::variant<i32, u8, float>>(); }
HARNESS(variant_of_optional_pairs) { pairs<std::variant<nullable<i32>, nullable<u8>>>(); }
HARNESS(variant_of_optional_triples) { triples<std::variant<nullable<i32>, nullable<u8>>>(); }
HARNESS(encoded_pairs) { pairs<dict_encode<nullable<i32>>>(); }
HARNESS(encoded_triples) { triples<dict_encode<nullable<i32>>>(); }
HARNESS(runs_pairs) { pairs<run_end_encode<std::tuple<i32, u8>>>(); }
HARNESS(runs_triples) { triples<run_end_encode<std::tuple<i32, u8>>>(); }
HARNESS(optional_variant_pairs) { pairs<nullable<std::variant<i32, std::tuple<u8, u8>>>>(); }
HARNESS(optional_variant_triples) { triples<nullable<std::variant<i32, std::tuple<u8, u8>>>>(); }
HARNESS(list_pairs) { pairs<std::vector<i32>>(); }  // vf: unroll=8 nosum
HARNESS(list_triples) { any<std::vector<i32>>::most = 2; triples<std::vector<i32>>(); }  // vf: unroll=8 nosum
HARNESS(text_pairs) { pairs<std::string>(); }  // vf: unroll=8 nosum
HARNESS(text_triples) { any<std::string>::most = 2; triples<std::string>(); }  // vf: unroll=8 nosum
HARNESS(list_of_optional_pairs) { any<std::vector<nullable<i32>>>::most = 2; pairs<std::vector<nullable<i32>>>(); }  // vf: unroll=8 nosum
HARNESS(list_of_lists_pairs)  // vf: unroll=8 nosum
{
    any<std::vector<u8>>::most = 2;
    any<std::vector<std::vector<u8>>>::most = 2;
    pairs<std::vector<std::vector<u8>>>();
}
HARNESS(optional_text_pairs) { pairs<nullable<std::string>>(); }  // vf: unroll=8 nosum
HARNESS(tuple_of_lists_pairs)  // vf: unroll=8 nosum
{
    any<std::vector<i32>>::most = 2;
    pairs<std::tuple<std::vector<i32>, u8>>();
}
HARNESS(variant_of_lists_pairs)  // vf: unroll=8 nosum
{
    any<std::vector<i32>>::most = 2;
    any<std::string>::most = 2;
    pairs<std::variant<std::vector<i32>, std::string>>();
}
