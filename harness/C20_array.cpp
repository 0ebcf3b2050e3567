// C20: a type-erased array acts as the typed array inside it.
// vf: use=bits
#include "arrays.h"
#include <sparrow/layout/array_helper.hpp>
#include <memory>
#include <tuple>
#include <stdexcept>
using namespace vf;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;

// --- the layout given by the format
template <class A>
static bool holds(const array& a)
{
    return a.visit([](const auto& t) { return std::is_same_v<std::decay_t<decltype(t)>, A>; });
}

template <class T>
static void fixed(data_type d, unsigned r)
{
    fixed_node<T> n;
    {
        array a = borrow<array>(n);
        vf_assert(a.data_type() == d && holds<primitive_array<T>>(a), "the layout given by the format");
        vf_assert(a.empty() == (n.len() == 0) && a.size() == n.len(), "size");
    }
    reading<array>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, r);
}
HARNESS(int8_index) { fixed<i8>(data_type::INT8, by_index); }
HARNESS(int8_at) { fixed<i8>(data_type::INT8, by_at); }
HARNESS(int8_ends) { fixed<i8>(data_type::INT8, by_ends); }
HARNESS(uint8_index) { fixed<u8>(data_type::UINT8, by_index); }
HARNESS(uint8_at) { fixed<u8>(data_type::UINT8, by_at); }
HARNESS(uint8_ends) { fixed<u8>(data_type::UINT8, by_ends); }
HARNESS(int16_index) { fixed<i16>(data_type::INT16, by_index); }
HARNESS(int16_at) { fixed<i16>(data_type::INT16, by_at); }
HARNESS(int16_ends) { fixed<i16>(data_type::INT16, by_ends); }
HARNESS(uint16_index) { fixed<u16>(data_type::UINT16, by_index); }
HARNESS(uint16_at) { fixed<u16>(data_type::UINT16, by_at); }
HARNESS(uint16_ends) { fixed<u16>(data_type::UINT16, by_ends); }
HARNESS(int32_index) { fixed<i32>(data_type::INT32, by_index); }
HARNESS(int32_at) { fixed<i32>(data_type::INT32, by_at); }
HARNESS(int32_ends) { fixed<i32>(data_type::INT32, by_ends); }
HARNESS(uint32_index) { fixed<u32>(data_type::UINT32, by_index); }
HARNESS(uint32_at) { fixed<u32>(data_type::UINT32, by_at); }
HARNESS(uint32_ends) { fixed<u32>(data_type::UINT32, by_ends); }
HARNESS(int64_index) { fixed<i64>(data_type::INT64, by_index); }
HARNESS(int64_at) { fixed<i64>(data_type::INT64, by_at); }
HARNESS(int64_ends) { fixed<i64>(data_type::INT64, by_ends); }
HARNESS(uint64_index) { fixed<u64>(data_type::UINT64, by_index); }
HARNESS(uint64_at) { fixed<u64>(data_type::UINT64, by_at); }
HARNESS(uint64_ends) { fixed<u64>(data_type::UINT64, by_ends); }
HARNESS(float32_index) { fixed<float>(data_type::FLOAT, by_index); }
HARNESS(float32_at) { fixed<float>(data_type::FLOAT, by_at); }
HARNESS(float32_ends) { fixed<float>(data_type::FLOAT, by_ends); }
HARNESS(float64_index) { fixed<double>(data_type::DOUBLE, by_index); }
HARNESS(float64_at) { fixed<double>(data_type::DOUBLE, by_at); }
HARNESS(float64_ends) { fixed<double>(data_type::DOUBLE, by_ends); }

HARNESS(half)
{
    fixed_node<u16> n;
    n.s.format = "e";
    {
        array a = borrow<array>(n);
        vf_assert(a.data_type() == data_type::HALF_FLOAT && holds<primitive_array<float16_t>>(a), "the layout given by the format");
    }
    reading<array>(n, [&](const array_traits::const_reference& e, u64 p)
    {
        const typename array_traits::const_reference::base_type& b = e;
        auto* v = std::get_if<detail::array_const_reference_t<float16_t>>(&b);
        return v != nullptr && agree(v->has_value(), n.has(p), std::bit_cast<u16>(v->get()) == n.data[p]);
    }, by_at);
}

// Arrow stores booleans as bits
HARNESS(foreign_booleans)
{
    // (few enough that reading a byte per element stays inside the buffer)
    range r(vf_below("off", 50), vf_below("len", 50));
    node n("b", r.off, r.len);
    vf_assume(n.slack > 900);
    n.add_validity(2);
    auto* bits = static_cast<const u8*>(n.add("bits", (n.slots() + 7) / 8, 1));
    auto i = vf_size("i");
    vf_assume(i < n.len());
    array a = borrow<array>(n);
    auto e = a[i];
    auto p = r.off + i;
    vf_assert(is_element<bool>(e, true, bool((bits[p / 8] >> (p % 8)) & 1)), "booleans are bits");
    vf_cover("boolean");
}
// booleans built by the library
HARNESS(own_booleans)
{
    const u64 n = vf_pick("n", 0, 3);
    std::vector<bool> v(n), has(n);
    for (u64 k = 0; k < n; ++k) v[k] = vf_bool("v"), has[k] = vf_bool("has");
    array a(primitive_array<bool>(v, has));
    vf_assert(a.data_type() == data_type::BOOL && a.size() == n && holds<primitive_array<bool>>(a), "booleans");
    for (u64 k = 0; k < n; ++k) vf_assert(is_element<bool>(a[k], has[k], bool(v[k])), "elements");
    vf_cover("booleans");
}

template <class A>
static void other(node& n, data_type d)
{
    array a = borrow<array>(n);
    vf_assert(a.data_type() == d && holds<A>(a) && a.size() == n.len() && a.empty() == (n.len() == 0), "the layout given by the format");
    auto [x, s] = get_arrow_structures(a);
    vf_assert(x->buffers == n.a.buffers && x->children == n.a.children && s->children == n.s.children, "over the same structures");
    vf_cover("layout");
}
HARNESS(nulls)
{
    null_node n;
    other<null_array>(n, data_type::NA);
    reading<array>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, by_at);
}
HARNESS(text) { string_node<i32> n; other<string_array>(n, data_type::STRING); }
HARNESS(list) { list_node<i32, i32> n("+l", {}, {}); other<list_array>(n, data_type::LIST); }
HARNESS(large_list) { list_node<i32, i64> n("+L", {}, {}); other<big_list_array>(n, data_type::LARGE_LIST); }
HARNESS(list_view) { list_node<i32, u32> n("+vl", {}, {}); other<list_view_array>(n, data_type::LIST_VIEW); }
HARNESS(large_list_view) { list_node<i32, u64> n("+vL", {}, {}); other<big_list_view_array>(n, data_type::LARGE_LIST_VIEW); }
HARNESS(fixed_list) { list_node<i32, i32> n("+w:3", {}, {}, 3); other<fixed_sized_list_array>(n, data_type::FIXED_SIZED_LIST); }
HARNESS(structs) { struct_node n; other<struct_array>(n, data_type::STRUCT); }
HARNESS(dense) { union_node n("+ud:3,7", 3, 7); other<dense_union_array>(n, data_type::DENSE_UNION); }
HARNESS(sparse) { union_node n("+us:3,7", 3, 7); other<sparse_union_array>(n, data_type::SPARSE_UNION); }
HARNESS(runs)
{
    range r;
    run_node<u32> n(r, {}, {});
    other<run_end_encoded_array>(n, data_type::RUN_ENCODED);
}
template <class I>
static void keys(data_type d)
{
    dictionary_node<I> n;
    {
        other<dictionary_encoded_array<I>>(n, d);
    }
    reading<array>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, by_at);
}
HARNESS(keys_int8) { keys<i8>(data_type::INT8); }
HARNESS(keys_uint8) { keys<u8>(data_type::UINT8); }
HARNESS(keys_int16) { keys<i16>(data_type::INT16); }
HARNESS(keys_uint16) { keys<u16>(data_type::UINT16); }
HARNESS(keys_int32) { keys<i32>(data_type::INT32); }
HARNESS(keys_uint32) { keys<u32>(data_type::UINT32); }
HARNESS(keys_int64) { keys<i64>(data_type::INT64); }
HARNESS(keys_uint64) { keys<u64>(data_type::UINT64); }

template <class N>
static void nested(N& n, unsigned r) { reading<array>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, r); }
HARNESS(structs_at) { struct_node n(2); nested(n, by_at); }
HARNESS(structs_ends) { struct_node n(2, {}, {}, {}, 2); nested(n, by_ends); }
HARNESS(dense_at) { union_node n("+ud:3,7", 3, 7, {}, {}, {}, 2); nested(n, by_at); }
HARNESS(sparse_at) { union_node n("+us:3,7", 3, 7, {}, {}, {}, 2); nested(n, by_at); }
HARNESS(text_at)
{
    string_node<i32> n;
    reading<array>(n, [&](const array_traits::const_reference& e, u64 p)
    {
        const typename array_traits::const_reference::base_type& b = e;
        auto* v = std::get_if<detail::array_const_reference_t<std::string>>(&b);
        return v != nullptr && e.has_value() == n.has(p) && agree(v->has_value(), n.has(p), n.view(v->get(), p));
    }, by_at);
}
template <class N>
static void list_at(N& n)
{
    auto k = vf_size("k");
    reading<array>(n, [&](const array_traits::const_reference& e, u64 p)
    {
        const typename array_traits::const_reference::base_type& b = e;
        auto* v = std::get_if<detail::array_const_reference_t<list_value>>(&b);
        return v != nullptr && agree(v->has_value(), n.has(p), n.is_list(v->get(), p, k));
    }, by_at);
}
HARNESS(list_elements) { list_node<i32, i32> n("+l", {}, {}, 0, 2); list_at(n); }
HARNESS(list_view_elements) { list_node<i32, i32> n("+vl", {}, {}, 0, 2); list_at(n); }
HARNESS(fixed_list_elements) { list_node<i32, i32> n("+w:3", {}, {}, 3, 2); list_at(n); }

// --- formats without an array are refused and the structures given away are released
static void refuse(node& n)
{
    bool refused = false;
    vf_leak_check lc;
    try
    {
        array a = adopt<array>(n);
    }
    catch (const std::runtime_error&)
    {
        refused = true;
    }
    vf_assert(refused, "refused");
    vf_assert(n.a_released == 1 && n.s_released == 1, "and released once");
    vf_cover("refused");
}
HARNESS(unsupported)
{
    const char* f[] = {"tsn:", "d:10,2", "w:4"};
    auto k = vf_pick("f", 0, 2);
    node n(f[k], vf_size("off"), vf_size("len"));
    n.add_validity(2);
    n.add("data", n.slots() * 16, 16);
    refuse(n);
}
HARNESS(unsupported_keys)
{
    fixed_node<float> n({}, 2);
    fixed_node<i32> v({}, 2);
    n.a.dictionary = &v.a;
    n.s.dictionary = &v.s;
    bool refused = false;
    try
    {
        array a = borrow<array>(n);
    }
    catch (const std::runtime_error&)
    {
        refused = true;
    }
    vf_assert(refused && n.a_released == 0 && n.s_released == 0, "keys are integers; what is lent is not released");
    vf_cover("refused");
}

// --- from typed arrays
template <class W>
static void typed(u64 how)
{
    fixed_node<i32> n({}, 2);
    const auto off = n.off(), len = n.len();
    auto i = vf_size("i");
    vf_assume(i < len);
    primitive_array<i32> t = borrow<primitive_array<i32>>(n);
    auto shared = std::make_shared<primitive_array<i32>>(borrow<primitive_array<i32>>(n));
    {
        array a = how == 0 ? array(std::move(t)) : how == 1 ? array(&t) : array(shared);
        vf_assert(a.data_type() == data_type::INT32 && holds<primitive_array<i32>>(a) && a.size() == len, "the same array");
        vf_assert(n.is_erased(a[i], off + i) && n.is_erased(a.at(i), off + i), "the same elements");
        const void* place = a.visit([](const auto& x) { return (const void*) &x; });
        if (how == 1) vf_assert(place == &t, "the pointed to array itself");
        if (how == 2) vf_assert(place == shared.get() && shared.use_count() == 2, "the shared array itself");
        // copies: of what is owned, or of the handle
        array b(a);
        vf_assert(b.size() == len && n.is_erased(b[i], off + i) && n.is_erased(a[i], off + i), "copies have the same elements");
        const void* copied = b.visit([](const auto& x) { return (const void*) &x; });
        vf_assert((copied == place) == (how != 0), "what is owned is copied, what is shared is shared");
        array c(std::move(a));
        vf_assert(c.visit([](const auto& x) { return (const void*) &x; }) == place, "moving moves the array");
        c = b;
        vf_assert(c.size() == len && n.is_erased(c[i], off + i), "assignment copies");
        c = std::move(b);
        vf_assert(c.visit([](const auto& x) { return (const void*) &x; }) == copied, "move assignment moves");
    }
    vf_assert(shared.use_count() == 1, "shared arrays are given back");
    vf_cover("typed");
}
HARNESS(from_moved) { typed<int>(0); }
HARNESS(from_pointer) { typed<int>(1); }
HARNESS(from_shared) { typed<int>(2); }

// --- equality
// elements of two arrays of up to `most` elements decide
template <class T>
static void pair(u64 most, unsigned how, u64 o1, u64 o2, u64 least = 0)
{
    auto l1 = vf_pick("l1", least, most), l2 = vf_pick("l2", least, most);
    fixed_node<T> n({o1, l1}, how), m({o2, l2}, how);
    array a = borrow<array>(n), b = borrow<array>(m);
    bool same = l1 == l2;
    for (u64 k = 0; k < most; ++k)
        if (k < l1 && k < l2) same = same & ((n.has(o1 + k) == m.has(o2 + k)) & (!n.has(o1 + k) | (n.data[o1 + k] == m.data[o2 + k])));
    vf_assert((a == b) == same, "equal exactly when they have equal elements");
    vf_assert((b == a) == same && (a != b) == !same, "symmetric");
    vf_assert(a == a && b == b, "reflexive");
    vf_cover("compared");
}
HARNESS(equality_int32) { pair<i32>(3, 2, vf_size("o1"), vf_size("o2")); }
HARNESS(equality_missing) { pair<i32>(2, 1, 1, 6); }
HARNESS(equality_uint8) { pair<u8>(2, 2, vf_size("o1"), vf_size("o2")); }
HARNESS(equality_ten) { pair<i32>(10, 2, vf_size("o1"), vf_size("o2"), 10); }  // vf: unroll=12
HARNESS(equality_bytes) { pair<u8>(4, 1, 6, 3, 4); }  // vf: unroll=12
template <class A, class B>
static void differ(A& n, B& m)
{
    array a = borrow<array>(n), b = borrow<array>(m);
    vf_assert(!(a == b) && !(b == a) && a != b, "arrays of different layouts are not equal");
    vf_cover("different");
}
HARNESS(different_fixed) { fixed_node<i32> n({}, 2); fixed_node<u32> m({}, 2); differ(n, m); }
HARNESS(different_text) { string_node<i32> n({}, "u", 2); fixed_node<u32> m({}, 2); differ(n, m); }
HARNESS(different_null) { null_node n; fixed_node<u32> m({}, 2); differ(n, m); }
HARNESS(different_union) { union_node n("+ud:3,7", 3, 7, {}, {}, {}, 2); union_node m("+us:3,7", 3, 7, {}, {}, {}, 2); differ(n, m); }
HARNESS(different_list) { list_node<i32, i32> n("+l", {}, {}, 0, 2); list_node<i32, u32> m("+vl", {}, {}, 0, 2); differ(n, m); }
HARNESS(different_keys) { dictionary_node<i32> n({}, {}, 2, 2); fixed_node<i32> m({}, 2); differ(n, m); }

// --- copies are equal and independent
HARNESS(copies)
{
    fixed_node<i32> n({}, 2);
    const auto off = n.off(), len = n.len();
    auto i = vf_size("i");
    vf_assume(i < len);
    vf_leak_check lc;
    {
        array a = adopt<array>(n);
        {
            array b(a);
            auto [x, s] = get_arrow_structures(a);
            auto [y, t] = get_arrow_structures(b);
            vf_assert(x != y && s != t && x->buffers != y->buffers && x->buffers[1] != y->buffers[1], "in their own storage");
            vf_assert(b.size() == len && n.is_erased(b[i], off + i), "the same elements");

            vf_assert(owns_arrow_array(b) && owns_arrow_schema(b), "owned");
        }
        vf_assert(n.a_released == 0 && n.is_erased(a[i], off + i), "the source survives its copies");
        array c;
        c = a;
        vf_assert(c.size() == len && n.is_erased(c[i], off + i), "assignment");
        a = array();
        vf_assert(n.a_released == 1 && n.s_released == 1, "the source is released once");
        vf_assert(c.size() == len && is_element<i32>(c[i], true, n.data[off + i]), "copies survive their source");
    }
    vf_assert(n.a_released == 1 && n.s_released == 1, "only once");
    vf_cover("copies");
}

HARNESS(copies_are_equal)  // vf: nosum
{
    fixed_node<i32> n({vf_size("off"), vf_pick("len", 0, 3)}, 2);
    array a = borrow<array>(n), b(a);
    vf_assert(a == b && b == a, "copies are equal");
    vf_cover("equal");
}

// --- extraction gives back what was adopted
HARNESS(extraction)
{
    struct_node n(2, {}, {}, {}, 2);
    const ArrowArray x = n.a;
    const ArrowSchema s = n.s;
    {
        array a = adopt<array>(n);
        vf_assert(owns_arrow_array(a) && owns_arrow_schema(a) && n.a.release == nullptr && n.s.release == nullptr, "adopted");
        auto both = vf_split(vf_bool("both"));
        ArrowArray y;
        ArrowSchema t;
        if (both)
        {
            std::tie(y, t) = extract_arrow_structures(std::move(a));
        }
        else
        {
            y = extract_arrow_array(std::move(a));
            t = extract_arrow_schema(std::move(a));
        }
        vf_assert(y.length == x.length && y.null_count == x.null_count && y.offset == x.offset && y.n_buffers == x.n_buffers
                  && y.n_children == x.n_children && y.buffers == x.buffers && y.children == x.children && y.dictionary == x.dictionary
                  && y.release == x.release && y.private_data == x.private_data, "the array adopted");
        vf_assert(t.format == s.format && t.name == s.name && t.metadata == s.metadata && t.flags == s.flags && t.n_children == s.n_children
                  && t.children == s.children && t.dictionary == s.dictionary && t.release == s.release && t.private_data == s.private_data, "the schema adopted");
        vf_assert(n.a_released == 0 && n.s_released == 0, "not released");
        y.release(&y);
        t.release(&t);
    }
    vf_assert(n.a_released == 1 && n.s_released == 1, "released by its new owner only");
    vf_cover("extracted");
}
HARNESS(lent)
{
    fixed_node<i32> n({}, 2);
    {
        array a(&n.a, &n.s);
        vf_assert(!owns_arrow_array(a) && !owns_arrow_schema(a), "lent");
        vf_assert(get_arrow_array(a) == &n.a && get_arrow_schema(a) == &n.s, "the structures themselves");
    }
    vf_assert(n.a_released == 0 && n.s_released == 0 && n.a.release != nullptr && n.s.release != nullptr, "not released");
    {
        array a(std::move(n.a), &n.s);
        vf_assert(owns_arrow_array(a) && !owns_arrow_schema(a) && get_arrow_schema(a) == &n.s, "the schema is lent");
    }
    vf_assert(n.a_released == 1 && n.s_released == 0, "what is adopted is released");
    vf_cover("lent");
}

// --- slices
static void slices(bool view)
{
    fixed_node<i32> n;
    const auto off = n.off(), len = n.len();
    auto e = vf_upto("end", len), b = vf_upto("start", e);
    auto i = vf_size("i");
    array a = borrow<array>(n);
    array s = view ? a.slice_view(b, e) : a.slice(b, e);
    vf_assert(s.size() == e - b && s.empty() == (e == b) && s.data_type() == data_type::INT32, "size");
    if (vf_split(i < e - b))
    {
        vf_assert(n.is_erased(s[i], off + b + i), "elements");
        vf_cover("slice");
    }
    vf_assert(a.size() == len, "the source is as before");
}
HARNESS(slice) { slices(false); }
HARNESS(slice_view) { slices(true); }

// --- helpers
HARNESS(has_value)
{
    fixed_node<i32> n;
    auto i = vf_size("i");
    vf_assume(i < n.len());
    auto t = borrow<primitive_array<i32>>(n);
    array_wrapper_impl<primitive_array<i32>> w(&t);
    vf_assert(array_size(w) == n.len(), "size");
    vf_assert(array_has_value(w, i) == n.has(n.off() + i), "validity");
    vf_assert(n.is_erased(array_element(w, i), n.off() + i), "element");
    auto v = array_default_element_value(w);
    vf_assert(std::holds_alternative<i32>(v) && std::get<i32>(v) == 0, "default value of the type of the elements");
    vf_cover("helpers");
}
