// C19: iterators of every array and helper range obey the random access laws.
// vf: use=bits
#include "arrays.h"
#include <sparrow/layout/layout_utils.hpp>
#include <sparrow/utils/algorithm.hpp>
#include <sparrow/utils/iterator.hpp>
#include <sparrow/utils/offsets.hpp>
#include <sparrow/utils/repeat_container.hpp>
#include <span>
using namespace vf;
using u8 = std::uint8_t;
using i32 = std::int32_t;
using D = std::ptrdiff_t;

// two positions i and j of a range of n, reached by every route; is(it, p): does it designate element p?
struct places
{
    u64 n, i, j;
    explicit places(u64 size) : n(size), i(vf_upto("i", size)), j(vf_upto("j", size)) {}
};
template <class I>
static void order(const I& a, const I& b, u64 i, u64 j)
{
    vf_assert(b - a == D(j) - D(i) && a - b == D(i) - D(j), "distance is the difference of the positions");
    vf_assert((a == b) == (i == j) && (a != b) == (i != j), "iterators are equal exactly at the same position");
    vf_assert((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "and ordered as their positions");
    if constexpr (requires { a <=> b; })
        vf_assert((a <=> b) == (i <=> j), "three-way comparison");
}
// stays(it, p): is the iterator at position p?
template <class I>
static bool stays(const I& first, const I& it, u64 p)
{
    return it == first + D(p) && it - first == D(p);
}
template <class I>
static void compare_laws(I first, I last, places p)
{
    vf_assert(last - first == D(p.n) && (first == last) == (p.n == 0), "begin to end visits exactly the size");
    I a = first + D(p.i), b = first + D(p.j);
    order(a, b, p.i, p.j);
    vf_assert(last - a == D(p.n - p.i) && a <= last && first <= a, "distance to the end");
    vf_cover("compared");
}
template <class I>
static void advance_laws(I first, I last, places p)
{
    I a = first + D(p.i), b = first + D(p.j);
    I c = a;
    I& r = (c += D(p.j) - D(p.i));
    vf_assert(&r == &c && c == b && stays(first, c, p.j), "advance");
    I& s = (c -= D(p.j) - D(p.i));
    vf_assert(&s == &c && c == a && stays(first, c, p.i), "and back");
    vf_assert(a + (D(p.j) - D(p.i)) == b && (D(p.j) - D(p.i)) + a == b && b - (D(p.j) - D(p.i)) == a, "sums and differences");
    vf_assert(last - D(p.n - p.i) == a, "from the end");
    I z = last;
    z = a;
    vf_assert(z == a && I(a) == a, "copies are at the same position");
    vf_cover("advanced");
}
template <class I>
static void step_laws(I first, I, places p)
{
    I a = first + D(p.i);
    if (vf_split(p.i < p.n))
    {
        I d = a;
        vf_assert(d++ == a && stays(first, d, p.i + 1), "post-increment gives the former position");
        vf_assert(d-- == first + D(p.i + 1) && d == a, "post-decrement too");
        I& e = ++d;
        vf_assert(&e == &d && stays(first, d, p.i + 1) && d != a && a < d, "increment");
        I& f = --d;
        vf_assert(&f == &d && d == a && stays(first, d, p.i), "decrement undoes it");
        vf_cover("steps");
    }
}
// 0: all of them
template <class I>
static void laws(I first, I last, places p, int which = 0)
{
    if (which == 0 || which == 1) compare_laws(first, last, p);
    if (which == 0 || which == 2) advance_laws(first, last, p);
    if (which == 0 || which == 3) step_laws(first, last, p);
}

// --- every array: positions and elements
template <class A, class N>
static void array_laws(N& n, int which = 0)
{
    n.ends(n.off() + n.len());
    places p(n.len());
    A src = borrow<A>(n);
    const A& c = src;
    laws(c.begin(), c.end(), p, which);
    vf_assert(c.cbegin() == c.begin() && c.cend() == c.end(), "the same constant range");
}
template <class A, class N>
static void elements(N& n, auto chk)
{
    n.ends(n.off() + n.len());
    places p(n.len());
    vf_assume(p.i < p.n && p.j < p.n);
    n.well(n.off() + p.i), n.ordered(n.off() + p.i + 1, n.off() + n.len());
    n.well(n.off() + p.j), n.ordered(n.off() + p.j + 1, n.off() + n.len());
    A src = borrow<A>(n);
    const A& c = src;
    auto a = c.begin() + D(p.i);
    vf_assert(chk(*a, n.off() + p.i), "the element of its position");
    vf_assert(chk(a[D(p.j) - D(p.i)], n.off() + p.j), "indexing an iterator");
    vf_assert(chk(*(a += D(p.j) - D(p.i)), n.off() + p.j), "after advancing");
    vf_assert(chk(*a--, n.off() + p.j), "before stepping back");
    if (vf_split(p.j > 0))
    {
        n.well(n.off() + p.j - 1), n.ordered(n.off() + p.j, n.off() + n.len());
        vf_assert(chk(*a, n.off() + p.j - 1), "the former element");
        vf_assert(chk(*++a, n.off() + p.j), "and this one again");
        vf_cover("back and forth");
    }
}
HARNESS(fixed_compare) { fixed_node<i32> n({}, 1); array_laws<primitive_array<i32>>(n, 1); }
HARNESS(fixed_advance) { fixed_node<i32> n({}, 1); array_laws<primitive_array<i32>>(n, 2); }
HARNESS(fixed_step) { fixed_node<i32> n({}, 1); array_laws<primitive_array<i32>>(n, 3); }
HARNESS(fixed_without_compare) { fixed_node<double> n({}, 2); array_laws<primitive_array<double>>(n, 1); }
HARNESS(fixed_without_advance) { fixed_node<double> n({}, 2); array_laws<primitive_array<double>>(n, 2); }
HARNESS(fixed_without_step) { fixed_node<double> n({}, 2); array_laws<primitive_array<double>>(n, 3); }
HARNESS(fixed_elements) { fixed_node<i32> n({}, 2); elements<primitive_array<i32>>(n, [&](const auto& e, u64 q) { return n.is(e, q); }); }
static void fixed_mutable(int which)
{
    fixed_node<i32> n({}, 2);
    places p(n.len());
    auto a = borrow<primitive_array<i32>>(n);
    laws(a.begin(), a.end(), p, which);
}
HARNESS(fixed_mutable_compare) { fixed_mutable(1); }
HARNESS(fixed_mutable_advance) { fixed_mutable(2); }
HARNESS(fixed_mutable_step) { fixed_mutable(3); }
HARNESS(text_compare) { string_node<i32> n({}, "u", 2); array_laws<string_array>(n, 1); }
HARNESS(text_advance) { string_node<i32> n({}, "u", 2); array_laws<string_array>(n, 2); }
HARNESS(text_step) { string_node<i32> n({}, "u", 2); array_laws<string_array>(n, 3); }
static void text_mutable(int which)
{
    string_node<i32> n({}, "u", 2);
    n.ends(n.off() + n.len());
    places p(n.len());
    auto a = borrow<string_array>(n);
    laws(a.begin(), a.end(), p, which);
}
HARNESS(text_mutable_compare) { text_mutable(1); }
HARNESS(text_mutable_advance) { text_mutable(2); }
HARNESS(text_mutable_step) { text_mutable(3); }
HARNESS(text_elements)
{
    string_node<i32> n({}, "u", 2);
    elements<string_array>(n, [&](const auto& e, u64 q) { return e.has_value() && n.view(e.get(), q); });
}
HARNESS(bytes_compare) { string_node<i32> n({}, "z", 2); array_laws<variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, i32>>(n, 1); }
HARNESS(bytes_advance) { string_node<i32> n({}, "z", 2); array_laws<variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, i32>>(n, 2); }
HARNESS(bytes_step) { string_node<i32> n({}, "z", 2); array_laws<variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, i32>>(n, 3); }
HARNESS(views_compare) { view_node n({}, "vu", 2); array_laws<string_view_array>(n, 1); }
HARNESS(views_advance) { view_node n({}, "vu", 2); array_laws<string_view_array>(n, 2); }
HARNESS(views_step) { view_node n({}, "vu", 2); array_laws<string_view_array>(n, 3); }
HARNESS(views_elements)
{
    view_node n({}, "vu", 2);
    elements<string_view_array>(n, [&](const auto& e, u64 q) { return e.has_value() && n.view(e.get(), q); });
}
HARNESS(list_compare) { list_node<i32, i32> n("+l", {}, {}, 0, 2); array_laws<list_array>(n, 1); }
HARNESS(list_advance) { list_node<i32, i32> n("+l", {}, {}, 0, 2); array_laws<list_array>(n, 2); }
HARNESS(list_step) { list_node<i32, i32> n("+l", {}, {}, 0, 2); array_laws<list_array>(n, 3); }
HARNESS(list_view_compare) { list_node<i32, i32> n("+vl", {}, {}, 0, 2); array_laws<list_view_array>(n, 1); }
HARNESS(list_view_advance) { list_node<i32, i32> n("+vl", {}, {}, 0, 2); array_laws<list_view_array>(n, 2); }
HARNESS(list_view_step) { list_node<i32, i32> n("+vl", {}, {}, 0, 2); array_laws<list_view_array>(n, 3); }
HARNESS(structs_compare) { struct_node n(2, {}, {}, {}, 2); array_laws<struct_array>(n, 1); }
HARNESS(structs_advance) { struct_node n(2, {}, {}, {}, 2); array_laws<struct_array>(n, 2); }
HARNESS(structs_step) { struct_node n(2, {}, {}, {}, 2); array_laws<struct_array>(n, 3); }
HARNESS(structs_elements) { struct_node n(2, {}, {}, {}, 2); elements<struct_array>(n, [&](const auto& e, u64 q) { return n.is(e, q); }); }
HARNESS(dense) { union_node n("+ud:0,1", 0, 1, {}, {}, {}, 2); array_laws<dense_union_array>(n); }
HARNESS(sparse) { union_node n("+us:0,1", 0, 1, {}, {}, {}, 2); array_laws<sparse_union_array>(n); }
HARNESS(dictionary) { dictionary_node<i32> n({}, {}, 2, 2); array_laws<dictionary_encoded_array<i32>>(n); }
HARNESS(nothing) { null_node n; array_laws<null_array>(n); }
HARNESS(nothing_elements) { null_node n; elements<null_array>(n, [&](const auto& e, u64 q) { return n.is(e, q); }); }

// --- ranges of an element
HARNESS(list_value_laws)
{
    fixed_node<i32> n({}, 2);
    auto b = vf_upto("first", n.len()), e = vf_upto("last", n.len());
    vf_assume(b <= e);
    array a = borrow<array>(n);
    places p(e - b);
    auto [x, s] = get_arrow_structures(a);
    primitive_array<i32> t = borrow<primitive_array<i32>>(n);
    array_wrapper_impl<primitive_array<i32>> w(&t);
    list_value v(&w, b, e);
    vf_assert(v.size() == e - b, "the size of a list");
    if (vf_split(p.i < p.n)) vf_assert(n.is_erased(v[p.i], n.off() + b + p.i), "its elements");
    vf_cover("list");
}

// --- ranges of bits and values
HARNESS(value_range)
{
    fixed_node<i32> n({}, 2);
    places p(n.len());
    auto a = borrow<primitive_array<i32>>(n);
    const auto& c = a;
    auto v = c.values();
    laws(v.begin(), v.end(), p);
    vf_assert(u64(v.size()) == p.n, "size");
    if (vf_split(p.i < p.n)) vf_assert(*(v.begin() + D(p.i)) == n.data[n.off() + p.i] && v.begin()[D(p.i)] == n.data[n.off() + p.i], "values");
}
static void bit_range(int which)
{
    fixed_node<i32> n({}, 1);
    places p(n.len());
    auto a = borrow<primitive_array<i32>>(n);
    const auto& c = a;
    auto v = c.bitmap();
    laws(v.begin(), v.end(), p, which);
    if (vf_split(p.i < p.n)) vf_assert(*(v.begin() + D(p.i)) == n.has(n.off() + p.i), "bits");
}
HARNESS(bit_range_compare) { bit_range(1); }
HARNESS(bit_range_advance) { bit_range(2); }
HARNESS(bit_range_step) { bit_range(3); }

// --- pointers as iterators
HARNESS(pointers)
{
    auto m = vf_size("n");
    auto* d = static_cast<u64*>(vf_bytes("data", m * 8, 8));
    places p(m);
    auto first = make_pointer_iterator(d), last = make_pointer_iterator(d + m);
    laws(first, last, p);
    if (vf_split(p.i < m))
    {
        auto it = first + D(p.i);
        vf_assert(&*it == d + p.i && it.operator->() == d + p.i && &first[D(p.i)] == d + p.i, "the element itself");
        *it = 5;
        vf_assert(d[p.i] == 5, "writable");
        pointer_iterator<const u64*> k(d + p.i);
        vf_assert(&*k == d + p.i && k.base() == d + p.i, "constant iterators");
        vf_assert(&*sparrow::next(first, p.i) == d + p.i, "next");
        vf_assert(&*sparrow::next(last, -D(m - p.i)) == d + p.i, "next backward");
    }
    ::operator delete(d);
}

// --- positions and a function of them
struct twice
{
    u64 base = 0;
    u64 operator()(std::size_t i) const { return base + 2 * i; }
};
HARNESS(function_of_index)
{
    places p(vf_size("n"));
    auto base = vf_bits("base", 64);
    using I = functor_index_iterator<twice>;
    I first(twice{base}, 0), last(twice{base}, p.n);
    laws(first, last, p);
    auto it = first + D(p.i);
    vf_assert(*it == base + 2 * p.i && first[D(p.i)] == base + 2 * p.i && it[D(p.j) - D(p.i)] == base + 2 * p.j, "the function of the position");
    vf_assert(*I(twice{base}, p.i) == base + 2 * p.i && I(twice{base}, p.i) == it, "from a position");
}

// --- repeated values
HARNESS(repeated)
{
    auto value = vf_bits("value", 64);
    places p(vf_size("n"));
    const repeat_view<u64> v(value, p.n);
    laws(v.begin(), v.end(), p);
    laws(v.cbegin(), v.cend(), p);
    vf_assert(v.size() == p.n && v.empty() == (p.n == 0), "size");
    if (vf_split(p.i < p.n))
    {
        vf_assert(*(v.begin() + D(p.i)) == value && v[D(p.i)] == value && v.begin()[D(p.i)] == value, "the value everywhere");
        vf_assert(v.front() == value && v.back() == value && *(v.end() - 1) == value, "at both ends");
    }
    auto k = vf_size("k");
    u64 seen = 0;
    for (u64 x : repeat_view<u64>(value, std::min<u64>(k, 3))) seen += x == value;
    vf_assert(seen == std::min<u64>(k, 3), "loops see it that often");
}
HARNESS(repeated_copy)
{
    auto value = vf_bits("value", 64);
    auto n = vf_size("n");
    repeat_view<u64> v(value, n);
    std::vector<u64> r(v.begin(), v.end());
    auto i = vf_size("i");
    vf_assert(r.size() == n, "as many");
    if (i < n) vf_assert(r[i] == value, "copies");
    vf_cover("copied");
}

// --- offsets from sizes (bounded in their number)
template <class O>
static void from_sizes(u64 most)
{
    const u64 n = vf_pick("n", 0, most);
    std::vector<u64> sizes;
    u64 total = 0;
    for (u64 k = 0; k < n; ++k) sizes.push_back(vf_nd("size", 0, 1000));
    auto b = sparrow::detail::offset_buffer_from_sizes<O>(sizes);
    vf_assert(b.size() == n + 1, "one offset more than elements");
    vf_assert(b.data()[0] == 0, "from 0");
    for (u64 k = 0; k < n; ++k) total += sizes[k], vf_assert(u64(b.data()[k + 1]) == total, "the sum of the sizes before");
    vf_cover("offsets");
}
HARNESS(offsets_of_sizes) { from_sizes<i32>(6); }  // vf: unroll=8
HARNESS(big_offsets_of_sizes) { from_sizes<std::int64_t>(6); }  // vf: unroll=8
HARNESS(offsets_of_strings)  // vf: unroll=8
{
    const u64 n = vf_pick("n", 0, 5);
    std::vector<std::span<const u8>> v;
    for (u64 k = 0; k < n; ++k) v.push_back(std::span<const u8>(reinterpret_cast<const u8*>(8), vf_nd("size", 0, 1000)));
    auto b = make_offset_buffer<i32>(v);
    u64 total = 0;
    vf_assert(b.size() == n + 1 && b.data()[0] == 0, "one offset more, from 0");
    for (u64 k = 0; k < n; ++k) total += v[k].size(), vf_assert(u64(b.data()[k + 1]) == total, "the sum of the sizes before");
    vf_cover("offsets");
}

// --- comparing ranges
struct numbers
{
    const i32* d;
    u64 n;
    const i32* cbegin() const { return d; }
    const i32* cend() const { return d + n; }
};
HARNESS(comparison)
{
    auto n = vf_size("n"), m = vf_size("m");
    auto* x = static_cast<i32*>(vf_bytes("x", n * 4, 4));
    auto* y = static_cast<i32*>(vf_bytes("y", m * 4, 4));
    numbers a{x, n}, b{y, m};
    auto k = vf_size("k");
    vf_skolem(k);
    auto c = lexicographical_compare_three_way(a, b);
    const u64 both = std::min(n, m);
    if (c == 0)
    {
        vf_assert(n == m, "equal ranges have the same size");
        if (vf_split(k < n)) vf_assert(x[k] == y[k], "and elements");
        vf_cover("equal");
    }
    // the first difference decides
    vf_assume(k <= both);
    vf_cover("different");
    ::operator delete(x);
    ::operator delete(y);
}
HARNESS(comparison_first)
{
    // k is the first difference, or where the shorter range ends
    auto n = vf_pick("n", 0, 5), m = vf_pick("m", 0, 5);
    i32 x[5], y[5];
    for (auto& e : x) e = i32(vf_bits("x", 32));
    for (auto& e : y) e = i32(vf_bits("y", 32));
    numbers a{x, n}, b{y, m};
    u64 k = 0;
    while (k < n && k < m && vf_split(x[k] == y[k])) ++k;
    auto want = k < n && k < m ? x[k] <=> y[k] : n <=> m;
    vf_assert(lexicographical_compare_three_way(a, b) == want, "the first difference, else the size");
    vf_assert(lexicographical_compare(a, b) == (want < 0), "less");
    vf_cover("compared");
}
