// C13: list arrays present each list as its own range of the child array.
// vf: use=bits
#include "arrays.h"
#include <sparrow/array.hpp>
#include <array>
#include <span>
using namespace vf;

template <class N>
static bool list_is(const N& n, const list_value& v, u64 pos, u64 k)
{
    return n.is_list(v, pos, k);
}
template <class A>
constexpr bool view_list = std::is_same_v<A, list_view_array> || std::is_same_v<A, big_list_view_array>;
// children of an arbitrary range; element k of a list is arbitrary as well
template <class A, class N>
static void read_node(N& n, unsigned r)
{
    auto k = vf_size("k");
    reading<A>(n, [&](const auto& e, u64 p)
               {
                   if constexpr (std::is_same_v<A, array>)
                   {
                       const array_traits::const_reference::base_type& b = e;
                       auto* q = std::get_if<detail::array_const_reference_t<list_value>>(&b);
                       return q != nullptr && q->has_value() == n.has(p) && n.is_list(q->get(), p, k);
                   }
                   else
                   {
                       return e.has_value() == n.has(p) && n.is_list(e.get(), p, k);
                   }
               }, r);
}
template <class A, class O, class Z = O>
static void read(const char* fmt, unsigned r, u64 width = 0)
{
    unsigned how_child = r == by_index ? 0 : 2;
    list_node<std::int32_t, O, Z> n(fmt, {}, {}, width, how_child);
    if (width) vf_assume((n.off() + n.len()) * width <= n.child.len());
    read_node<A>(n, r);
    vf_assert(n.child.a_released == 0, "the child is not released");
}
using i32 = std::int32_t;
using i64 = std::int64_t;
using u32 = std::uint32_t;
HARNESS(list_index) { read<list_array, i32>("+l", by_index); }
HARNESS(list_iterator) { read<list_array, i32>("+l", by_iterator); }
HARNESS(list_steps) { read<list_array, i32>("+l", by_steps); }
HARNESS(list_reverse) { read<list_array, i32>("+l", by_reverse); }
HARNESS(list_bitmap) { read<list_array, i32>("+l", by_bitmap); }
HARNESS(list_at) { read<array, i32>("+l", by_at); }
HARNESS(list_ends) { read<array, i32>("+l", by_ends); }
HARNESS(large_index) { read<big_list_array, i64>("+L", by_index); }
HARNESS(large_iterator) { read<big_list_array, i64>("+L", by_iterator); }
HARNESS(large_erased) { read<array, i64>("+L", by_index); }
HARNESS(view_index) { read<list_view_array, i32, i32>("+vl", by_index); }
HARNESS(view_iterator) { read<list_view_array, i32, i32>("+vl", by_iterator); }
HARNESS(view_erased) { read<array, i32, i32>("+vl", by_index); }
HARNESS(large_view_index) { read<big_list_view_array, i64, i64>("+vL", by_index); }
HARNESS(large_view_erased) { read<array, i64, i64>("+vL", by_ends); }
HARNESS(fixed_index) { read<fixed_sized_list_array, i32>("+w:3", by_index, 3); }
HARNESS(fixed_iterator) { read<fixed_sized_list_array, i32>("+w:12", by_iterator, 12); }
HARNESS(fixed_erased) { read<array, i32>("+w:1", by_index, 1); }
HARNESS(fixed_ends) { read<array, i32>("+w:2", by_ends, 2); }
HARNESS(fixed_wide) { read<fixed_sized_list_array, i32>("+w:1000007", by_iterator, 1000007); }

// the child behind the lists
HARNESS(flat)
{
    list_node<i32, i32> n("+l", {}, {});
    auto j = vf_below("j", n.child.len());
    {
        auto a = borrow<list_array>(n);
        vf_assert(n.child.is_erased(array_element(*std::as_const(a).raw_flat_array(), j), n.child.off() + j), "the flat array is the child");
        vf_assert(n.child.is_erased(array_element(*a.raw_flat_array(), j), n.child.off() + j), "also when mutable");
        vf_cover("end");
    }
}

// --- lists are equal exactly when they have the same elements (lengths up to 2)
HARNESS(equality)
{
    list_node<i32, i32> n("+l", {}, {}, 0, 1), m("+l", {}, {}, 0, 2);
    auto i = vf_below("i", n.len()), j = vf_below("j", m.len());
    auto p = n.off() + i, q = m.off() + j;
    n.well(p);
    m.well(q);
    auto ln = vf_pick("ln", 0, 2), lm = vf_pick("lm", 0, 2);
    vf_assume(n.last(p) - n.first(p) == ln && m.last(q) - m.first(q) == lm);
    {
        auto a = borrow<list_array>(n), b = borrow<list_array>(m);
        bool same = ln == lm;
        for (u64 k = 0; k < ln && k < lm; ++k)
        {
            auto x = n.child.off() + n.first(p) + k, y = m.child.off() + m.first(q) + k;
            same &= agree(n.child.has(x), m.child.has(y), n.child.data[x] == m.child.data[y]);
        }
        auto x = std::as_const(a)[i], y = std::as_const(b)[j];
        vf_assert((x.get() == y.get()) == same, "lists are equal exactly when they have the same elements");
        vf_assert((x.get() != y.get()) == !same, "and different otherwise");
        vf_cover("end");
    }
}

// --- building
template <class A>
static void structure(A& a, const char* fmt, u64 n, u64 missing, std::int64_t buffers)
{
    auto [x, s] = get_arrow_structures(a);
    vf_assert(x->length == std::int64_t(n) && x->offset == 0 && x->n_buffers == buffers && x->n_children == 1 && s->n_children == 1 && x->dictionary == nullptr, "structure of a list array");
    vf_assert(x->null_count == std::int64_t(missing), "the null count is the number of missing lists");
    vf_assert(std::strcmp(s->format, fmt) == 0, "format");
    vf_assert(a.size() == n && a.empty() == (n == 0) && owns_arrow_array(a) && owns_arrow_schema(a), "size");
}
static u64 missing_bits(const std::uint8_t* p, u64 n)
{
    auto r = n % 8;
    return n - vf_popcount(p, n / 8) - (r ? u64(std::popcount(std::uint8_t(p[n / 8] & ((1u << r) - 1)))) : 0);
}

// from a child of any range, offsets (and sizes) of any content, with a bitmap or none
template <class A, class O, class Z>
static void build(const char* fmt, u64 width = 0)
{
    auto n = vf_nd("nq", 0, VF_MAX / 16) * 8 + vf_residue("nr", 8);
    fixed_node<i32> child({}, 2);
    const auto oc = child.off(), lc = child.len();
    auto* offsets = static_cast<O*>(vf_bytes("offsets", width ? 0 : (n + !view_list<A>) * sizeof(O), sizeof(O)));
    auto* sizes = static_cast<Z*>(vf_bytes("sizes", view_list<A> ? n * sizeof(Z) : 0, sizeof(Z)));
    auto* bits = static_cast<std::uint8_t*>(vf_bytes("bits", (n + 7) / 8, 1));
    auto missing = missing_bits(bits, n);
    bool with = vf_split(vf_bool("bitmap"));
    if (width) vf_assume(n * width <= lc && lc < (n + 1) * width);
    {
        validity_bitmap vb(bits, n, missing);
        auto i = vf_below("i", n);
        u64 first = 0, size = width;
        if (width)
            first = i * width;
        else
        {
            vf_assume(offsets[i] >= 0);
            first = u64(offsets[i]);
            if constexpr (view_list<A>) size = u64(sizes[i]);
            else
            {
                vf_assume(offsets[i] <= offsets[i + 1]);
                size = u64(offsets[i + 1] - offsets[i]);
            }
        }
        vf_assume(size <= (sizeof(O) == 4 ? 0x7fffffff : VF_MAX) && first + size <= lc);
        auto k = vf_size("k");
        A a = [&]
        {
            if constexpr (std::is_same_v<A, fixed_sized_list_array>)
            {
                ::operator delete(offsets);
                ::operator delete(sizes);
                return with ? A(width, adopt<array>(child), std::as_const(vb)) : A(width, adopt<array>(child));
            }
            else if constexpr (view_list<A>)
                return with ? A(adopt<array>(child), u8_buffer<O>(buffer<O>(offsets, n)), u8_buffer<Z>(buffer<Z>(sizes, n)), std::as_const(vb))
                            : A(adopt<array>(child), u8_buffer<O>(buffer<O>(offsets, n)), u8_buffer<Z>(buffer<Z>(sizes, n)));
            else
            {
                ::operator delete(sizes);
                return with ? A(adopt<array>(child), u8_buffer<O>(buffer<O>(offsets, n + 1)), std::as_const(vb)) : A(adopt<array>(child), u8_buffer<O>(buffer<O>(offsets, n + 1)));
            }
        }();
        structure(a, fmt, n, with ? missing : 0, width ? 1 : view_list<A> ? 3 : 2);
        vf_cover("built");
        auto e = std::as_const(a)[i];
        vf_assert(e.has_value() == (!with || bool((bits[i / 8] >> (i % 8)) & 1)), "validity of list i");
        vf_assert(e.get().size() == size, "size of list i");
        if (vf_split(k < size)) vf_assert(is_element<i32>(e.get()[k], true, child.data[oc + first + k]), "element k of list i");
        vf_assert(child.a_released == 0, "the child is still owned");
        vf_cover("list");
    }
    vf_assert(child.a_released == 1 && child.s_released == 1, "the child is released once");
}
HARNESS(build_list) { build<list_array, i32, u32>("+l"); }                                  // vf: residues
HARNESS(build_large) { build<big_list_array, i64, std::uint64_t>("+L"); }                   // vf: residues
HARNESS(build_view) { build<list_view_array, i32, u32>("+vl"); }                            // vf: residues
HARNESS(build_large_view) { build<big_list_view_array, i64, std::uint64_t>("+vL"); }        // vf: residues
HARNESS(build_fixed) { build<fixed_sized_list_array, i32, u32>("+w:3", 3); }                // vf: residues
HARNESS(build_fixed_wide) { build<fixed_sized_list_array, i32, u32>("+w:10", 10); }         // vf: residues

// --- building offsets from sizes gives running sums
// any number of lists: element by element up to 6, whose sums are arbitrary
template <class A, class O, class Z>
static void sums()
{
    vf_leak_check lc;
    auto n = vf_pick("n", 0, 6);
    Z sizes[6];
    u64 at[7] = {};
    for (u64 k = 0; k < n; ++k)
    {
        sizes[k] = Z(vf_upto("size", sizeof(O) == 4 ? 0x0fffffff : VF_MAX));
        at[k + 1] = at[k] + sizes[k];
    }
    {
        auto b = A::offset_from_sizes(std::span<const Z>(sizes, n));
        vf_assert(b.size() == n + 1, "one offset more than sizes");
        for (u64 k = 0; k <= n; ++k) vf_assert(u64(b[k]) == at[k], "offset k is the sum of the sizes before k");
        std::vector<Z> v(sizes, sizes + n);
        auto c = A::offset_from_sizes(v);
        for (u64 k = 0; k <= n; ++k) vf_assert(c[k] == b[k], "from any range of sizes");
        vf_cover("end");
    }
}
HARNESS(sums_32) { sums<list_array, i32, std::size_t>(); }
HARNESS(sums_64) { sums<big_list_array, i64, u32>(); }
HARNESS(sums_of_bytes) { sums<list_array, i32, std::uint8_t>(); }
// repeated sizes of any number: the loop invariant is the sum of the sizes before
HARNESS(sums_of_equal)
{
    vf_leak_check lc;
    auto n = vf_nd("n", 0, 1000000), w = vf_nd("w", 0, 2000);
    {
        auto b = list_array::offset_from_sizes(repeat_view<u64>(w, n));
        vf_assert(b.size() == n + 1, "one offset more than sizes");
        auto i = vf_below("i", n + 1);
        vf_assert(b[i] == i32(i * w), "offset i is i times the size");
        vf_cover("end");
    }
}

// --- copies and moves keep the lists
template <class A, class O>
static void kept(const char* fmt, u64 width = 0)
{
    list_node<i32, O, O> n(fmt, {}, {}, width, 2), m(fmt, range(0, 0), range(0, 0), width, 2);
    const auto off = n.off(), len = n.len();
    if (width) vf_assume((off + len) * width <= n.child.len());
    auto i = vf_below("i", len), k = vf_size("k");
    n.well(off + i);
    {
        auto a = borrow<A>(n);
        A b(std::as_const(a));
        vf_assert(b.size() == len && n.is_list(std::as_const(b)[i].get(), off + i, k), "a copy has the same lists");
        auto [x, s] = get_arrow_structures(b);
        vf_assert(x != &n.a && x->children[0] != &n.child.a && x->children[0]->buffers[1] != n.child.data, "a copy has its own structures");
        vf_cover("end");
    }
}
template <class A, class O>
static void assigned(const char* fmt, u64 width = 0)
{
    list_node<i32, O, O> n(fmt, {}, {}, width, 2), m(fmt, range(0, 0), range(0, 0), width, 2);
    const auto off = n.off(), len = n.len();
    if (width) vf_assume((off + len) * width <= n.child.len());
    auto i = vf_below("i", len), k = vf_size("k");
    n.well(off + i);
    {
        auto b = borrow<A>(n);
        auto c = borrow<A>(m);
        c = std::as_const(b);
        vf_assert(c.size() == len && n.is_list(std::as_const(c)[i].get(), off + i, k), "an assigned copy has the same lists");
        vf_cover("end");
    }
}
template <class A, class O>
static void moved(const char* fmt, u64 width = 0)
{
    list_node<i32, O, O> n(fmt, {}, {}, width, 2), m(fmt, range(0, 0), range(0, 0), width, 2);
    const auto off = n.off(), len = n.len();
    if (width) vf_assume((off + len) * width <= n.child.len());
    auto i = vf_below("i", len), k = vf_size("k");
    n.well(off + i);
    {
        auto b = adopt<A>(n);
        A d(std::move(b));
        vf_assert(d.size() == len && n.is_list(std::as_const(d)[i].get(), off + i, k), "a moved array has the same lists");
        auto e = borrow<A>(m);
        e = std::move(d);
        vf_assert(e.size() == len && n.is_list(std::as_const(e)[i].get(), off + i, k), "a move-assigned array has the same lists");
        const auto& self = e;
        e = self;
        vf_assert(e.size() == len && n.is_list(std::as_const(e)[i].get(), off + i, k), "self-assignment keeps the lists");
        vf_cover("end");
    }
}
HARNESS(kept_list) { kept<list_array, i32>("+l"); }
HARNESS(kept_large) { kept<big_list_array, i64>("+L"); }  // vf: thorough
HARNESS(kept_view) { kept<list_view_array, i32>("+vl"); }
HARNESS(kept_large_view) { kept<big_list_view_array, i64>("+vL"); }  // vf: thorough
HARNESS(kept_fixed) { kept<fixed_sized_list_array, i32>("+w:3", 3); }
HARNESS(assigned_list) { assigned<list_array, i32>("+l"); }
HARNESS(assigned_large) { assigned<big_list_array, i64>("+L"); }  // vf: thorough
HARNESS(assigned_view) { assigned<list_view_array, i32>("+vl"); }
HARNESS(assigned_large_view) { assigned<big_list_view_array, i64>("+vL"); }  // vf: thorough
HARNESS(assigned_fixed) { assigned<fixed_sized_list_array, i32>("+w:3", 3); }
HARNESS(moved_list) { moved<list_array, i32>("+l"); }
HARNESS(moved_large) { moved<big_list_array, i64>("+L"); }  // vf: thorough
HARNESS(moved_view) { moved<list_view_array, i32>("+vl"); }
HARNESS(moved_large_view) { moved<big_list_view_array, i64>("+vL"); }  // vf: thorough
HARNESS(moved_fixed) { moved<fixed_sized_list_array, i32>("+w:3", 3); }
