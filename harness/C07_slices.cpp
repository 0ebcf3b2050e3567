// C07: a slice holds exactly the selected elements, with their validity, in order, whether it copies or views; slicing a slice
// is relative to that slice; the source is unchanged.
// vf: use=bits
#include "arrays.h"
using namespace vf;

// The source is any array at any offset whose buffers may hold more elements than it designates, so a slice is again such a
// source: the contract covers slices of slices.
// A: the array type, N: the source, chk(element, position in the buffers)
template <class A, class N, class C>
static void slicing(N& n, C chk, bool view)
{
    const auto off = n.off(), len = n.len();
    auto e = vf_upto("end", len), s = vf_upto("start", e);
    auto j = vf_size("j"), k = vf_size("k");
    n.ends(off + e);
    n.ends(off + len);
    n.ordered(off + e, off + len);
    if (j < e - s) n.well(off + s + j), n.ordered(off + s + j + 1, off + e);
    if (k < len) n.well(off + k), n.ordered(off + k + 1, off + len);
    bool after = vf_split(vf_bool("after"));
    {
        A src = borrow<A>(n);
        const A& csrc = src;
        {
            const A sl = view ? csrc.slice_view(s, e) : csrc.slice(s, e);
            vf_assert(sl.size() == e - s, "a slice has the selected number of elements");
            if (!after && vf_split(j < e - s))
            {
                vf_assert(chk(sl[j], off + s + j), "element j of a slice is element start + j of the source");
                vf_cover("slice element");
            }
            auto [sa, ss] = get_arrow_structures(const_cast<A&>(sl));
            vf_assert(sa->offset == std::int64_t(off + s) && sa->length == std::int64_t(e - s), "the slice designates the selected range");
            vf_assert(sa->n_buffers == n.a.n_buffers && sa->n_children == n.a.n_children && std::strcmp(ss->format, n.s.format) == 0, "of the same structure");
        }
        n.untouched(off, len);
        vf_assert(n.a_released == 0 && n.s_released == 0, "slices do not release the source");
        vf_assert(csrc.size() == len, "slicing leaves the source unchanged");
        if (after && vf_split(k < len))
        {
            vf_assert(chk(csrc[k], off + k), "slicing leaves the elements of the source unchanged");
            vf_cover("source element");
        }
    }
}

static void fixed(bool view)
{
    fixed_node<std::int32_t> n;
    slicing<primitive_array<std::int32_t>>(n, [&](const auto& e, u64 p) { return n.is(e, p); }, view);
}
HARNESS(slice_int32_copy) { fixed(false); }
HARNESS(slice_int32_view) { fixed(true); }
static void erased(bool view)
{
    fixed_node<std::int32_t> n;
    slicing<array>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, view);
}
HARNESS(slice_erased_copy) { erased(false); }
HARNESS(slice_erased_view) { erased(true); }
HARNESS(slice_null)
{
    null_node n;
    slicing<array>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, vf_split(vf_bool("view")));
}
static void strings(bool view)
{
    string_node<std::int32_t> n;
    auto b = vf_size("byte");
    slicing<string_array>(n, [&](const auto& e, u64 p) { return agree(e.has_value(), n.has(p), n.same(e.get(), p, b)); }, view);
}
HARNESS(slice_string_copy) { strings(false); }
HARNESS(slice_string_view) { strings(true); }
template <class A>
static void lists(const char* f, bool view)
{
    list_node<std::int32_t, std::int32_t> n(f, {}, {});
    auto b = vf_size("item");
    slicing<A>(n, [&](const auto& e, u64 p) { return agree(e.has_value(), n.has(p), n.is_list(e.get(), p, b)); }, view);
}
HARNESS(slice_list_copy) { lists<list_array>("+l", false); }  // vf: thorough time=800
HARNESS(slice_list_view) { lists<list_array>("+l", true); }
HARNESS(slice_list_view_copy) { lists<list_view_array>("+vl", false); }  // vf: thorough time=800
HARNESS(slice_list_view_view) { lists<list_view_array>("+vl", true); }
template <class N>
static void erased_view(N& n)
{
    slicing<array>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, true);
}
HARNESS(slice_struct) { struct_node n; erased_view(n); }
HARNESS(slice_sparse_union) { union_node n("+us:3,7", 3, 7); erased_view(n); }
HARNESS(slice_dense_union) { union_node n("+ud:3,7", 3, 7); erased_view(n); }
HARNESS(slice_dictionary) { dictionary_node<std::uint8_t> n; erased_view(n); }
HARNESS(slice_large_list)
{
    list_node<std::int32_t, std::int64_t> n("+L", {}, {});
    auto b = vf_size("item");
    slicing<big_list_array>(n, [&](const auto& e, u64 p) { return agree(e.has_value(), n.has(p), n.is_list(e.get(), p, b)); }, true);
}
HARNESS(slice_fixed_list)
{
    list_node<std::int32_t, std::int32_t> n("+w:2", {}, {}, 2);
    auto b = vf_size("item");
    slicing<fixed_sized_list_array>(n, [&](const auto& e, u64 p) { return agree(e.has_value(), n.has(p), n.is_list(e.get(), p, b)); }, true);
}
HARNESS(slice_string_views)
{
    view_node n;
    auto b = vf_size("byte");
    slicing<string_view_array>(n, [&](const auto& e, u64 p) { return agree(e.has_value(), n.has(p), n.view(e.get(), p)); }, true);
}
