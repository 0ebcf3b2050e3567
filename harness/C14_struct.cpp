// C14: struct arrays present the row made of each child's element.
// vf: use=bits
#include "arrays.h"
#include <sparrow/array.hpp>
using namespace vf;

// --- rows of arrays handed over by others: any offset and length of the struct and of each field
template <class A>
static void read(unsigned r)
{
    // stepping does not concern the fields
    struct_node n(r == by_steps || r == by_reverse ? 2 : 0);
    reading<A>(n, [&](const auto& e, u64 p)
               {
                   if constexpr (std::is_same_v<A, array>) return n.is_erased(e, p);
                   else return n.is(e, p);
               }, r);
}
HARNESS(index) { read<struct_array>(by_index); }
HARNESS(iterator) { read<struct_array>(by_iterator); }
HARNESS(steps) { read<struct_array>(by_steps); }
HARNESS(reverse) { read<struct_array>(by_reverse); }
HARNESS(bitmap) { read<struct_array>(by_bitmap); }
HARNESS(erased_index) { read<array>(by_index); }
HARNESS(erased_at) { read<array>(by_at); }
HARNESS(erased_ends) { read<array>(by_ends); }

// the row of the mutable array, and the fields behind it
HARNESS(row)
{
    struct_node n;
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    {
        auto a = borrow<struct_array>(n);
        auto e = a[i];
        vf_assert(agree(e.has_value(), n.has(off + i), n.is_struct(e.get(), off + i)), "the row of the mutable array");
        const auto& c = a;
        auto v = *(c.values().begin() + std::ptrdiff_t(i));
        vf_assert(n.is_struct(v, off + i), "the row, whatever its validity");
        auto j = vf_upto("j", n.x.len() - 1), k = vf_upto("k", n.y.len() - 1);
        vf_assert(n.x.is_erased(array_element(*c.raw_child(0), j), n.x.off() + j), "field 0 is child 0");
        vf_assert(n.y.is_erased(array_element(*a.raw_child(1), k), n.y.off() + k), "field 1 is child 1");
        vf_cover("end");
    }
    vf_assert(n.a_released == 0 && n.x.a_released == 0 && n.y.a_released == 0, "nothing released");
}

// no fields
HARNESS(no_fields)
{
    node n("+s", any_off(), 0);
    n.a.length = std::int64_t(any_len(n.off()));
    n.add_validity();
    auto i = vf_below("i", n.len());
    {
        auto a = borrow<struct_array>(n);
        const auto& c = a;
        vf_assert(c.size() == n.len(), "size");
        auto e = c[i];
        vf_assert(e.has_value() == n.has(n.off() + i) && e.get().size() == 0, "an empty row");
        vf_assert(e.get() == c[vf_below("j", n.len())].get(), "empty rows are equal");
        vf_cover("end");
    }
}

// fields of any layout: a struct and strings inside of a struct
struct nested_node : node
{
    struct_node in{2};
    string_node<std::int32_t> str;
    nested_node()
        : node("+s", any_off(), 0)
    {
        a.length = std::int64_t(any_len(off()));
        add_validity();
        add_child(in);
        add_child(str);
        vf_assume(off() + len() <= in.len() && off() + len() <= str.len());
    }
    bool is_row(const struct_value& v, u64 pos) const
    {
        auto e = v[1];
        const array_traits::const_reference::base_type& b = e;
        auto* p = std::get_if<detail::array_const_reference_t<std::string>>(&b);
        auto q = str.off() + pos;
        return v.size() == 2 && in.is_erased(v[0], in.off() + pos) && p != nullptr && p->has_value() == str.has(q)
               && (!vf_split(str.has(q)) || str.view(p->get(), q));
    }
};
HARNESS(nested)
{
    nested_node n;
    const auto off = n.off();
    auto i = vf_below("i", n.len());
    n.str.well(n.str.off() + off + i);
    n.str.ends(n.str.off() + n.str.len());
    n.str.ordered(n.str.off() + off + i + 1, n.str.off() + n.str.len());
    {
        auto a = borrow<struct_array>(n);
        const auto& c = a;
        auto e = c[i];
        vf_assert(e.has_value() == n.has(off + i) && n.is_row(e.get(), off + i), "row of a row and a string");
        vf_cover("end");
    }
    vf_assert(n.a_released == 0 && n.in.a_released == 0 && n.in.x.a_released == 0 && n.str.a_released == 0, "nothing released");
}

// --- rows are equal exactly when all their fields are
static bool same_field(const auto& f, u64 p, const auto& g, u64 q) { return agree(f.has(p), g.has(q), f.data[p] == g.data[q]); }
template <class A, class B>
static void equal_rows(A& n, B& m)
{
    auto i = vf_below("i", n.len()), j = vf_below("j", m.len());
    {
        auto a = borrow<struct_array>(n), b = borrow<struct_array>(m);
        const auto &ca = a, &cb = b;
        auto p = n.off() + i, q = m.off() + j;
        bool same = same_field(n.x, n.x.off() + p, m.x, m.x.off() + q) & same_field(n.y, n.y.off() + p, m.y, m.y.off() + q);
        auto x = ca[i], y = cb[j];
        vf_assert((x.get() == y.get()) == same, "rows are equal exactly when all their fields are");
        vf_assert((x.get() != y.get()) == !same, "and different otherwise");
        vf_assert((x == y) == agree(n.has(p), m.has(q), same), "optional rows: both missing or both present and equal");
        vf_cover("end");
    }
}
HARNESS(equality)
{
    struct_node n(2), m(2);
    equal_rows(n, m);
}
HARNESS(equality_of_missing_fields)
{
    struct_node n(1, {}, {}, {}, 2), m(0, {}, {}, {}, 2);
    equal_rows(n, m);
}
HARNESS(equality_of_types)
{
    // the same field values of another type: not equal
    struct_node n(2);
    struct other : node
    {
        fixed_node<std::int32_t> x{range(), 2};
        fixed_node<std::int8_t> y{range(), 2};
        other() : node("+s", 0, 1) { slack = 0; add_validity(2); add_child(x); add_child(y); vf_assume(x.len() > 0 && y.len() > 0); }
    } m;
    struct fewer : node
    {
        fixed_node<std::int32_t> x{range(), 2};
        fewer() : node("+s", 0, 1) { slack = 0; add_validity(2); add_child(x); vf_assume(x.len() > 0); }
    } k;
    auto i = vf_below("i", n.len());
    {
        auto a = borrow<struct_array>(n), b = borrow<struct_array>(m), c = borrow<struct_array>(k);
        auto x = std::as_const(a)[i], y = std::as_const(b)[0], z = std::as_const(c)[0];
        vf_assert(!(x.get() == y.get()), "fields of different types are not equal");
        vf_assert(!(x.get() == z.get()) && !(z.get() == x.get()), "rows of different sizes are not equal");
        vf_assert(x.get() == x.get() && z.get() == z.get(), "a row equals itself");
        vf_cover("end");
    }
}
// arrays are equal exactly when they have the same elements (lengths up to 2)
HARNESS(array_equality)
{
    auto ln = vf_pick("ln", 0, 2), lm = vf_pick("lm", 0, 2);
    struct_node n(2, range(any_off(), ln)), m(2, range(any_off(), lm), {}, {}, 1);
    {
        auto a = borrow<struct_array>(n), b = borrow<struct_array>(m);
        bool same = ln == lm;
        if (same)
            for (u64 k = 0; k < ln; ++k)
            {
                auto p = n.off() + k, q = m.off() + k;
                same &= agree(n.has(p), m.has(q), same_field(n.x, n.x.off() + p, m.x, m.x.off() + q) & same_field(n.y, n.y.off() + p, m.y, m.y.off() + q));
            }
        vf_assert((std::as_const(a) == std::as_const(b)) == same, "equal exactly when all elements are");
        vf_cover("end");
    }
}

// --- building
static void structure(struct_array& a, u64 n, u64 missing, std::int64_t fields)
{
    auto [x, s] = get_arrow_structures(a);
    vf_assert(x->length == std::int64_t(n) && x->offset == 0 && x->n_buffers == 1 && x->n_children == fields && s->n_children == fields && x->dictionary == nullptr, "structure of a struct array");
    vf_assert(x->null_count == std::int64_t(missing), "the null count is the number of missing rows");
    vf_assert(std::strcmp(s->format, "+s") == 0, "format");
    vf_assert(a.size() == n && a.empty() == (n == 0) && owns_arrow_array(a) && owns_arrow_schema(a), "size of the children");
}

// children of any offset and any common length, adopted from other producers; a bitmap for the rows or none
static u64 vf_popcount_missing(const std::uint8_t* p, u64 n)
{
    auto r = n % 8;
    return n - vf_popcount(p, n / 8) - (r ? u64(std::popcount(std::uint8_t(p[n / 8] & ((1u << r) - 1)))) : 0);
}
HARNESS(build)  // vf: residues
{
    auto n = vf_nd("nq", 0, VF_MAX / 16) * 8 + vf_residue("nr", 8);
    fixed_node<std::int32_t> x(range(vf_upto("offx", VF_MAX / 2), n));
    fixed_node<std::uint8_t> y(range(vf_upto("offy", VF_MAX / 2), n), 2);
    const auto ox = x.off(), oy = y.off();
    bool with = vf_split(vf_bool("bitmap"));
    auto* bits = static_cast<std::uint8_t*>(vf_bytes("bits", (n + 7) / 8, 1));
    auto missing = vf_popcount_missing(bits, n);
    {
        validity_bitmap vb(bits, n, missing);
        std::vector<array> children;
        children.push_back(adopt<array>(x));
        children.push_back(adopt<array>(y));
        auto a = with ? struct_array(std::move(children), std::as_const(vb)) : struct_array(std::move(children));
        structure(a, n, with ? missing : 0, 2);
        vf_cover("built");
        auto i = vf_below("i", n);
        auto e = std::as_const(a)[i];
        vf_assert(e.get().size() == 2 && x.is_erased(e.get()[0], ox + i) && y.is_erased(e.get()[1], oy + i), "row i is made of element i of each child");
        vf_assert(e.has_value() == (!with || bool((bits[i / 8] >> (i % 8)) & 1)), "validity of the row");
        vf_assert(x.a_released == 0 && y.a_released == 0, "children are still owned");
        vf_cover("row");
    }
    vf_assert(x.a_released == 1 && y.a_released == 1 && x.s_released == 1 && y.s_released == 1, "children are released once");
}
HARNESS(build_bools)
{
    vf_leak_check lc;
    auto n = vf_pick("n", 0, 3);
    bool h[3];
    auto v = vf_any<std::int32_t>("v");
    auto w = vf_any<std::uint64_t>("w");
    u64 missing = 0;
    {
        std::vector<bool> vb;
        for (u64 k = 0; k < n; ++k)
        {
            h[k] = vf_bool("h");
            missing += !h[k];
            vb.push_back(h[k]);
        }
        std::vector<array> children;
        children.push_back(array(primitive_array<std::int32_t>(std::size_t(n), v)));
        children.push_back(array(primitive_array<std::uint64_t>(std::size_t(n), w)));
        struct_array a(std::move(children), vb);
        structure(a, n, missing, 2);
        for (u64 k = 0; k < n; ++k)
        {
            auto e = std::as_const(a)[k];
            vf_assert(e.has_value() == h[k] && is_element<std::int32_t>(e.get()[0], true, v) && is_element<std::uint64_t>(e.get()[1], true, w), "row k");
        }
        vf_cover("end");
    }
}
HARNESS(build_empty)
{
    vf_leak_check lc;
    {
        struct_array a{std::vector<array>{}};
        structure(a, 0, 0, 0);
        vf_cover("end");
    }
}

// --- copies and moves keep the rows
HARNESS(moved)
{
    struct_node n;
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    {
        auto a = adopt<struct_array>(n);
        struct_array b(std::move(a));
        vf_assert(n.is(std::as_const(b)[i], off + i), "moved");
        struct_node m(2, range(0, 0));
        auto c = adopt<struct_array>(m);
        c = std::move(b);
        vf_assert(c.size() == len && n.is(std::as_const(c)[i], off + i), "move-assigned");
        vf_assert(n.a_released == 0 && n.s_released == 0, "still owned");
        vf_cover("end");
    }
    vf_assert(n.a_released == 1 && n.s_released == 1, "released once");
}
HARNESS(copies)
{
    struct_node n;
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    {
        auto a = borrow<struct_array>(n);
        struct_array b(a);
        auto [x, s] = get_arrow_structures(b);
        vf_assert(x != &n.a && x->children[0] != &n.x.a && x->children[0]->buffers[1] != n.x.data, "a copy has its own structures");
        vf_assert(b.size() == len && n.is(std::as_const(b)[i], off + i), "a copy has the same rows");
        vf_cover("end");
    }
}
HARNESS(copy_assigned)
{
    struct_node n(2), m(2, range(0, 0));
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    {
        auto a = borrow<struct_array>(n), c = borrow<struct_array>(m);
        c = std::as_const(a);
        const auto& self = c;
        c = self;
        vf_assert(c.size() == len && n.is(std::as_const(c)[i], off + i), "an assigned copy has the same rows");
        vf_cover("end");
    }
}
