// C15: union arrays select the child and position named by type id and offset.
#include "arrays.h"
#include <sparrow/array.hpp>
#include <array>
using namespace vf;

// --- unions handed over by others: any offset and length of the union and of its children, any valid ids and offsets
template <class A>
static void read(const char* fmt, u64 t0, u64 t1, unsigned r, unsigned hx = 2, unsigned hy = 2)
{
    union_node n(fmt, t0, t1, {}, {}, {}, hx, hy);
    reading<A>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, r);
    vf_assert(n.x.a_released == 0 && n.y.a_released == 0, "nor their children");
}
HARNESS(sparse_index) { read<sparse_union_array>("+us:0,1", 0, 1, by_index, 0, 2); }
HARNESS(sparse_iterator) { read<sparse_union_array>("+us:0,1", 0, 1, by_iterator); }
HARNESS(sparse_steps) { read<sparse_union_array>("+us:0,1", 0, 1, by_steps); }
HARNESS(sparse_at) { read<array>("+us:0,1", 0, 1, by_at); }
HARNESS(sparse_ends) { read<array>("+us:0,1", 0, 1, by_ends); }
HARNESS(sparse_ids) { read<sparse_union_array>("+us:7,3", 7, 3, by_iterator); }
HARNESS(sparse_swapped) { read<sparse_union_array>("+us:1,0", 1, 0, by_index, 2, 0); }
HARNESS(sparse_large_ids) { read<array>("+us:100,127", 100, 127, by_at); }
HARNESS(dense_index) { read<dense_union_array>("+ud:0,1", 0, 1, by_index, 0, 2); }
HARNESS(dense_iterator) { read<dense_union_array>("+ud:0,1", 0, 1, by_iterator); }
HARNESS(dense_steps) { read<dense_union_array>("+ud:0,1", 0, 1, by_steps); }
HARNESS(dense_at) { read<array>("+ud:0,1", 0, 1, by_at); }
HARNESS(dense_ends) { read<array>("+ud:0,1", 0, 1, by_ends); }
HARNESS(dense_ids) { read<dense_union_array>("+ud:7,3", 7, 3, by_index, 2, 0); }
HARNESS(dense_swapped) { read<dense_union_array>("+ud:1,0", 1, 0, by_iterator); }
HARNESS(dense_large_ids) { read<array>("+ud:64,127", 64, 127, by_index); }

// three children, of which two have the same type, and strings
struct three : node
{
    fixed_node<std::int32_t> x{range(), 2}, z{range(), 2};
    string_node<std::int32_t> y{range(), "u", 2};
    const std::uint8_t* ids;
    const std::int32_t* offsets = nullptr;
    u64 t[3];
    three(const char* fmt, u64 t0, u64 t1, u64 t2)
        : node(fmt, any_off(), 0)
        , t{t0, t1, t2}
    {
        a.length = std::int64_t(any_len(off()));
        ids = static_cast<const std::uint8_t*>(add("ids", slots(), 1));
        if (fmt[2] == 'd') offsets = static_cast<const std::int32_t*>(add("offsets", slots() * 4, 4));
        add_child(x);
        add_child(y);
        add_child(z);
    }
};
template <class A>
static void select(const char* fmt, u64 t0, u64 t1, u64 t2)
{
    three n(fmt, t0, t1, t2);
    auto i = vf_below("i", n.len());
    auto pos = n.off() + i;
    auto c = vf_pick("child", 0, 2);
    vf_assume(n.ids[pos] == n.t[c]);
    auto q = pos;
    if (n.offsets)
    {
        vf_assume(n.offsets[pos] >= 0);
        q = u64(n.offsets[pos]);
    }
    vf_assume(q < (c == 0 ? n.x.len() : c == 1 ? n.y.len() : n.z.len()));
    if (c == 1)
    {
        n.y.well(n.y.off() + q);
        n.y.ends(n.y.off() + n.y.len());
        n.y.ordered(n.y.off() + q + 1, n.y.off() + n.y.len());
    }
    {
        auto a = borrow<A>(n);
        auto e = std::as_const(a)[i];
        if (c != 1)
        {
            auto& f = c == 0 ? n.x : n.z;
            vf_assert(f.is_erased(e, f.off() + q), "element of the child declared for the type id");
        }
        else
        {
            const array_traits::const_reference::base_type& b = e;
            auto* p = std::get_if<detail::array_const_reference_t<std::string>>(&b);
            vf_assert(p != nullptr && p->has_value() && n.y.view(p->get(), n.y.off() + q), "string of the child declared for the type id");
        }
        vf_cover("end");
    }
}
HARNESS(three_sparse) { select<sparse_union_array>("+us:0,1,2", 0, 1, 2); }
HARNESS(three_sparse_ids) { select<sparse_union_array>("+us:20,4,9", 20, 4, 9); }
HARNESS(three_dense) { select<dense_union_array>("+ud:0,1,2", 0, 1, 2); }
HARNESS(three_dense_ids) { select<dense_union_array>("+ud:2,100,0", 2, 100, 0); }

// --- building: up to 3 elements of arbitrary ids and offsets, children of any range
template <class A>
static void build(bool ids_given, u64 t0, u64 t1, const char* fmt)
{
    constexpr bool dense = std::is_same_v<A, dense_union_array>;
    auto n = vf_pick("n", 0, 3);
    fixed_node<std::int32_t> x(range(vf_pick("offset of the child", 0, 1) * 7, dense ? vf_pick("length of the child", 0, 3) : n), 1);
    fixed_node<std::uint8_t> y(range(), 2);
    const auto ox = x.off(), oy = y.off(), lx = x.len(), ly = y.len();
    bool first[3];
    u64 at[3];
    u64 missing = 0;
    if (!dense) vf_assume(lx == n && ly == n);
    {
        u8_buffer<std::uint8_t> ids(n);
        u8_buffer<std::uint32_t> offsets(n);
        for (u64 k = 0; k < n; ++k)
        {
            first[k] = vf_split(vf_bool("first"));
            ids[k] = std::uint8_t(first[k] ? t0 : t1);
            at[k] = dense ? vf_below("at", first[k] ? lx : ly) : k;
            vf_assume(at[k] <= 0x7fffffff);
            offsets[k] = std::uint32_t(at[k]);
            missing += first[k] && !x.has(ox + at[k]);
        }
        std::vector<array> children;
        children.push_back(adopt<array>(x));
        children.push_back(adopt<array>(y));
        std::vector<std::uint8_t> map;
        if (ids_given) map = {std::uint8_t(t0), std::uint8_t(t1)};
        A a = [&]
        {
            if constexpr (dense)
                return ids_given ? A(std::move(children), std::move(ids), std::move(offsets), map) : A(std::move(children), std::move(ids), std::move(offsets));
            else
                return ids_given ? A(std::move(children), std::move(ids), map) : A(std::move(children), std::move(ids));
        }();
        auto [s, sc] = get_arrow_structures(a);
        vf_assert(s->length == std::int64_t(n) && s->offset == 0 && s->n_buffers == (dense ? 2 : 1) && s->n_children == 2 && sc->n_children == 2, "structure of a union");
        vf_assert(s->null_count == std::int64_t(missing), "the null count is the number of missing elements");
        vf_assert(std::strcmp(sc->format, fmt) == 0, "the format declares the type ids");
        vf_assert(a.size() == n && owns_arrow_array(a) && owns_arrow_schema(a), "size");
        for (u64 k = 0; k < n; ++k)
        {
            auto e = std::as_const(a)[k];
            vf_assert(first[k] ? is_element<std::int32_t>(e, x.has(ox + at[k]), x.data[ox + at[k]]) : is_element<std::uint8_t>(e, true, y.data[oy + at[k]]), "element k");
        }
        vf_assert(x.a_released == 0 && y.a_released == 0, "children are still owned");
        vf_cover("end");
    }
    vf_assert(x.a_released == 1 && y.a_released == 1 && x.s_released == 1 && y.s_released == 1, "children are released once");
}
HARNESS(build_sparse) { build<sparse_union_array>(false, 0, 1, "+us:0,1"); }
HARNESS(build_sparse_ids) { build<sparse_union_array>(true, 9, 2, "+us:9,2"); }
HARNESS(build_dense) { build<dense_union_array>(false, 0, 1, "+ud:0,1"); }
HARNESS(build_dense_ids) { build<dense_union_array>(true, 110, 0, "+ud:110,0"); }

// --- equality: exactly when the elements are (lengths up to 2)
template <class A>
static void equal(const char* fmt)
{
    auto ln = vf_pick("ln", 0, 2), lm = vf_pick("lm", 0, 2);
    union_node n(fmt, 0, 1, range(any_off(), ln), {}, {}, 2), m(fmt, 0, 1, range(any_off(), lm), {}, {}, 2);
    bool same = ln == lm;
    for (u64 k = 0; k < ln; ++k) n.well(n.off() + k);
    for (u64 k = 0; k < lm; ++k) m.well(m.off() + k);
    for (u64 k = 0; k < ln && k < lm; ++k)
    {
        auto p = n.off() + k, q = m.off() + k;
        bool fn = vf_split(n.ids[p] == 0), fm = vf_split(m.ids[q] == 0);
        auto u = n.offsets ? u64(n.offsets[p]) : p, v = m.offsets ? u64(m.offsets[q]) : q;
        same &= fn == fm && (fn ? n.x.data[n.x.off() + u] == m.x.data[m.x.off() + v] : n.y.data[n.y.off() + u] == m.y.data[m.y.off() + v]);
    }
    {
        auto a = borrow<A>(n), b = borrow<A>(m);
        vf_assert((std::as_const(a) == std::as_const(b)) == same, "equal exactly when the elements are");
        vf_cover("end");
    }
}
HARNESS(equal_sparse) { equal<sparse_union_array>("+us:0,1"); }
HARNESS(equal_dense) { equal<dense_union_array>("+ud:0,1"); }

// --- copies and moves keep the elements
template <class A>
static void kept(const char* fmt, u64 t0, u64 t1, unsigned how)
{
    union_node n(fmt, t0, t1, {}, {}, {}, 2), m(fmt[2] == 'd' ? "+ud:1,0" : "+us:1,0", 1, 0, range(0, 0), range(0, 0), range(0, 0), 2);
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    n.well(off + i);
    {
        if (how == 0)
        {
            auto a = adopt<A>(n);
            A b(std::move(a));
            vf_assert(b.size() == len && n.is_erased(std::as_const(b)[i], off + i), "a moved union has the same elements");
            auto c = borrow<A>(m);
            c = std::move(b);
            vf_assert(c.size() == len && n.is_erased(std::as_const(c)[i], off + i), "a move-assigned union has the same elements");
        }
        else if (how == 1)
        {
            auto a = borrow<A>(n);
            A b(std::as_const(a));
            vf_assert(b.size() == len && n.is_erased(std::as_const(b)[i], off + i), "a copy has the same elements");
            auto [x, s] = get_arrow_structures(b);
            vf_assert(x != &n.a && x->children[0] != &n.x.a && x->children[0]->buffers[1] != n.x.data && x->buffers[0] != n.ids, "a copy has its own structures");
        }
        else
        {
            auto a = borrow<A>(n);
            auto c = borrow<A>(m);
            c = std::as_const(a);
            vf_assert(c.size() == len && n.is_erased(std::as_const(c)[i], off + i), "an assigned copy has the same elements");
            const auto& self = c;
            c = self;
            vf_assert(c.size() == len && n.is_erased(std::as_const(c)[i], off + i), "self-assignment keeps the elements");
        }
        vf_cover("end");
    }
}
HARNESS(kept_sparse) { kept<sparse_union_array>("+us:5,3", 5, 3, 1); }
HARNESS(kept_dense) { kept<dense_union_array>("+ud:5,3", 5, 3, 1); }
HARNESS(moved_sparse) { kept<sparse_union_array>("+us:5,3", 5, 3, 0); }
HARNESS(moved_dense) { kept<dense_union_array>("+ud:5,3", 5, 3, 0); }
HARNESS(assigned_sparse) { kept<sparse_union_array>("+us:5,3", 5, 3, 2); }
HARNESS(assigned_dense) { kept<dense_union_array>("+ud:5,3", 5, 3, 2); }
