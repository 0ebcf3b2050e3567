// C16: dictionary-encoded arrays decode each key to its dictionary value.
// vf: use=bits
#include "arrays.h"
#include <sparrow/array.hpp>
#include <array>
using namespace vf;

// --- arrays handed over by others: any offset and length of the keys and of the dictionary, any valid keys
template <class A, class I>
static void read(unsigned r, unsigned how = 0, unsigned how_values = 2)
{
    dictionary_node<I> n({}, {}, how, how_values);
    reading<A>(n, [&](const auto& e, u64 p) { return n.is_erased(e, p); }, r);
    vf_assert(n.values.a_released == 0 && n.values.s_released == 0, "nor the dictionary");
}
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
HARNESS(index_int32) { read<dictionary_encoded_array<i32>, i32>(by_index); }
HARNESS(index_missing_values) { read<dictionary_encoded_array<i32>, i32>(by_index, 2, 1); }
HARNESS(index_both) { read<dictionary_encoded_array<u32>, u32>(by_index, 0, 0); }  // vf: thorough
HARNESS(iterator_int32) { read<dictionary_encoded_array<i32>, i32>(by_iterator); }
HARNESS(steps_int32) { read<dictionary_encoded_array<i32>, i32>(by_steps, 2); }
HARNESS(at_int32) { read<array, i32>(by_at); }
HARNESS(ends_int32) { read<array, i32>(by_ends, 2); }
HARNESS(index_int8) { read<dictionary_encoded_array<i8>, i8>(by_index); }
HARNESS(index_int16) { read<dictionary_encoded_array<i16>, i16>(by_index); }
HARNESS(index_int64) { read<dictionary_encoded_array<i64>, i64>(by_index); }
HARNESS(index_uint8) { read<dictionary_encoded_array<u8>, u8>(by_index); }
HARNESS(index_uint16) { read<dictionary_encoded_array<u16>, u16>(by_index); }
HARNESS(iterator_uint32) { read<dictionary_encoded_array<u32>, u32>(by_iterator); }
HARNESS(iterator_uint64) { read<dictionary_encoded_array<u64>, u64>(by_iterator); }
HARNESS(erased_int8) { read<array, i8>(by_at); }
HARNESS(erased_int16) { read<array, i16>(by_at, 2, 1); }
HARNESS(erased_int64) { read<array, i64>(by_at); }
HARNESS(erased_uint8) { read<array, u8>(by_at); }
HARNESS(erased_uint16) { read<array, u16>(by_at); }
HARNESS(erased_uint32) { read<array, u32>(by_at); }
HARNESS(erased_uint64) { read<array, u64>(by_at); }

// the values have any layout: strings, and dictionaries of different types of values in turn
template <class A, class I>
static void strings()
{
    struct keyed : node
    {
        string_node<i32> values;
        const I* keys;
        keyed() : node(format_of<I>(), any_off(), 0)
        {
            a.length = std::int64_t(any_len(off()));
            add_validity();
            keys = static_cast<const I*>(add("keys", slots() * sizeof(I), sizeof(I)));
            a.dictionary = &values.a;
            s.dictionary = &values.s;
        }
    } n;
    dictionary_node<I> m({}, {}, 0, 2);
    auto i = vf_below("i", n.len()), j = vf_below("j", m.len());
    auto p = n.off() + i, q = m.off() + j;
    vf_assume(n.keys[p] >= 0 && u64(n.keys[p]) < n.values.len());
    m.well(q);
    auto v = n.values.off() + u64(n.keys[p]);
    n.values.well(v);
    n.values.ends(n.values.off() + n.values.len());
    n.values.ordered(v + 1, n.values.off() + n.values.len());
    {
        auto b = borrow<A>(m);
        vf_assert(m.is_erased(std::as_const(b)[j], q), "an element of a dictionary of integers");
        auto a = borrow<A>(n);
        for (int twice = 0; twice < 2; ++twice)
        {
            auto e = std::as_const(a)[i];
            const array_traits::const_reference::base_type& base = e;
            auto* s = std::get_if<detail::array_const_reference_t<std::string>>(&base);
            bool has = n.has(p) && n.values.has(v);
            vf_assert(s != nullptr && s->has_value() == has && e.has_value() == has, "an element of a dictionary of strings, missing or not");
            if (has) vf_assert(n.values.view(s->get(), v), "the string in the dictionary");
            vf_assert(m.is_erased(std::as_const(b)[j], q), "again of the dictionary of integers");
        }
        vf_cover("end");
    }
}
HARNESS(strings_int32) { strings<dictionary_encoded_array<i32>, i32>(); }
HARNESS(strings_erased) { strings<array, u8>(); }

// a dictionary of structs
HARNESS(rows)
{
    struct keyed : node
    {
        struct_node values{2, {}, {}, {}, 2};
        const i32* keys;
        keyed() : node("i", any_off(), 0)
        {
            a.length = std::int64_t(any_len(off()));
            add_validity();
            keys = static_cast<const i32*>(add("keys", slots() * 4, 4));
            a.dictionary = &values.a;
            s.dictionary = &values.s;
        }
    } n;
    auto i = vf_below("i", n.len());
    auto p = n.off() + i;
    vf_assume(n.keys[p] >= 0 && u64(n.keys[p]) < n.values.len());
    {
        auto a = borrow<dictionary_encoded_array<i32>>(n);
        auto e = std::as_const(a)[i];
        vf_assert(e.has_value() == n.has(p), "missing exactly when the key is");
        if (vf_split(n.has(p))) vf_assert(n.values.is_erased(e, n.values.off() + u64(n.keys[p])), "the row in the dictionary");
        vf_cover("end");
    }
}

// --- building: any number of keys of any content, a dictionary of any range, with a bitmap or none
static u64 missing_bits(const std::uint8_t* p, u64 n)
{
    auto r = n % 8;
    return n - vf_popcount(p, n / 8) - (r ? u64(std::popcount(std::uint8_t(p[n / 8] & ((1u << r) - 1)))) : 0);
}
template <class I>
static void build()
{
    auto n = vf_nd("nq", 0, VF_MAX / 16) * 8 + vf_residue("nr", 8);
    fixed_node<i64> values({}, 2);
    const auto ov = values.off(), lv = values.len();
    auto* keys = static_cast<I*>(vf_bytes("keys", n * sizeof(I), sizeof(I)));
    auto* bits = static_cast<std::uint8_t*>(vf_bytes("bits", (n + 7) / 8, 1));
    auto missing = missing_bits(bits, n);
    bool with = vf_split(vf_bool("bitmap"));
    {
        validity_bitmap vb(bits, n, missing);
        using A = dictionary_encoded_array<I>;
        u8_buffer<I> kb(buffer<I>(keys, n));
        auto a = with ? A(std::move(kb), adopt<array>(values), std::as_const(vb)) : A(std::move(kb), adopt<array>(values));
        auto [x, s] = get_arrow_structures(a);
        vf_assert(x->length == std::int64_t(n) && x->offset == 0 && x->n_buffers == 2 && x->n_children == 0 && s->n_children == 0 && x->dictionary && s->dictionary, "structure of a dictionary-encoded array");
        vf_assert(x->null_count == std::int64_t(with ? missing : 0), "the null count is the number of missing keys");
        vf_assert(std::strcmp(s->format, format_of<I>()) == 0 && std::strcmp(s->dictionary->format, "l") == 0, "formats of the keys and of the values");
        vf_assert(a.size() == n && owns_arrow_array(a) && owns_arrow_schema(a), "as many elements as keys");
        vf_cover("built");
        auto i = vf_below("i", n);
        auto k = static_cast<const I*>(x->buffers[1])[i];
        vf_assume(k >= 0 && u64(k) < lv);
        bool has = !with || bool((bits[i / 8] >> (i % 8)) & 1);
        auto e = std::as_const(a)[i];
        vf_assert(e.has_value() == has, "missing exactly when the key is");
        if (vf_split(has)) vf_assert(is_element<i64>(e, true, values.data[ov + u64(k)]), "the value in the dictionary");
        vf_assert(values.a_released == 0, "the dictionary is still owned");
        vf_cover("element");
    }
    vf_assert(values.a_released == 1 && values.s_released == 1, "the dictionary is released once");
}
HARNESS(build_int32) { build<i32>(); }  // vf: residues
HARNESS(build_uint8) { build<u8>(); }   // vf: residues
HARNESS(build_keys)
{
    vf_leak_check lc;
    auto n = vf_pick("n", 0, 3);
    u16 keys[3];
    bool h[3];
    u64 missing = 0;
    i32 v[2] = {vf_any<i32>("v"), vf_any<i32>("w")};
    {
        u8_buffer<u16> kb(n);
        std::vector<bool> vb;
        for (u64 k = 0; k < n; ++k)
        {
            kb[k] = keys[k] = u16(vf_pick("key", 0, 1));
            h[k] = vf_bool("h");
            missing += !h[k];
            vb.push_back(h[k]);
        }
        dictionary_encoded_array<u16> a(std::move(kb), array(primitive_array<i32>{v[0], v[1]}), vb);
        vf_assert(a.size() == n && get_arrow_array(a)->null_count == std::int64_t(missing), "size and null count");
        u64 k = 0;
        for (auto e : std::as_const(a))
        {
            vf_assert(is_element<i32>(e, h[k], v[keys[k]]), "element k");
            ++k;
        }
        vf_assert(k == n, "visits the size");
        vf_cover("end");
    }
}

// --- equality: exactly when the decoded elements are (lengths up to 2)
HARNESS(equality)
{
    auto ln = vf_pick("ln", 0, 2), lm = vf_pick("lm", 0, 2);
    dictionary_node<i32> n(range(any_off(), ln), {}, 1, 2), m(range(any_off(), lm), {}, 2, 2);
    for (u64 k = 0; k < ln; ++k) n.well(n.off() + k);
    for (u64 k = 0; k < lm; ++k) m.well(m.off() + k);
    bool same = ln == lm;
    for (u64 k = 0; k < ln && k < lm; ++k)
    {
        auto p = n.off() + k, q = m.off() + k;
        same = same && vf_split(n.has(p)) && n.values.data[n.values.off() + u64(n.keys[p])] == m.values.data[m.values.off() + u64(m.keys[q])];
    }
    {
        auto a = borrow<dictionary_encoded_array<i32>>(n), b = borrow<dictionary_encoded_array<i32>>(m);
        vf_assert(std::ranges::equal(std::as_const(a), std::as_const(b)) == same, "equal exactly when the decoded elements are");
        auto x = borrow<array>(n), y = borrow<array>(m);
        vf_assert((x == y) == same, "also type-erased");
        vf_cover("end");
    }
}

// --- copies and moves keep the elements
template <class I>
static void kept(unsigned how)
{
    using A = dictionary_encoded_array<I>;
    dictionary_node<I> n({}, {}, 2, 2), m(range(0, 0), range(0, 0), 2, 2);
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    n.well(off + i);
    {
        if (how == 0)
        {
            auto a = adopt<A>(n);
            A b(std::move(a));
            vf_assert(b.size() == len && n.is_erased(std::as_const(b)[i], off + i), "a moved array has the same elements");
            auto c = borrow<A>(m);
            c = std::move(b);
            vf_assert(c.size() == len && n.is_erased(std::as_const(c)[i], off + i), "a move-assigned array has the same elements");
            vf_assert(n.a_released == 0 && n.s_released == 0, "still owned");
        }
        else if (how == 1)
        {
            auto a = borrow<A>(n);
            A b(std::as_const(a));
            vf_assert(b.size() == len && n.is_erased(std::as_const(b)[i], off + i), "a copy has the same elements");
            auto [x, s] = get_arrow_structures(b);
            vf_assert(x != &n.a && x->dictionary != &n.values.a && x->dictionary->buffers[1] != n.values.data && x->buffers[1] != n.keys, "a copy has its own structures");
        }
        else
        {
            auto a = borrow<A>(n);
            auto c = borrow<A>(m);
            c = std::as_const(a);
            vf_assert(c.size() == len && n.is_erased(std::as_const(c)[i], off + i), "an assigned copy has the same elements");
            const auto& self = c;
            c = self;
            vf_assert(c.size() == len && n.is_erased(std::as_const(c)[i], off + i), "self-assignment keeps the elements");
        }
        vf_cover("end");
    }
    if (how == 0) vf_assert(n.a_released == 1 && n.s_released == 1, "released once");
}
HARNESS(moved) { kept<i32>(0); }
HARNESS(copied) { kept<i32>(1); }
HARNESS(assigned) { kept<u8>(2); }
