// C09: a primitive array reads back the values and validity it was built from.
// vf: use=bits
#include "arrays.h"
#include <sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp>
#include <bit>
#include <ranges>
#include <span>
#include <type_traits>
using namespace vf;

// --- reading arrays handed over by others

template <class T>
static void read(unsigned r)
{
    fixed_node<T> n;
    reading<primitive_array<T>>(n, [&](const auto& e, u64 p) { return n.is(e, p); }, r);
}
HARNESS(index_int32) { read<std::int32_t>(by_index); }
HARNESS(iterator_int32) { read<std::int32_t>(by_iterator); }
HARNESS(at_int32) { read<std::int32_t>(by_at); }
HARNESS(ends_int32) { read<std::int32_t>(by_ends); }
HARNESS(reverse_int32) { read<std::int32_t>(by_reverse); }
HARNESS(steps_int32) { read<std::int32_t>(by_steps); }
HARNESS(bitmap_int32) { read<std::int32_t>(by_bitmap); }
HARNESS(index_uint8) { read<std::uint8_t>(by_index); }
HARNESS(iterator_int64) { read<std::int64_t>(by_iterator); }
HARNESS(index_float) { read<float>(by_index); }
HARNESS(iterator_double) { read<double>(by_iterator); }
HARNESS(iterator_int8) { read<std::int8_t>(by_iterator); }    // vf: thorough
HARNESS(index_uint16) { read<std::uint16_t>(by_index); }      // vf: thorough
HARNESS(iterator_int16) { read<std::int16_t>(by_iterator); }  // vf: thorough
HARNESS(index_uint32) { read<std::uint32_t>(by_index); }      // vf: thorough
HARNESS(index_uint64) { read<std::uint64_t>(by_index); }      // vf: thorough

// an owning array reads the same (the structure is moved in, moved and swapped out again)
HARNESS(owned)
{
    fixed_node<std::int32_t> n;
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    {
        auto a = adopt<primitive_array<std::int32_t>>(n);
        vf_assert(n.a.release == nullptr && n.s.release == nullptr, "adopted");
        primitive_array<std::int32_t> b(std::move(a));
        const auto& cb = b;
        vf_assert(cb.size() == len && n.is(cb[i], off + i), "a moved array keeps its elements");
        fixed_node<std::int32_t> m(range(0, 0));
        auto c = adopt<primitive_array<std::int32_t>>(m);
        c = std::move(b);
        const auto& cc = c;
        vf_assert(cc.size() == len && n.is(cc[i], off + i) && n.is(*(cc.begin() + std::ptrdiff_t(i)), off + i), "a move-assigned array keeps its elements");
        vf_assert(n.a_released == 0 && n.s_released == 0, "still owned");
        vf_cover("end");
    }
    vf_assert(n.a_released == 1 && n.s_released == 1, "released once");
}

// --- building

using VB = validity_bitmap;
static u64 ones(const std::uint8_t* p, u64 n)
{
    auto r = n % 8;
    return vf_popcount(p, n / 8) + (r ? u64(std::popcount(std::uint8_t(p[n / 8] & ((1u << r) - 1)))) : 0);
}

// the array that was built has n elements; the caller checks them
template <class T>
static void structure(primitive_array<T>& a, u64 n, u64 missing)
{
    auto [x, s] = get_arrow_structures(a);
    vf_assert(x->length == std::int64_t(n) && x->offset == 0 && x->n_buffers == 2 && x->n_children == 0 && x->dictionary == nullptr, "structure of a fixed-width array");
    vf_assert(x->null_count == std::int64_t(missing), "the null count is the number of missing elements");
    vf_assert(std::strcmp(s->format, std::is_same_v<T, bool> ? "b" : format_of<T>()) == 0, "format of the type");
    vf_assert(a.size() == n && a.empty() == (n == 0), "size of the input");
    vf_assert(owns_arrow_array(a) && owns_arrow_schema(a), "the array owns what it was built from");
}

template <class T, class V>
static void element(const primitive_array<T>& a, u64 i, bool has, V value)
{
    auto e = a[i];
    auto it = *(a.begin() + std::ptrdiff_t(i));
    vf_assert(agree(e.has_value(), has, e.get() == value), "element i by index");
    vf_assert(agree(it.has_value(), has, it.get() == value), "element i by iterator");
}

// a data buffer and a bitmap, of any length
template <class T>
static void buffer_and_bitmap()
{
    vf_leak_check lc;
    auto n = vf_nd("nq", 0, VF_MAX / 16) * 8 + vf_residue("nr", 8);
    auto* src = static_cast<T*>(vf_bytes("values", n * sizeof(T), sizeof(T)));
    auto nb = (n + 7) / 8;
    auto* bits = static_cast<std::uint8_t*>(vf_bytes("bits", nb, 1));
    auto missing = n - ones(bits, n);
    {
        buffer<T> values(src, n);
        // empty bitmaps stand for no missing element
        bool by_copy = vf_split(vf_bool("by copy"));
        VB vb(bits, n, missing);
        u8_buffer<T> data(values);
        primitive_array<T> a = by_copy ? primitive_array<T>(std::move(data), std::as_const(vb)) : primitive_array<T>(std::move(data), std::move(vb));
        structure(a, n, missing);
        vf_cover("built");
        if (n > 0)
        {
            auto i = vf_nd("iq", 0, VF_MAX / 16) * 8 + vf_residue("ir", 8);
            vf_assume(i < n);
            if (by_copy)
            {
                element(a, i, vb.test(i), src[i]);
            }
            else
            {
                auto e = std::as_const(a)[i];
                vf_assert(e.get() == src[i] && e.has_value() == bool((bits[i / 8] >> (i % 8)) & 1), "element i");
            }
            vf_cover("element");
        }
    }
}
HARNESS(buffer_and_bitmap_int32) { buffer_and_bitmap<std::int32_t>(); }    // vf: residues
HARNESS(buffer_and_bitmap_uint8) { buffer_and_bitmap<std::uint8_t>(); }    // vf: residues thorough
HARNESS(buffer_and_bitmap_int64) { buffer_and_bitmap<std::int64_t>(); }    // vf: residues thorough

// values without validity: no missing element
template <class T>
static void no_missing()
{
    vf_leak_check lc;
    auto n = vf_nd("nq", 0, VF_MAX / 16) * 8 + vf_residue("nr", 8);
    auto* src = static_cast<T*>(vf_bytes("values", n * sizeof(T), sizeof(T)));
    {
        buffer<T> values(src, n);
        primitive_array<T> a{u8_buffer<T>(values)};
        structure(a, n, 0);
        vf_cover("built");
        if (n > 0)
        {
            auto i = vf_below("i", n);
            element(a, i, true, src[i]);
            vf_cover("element");
        }
    }
}
HARNESS(no_missing_int32) { no_missing<std::int32_t>(); }  // vf: residues

template <class T>
static void repeated()
{
    vf_leak_check lc;
    auto n = vf_nd("nq", 0, VF_MAX / 16) * 8 + vf_residue("nr", 8);
    auto v = vf_any<T>("v");
    {
        primitive_array<T> a(std::size_t(n), v);
        structure(a, n, 0);
        vf_cover("built");
        if (n > 0)
        {
            auto i = vf_below("i", n);
            element(a, i, true, v);
            vf_cover("element");
        }
    }
}
HARNESS(repeated_int32) { repeated<std::int32_t>(); }  // vf: residues
HARNESS(repeated_int16) { repeated<std::int16_t>(); }  // vf: residues thorough

// ranges of values with ranges of validities: every length up to 9 (one block of validity bits and the next)
static constexpr u64 N = 9;
template <class T>
struct input
{
    u64 n = vf_pick("n", 0, N);
    T v[N];
    bool h[N];
    u64 missing = 0;
    input()
    {
        for (u64 k = 0; k < n; ++k)
        {
            v[k] = std::is_same_v<T, bool> ? T(vf_bool("v")) : vf_any<T>("v");
            h[k] = vf_bool("h");
            missing += !h[k];
        }
    }
    void check(primitive_array<T>& a, bool all = false)
    {
        structure(a, n, all ? 0 : missing);
        vf_cover("built");
        for (u64 k = 0; k < n; ++k)
        {
            element(a, k, all || h[k], v[k]);
        }
        vf_cover("elements");
    }
};

template <class T>
static void range_and_bools()
{
    vf_leak_check lc;
    input<T> in;
    {
        primitive_array<T> a(std::span<const T>(in.v, in.n), std::span<const bool>(in.h, in.n));
        in.check(a);
    }
}
HARNESS(range_and_bools_int32) { range_and_bools<std::int32_t>(); }

template <class T>
static void range_and_vector_bool()
{
    vf_leak_check lc;
    input<T> in;
    {
        std::vector<bool> h;
        for (u64 k = 0; k < in.n; ++k) h.push_back(in.h[k]);
        std::vector<T> v(in.v, in.v + in.n);
        primitive_array<T> a(v, h);
        in.check(a);
    }
}
HARNESS(range_and_vector_bool_int16) { range_and_vector_bool<std::int16_t>(); }

// positions of missing elements, in any order and possibly repeated
HARNESS(range_and_positions)
{
    vf_leak_check lc;
    input<std::int32_t> in;
    vf_assume(in.n > 0);
    auto m = vf_pick("m", 0, 3);
    {
        std::vector<std::size_t> pos;
        for (u64 k = 0; k < m; ++k) pos.push_back(vf_below("pos", in.n));
        std::vector<std::int32_t> v(in.v, in.v + in.n);
        primitive_array<std::int32_t> a(v, pos);
        in.missing = 0;
        for (u64 k = 0; k < in.n; ++k)
        {
            in.h[k] = true;
            for (auto p : pos) in.h[k] = in.h[k] & (p != k);
            in.missing += !in.h[k];
        }
        in.check(a);
    }
}

template <class T>
static void range_only()
{
    vf_leak_check lc;
    input<T> in;
    {
        std::vector<T> v(in.v, in.v + in.n);
        primitive_array<T> a(v);
        in.check(a, true);
    }
}
HARNESS(range_only_int32) { range_only<std::int32_t>(); }
HARNESS(range_only_uint8) { range_only<std::uint8_t>(); }

template <class T>
static void nullables()
{
    vf_leak_check lc;
    input<T> in;
    {
        std::vector<nullable<T>> v;
        for (u64 k = 0; k < in.n; ++k) v.push_back(nullable<T>(in.v[k], bool(in.h[k])));
        primitive_array<T> a(v);
        in.check(a);
    }
}
HARNESS(nullables_int32) { nullables<std::int32_t>(); }
HARNESS(nullables_bool) { nullables<bool>(); }  // vf: thorough
HARNESS(nullables_int64) { nullables<std::int64_t>(); }

HARNESS(initializer_list)
{
    vf_leak_check lc;
    auto x = vf_any<std::int32_t>("x"), y = vf_any<std::int32_t>("y"), z = vf_any<std::int32_t>("z");
    {
        primitive_array<std::int32_t> a{x, y, z};
        structure(a, 3, 0);
        element(a, 0, true, x);
        element(a, 1, true, y);
        element(a, 2, true, z);
        vf_cover("end");
    }
}

// a range of convertible values
HARNESS(converted)
{
    vf_leak_check lc;
    auto n = vf_pick("n", 0, N);
    {
        primitive_array<std::int64_t> a(std::views::iota(std::int32_t(3), std::int32_t(3 + n)));
        structure(a, n, 0);
        for (u64 k = 0; k < n; ++k) element(a, k, true, std::int64_t(3 + k));
        vf_cover("end");
    }
}

// copies are equal, independent, and released on their own
HARNESS(copies)
{
    vf_leak_check lc;
    auto n = vf_nd("nq", 0, VF_MAX / 16) * 8 + vf_residue("nr", 8);
    auto v = vf_any<std::int32_t>("v"), w = vf_any<std::int32_t>("w");
    {
        primitive_array<std::int32_t> a(std::size_t(n), v);
        primitive_array<std::int32_t> b(a), c{w};
        c = b;
        structure(b, n, 0);
        structure(c, n, 0);
        vf_cover("copied");
        if (n > 0)
        {
            auto i = vf_below("i", n);
            b[i] = w;
            element(a, i, true, v);
            element(b, i, true, w);
            element(c, i, true, v);
            vf_cover("element");
        }
    }
}
