// C12: string-view and binary-view arrays give the exact bytes of short and long values.
// vf: use=bits
#include "arrays.h"
#include <array>
#include <span>
using namespace vf;
using u8 = std::uint8_t;
using i32 = std::int32_t;

// --- arrays handed over by others: any views, two buffers of long values
template <class A>
static void read(unsigned r, const char* fmt, unsigned how)
{
    view_node n({}, fmt, how);
    reading<A>(n, [&](const auto& e, u64 p) { return agree(e.has_value(), n.has(p), n.view(e.get(), p)); }, r);
}
template <class A>
static void strings(unsigned r, unsigned how = 0) { read<A>(r, "vu", how); }
template <class A>
static void bytes(unsigned r, unsigned how = 0) { read<A>(r, "vz", how); }
HARNESS(index) { strings<string_view_array>(by_index); }
HARNESS(iterator) { strings<string_view_array>(by_iterator); }
HARNESS(at) { strings<string_view_array>(by_at); }
HARNESS(ends) { strings<string_view_array>(by_ends, 2); }
HARNESS(reverse) { strings<string_view_array>(by_reverse, 2); }
HARNESS(steps) { strings<string_view_array>(by_steps, 2); }
HARNESS(bitmap) { strings<string_view_array>(by_bitmap); }
HARNESS(binary_index) { bytes<binary_view_array>(by_index); }
HARNESS(binary_iterator) { bytes<binary_view_array>(by_iterator); }
HARNESS(binary_at) { bytes<binary_view_array>(by_at); }

// --- building: values of any length, up to two of them (bounded)
template <class A, class V>
static void build(u64 most, bool with_bitmap, u64 shortest = 0, u64 longest = VF_MAX / 4)
{
    vf_leak_check lc;
    const u64 n = vf_pick("n", 0, most);
    u64 size[3];
    void* data[3];
    u8 byte[3];
    const auto at = vf_nd("at", 0, VF_MAX / 4);
    std::vector<V> values;
    for (u64 k = 0; k < n; ++k)
    {
        size[k] = vf_nd("size", shortest, longest);
        data[k] = vf_bytes("data", size[k], 1);
        byte[k] = at < size[k] ? static_cast<u8*>(data[k])[at] : 0;
        values.push_back(V(static_cast<const typename V::value_type*>(data[k]), size[k]));
    }
    std::vector<bool> has(n, true);
    if (with_bitmap)
        for (u64 k = 0; k < n; ++k) has[k] = vf_bool("has");
    {
        A a = with_bitmap ? A(values, has) : A(values);
        const A& c = a;
        auto [x, s] = get_arrow_structures(a);
        u64 missing = 0, total = 0;
        for (u64 k = 0; k < n; ++k)
        {
            missing += !has[k];
            if (vf_split(size[k] > 12)) total += size[k];
        }
        vf_assert(c.size() == n && x->length == std::int64_t(n) && x->offset == 0 && x->n_children == 0 && !x->dictionary, "length and structure");
        vf_assert(x->null_count == std::int64_t(missing), "the null count is the number of missing elements");
        vf_assert(std::string_view(s->format) == (std::is_same_v<A, string_view_array> ? "vu" : "vz"), "format");
        vf_assert(x->n_buffers == 4 && static_cast<const std::int64_t*>(x->buffers[3])[0] == std::int64_t(total), "the size of the buffer of long values is stored");
        for (u64 k = 0; k < n; ++k)
        {
            auto e = c[k];
            auto i = *(c.begin() + std::ptrdiff_t(k));
            vf_assert(e.has_value() == has[k] && i.has_value() == has[k], "validity");
            vf_assert(e.get().size() == size[k] && i.get().size() == size[k] && i.get().data() == e.get().data(), "size");
            if (vf_split(at < size[k])) vf_assert(u8(e.get()[at]) == byte[k], "bytes");
            // the encoding itself
            auto* v = static_cast<const u8*>(x->buffers[1]) + 16 * k;
            if (size[k] <= 12)
            {
                vf_assert((const void*) e.get().data() == v + 4, "short values are stored in their view");
                if (vf_split(at < 12 && at >= size[k])) vf_assert(v[4 + at] == 0, "followed by zeros");
            }
            else
            {
                vf_assert((const void*) e.get().data() >= x->buffers[2], "long values in the buffer of long values");
                if (vf_split(at < 4)) vf_assert(v[4 + at] == byte[k], "with their first bytes in their view");
            }
        }
        vf_cover("built");
    }
    for (u64 k = 0; k < n; ++k) ::operator delete(data[k]);
}
HARNESS(build_one) { build<string_view_array, std::string_view>(1, true); }  // vf: unroll=16
HARNESS(build_two) { build<string_view_array, std::string_view>(2, false, 10); }  // vf: unroll=16
HARNESS(build_two_any) { build<string_view_array, std::string_view>(2, false); }  // vf: unroll=16 thorough
HARNESS(build_two_missing) { build<string_view_array, std::string_view>(2, true, 12, 13); }  // vf: unroll=16
HARNESS(build_binary) { build<binary_view_array, std::span<const std::byte>>(2, false, 10); }  // vf: unroll=16
HARNESS(build_three) { build<string_view_array, std::string_view>(3, false); }  // vf: unroll=16 thorough
