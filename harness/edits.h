// Contracts of the edits of validity bitmaps: callers are checked against them (bodies: C02, C06 and the whole edits of C10).
// They speak of one position, `ghost`, and of the place `source` its element had before the edit.
#pragma once
#include "arrays.h"
using vf::u64;
using bit_buffer = sparrow::buffer<std::uint8_t>;
// vf-contract bitmap: sparrow::arrow_proxy::resize_bitmap(unsigned long, bool) => vf_c_resize_bitmap
// vf-contract bitmap: sparrow::arrow_proxy::insert_bitmap(unsigned long, bool, unsigned long) => vf_c_insert_bitmap
// vf-contract bitmap: sparrow::arrow_proxy::erase_bitmap(unsigned long, unsigned long) => vf_c_erase_bitmap
static u64 ghost;   // the position the contracts speak of
static u64 source;  // where its element was before the edit
static u64 from(u64 p) { return vf_split(p == source) ? source : p; }
static bool bit_at(const void* p, u64 i) { return (static_cast<const std::uint8_t*>(p)[i / 8] >> (i % 8)) & 1; }

// n bits, bit `ghost` as specified
template <class F>
static void new_bits(sparrow::arrow_proxy* p, u64 n, F f)
{
    vf_assert(p->is_created_with_sparrow(), "editing a bitmap requires structures of the library");
    auto nb = (n + 7) / 8;
    auto* b = static_cast<std::uint8_t*>(vf_bytes("new bits", nb, 1));
    if (ghost < n)
    {
        vf_assume(bit_at(b, ghost) == f(p->array().buffers[0], ghost));
    }
    p->set_buffer(0, bit_buffer(b, nb));
}
extern "C" __attribute__((weak, used)) void vf_c_resize_bitmap(sparrow::arrow_proxy* p, std::size_t n, bool v)
{
    const u64 old = p->offset() + p->length();
    new_bits(p, n, [&](const void* b, u64 g) { return g < old ? bit_at(b, g) : v; });
}
extern "C" __attribute__((weak, used)) std::size_t vf_c_insert_bitmap(sparrow::arrow_proxy* p, std::size_t i, bool v, std::size_t count)
{
    vf_assert(i <= p->length(), "inserting requires a position of the bitmap");
    const u64 at = p->offset() + i;
    new_bits(p, p->offset() + p->length() + count, [&](const void* b, u64 g) { return g < at ? bit_at(b, g) : g < at + count ? v : bit_at(b, from(g - count)); });
    return i;
}
extern "C" __attribute__((weak, used)) std::size_t vf_c_erase_bitmap(sparrow::arrow_proxy* p, std::size_t i, std::size_t count)
{
    vf_assert(i < p->length() && count <= p->length() - i, "erasing requires positions of the bitmap");
    const u64 at = p->offset() + i;
    new_bits(p, p->offset() + p->length() - count, [&](const void* b, u64 g) { return g < at ? bit_at(b, g) : bit_at(b, from(g + count)); });
    return i;
}


// The edits of the values are replaced by the contracts of the typed adaptor over bytes (bodies: C03);
// they also speak of the positions `also`. The harness must keep these functions out of line (cflags)..
// vf-contract values: sparrow::buffer_adaptor<int, sparrow::buffer<unsigned char>&>::insert(sparrow::pointer_iterator<int const*>, unsigned long, int const&) requires !sparrow::buffer_adaptor::is_const => vf_c_values_insert
// vf-contract values: sparrow::buffer_adaptor<int, sparrow::buffer<unsigned char>&>::erase(sparrow::pointer_iterator<int const*>, sparrow::pointer_iterator<int const*>) requires !sparrow::buffer_adaptor::is_const => vf_c_values_erase
// vf-contract values: sparrow::buffer_adaptor<int, sparrow::buffer<unsigned char>&>::resize(unsigned long, int const&) requires !sparrow::buffer_adaptor::is_const => vf_c_values_resize
// vf-contract values: sparrow::buffer_adaptor<int, sparrow::buffer<unsigned char>&>::resize(unsigned long) requires !sparrow::buffer_adaptor::is_const => vf_c_values_shrink
static u64 also[10];
static unsigned n_also;
template <class F>
static std::int32_t* new_values(void* adaptor, u64 n, F f)
{
    bit_buffer& b = **static_cast<bit_buffer**>(adaptor);
    auto* p = static_cast<std::int32_t*>(vf_bytes("new values", n * 4, 4));
    if (ghost < n)
    {
        vf_assume(f(b.data<const std::int32_t>(), ghost, p[ghost]));
    }
    for (unsigned k = 0; k < n_also; ++k)
    {
        if (also[k] < n) vf_assume(f(b.data<const std::int32_t>(), also[k], p[also[k]]));
    }
    b = bit_buffer(reinterpret_cast<std::uint8_t*>(p), n * 4);
    return p;
}
static u64 count_of(void* adaptor) { return (**static_cast<bit_buffer**>(adaptor)).size() / 4; }
static u64 index_of(void* adaptor, const std::int32_t* p) { return u64(p - (**static_cast<bit_buffer**>(adaptor)).data<const std::int32_t>()); }
extern "C" __attribute__((weak, used)) std::int32_t* vf_c_values_insert(void* a, const std::int32_t* pos, std::size_t count, const std::int32_t* v)
{
    const u64 n = count_of(a), at = index_of(a, pos);
    vf_assert(at <= n, "inserting requires a position of the values");
    return new_values(a, n + count, [&](auto* o, u64 g, std::int32_t x) { return g < at ? x == o[g] : g < at + count ? x == *v : x == o[from(g - count)]; }) + at;
}
extern "C" __attribute__((weak, used)) std::int32_t* vf_c_values_erase(void* a, const std::int32_t* first, const std::int32_t* last)
{
    const u64 n = count_of(a), at = index_of(a, first), end = index_of(a, last);
    vf_assert(at <= end && end <= n, "erasing requires positions of the values");
    return new_values(a, n - (end - at), [&](auto* o, u64 g, std::int32_t x) { return g < at ? x == o[g] : x == o[from(g + (end - at))]; }) + at;
}
extern "C" __attribute__((weak, used)) void vf_c_values_resize(void* a, std::size_t m, const std::int32_t* v)
{
    const u64 n = count_of(a);
    new_values(a, m, [&](auto* o, u64 g, std::int32_t x) { return g < n ? x == o[g] : x == *v; });
}
extern "C" __attribute__((weak, used)) void vf_c_values_shrink(void* a, std::size_t m)
{
    const u64 n = count_of(a);
    new_values(a, m, [&](auto* o, u64 g, std::int32_t x) { return g < n ? x == o[g] : true; });
}

