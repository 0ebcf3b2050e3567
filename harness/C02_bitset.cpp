// C02: a bitset is a resizable sequence of bits with an always exact count of the unset bits.
// The state is arbitrary: any size, any content; spare bits of the last block are zero (established by every operation).
// vf: headers-only
#include "vf.h"
#include <sparrow/buffer/buffer.hpp>
#include <sparrow/buffer/buffer_view.hpp>
#include <sparrow/buffer/dynamic_bitset.hpp>
#include <sparrow/buffer/dynamic_bitset/dynamic_bitset_view.hpp>
#include <sparrow/buffer/dynamic_bitset/non_owning_dynamic_bitset.hpp>
#include <bit>
#include <vector>
#include <stdexcept>

using DB = sparrow::dynamic_bitset<std::uint8_t>;
using D32 = sparrow::dynamic_bitset<std::uint32_t>;

// a size: any number of whole blocks plus every number of further bits (one path each, so that bit positions stay linear)
template <class T>
static std::uint64_t bits_size(const char* q = "q", const char* r = "r")
{
    constexpr std::uint64_t B = sizeof(T) * 8;
    return vf_nd(q, 0, VF_MAX / B) * B + vf_residue(r, B);
}

// a bit position below n
template <class T>
static std::uint64_t bit_below(std::uint64_t n, const char* q = "jq", const char* r = "jr")
{
    auto j = bits_size<T>(q, r);
    vf_assume(j < n);
    return j;
}

template <class D>
static D mk(const char* nm = "bits")
{
    using T = typename D::block_type;
    auto n = bits_size<T>();
    auto blocks = (n + sizeof(T) * 8 - 1) / (sizeof(T) * 8);
    auto* p = static_cast<T*>(vf_bytes(nm, blocks * sizeof(T), sizeof(T)));
    return D(p, n);
}

// exact number of unset bits of the first b.size() bits
template <class D>
static std::uint64_t zeros(const D& b)
{
    return b.size() - vf_popcount(b.data(), b.block_count() * sizeof(typename D::block_type), sizeof(typename D::block_type));
}

// unused high bits of the last block are zero, so that popcount over whole blocks is exact
template <class D>
static bool canonical(const D& b)
{
    using T = typename D::block_type;
    auto bits = sizeof(T) * 8;
    auto need = (b.size() + bits - 1) / bits;
    if (b.block_count() != need)
    {
        return false;
    }
    auto r = b.size() % bits;
    return r == 0 || (static_cast<std::uint64_t>(b.data()[need - 1]) >> r) == 0;
}

template <class D>
static void post(const D& b)
{
    vf_assert(canonical(b), "the blocks are exactly those needed and spare bits are zero");
    vf_assert(b.null_count() == zeros(b), "null_count is the number of unset bits");
}

template <class D>
static bool bit(const D& b, std::uint64_t i)
{
    auto bits = sizeof(typename D::block_type) * 8;
    return (b.data()[i / bits] >> (i % bits)) & 1;
}

template <class D>
static void construct()
{
    vf_leak_check lc;
    using T = typename D::block_type;
    auto n = bits_size<T>();
    auto blocks = (n + sizeof(T) * 8 - 1) / (sizeof(T) * 8);
    auto* p = static_cast<T*>(vf_bytes("bits", blocks * sizeof(T), sizeof(T)));
    auto j = bits_size<T>("jq", "jr");
    bool old = j < n ? ((p[j / (sizeof(T) * 8)] >> (j % (sizeof(T) * 8))) & 1) : false;
    D b(p, n);
    const D& c = b;
    vf_assert(b.size() == n && b.empty() == (n == 0), "size");
    vf_assert(b.data() == p, "adopts the blocks");
    post(b);
    vf_cover("built");
    if (j < n)
    {
        vf_assert(c.test(j) == old && c[j] == old && bool(b[j]) == old && c.at(j) == old, "bits keep their value");
        vf_assert(c.front() == c.test(0) && c.back() == c.test(n - 1), "front and back");
        vf_assert(bool(b.front()) == c.test(0) && bool(b.back()) == c.test(n - 1), "mutable front and back");
        vf_cover("bit");
    }
}

HARNESS(construct_u8) { construct<DB>(); }  // vf: residues

template <class D>
static void construct_null_count()
{
    vf_leak_check lc;
    using T = typename D::block_type;
    auto a = mk<D>();
    auto n = a.size();
    auto nc = a.null_count();
    auto blocks = a.block_count();
    auto* p = static_cast<T*>(::operator new(blocks * sizeof(T)));
    for (std::uint64_t i = 0; i < blocks; ++i)
    {
        p[i] = a.data()[i];
    }
    D b(p, n, nc);
    vf_assert(b.size() == n && b.null_count() == nc, "the given null count is kept");
    vf_cover("built");
    auto j = bit_below<T>(n);
    vf_assert(std::as_const(b).test(j) == bit(a, j), "bits");
    vf_cover("end");
}

HARNESS(construct_null_count_u8) { construct_null_count<DB>(); }  // vf: residues

template <class D>
static void fill()
{
    vf_leak_check lc;
    auto n = bits_size<typename D::block_type>();
    bool v = vf_bool("v");
    D b(n, v);
    vf_assert(b.size() == n, "size");
    vf_assert(b.null_count() == (v ? 0 : n), "null_count");
    post(b);
    D z(n);
    vf_assert(z.size() == n && z.null_count() == n, "default value is false");
    vf_cover("built");
    auto j = bit_below<typename D::block_type>(n);
    vf_assert(std::as_const(b).test(j) == v, "every bit has the value");
    vf_assert(!std::as_const(z).test(j), "every bit is unset");
    vf_cover("end");
}

HARNESS(fill_u8) { fill<DB>(); }  // vf: residues
HARNESS(fill_u32) { fill<D32>(); }  // vf: residues

HARNESS(empty)  // vf: residues
{
    vf_leak_check lc;
    DB b;
    vf_assert(b.size() == 0 && b.empty() && b.null_count() == 0 && b.begin() == b.end(), "default state");
    auto n = bits_size<std::uint8_t>();
    bool v = vf_bool("v");
    b.resize(n, v);
    vf_assert(b.size() == n && b.null_count() == (v ? 0 : n), "resize from the default state");
    post(b);
    vf_cover("end");
}

template <class D>
static bool change(D& b, std::uint64_t i, bool oi, bool v, std::uint64_t lo = 0, std::uint64_t hi = 7)
{
    switch (vf_pick("how", lo, hi))
    {
        case 0: b.set(i, v); return v;
        case 1: b[i] = v; return v;
        case 2: b.at(i) = v; return v;
        case 3: *(b.begin() + std::ptrdiff_t(i)) = v; return v;
        case 4: b[i] &= v; return oi && v;
        case 5: b[i] |= v; return oi || v;
        case 6: b[i] ^= v; return oi != v;
        default: vf_assert(~b[i] == !oi, "complement of a reference"); return oi;
    }
}

// frame: exactly one bit changes
template <class D>
static void set_frame()
{
    vf_leak_check lc;
    auto n = vf_size("n");
    D b(n, vf_bool("fill"));
    auto k = vf_below("k", b.block_count());
    using T = typename D::block_type;
    b.data()[k] = vf_any<T>("block");   // an arbitrary block (the count is the subject of the next entry)
    auto i = bit_below<T>(n, "iq", "ir");
    auto jq = vf_below("jq", b.block_count());
    T before = b.data()[jq];
    bool oi = bit(b, i), v = vf_pick("v", 0, 1) != 0;
    bool want = change(b, i, oi, v);
    constexpr auto B = sizeof(T) * 8;
    T m = T(T(1) << (i % B));
    T expect = jq == i / B ? T(want ? (before | m) : (before & T(~m))) : before;
    vf_assert(b.data()[jq] == expect, "exactly the addressed bit changes");
    vf_assert(b.size() == n, "size unchanged");
    vf_assert(bool(b[i]) == want && (b[i] == want) && !(b[i] == !want), "references read the bit");
    vf_cover("end");
}

HARNESS(set_frame_u8) { set_frame<DB>(); }  // vf: residues

template <class D>
static void set_count(std::uint64_t lo, std::uint64_t hi)
{
    vf_leak_check lc;
    auto b = mk<D>();
    auto n = b.size();
    auto i = bit_below<typename D::block_type>(n, "iq", "ir");
    bool oi = bit(b, i), v = vf_pick("v", 0, 1) != 0;
    bool want = change(b, i, oi, v, lo, hi);
    vf_assert(bit(b, i) == want, "the addressed bit has the value");
    post(b);
    vf_cover("end");
}

HARNESS(set_count_u8_a) { set_count<DB>(0, 1); }  // vf: residues
HARNESS(set_count_u8_b) { set_count<DB>(2, 3); }  // vf: residues
HARNESS(set_count_u8_c) { set_count<DB>(4, 5); }  // vf: residues
HARNESS(set_count_u8_d) { set_count<DB>(6, 7); }  // vf: residues

HARNESS(references)  // vf: residues
{
    vf_leak_check lc;
    auto b = mk<DB>();
    auto n = b.size();
    auto i = bit_below<std::uint8_t>(n, "iq", "ir");
    auto j = bit_below<std::uint8_t>(n);
    bool bi = bit(b, i), bj = bit(b, j);
    vf_assert((b[i] == b[j]) == (bi == bj), "references compare by value");
    b[i] = b[j];
    vf_assert(bit(b, i) == bj && bit(b, j) == bj, "assignment between references copies the bit");
    vf_cover("end");
}

HARNESS(at_checks)
{
    vf_leak_check lc;
    auto b = mk<DB>();
    auto i = vf_size("i");
    bool thrown = false, thrown2 = false;
    try
    {
        (void) b.at(i);
    }
    catch (const std::out_of_range&)
    {
        thrown = true;
    }
    try
    {
        (void) std::as_const(b).at(i);
    }
    catch (const std::out_of_range&)
    {
        thrown2 = true;
    }
    vf_assert(thrown == (i >= b.size()) && thrown2 == thrown, "at refuses exactly the indices outside");
    vf_cover("end");
}

// the bits of block k whose position is below c
template <class T>
static T below(std::uint64_t k, std::uint64_t c)
{
    constexpr std::uint64_t B = sizeof(T) * 8;
    return c >= (k + 1) * B ? T(~T(0)) : c <= k * B ? T(0) : T((T(1) << (c - k * B)) - 1);
}

// a pair of sizes: equal, the next block, and any further number of blocks, in both directions
template <class T>
static void two_sizes(std::uint64_t rel, std::uint64_t& n, std::uint64_t& m)
{
    constexpr std::uint64_t B = sizeof(T) * 8;
    auto base = vf_nd("base", 0, VF_MAX / (2 * B));
    auto d = vf_nd("d", 0, VF_MAX / (2 * B) - 2);
    std::uint64_t q = base, mq = base;
    switch (rel)
    {
        case 1: mq = base + 1; break;
        case 2: mq = base + 2 + d; break;
        case 3: q = base + 1; break;
        case 4: q = base + 2 + d; break;
        default: break;
    }
    n = q * B + vf_residue("r", B);
    m = mq * B + vf_residue("mr", B);
}

template <class D>
static void resize(std::uint64_t rel)
{
    vf_leak_check lc;
    using T = typename D::block_type;
    constexpr std::uint64_t B = sizeof(T) * 8;
    std::uint64_t n, m;
    two_sizes<T>(rel, n, m);
    auto blocks = (n + B - 1) / B;
    D b(static_cast<T*>(vf_bytes("bits", blocks * sizeof(T), sizeof(T))), n);
    bool v = vf_pick("v", 0, 1) != 0;
    auto k = vf_nd("k", 0, VF_MAX);
    T before = k < blocks ? b.data()[k] : T(0);
    b.resize(m, v);
    vf_assert(b.size() == m, "size");
    post(b);
    vf_cover("resized");
    if (k < b.block_count())
    {
        T kept = below<T>(k, n < m ? n : m), added = T(below<T>(k, m) & T(~below<T>(k, n)));
        vf_assert(b.data()[k] == T((before & kept) | (v ? added : T(0))), "kept bits and new bits");
        vf_cover("end");
    }
}

HARNESS(resize_u8_same) { resize<DB>(0); }  // vf: residues
HARNESS(resize_u8_next) { resize<DB>(1); }  // vf: residues
HARNESS(resize_u8_grow) { resize<DB>(2); }  // vf: residues
HARNESS(resize_u8_prev) { resize<DB>(3); }  // vf: residues
HARNESS(resize_u8_shrink) { resize<DB>(4); }  // vf: residues

HARNESS(clear)  // vf: residues
{
    vf_leak_check lc;
    auto b = mk<DB>();
    b.clear();
    vf_assert(b.size() == 0 && b.null_count() == 0 && b.empty(), "cleared");
    post(b);
    vf_cover("end");
}

template <class D>
static void push_pop()
{
    vf_leak_check lc;
    using T = typename D::block_type;
    auto b = mk<D>();
    auto n = b.size();
    bool v = vf_pick("v", 0, 1) != 0;
    auto k = vf_nd("k", 0, VF_MAX);
    T before = k < b.block_count() ? b.data()[k] : T(0);
    b.push_back(v);
    vf_assert(b.size() == n + 1 && bit(b, n) == v, "the new bit is last");
    post(b);
    if (k < b.block_count())
    {
        vf_assert((b.data()[k] & below<T>(k, n)) == before, "other bits keep their value");
        vf_cover("end");
    }
    b.pop_back();
    vf_assert(b.size() == n, "pop_back removes one bit");
    post(b);
    vf_cover("popped");
    if (k < b.block_count())
    {
        vf_assert(b.data()[k] == before, "pop_back keeps the other bits");
        vf_cover("end2");
    }
}

HARNESS(push_pop_u8) { push_pop<DB>(); }  // vf: residues

// iterators: position k reached by any route designates bit k
template <class D>
static void iterators()
{
    vf_leak_check lc;
    auto b = mk<D>();
    const D& c = b;
    auto n = b.size();
    auto i = vf_upto("i", n), j = vf_upto("j", n);
    auto bi = c.begin() + std::ptrdiff_t(i), bj = c.begin() + std::ptrdiff_t(j);
    vf_assert(std::uint64_t(c.end() - c.begin()) == n && std::uint64_t(b.end() - b.begin()) == n, "end is size steps after begin");
    vf_assert(bj - bi == std::ptrdiff_t(j) - std::ptrdiff_t(i), "distance");
    vf_assert((bi == bj) == (i == j) && (bi < bj) == (i < j) && (bi <= bj) == (i <= j), "comparison");
    vf_assert(bi + (std::ptrdiff_t(j) - std::ptrdiff_t(i)) == bj && bj - (std::ptrdiff_t(j) - std::ptrdiff_t(i)) == bi, "random access forward and backward");
    vf_assert(c.end() - std::ptrdiff_t(n - i) == bi, "backward from the end");
    vf_assert((i == n) == (bi == c.end()), "only the last position is the end");
    vf_cover("positions");
    if (i < n)
    {
        vf_assert(*bi == bit(b, i), "dereference");
        vf_assert(bool(*(b.begin() + std::ptrdiff_t(i))) == bit(b, i), "mutable dereference");
        vf_assert(c.begin()[std::ptrdiff_t(i)] == bit(b, i), "subscript");
        auto x = bi;
        ++x;
        vf_assert(x == bi + 1 && x - bi == 1, "increment");
        auto y = x--;
        vf_assert(x == bi && y == bi + 1, "decrement undoes increment");
        --y;
        vf_assert(y == bi, "pre-decrement");
        vf_cover("end");
    }
}

HARNESS(iterators_u8) { iterators<DB>(); }  // vf: residues
HARNESS(iterators_u32) { iterators<D32>(); }  // vf: residues

HARNESS(copy_move_swap)  // vf: residues
{
    vf_leak_check lc;
    auto a = mk<DB>("a");
    auto n = a.size();
    auto nc = a.null_count();
    DB c(a);
    vf_assert(c.size() == n && c.null_count() == nc && c.block_count() == a.block_count(), "copy");
    auto dn0 = vf_size("dn0");
    DB d(dn0, vf_bool("dv"));
    auto dn = d.size();
    auto dc = d.null_count();
    auto* pd = d.data();
    auto* pa = a.data();
    d.swap(a);
    vf_assert(d.size() == n && d.null_count() == nc && d.data() == pa, "swap left");
    vf_assert(a.size() == dn && a.null_count() == dc && a.data() == pd, "swap right");
    a = std::move(d);
    vf_assert(a.size() == n && a.null_count() == nc && a.data() == pa, "move assignment");
    DB e(std::move(a));
    vf_assert(e.size() == n && e.null_count() == nc && e.data() == pa, "move construction");
    post(e);
    vf_cover("moved");
    auto j = bit_below<std::uint8_t>(n);
    vf_assert(bit(c, j) == bit(e, j), "copied bits");
    vf_cover("end");
}

HARNESS(from_bools)
{
    vf_leak_check lc;
    std::vector<bool> v;
    auto n = vf_nd("n", 0, 11);
    bool x[11];
    for (std::uint64_t i = 0; i < n; ++i)
    {
        x[i] = vf_bool("x");
        v.push_back(x[i]);
    }
    DB b(v);
    vf_assert(b.size() == n, "size");
    post(b);
    vf_cover("built");
    auto j = vf_below("j", n);
    vf_assert(std::as_const(b).test(j) == x[j], "bits equal the range");
    vf_cover("end");
}

// a view reads memory of others and never writes it
HARNESS(view)  // vf: residues
{
    vf_leak_check lc;
    auto n = bits_size<std::uint8_t>();
    auto blocks = (n + 7) / 8;
    auto* p = static_cast<std::uint8_t*>(vf_bytes("bits", blocks, 1));
    {
        const sparrow::dynamic_bitset_view<const std::uint8_t> v(p, n);
        vf_assert(v.size() == n && v.data() == p, "views the memory");
        auto r = n % 8;
        auto pop = vf_popcount(p, n / 8) + (r ? std::uint64_t(std::popcount(std::uint8_t(p[n / 8] & ((1u << r) - 1)))) : 0);
        vf_assert(v.null_count() == n - pop, "null_count ignores the bits beyond the size");
        vf_cover("viewed");
        if (n)
        {
            auto j = bit_below<std::uint8_t>(n);
            bool b = (p[j / 8] >> (j % 8)) & 1;
            vf_assert(v.test(j) == b && v[j] == b && v.at(j) == b && *(v.begin() + std::ptrdiff_t(j)) == b, "reads the bits");
            vf_cover("end");
        }
    }
    ::operator delete(p);
}

// iterators of views (other harnesses use this as the contract of bitset_iterator::advance)
template <class V, class P>
static void view_iterators()
{
    auto n = bits_size<std::uint8_t>();
    auto* p = static_cast<std::uint8_t*>(vf_bytes("bits", (n + 7) / 8, 1));
    {
        V v(static_cast<P>(p), n);
        const V& c = v;
        auto i = vf_upto("i", n), j = vf_upto("j", n);
        auto d = std::ptrdiff_t(j) - std::ptrdiff_t(i);
        auto a = c.begin() + std::ptrdiff_t(i), b = a + d;
        vf_assert(b == c.begin() + std::ptrdiff_t(j) && b - c.begin() == std::ptrdiff_t(j) && b - d == a, "the position moves by n");
        auto ma = v.begin() + std::ptrdiff_t(i), mb = ma + d;
        vf_assert(mb == v.begin() + std::ptrdiff_t(j) && mb - v.begin() == std::ptrdiff_t(j), "also without const");
        vf_cover("moved");
        if (j < n)
        {
            vf_assert(*b == bool((p[j / 8] >> (j % 8)) & 1) && *mb == *b, "and designates the bit there");
            vf_cover("end");
        }
    }
    ::operator delete(p);
}
HARNESS(iterators_view) { view_iterators<sparrow::dynamic_bitset_view<std::uint8_t>, std::uint8_t*>(); }  // vf: residues
HARNESS(iterators_const_view) { view_iterators<sparrow::dynamic_bitset_view<const std::uint8_t>, const std::uint8_t*>(); }  // vf: residues

// a writable view changes the addressed bits only, not those of others after its end
HARNESS(view_writable)  // vf: residues
{
    vf_leak_check lc;
    auto n = bits_size<std::uint8_t>();
    auto total = (n + 7) / 8 + 1;
    auto* p = static_cast<std::uint8_t*>(vf_bytes("bits", total, 1));
    auto k = vf_nd("k", 0, VF_MAX);
    std::uint8_t before = k < total ? p[k] : std::uint8_t(0);
    {
        sparrow::dynamic_bitset_view<std::uint8_t> v(p, n);
        vf_assert(v.size() == n && v.data() == p, "views the memory");
        auto r = n % 8;
        auto pop = vf_popcount(p, n / 8) + (r ? std::uint64_t(std::popcount(std::uint8_t(p[n / 8] & ((1u << r) - 1)))) : 0);
        auto nulls = n - pop;
        vf_assert(v.null_count() == nulls, "null_count ignores the bits beyond the size");
        if (k < total)
        {
            vf_assert(p[k] == before, "viewing changes nothing");
            vf_cover("viewed");
        }
        if (n)
        {
            auto j = bit_below<std::uint8_t>(n);
            bool old = vf_split((p[j / 8] >> (j % 8)) & 1), b = vf_split(vf_bool("b"));
            v[j] = b;
            vf_assert(v.null_count() == nulls + (old && !b) - (!old && b), "the count follows");
            vf_assert(v.test(j) == b, "the bit is set");
            if (k < total)
            {
                auto mask = std::uint8_t(k == j / 8 ? 1u << (j % 8) : 0u);
                vf_assert(p[k] == std::uint8_t((before & ~mask) | (b ? mask : 0)), "and no other");
                vf_cover("end");
            }
        }
    }
    ::operator delete(p);
}

// no bitmap at all: every bit reads as set
HARNESS(view_without_bitmap)
{
    auto n = vf_size("n");
    const sparrow::dynamic_bitset_view<const std::uint8_t> v(nullptr, n);
    vf_assert(v.size() == n && v.null_count() == 0, "no unset bit");
    auto j = vf_below("j", n);
    vf_assert(v.test(j) && v[j] && v.at(j) && v.front() && v.back(), "every bit is set");
    vf_cover("end");
}

// a bitset operating on a buffer owned by somebody else
static void non_owning(std::uint64_t rel)
{
    vf_leak_check lc;
    std::uint64_t n, m;
    two_sizes<std::uint8_t>(rel, n, m);
    auto blocks = (n + 7) / 8;
    auto* p = static_cast<std::uint8_t*>(vf_bytes("bits", blocks, 1));
    sparrow::buffer<std::uint8_t> buf(p, blocks);
    sparrow::non_owning_dynamic_bitset<std::uint8_t> b(&buf, n);
    vf_assert(b.size() == n && b.data() == buf.data(), "operates on the buffer");
    post(b);
    bool v = vf_pick("v", 0, 1) != 0;
    auto k = vf_nd("k", 0, VF_MAX);
    std::uint8_t before = k < blocks ? b.data()[k] : std::uint8_t(0);
    b.resize(m, v);
    vf_assert(b.size() == m && buf.size() == (m + 7) / 8 && b.data() == buf.data(), "resizes the buffer");
    post(b);
    vf_cover("resized");
    if (k < b.block_count())
    {
        auto kept = below<std::uint8_t>(k, n < m ? n : m);
        auto added = std::uint8_t(below<std::uint8_t>(k, m) & std::uint8_t(~below<std::uint8_t>(k, n)));
        vf_assert(b.data()[k] == std::uint8_t((before & kept) | (v ? added : 0)), "kept bits and new bits");
        vf_cover("end");
    }
}

HARNESS(non_owning_same) { non_owning(0); }  // vf: residues
HARNESS(non_owning_next) { non_owning(1); }  // vf: residues
HARNESS(non_owning_grow) { non_owning(2); }  // vf: residues
HARNESS(non_owning_prev) { non_owning(3); }  // vf: residues
HARNESS(non_owning_shrink) { non_owning(4); }  // vf: residues
