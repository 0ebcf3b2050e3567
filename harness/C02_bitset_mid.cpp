// C02: insertion and erasure in the middle of a bitset.  Callers of set/test are checked against the contracts of those
// functions (their bodies are proved in C02_bitset.cpp).  Sizes, positions and counts up to the stated bounds (bounded).
// vf: headers-only
// vf: cflags=-fno-inline
// vf-contract set: sparrow::dynamic_bitset_base<sparrow::buffer<unsigned char>>::set(unsigned long, bool) => vf_c_set
// vf-contract test: sparrow::dynamic_bitset_base<sparrow::buffer<unsigned char>>::test(unsigned long) const => vf_c_test
#include "vf.h"
#include <sparrow/buffer/buffer.hpp>
#include <sparrow/buffer/dynamic_bitset.hpp>

#ifdef VF_QUICK
#    define VF_N 2
#else
#    define VF_N 7
#endif
using DB = sparrow::dynamic_bitset<std::uint8_t>;
using Base = sparrow::dynamic_bitset_base<sparrow::buffer<std::uint8_t>>;

// the private count, for the contract of set
struct count_tag
{
    friend std::size_t Base::* member(count_tag);
};
template <class Tag, auto M>
struct expose
{
    friend std::size_t Base::* member(Tag) { return M; }
};
template struct expose<count_tag, &Base::m_null_count>;

// set: requires pos < size; ensures exactly bit pos has the value and the count of unset bits follows
extern "C" void vf_c_set(Base* self, std::size_t pos, bool v)
{
    vf_assert(pos < self->size(), "set requires a position below the size");
    std::uint8_t* p = self->data() + pos / 8;
    unsigned sh = pos % 8;
    std::uint8_t old = (*p >> sh) & 1;
    *p = std::uint8_t((*p & ~(1u << sh)) | (unsigned(v) << sh));
    self->*member(count_tag{}) += std::size_t(old) - std::size_t(v);
}

// test: requires pos < size; ensures the result is bit pos
extern "C" bool vf_c_test(const Base* self, std::size_t pos)
{
    vf_assert(pos < self->size(), "test requires a position below the size");
    return (self->data()[pos / 8] >> (pos % 8)) & 1;
}

// a small bitset, every size up to hi (bounded)
static sparrow::dynamic_bitset<std::uint8_t> mk_small(std::uint64_t hi)
{
    // sizes around the block boundaries
    constexpr std::uint8_t sizes[] = {1, 7, 8, 9, 2, 15, 16, 17};
    auto n = sizes[vf_pick("n", 0, hi)];
    auto blocks = (n + 7) / 8;
    auto* p = static_cast<std::uint8_t*>(vf_bytes("bits", blocks, 1));
    return DB(p, n);
}

// exact number of unset bits of the first b.size() bits
template <class D>
static std::uint64_t zeros(const D& b)
{
    return b.size() - vf_popcount(b.data(), b.block_count() * sizeof(typename D::block_type), sizeof(typename D::block_type));
}

// unused high bits of the last block are zero, so that popcount over whole blocks is exact
template <class D>
static bool canonical(const D& b)
{
    using T = typename D::block_type;
    auto bits = sizeof(T) * 8;
    auto need = (b.size() + bits - 1) / bits;
    if (b.block_count() != need)
    {
        return false;
    }
    auto r = b.size() % bits;
    return r == 0 || (static_cast<std::uint64_t>(b.data()[need - 1]) >> r) == 0;
}

template <class D>
static void post(const D& b)
{
    vf_assert(canonical(b), "the blocks are exactly those needed and spare bits are zero");
    vf_assert(b.null_count() == zeros(b), "null_count is the number of unset bits");
}

template <class D>
static bool bit(const D& b, std::uint64_t i)
{
    auto bits = sizeof(typename D::block_type) * 8;
    return (b.data()[i / bits] >> (i % bits)) & 1;
}

static std::uint32_t small_bits(const DB& b)
{
    std::uint32_t r = 0;
    for (std::uint64_t k = 0; k < b.block_count(); ++k)
    {
        r |= std::uint32_t(b.data()[k]) << (8 * k);
    }
    return r;
}

// insertion and erasure in the middle: bounded to small bitsets (every size, position, count and content up to the bound)
HARNESS(insert_count)  // vf: unroll=40 nosum use=set,test
{
    vf_leak_check lc;
    auto b = mk_small(VF_N);
    auto n = b.size();
    auto i = vf_pick("i", 0, n);
    auto c = vf_pick("c", 0, 9);
    vf_assume(c <= 1 || c >= 8);
    bool v = vf_bool("v");
    auto old = small_bits(b);
    auto it = b.insert(b.cbegin() + std::ptrdiff_t(i), c, v);
    vf_assert(b.size() == n + c, "size grows by the count");
    vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator");
    post(b);
    vf_cover("inserted");
    for (std::uint64_t k = 0; k < c; ++k)
    {
        vf_assert(bit(b, i + k) == v, "inserted bits");
        vf_cover("value");
    }
    for (std::uint64_t j = 0; j < n; ++j)
    {
        vf_assert(bit(b, j < i ? j : j + c) == ((old >> j) & 1), "other bits shift by the count");
        vf_cover("end");
    }
}

HARNESS(insert_one)  // vf: unroll=40 nosum use=set,test
{
    vf_leak_check lc;
    auto b = mk_small(VF_N);
    auto n = b.size();
    auto i = vf_pick("i", 0, n);
    bool v = vf_bool("v");
    auto old = small_bits(b);
    auto pos = b.cbegin() + std::ptrdiff_t(i);
    auto it = vf_bool("em") ? b.emplace(pos, v) : b.insert(pos, v);
    vf_assert(b.size() == n + 1, "one bit more");
    vf_assert(std::uint64_t(it - b.begin()) == i && bool(*it) == v, "returned iterator");
    post(b);
    vf_cover("inserted");
    for (std::uint64_t j = 0; j < n; ++j)
    {
        vf_assert(bit(b, j < i ? j : j + 1) == ((old >> j) & 1), "other bits shift by at most one");
        vf_cover("end");
    }
}

HARNESS(insert_range)  // vf: unroll=40 nosum use=set,test
{
    vf_leak_check lc;
    auto b = mk_small(VF_N);
    auto n = b.size();
    auto i = vf_pick("i", 0, n);
    bool v[3] = {vf_bool("v0"), vf_bool("v1"), vf_bool("v2")};
    auto c = vf_pick("c", 0, 3);
    auto old = small_bits(b);
    auto it = b.insert(b.cbegin() + std::ptrdiff_t(i), v, v + c);
    vf_assert(b.size() == n + c, "size grows by the length of the range");
    vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator");
    post(b);
    vf_cover("inserted");
    for (std::uint64_t k = 0; k < c; ++k)
    {
        vf_assert(bit(b, i + k) == v[k], "inserted bits");
        vf_cover("value");
    }
    for (std::uint64_t j = 0; j < n; ++j)
    {
        vf_assert(bit(b, j < i ? j : j + c) == ((old >> j) & 1), "other bits shift");
        vf_cover("end");
    }
}

HARNESS(erase_range)  // vf: unroll=40 nosum use=set,test
{
    vf_leak_check lc;
    auto b = mk_small(VF_N);
    auto n = b.size();
    auto e = vf_pick("e", 0, n);
    auto i = vf_pick("i", 0, e);
    auto old = small_bits(b);
    auto it = b.erase(b.cbegin() + std::ptrdiff_t(i), b.cbegin() + std::ptrdiff_t(e));
    vf_assert(b.size() == n - (e - i), "size shrinks by the length of the range");
    vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator");
    post(b);
    vf_cover("erased");
    for (std::uint64_t j = 0; j < n; ++j)
    {
        if (j < i || j >= e)
        {
            vf_assert(bit(b, j < i ? j : j - (e - i)) == ((old >> j) & 1), "other bits close the gap");
            vf_cover("end");
        }
    }
}

HARNESS(erase_one)  // vf: unroll=40 nosum use=set,test
{
    vf_leak_check lc;
    auto b = mk_small(VF_N);
    auto n = b.size();
    auto i = vf_pick("i", 0, n - 1);
    auto old = small_bits(b);
    auto it = b.erase(b.cbegin() + std::ptrdiff_t(i));
    vf_assert(b.size() == n - 1, "one bit less");
    vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator");
    post(b);
    vf_cover("erased");
    for (std::uint64_t j = 0; j < n; ++j)
    {
        if (j != i)
        {
            vf_assert(bit(b, j < i ? j : j - 1) == ((old >> j) & 1), "other bits close the gap");
            vf_cover("end");
        }
    }
}
