// Harness interface of the contract verifier.
//   requires  -> vf_assume     ensures -> vf_assert (a named obligation)     forall -> a nondeterministic index
// The same harness is executed symbolically (engine) and, compiled natively against the same sources, replays
// countermodels on the real code.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
    // nondeterministic value in [lo, hi] (a size, an index, a choice)
    std::uint64_t vf_nd(const char* name, std::uint64_t lo, std::uint64_t hi);
    // nondeterministic bits
    std::uint64_t vf_bits(const char* name, unsigned bits);
    // a fresh heap block (operator new) of n bytes of arbitrary content, accessed as elements of `elem` bytes
    void* vf_bytes(const char* name, std::uint64_t n, std::uint64_t elem);
    void vf_assume(bool c);
    void vf_assert(bool c, const char* name);
    void vf_cover(const char* name);
    void vf_skolem(std::uint64_t index);
    std::uint64_t vf_live();
    int vf_is_live(const void* p);
    int vf_symbolic();
    void vf_print(const char* name, std::uint64_t v);
    // number of set bits of a byte sequence, summed per element of `elem` bytes
    std::uint64_t vf_popcount(const void* p, std::uint64_t nbytes, std::uint64_t elem = 1);
    // from here on a contract check of the library must fail (the harness asserts that what follows is not reached)
    void vf_refusing(const char* name);
    [[noreturn]] void vf_contract_fail(const char* expr);
    [[noreturn]] void vf_end_path();
}

#ifdef VF_NATIVE
extern "C" void vf_register(const char*, void (*)());
struct vf_registrar
{
    vf_registrar(const char* n, void (*f)()) { vf_register(n, f); }
};
#define HARNESS(name)                                       \
    extern "C" void vf_h_##name();                          \
    static vf_registrar vf_reg_##name(#name, &vf_h_##name); \
    extern "C" void vf_h_##name()
#else
#define HARNESS(name) extern "C" void vf_h_##name()
#endif

inline constexpr std::uint64_t VF_MAX = (std::uint64_t(1) << 32) - 1;  // largest symbolic element count

inline std::uint64_t vf_size(const char* n) { return vf_nd(n, 0, VF_MAX); }
inline bool vf_bool(const char* n) { return vf_nd(n, 0, 1) != 0; }

// an arbitrary index below `lt` (no such index: the path ends)
#ifdef VF_NATIVE
extern "C" std::uint64_t vf_below(const char* n, std::uint64_t lt);
#else
inline std::uint64_t vf_below(const char* n, std::uint64_t lt)
{
    std::uint64_t j = vf_nd(n, 0, VF_MAX);
    vf_assume(j < lt);
    return j;
}
#endif
// an arbitrary value of [lo, hi], one path per value
__attribute__((noinline, optnone)) inline std::uint64_t vf_fix(std::uint64_t x, std::uint64_t lo, std::uint64_t hi)
{
    if (lo >= hi)
    {
        return lo;
    }
    std::uint64_t mid = lo + (hi - lo) / 2;
    if (x <= mid)
    {
        return vf_fix(x, lo, mid);
    }
    return vf_fix(x, mid + 1, hi);
}
// the same condition, one path per outcome
__attribute__((noinline, optnone)) inline bool vf_split(bool c)
{
    if (c)
    {
        return true;
    }
    return false;
}
inline std::uint64_t vf_pick(const char* n, std::uint64_t lo, std::uint64_t hi) { return vf_fix(vf_nd(n, lo, hi), lo, hi); }
// a position within a block of B bits, one path each: the quick tier takes the first, second and last (labelled bounded)
inline std::uint64_t vf_residue(const char* n, std::uint64_t B)
{
#ifdef VF_QUICK
    auto k = vf_pick(n, 0, 2);
    return k == 2 ? B - 1 : k;
#else
    return vf_pick(n, 0, B - 1);
#endif
}
inline std::uint64_t vf_upto(const char* n, std::uint64_t hi) { return vf_below(n, hi + 1); }

#ifdef VF_NATIVE
#    include <exception>
#endif

// everything allocated after its construction has been returned at its destruction
struct vf_leak_check
{
    std::uint64_t l = vf_live();
#ifdef VF_NATIVE
    int u = std::uncaught_exceptions();
    ~vf_leak_check() noexcept(false)
    {
        if (std::uncaught_exceptions() == u)
        {
            vf_assert(vf_live() == l, "every allocation is returned exactly once");
        }
    }
#else
    ~vf_leak_check() noexcept(false) { vf_assert(vf_live() == l, "every allocation is returned exactly once"); }
#endif
};

template <class T>
T vf_any(const char* n)
{
    static_assert(sizeof(T) <= 8);
    std::uint64_t b = vf_bits(n, sizeof(T) * 8);
    T t;
    __builtin_memcpy(&t, &b, sizeof(T));
    return t;
}
