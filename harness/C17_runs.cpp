// C17: run-end encoded arrays expand to the value of the run containing each index.
// std::upper_bound is replaced by its contract in the entries for any number of runs, and executed in the others.
// vf-contract upper: unsigned short const* std::upper_bound<unsigned short const*, unsigned long>(unsigned short const*, unsigned short const*, unsigned long const&) => vf_c_upper_16
// vf-contract upper: unsigned int const* std::upper_bound<unsigned int const*, unsigned long>(unsigned int const*, unsigned int const*, unsigned long const&) => vf_c_upper_32
// vf-contract upper: unsigned long const* std::upper_bound<unsigned long const*, unsigned long>(unsigned long const*, unsigned long const*, unsigned long const&) => vf_c_upper_64
#include "arrays.h"
#include <sparrow/array.hpp>
#include <algorithm>
#include <cstring>
using namespace vf;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using i32 = std::int32_t;

// contract of upper_bound: requires a sorted range, ensures that the elements before the result are at most the value and
// the ones from the result on are greater.  For the positions under consideration the harness has chosen that place.
static const void* g_first;
static const void* g_last;
static u64 g_asked[2], g_answer[2];
static unsigned g_n;
template <class T>
static const T* upper(const T* first, const T* last, u64 value)
{
    vf_assert(first == g_first && last == g_last, "the search runs over the run ends");
    for (unsigned k = 0; k < g_n; ++k)
    {
        if (vf_split(value == g_asked[k]))
        {
            return first + g_answer[k];
        }
    }
    // elsewhere any place
    return first + vf_upto("elsewhere", u64(last - first));
}
extern "C" __attribute__((weak, used)) const u16* vf_c_upper_16(const u16* a, const u16* b, const u64* v) { return upper(a, b, *v); }
extern "C" __attribute__((weak, used)) const u32* vf_c_upper_32(const u32* a, const u32* b, const u64* v) { return upper(a, b, *v); }
extern "C" __attribute__((weak, used)) const u64* vf_c_upper_64(const u64* a, const u64* b, const u64* v) { return upper(a, b, *v); }
template <class N>
static void ghost(const N& n)
{
    g_first = n.ends;
    g_last = n.ends + n.n_runs;
    g_n = n.n_asked;
    for (unsigned k = 0; k < g_n; ++k)
    {
        g_asked[k] = n.asked[k];
        g_answer[k] = n.answer[k];
    }
}

// --- arrays handed over by others: any number of runs, offsets and lengths
template <class A, class R>
static void element(unsigned how_values = 2)
{
    run_node<R> n({}, {}, {}, how_values);
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    auto k = n.choose(off + i);
    ghost(n);
    {
        auto src = borrow<A>(n);
        const auto& c = src;
        vf_assert(c.size() == len, "the size is the length of the structure");
        vf_assert(n.value_of(c[i], k), "element i is the value of its run");
        vf_assert(n.value_of(std::as_const(src)[i], k), "again");
        if constexpr (!std::is_same_v<A, array>)
        {
            vf_assert(n.value_of(src[i], k), "also when mutable");
            run_encoded_array_iterator<true> it(&c, i);
            vf_assert(n.value_of(*it, k), "also by an iterator there");
            run_encoded_array_iterator<false> im(&src, i);
            vf_assert(n.value_of(*im, k), "also by a mutable one");
            vf_assert((it == c.end()) == false, "before the end");
        }
        vf_cover("end");
    }
    n.untouched(off, len);
    vf_assert(n.a_released == 0 && n.runs.a_released == 0 && n.values.a_released == 0, "nothing released");
}
HARNESS(element_uint16) { element<run_end_encoded_array, u16>(); }       // vf: use=upper
HARNESS(element_uint32) { element<run_end_encoded_array, u32>(); }       // vf: use=upper
HARNESS(element_uint64) { element<run_end_encoded_array, u64>(); }       // vf: use=upper
HARNESS(element_missing) { element<run_end_encoded_array, u32>(1); }     // vf: use=upper,bits
HARNESS(erased_uint16) { element<array, u16>(); }                        // vf: use=upper
HARNESS(erased_uint32) { element<array, u32>(); }                        // vf: use=upper
HARNESS(erased_uint64) { element<array, u64>(); }                        // vf: use=upper

HARNESS(ends)  // vf: use=upper
{
    run_node<u32> n({}, {}, {}, 2);
    const auto off = n.off(), len = n.len();
    vf_assume(len > 0);
    auto k = n.choose(off), l = n.choose(off + len - 1);
    if (len == 1) vf_assume(k == l);
    ghost(n);
    {
        auto a = borrow<array>(n);
        const auto& c = a;
        vf_assert(n.value_of(c.front(), k), "first element");
        vf_assert(n.value_of(c.back(), l), "last element");
        auto r = borrow<run_end_encoded_array>(n);
        vf_assert(n.value_of(*r.begin(), k) && n.value_of(*std::as_const(r).begin(), k) && n.value_of(*r.cbegin(), k), "first element by iterator");
        vf_cover("end");
    }
}
HARNESS(at)  // vf: use=upper
{
    run_node<u64> n({}, {}, {}, 2);
    const auto off = n.off(), len = n.len();
    auto i = vf_size("i");
    u64 k = 0;
    if (vf_split(i < len)) k = n.choose(off + i);
    ghost(n);
    {
        auto a = borrow<array>(n);
        bool refused = false;
        try
        {
            auto e = std::as_const(a).at(i);
            vf_assert(n.value_of(e, k), "element i by checked access");
            vf_cover("at");
        }
        catch (const std::out_of_range&)
        {
            refused = true;
        }
        vf_assert(refused == (i >= len), "checked access refuses exactly the indices outside");
        vf_cover("end");
    }
}

// --- stepping: an iterator at any position advances to the element of the next one.  Where the state after the step is
// the state of an iterator constructed at the next position, all further steps are covered by induction.
template <class R>
static void step()
{
    run_node<R> n({}, {}, {}, 2);
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    auto k = n.choose(off + i);
    // the run of the next position
    vf_assume(i + 1 < len);
    // (run ends ascend)
    bool cross = vf_split(vf_bool("next run"));
    auto next = n.choose(off + i + 1, cross ? k + 1 : k);
    if (cross) vf_assume(n.ends[k] < n.ends[next]);
    ghost(n);
    {
        auto a = borrow<run_end_encoded_array>(n);
        const auto& c = a;
        using It = run_encoded_array_iterator<true>;
        It it(&c, i), there(&c, i + 1);
        It was = it;
        auto& r = ++it;
        vf_assert(&r == &it && it == there && it != was, "the position after the step");
        vf_assert(n.value_of(*it, next), "the element after the step");
        vf_assert(n.value_of(*was, k) && was == It(&c, i), "a copy stays");
        It post = was++;
        vf_assert(post == It(&c, i) && n.value_of(*post, k) && was == it && n.value_of(*was, next), "stepping past");
        // (of the current representation: position, run and elements left)
        if (sizeof(It) == 40) vf_assert(std::memcmp(&it, &there, sizeof(it)) == 0, "the state after the step is the one of an iterator constructed there");
        vf_cover("end");
    }
}
HARNESS(step_uint16) { step<u16>(); }  // vf: use=upper
HARNESS(step_uint32) { step<u32>(); }  // vf: use=upper
HARNESS(step_uint64) { step<u64>(); }  // vf: use=upper thorough

// the last step reaches the end
HARNESS(last_step)  // vf: use=upper
{
    run_node<u32> n({}, {}, {}, 2);
    const auto off = n.off(), len = n.len();
    vf_assume(len > 0);
    n.choose(off + len - 1);
    ghost(n);
    {
        auto a = borrow<run_end_encoded_array>(n);
        const auto& c = a;
        run_encoded_array_iterator<true> it(&c, len - 1);
        vf_assert(it != c.end(), "not yet");
        ++it;
        vf_assert(it == c.end() && it == c.cend(), "the end");
        run_encoded_array_iterator<false> im(&a, len - 1);
        ++im;
        vf_assert(im == a.end(), "the end of the mutable range");
        vf_cover("end");
    }
}

// --- walks over up to 3 runs of up to 4 elements, from any slice (bounded); the search is executed
template <class R, class A>
static void walk()
{
    auto runs = vf_pick("runs", 1, 3);
    auto ro = vf_pick("offset of the runs", 0, 1);
    auto len = vf_pick("len", 0, 4);
    run_node<R> n(range(vf_upto("off", 8), len), range(ro, runs), {}, 2);
    const auto off = n.off();
    for (u64 k = 0; k < runs; ++k)
    {
        vf_assume(u64(n.ends[k]) <= 12 && n.ends[k] > (k ? n.ends[k - 1] : R(0)));
    }
    {
        auto a = borrow<A>(n);
        auto run = [&](u64 i)
        {
            u64 r = 0;
            for (u64 k = 0; k < runs; ++k) r += u64(n.ends[k]) <= off + i;
            return vf_fix(r, 0, runs - 1);
        };
        if constexpr (!std::is_same_v<A, array>)
        {
            u64 i = 0;
            for (auto e : std::as_const(a))
            {
                vf_assert(i < len && n.value_of(e, run(i)), "element i of the walk");
                ++i;
            }
            vf_assert(i == len, "iteration visits exactly the logical length");
            i = 0;
            for (auto e : a) vf_assert(n.value_of(e, run(i++)), "element i of the mutable walk");
            vf_assert(i == len, "also of the mutable range");
        }
        for (u64 i = 0; i < len; ++i) vf_assert(n.value_of(std::as_const(a)[i], run(i)), "element i by index");
        vf_cover("end");
    }
}
HARNESS(walk_uint16) { walk<u16, run_end_encoded_array>(); }
HARNESS(walk_uint32) { walk<u32, run_end_encoded_array>(); }
HARNESS(walk_uint64) { walk<u64, run_end_encoded_array>(); }
HARNESS(walk_erased) { walk<u32, array>(); }

// --- building from run ends and values, owning them
template <class R>
static void build()
{
    auto runs = vf_pick("runs", 0, 3);
    fixed_node<R> r(range(vf_pick("offr", 0, 1), runs), 2);
    fixed_node<i32> v(range(vf_pick("offv", 0, 1) * 3, runs), 2);
    const auto* ends = r.data + r.off();
    const auto ov = v.off();
    r.slack = v.slack = 0;
    for (u64 k = 0; k < runs; ++k) vf_assume(u64(ends[k]) <= 5 && ends[k] > (k ? ends[k - 1] : R(0)));
    auto len = runs ? vf_fix(u64(ends[runs - 1]), runs, 5) : 0;
    {
        run_end_encoded_array a(adopt<array>(r), adopt<array>(v));
        auto [x, s] = get_arrow_structures(a);
        vf_assert(a.size() == len && x->length == std::int64_t(len) && x->offset == 0 && x->n_buffers == 0 && x->n_children == 2 && s->n_children == 2, "the length is the last run end");
        vf_assert(std::strcmp(s->format, "+r") == 0 && owns_arrow_array(a) && owns_arrow_schema(a), "format and ownership");
        u64 k = 0, i = 0;
        for (auto e : std::as_const(a))
        {
            if (u64(ends[k]) == i) ++k;
            vf_assert(is_element<i32>(e, true, v.data[ov + k]) && is_element<i32>(std::as_const(a)[i], true, v.data[ov + k]), "element i");
            ++i;
        }
        vf_assert(i == len, "as many as the length");
        vf_assert(r.a_released == 0 && v.a_released == 0, "still owned");
        vf_cover("end");
    }
    vf_assert(r.a_released == 1 && v.a_released == 1 && r.s_released == 1 && v.s_released == 1, "released once");
}
HARNESS(build_uint16) { build<u16>(); }
HARNESS(build_uint32) { build<u32>(); }
HARNESS(build_uint64) { build<u64>(); }

// --- equality: exactly when the expanded elements are (lengths up to 2)
HARNESS(equality)
{
    auto la = vf_pick("la", 0, 2), lb = vf_pick("lb", 0, 2);
    run_node<u32> n(range(0, la), range(0, 2), {}, 2), m(range(0, lb), range(0, 2), {}, 2);
    auto value = [](auto& x, u64 i) { return x.values.data[x.values.off() + vf_fix(u64(u64(x.ends[0]) <= i), 0, 1)]; };
    vf_assume(n.ends[0] >= 1 && n.ends[1] > n.ends[0] && m.ends[0] >= 1 && m.ends[1] > m.ends[0] && n.ends[1] < 5 && m.ends[1] < 5);
    bool same = la == lb;
    for (u64 i = 0; i < la && i < lb; ++i) same = same & (value(n, i) == value(m, i));
    {
        auto a = borrow<run_end_encoded_array>(n), b = borrow<run_end_encoded_array>(m);
        vf_assert((a == b) == same, "equal exactly when the elements are");
        vf_cover("end");
    }
}

// --- copies and moves keep the elements
template <class R>
static void kept(unsigned how)
{
    using A = run_end_encoded_array;
    run_node<R> n({}, {}, {}, 2), m(range(0, 0), range(0, 0), range(0, 0), 2);
    const auto off = n.off(), len = n.len();
    auto i = vf_below("i", len);
    auto k = n.choose(off + i);
    ghost(n);
    auto here = [&](A& a)
    {
        g_first = static_cast<const R*>(get_arrow_array(a)->children[0]->buffers[1]) + n.runs.off();
        g_last = static_cast<const R*>(g_first) + n.n_runs;
    };
    {
        if (how == 0)
        {
            auto a = adopt<A>(n);
            A b(std::move(a));
            vf_assert(b.size() == len && n.value_of(std::as_const(b)[i], k), "a moved array has the same elements");
            auto c = borrow<A>(m);
            c = std::move(b);
            vf_assert(c.size() == len && n.value_of(std::as_const(c)[i], k), "a move-assigned array has the same elements");
        }
        else if (how == 1)
        {
            auto a = borrow<A>(n);
            A b(std::as_const(a));
            auto [x, s] = get_arrow_structures(b);
            vf_assert(x != &n.a && x->children[0] != &n.runs.a && x->children[0]->buffers[1] != n.runs.data && x->children[1]->buffers[1] != n.values.data, "a copy has its own structures");
            here(b);
            vf_assert(b.size() == len && n.value_of(std::as_const(b)[i], k), "a copy has the same elements");
        }
        else
        {
            auto a = borrow<A>(n);
            auto c = borrow<A>(m);
            c = std::as_const(a);
            here(c);
            vf_assert(c.size() == len && n.value_of(std::as_const(c)[i], k), "an assigned copy has the same elements");
            const auto& self = c;
            c = self;
            here(c);
            vf_assert(c.size() == len && n.value_of(std::as_const(c)[i], k), "self-assignment keeps the elements");
        }
        vf_cover("end");
    }
}
HARNESS(moved) { kept<u32>(0); }     // vf: use=upper
HARNESS(copied) { kept<u16>(1); }    // vf: use=upper
HARNESS(assigned) { kept<u64>(2); }  // vf: use=upper
