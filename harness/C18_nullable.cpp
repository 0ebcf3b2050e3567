// C18: an optional value behaves as either a value or nothing.
// The reference is the pair (flag, value): (false, anything) is nothing.
// vf: headers-only
#include "vf.h"
#include <sparrow/utils/nullable.hpp>
#include <sparrow/buffer/dynamic_bitset.hpp>
#include <compare>
#include <memory>
#include <string>
using namespace sparrow;
using u64 = std::uint64_t;
using I = std::int32_t;
using NI = nullable<I>;
using NL = nullable<std::int64_t>;
using NR = nullable<I&, bool&>;
using NC = nullable<const I&, bool>;
using ND = nullable<double>;

template <class T>
struct pair_of
{
    bool has;
    T v;
    explicit pair_of(const char* n) : has(vf_split(vf_bool(n))), v(vf_any<T>(n)) {}
};

template <class N, class T>
static bool is(const N& n, bool has, const T& v)
{
    return n.has_value() == has && bool(n) == has && bool(n.null_flag()) == has && n.get() == v;
}

HARNESS(construction)
{
    pair_of<I> p("p");
    NI a;
    vf_assert(!a.has_value(), "default is nothing");
    NI b(nullval);
    vf_assert(!b.has_value() && !b, "nothing");
    NI c(p.v);
    vf_assert(is(c, true, p.v), "a value");
    NI d(I(p.v), bool(p.has));
    vf_assert(is(d, p.has, p.v), "value and flag");
    NI e(p.v, p.has);
    vf_assert(is(e, p.has, p.v), "of references");
    NI e2(I(p.v), p.has), e3(p.v, bool(p.has));
    vf_assert(is(e2, p.has, p.v) && is(e3, p.has, p.v), "of either");
    NI f(d), g(std::move(d));
    vf_assert(is(f, p.has, p.v) && is(g, p.has, p.v), "copy and move");
    NL h(f), h2(std::move(f));
    vf_assert(is(h, p.has, std::int64_t(p.v)) && is(h2, p.has, std::int64_t(p.v)), "conversion");
    auto m = make_nullable(I(p.v), bool(p.has));
    vf_assert(is(m, p.has, p.v), "made of a value and a flag");
    auto m1 = make_nullable(I(p.v));
    vf_assert(is(m1, true, p.v), "made of a value");
    nullable<bool> nb(bool(p.has), true);
    nullable<bool> nb2(nb);
    vf_assert(is(nb, true, p.has) && is(nb2, true, p.has), "of bool");
    vf_cover("end");
}

HARNESS(assignment)
{
    pair_of<I> p("p"), q("q");
    NI a(I(p.v), bool(p.has));
    const NI b(I(q.v), bool(q.has));
    switch (vf_pick("op", 0, 6))
    {
        case 0:
            a = b;
            vf_assert(is(a, q.has, q.v), "copy assignment");
            vf_assert(is(b, q.has, q.v), "of which the source is unchanged");
            break;
        case 1:
            a = NI(b);
            vf_assert(is(a, q.has, q.v), "move assignment");
            break;
        case 2:
            a = q.v;
            vf_assert(is(a, true, q.v), "assigning a value");
            break;
        case 3:
            a = nullval;
            vf_assert(!a.has_value(), "assigning nothing");
            break;
        case 4:
            a.reset();
            vf_assert(!a.has_value(), "reset");
            break;
        case 5:
        {
            NL c;
            c = b;
            vf_assert(is(c, q.has, std::int64_t(q.v)), "converting assignment");
            c = NI(b);
            vf_assert(is(c, q.has, std::int64_t(q.v)), "converting move assignment");
            break;
        }
        case 6:
        {
            const NI& s = a;
            a = s;
            vf_assert(is(a, p.has, p.v), "self assignment");
            break;
        }
    }
    vf_cover("end");
}

// references: writing through them writes the referred value and flag, and nothing else
HARNESS(references)
{
    pair_of<I> p("p"), q("q");
    I v = p.v, w = q.v;
    bool f = p.has, g = q.has;
    NR a(v, f), b(w, g);
    vf_assert(is(a, p.has, p.v) && &a.get() == &v && &a.null_flag() == &f, "refers to value and flag");
    switch (vf_pick("op", 0, 7))
    {
        case 0:
            a = b;
            vf_assert(v == q.v && f == q.has && w == q.v && g == q.has, "copy assignment");
            break;
        case 1:
            a = std::move(b);
            vf_assert(v == q.v && f == q.has && w == q.v && g == q.has, "move assignment");
            break;
        case 2:
            a = q.v;
            vf_assert(v == q.v && f && w == q.v && g == q.has, "a value");
            break;
        case 3:
            a = nullval;
            vf_assert(v == p.v && !f && w == q.v && g == q.has, "nothing");
            break;
        case 4:
            a.reset();
            vf_assert(v == p.v && !f && w == q.v && g == q.has, "reset");
            break;
        case 5:
            swap(a, b);
            vf_assert(v == q.v && f == q.has && w == p.v && g == p.has && &a.get() == &v, "swap exchanges the referred values");
            break;
        case 6:
        {
            a = NI(I(q.v), bool(q.has));
            vf_assert(v == q.v && f == q.has, "an optional value");
            const NI c(I(p.v), bool(p.has));
            a = c;
            vf_assert(v == p.v && f == p.has && is(c, p.has, p.v), "another");
            break;
        }
        case 7:
        {
            NI c(a), d;
            d = a;
            vf_assert(is(c, p.has, p.v) && is(d, p.has, p.v), "the referred value is copied out");
            v = q.v;
            f = q.has;
            vf_assert(is(c, p.has, p.v) && is(a, q.has, q.v), "references follow, copies do not");
            NC e(a);
            vf_assert(is(e, q.has, q.v) && &e.get() == &v, "a reference to constant");
            break;
        }
    }
    vf_assert(&a.get() == &v && &a.null_flag() == &f, "references are not rebound");
    vf_cover("end");
}

HARNESS(bit_references)
{
    pair_of<I> p("p"), q("q");
    dynamic_bitset<std::uint8_t> bits(std::size_t(3), false);
    bits.set(1, p.has);
    I v = p.v;
    {
        nullable<I&, dynamic_bitset<std::uint8_t>::reference> a(v, bits[1]);
        vf_assert(is(a, p.has, p.v), "refers to the bit");
        switch (vf_pick("op", 0, 3))
        {
            case 0:
                a = q.v;
                vf_assert(v == q.v && bits.test(1), "a value sets the bit");
                break;
            case 1:
                a = nullval;
                vf_assert(v == p.v && !bits.test(1), "nothing clears it");
                break;
            case 2:
                a = NI(I(q.v), bool(q.has));
                vf_assert(v == q.v && bits.test(1) == q.has, "an optional value");
                break;
            case 3:
                a.reset();
                vf_assert(v == p.v && !bits.test(1), "reset");
                break;
        }
        vf_assert(!bits.test(0) && !bits.test(2) && bits.null_count() == 3u - bits.test(1), "no other bit");
        vf_cover("end");
    }
}

template <class N>
static bool raises(N&& n)
{
    try
    {
        (void) std::forward<N>(n).value();
    }
    catch (const bad_nullable_access&)
    {
        return true;
    }
    return false;
}

HARNESS(access)
{
    pair_of<I> p("p");
    auto d = vf_any<I>("d");
    NI a(I(p.v), bool(p.has));
    const NI& c = a;
    vf_assert(raises(a) == !p.has && raises(c) == !p.has, "access to a missing value raises");
    vf_assert(raises(std::move(a)) == !p.has && raises(std::move(c)) == !p.has, "also of temporaries");
    vf_assert(c.value_or(d) == (p.has ? p.v : d) && NI(c).value_or(d) == (p.has ? p.v : d), "value or default");
    if (p.has)
    {
        vf_assert(a.value() == p.v && c.value() == p.v && NI(c).value() == p.v && &a.value() == &a.get(), "the value");
        a.value() = d;
        vf_assert(is(c, true, d), "is writable");
        vf_cover("value");
    }
    I v = p.v;
    bool f = p.has;
    NR r(v, f);
    const NR& cr = r;
    vf_assert(raises(r) == !p.has && raises(cr) == !p.has && raises(std::move(r)) == !p.has, "references raise alike");
    vf_assert(cr.value_or(d) == (p.has ? p.v : d), "and default alike");
    vf_cover("end");
}

HARNESS(swaps)
{
    pair_of<I> p("p"), q("q");
    NI a(I(p.v), bool(p.has)), b(I(q.v), bool(q.has));
    if (vf_split(vf_bool("member")))
    {
        a.swap(b);
    }
    else
    {
        swap(a, b);
    }
    vf_assert(is(a, q.has, q.v) && is(b, p.has, p.v), "swap");
    swap(a, a);
    vf_assert(is(a, q.has, q.v), "with itself");
    vf_cover("end");
}

// equality and order of the abstract optional: nothing equals nothing and is before every value
template <class A, class B, class T, class U>
static void compare(const A& a, const B& b, const pair_of<T>& p, const pair_of<U>& q)
{
    bool eq = p.has == q.has && (!p.has || p.v == q.v);
    vf_assert((a == b) == eq && (a != b) == !eq, "equality");
    bool lt = p.has && q.has ? p.v < q.v : !p.has && q.has;
    bool gt = p.has && q.has ? q.v < p.v : p.has && !q.has;
    vf_assert((a < b) == lt && (a > b) == gt, "nothing is before every value");
    vf_assert((a <= b) == (lt || eq) && (a >= b) == (gt || eq), "weak comparisons");
    vf_assert(((a <=> b) < 0) == lt && ((a <=> b) > 0) == gt && ((a <=> b) == 0) == eq, "three-way comparison");
}
HARNESS(comparison)
{
    pair_of<I> p("p"), q("q");
    NI a(I(p.v), bool(p.has)), b(I(q.v), bool(q.has));
    compare(a, b, p, q);
    I v = q.v;
    bool f = q.has;
    compare(a, NR(v, f), p, q);
    compare(NR(v, f), a, q, p);
    NL l(std::int64_t(q.v), bool(q.has));
    compare(a, l, p, q);
    vf_cover("end");
}
HARNESS(comparison_double)
{
    pair_of<double> p("p"), q("q");
    ND a(double(p.v), bool(p.has)), b(double(q.v), bool(q.has));
    bool eq = p.has == q.has && (!p.has || p.v == q.v);
    vf_assert((a == b) == eq && (a != b) == !eq, "equality of floating-point values");
    bool lt = p.has && q.has ? p.v < q.v : !p.has && q.has;
    vf_assert((a < b) == lt && (b > a) == lt, "order of floating-point values");
    vf_cover("end");
}
HARNESS(comparison_value)
{
    pair_of<I> p("p");
    auto v = vf_any<I>("v");
    NI a(I(p.v), bool(p.has));
    bool eq = p.has && p.v == v, lt = !p.has || p.v < v;
    vf_assert((a == v) == eq && (a != v) == !eq && (v == a) == eq, "equality with a value");
    vf_assert((a < v) == lt && (a > v) == (p.has && p.v > v) && (a <= v) == (lt || eq) && (a >= v) == !lt, "order with a value");
    vf_assert((v > a) == lt && (v <= a) == !lt, "reversed");
    vf_cover("end");
}
HARNESS(comparison_nothing)
{
    pair_of<I> p("p");
    NI a(I(p.v), bool(p.has));
    vf_assert((a == nullval) == !p.has && (a != nullval) == p.has && (nullval == a) == !p.has, "equality with nothing");
    vf_assert(!(a < nullval) && (a > nullval) == p.has && (a <= nullval) == !p.has && a >= nullval, "order with nothing");
    vf_assert((nullval < a) == p.has && nullval <= a, "reversed");
    vf_cover("end");
}

// values that own memory: each is destroyed once, and missing ones stay assignable
struct owner
{
    std::unique_ptr<I> p;
    owner() : p(new I(0)) {}
    owner(I v) : p(new I(v)) {}
    owner(const owner& o) : p(new I(*o)) {}
    owner(owner&& o) : p(std::move(o.p)) {}
    owner& operator=(const owner& o) { p.reset(new I(*o)); return *this; }
    owner& operator=(owner&& o) { p = std::move(o.p); return *this; }
    I operator*() const { return p ? *p : I(-1); }
};
HARNESS(owning_values)
{
    vf_leak_check lc;
    pair_of<I> p("p"), q("q");
    {
        using N = nullable<owner>;
        N a(owner(p.v), bool(p.has)), b(owner(q.v), bool(q.has));
        switch (vf_pick("op", 0, 4))
        {
            case 0:
                a = b;
                vf_assert(a.has_value() == q.has && *a.get() == q.v && b.has_value() == q.has && *b.get() == q.v, "copy");
                break;
            case 1:
                a = std::move(b);
                vf_assert(a.has_value() == q.has && *a.get() == q.v, "move");
                break;
            case 2:
                a = nullval;
                a = owner(q.v);
                vf_assert(a.has_value() && *a.get() == q.v, "value");
                break;
            case 3:
            {
                N c(std::move(b));
                vf_assert(c.has_value() == q.has && *c.get() == q.v, "move construction");
                break;
            }
            case 4:
                a.swap(b);
                vf_assert(a.has_value() == q.has && *a.get() == q.v && b.has_value() == p.has && *b.get() == p.v, "swap");
                break;
        }
        vf_cover("end");
    }
}

using NV = nullable_variant<NI, ND, nullable<bool>>;
HARNESS(variants)
{
    pair_of<I> p("p");
    pair_of<double> q("q");
    NV a(NI(I(p.v), bool(p.has))), b(ND(double(q.v), bool(q.has))), c;
    vf_assert(a.has_value() == p.has && bool(a) == p.has && b.has_value() == q.has && bool(b) == q.has, "variants report the validity of what they hold");
    vf_assert(!c.has_value(), "default is nothing");
    vf_assert(!(a == b), "different types are different");
    switch (vf_pick("op", 0, 2))
    {
        case 0:
            c = a;
            vf_assert(c.has_value() == p.has && std::get<0>(c).get() == p.v && c == a, "copy assignment");
            break;
        case 1:
            c = std::move(b);
            vf_assert(c.index() == 1 && c.has_value() == q.has, "move assignment");
            break;
        case 2:
        {
            pair_of<I> r("r");
            NV d(NI(I(r.v), bool(r.has)));
            bool eq = p.has == r.has && (!p.has || p.v == r.v);
            vf_assert((a == d) == eq, "equality of what they hold");
            break;
        }
    }
    vf_cover("end");
}
