// C10: editing a fixed-width array changes values, validity, length and null count as the same edit changes a sequence of
// optional values, at any offset; elements not addressed keep their value and validity.
// vf: cflags=-mllvm
// vf: cflags=-force-attribute=_ZN7sparrow14buffer_adaptorIiRNS_6bufferIhEEE6insertENS_16pointer_iteratorIPKiEEmRS6_QntL_ZNS_14buffer_adaptor8is_constEE:noinline
// vf: cflags=-mllvm
// vf: cflags=-force-attribute=_ZN7sparrow14buffer_adaptorIiRNS_6bufferIhEEE5eraseENS_16pointer_iteratorIPKiEES8_QntL_ZNS_14buffer_adaptor8is_constEE:noinline
// vf: cflags=-mllvm
// vf: cflags=-force-attribute=_ZN7sparrow14buffer_adaptorIiRNS_6bufferIhEEE6resizeEmRKiQntL_ZNS_14buffer_adaptor8is_constEE:noinline
// vf: cflags=-mllvm
// vf: cflags=-force-attribute=_ZN7sparrow14buffer_adaptorIiRNS_6bufferIhEEE6resizeEmQntL_ZNS_14buffer_adaptor8is_constEE:noinline
#include "edits.h"
#include <array>
#include <bit>
#include <initializer_list>
#include <vector>
using namespace vf;
using U8 = buffer<std::uint8_t>;

static u64 ones(const std::uint8_t* p, u64 n)
{
    auto r = n % 8;
    return vf_popcount(p, n / 8) + (r ? u64(std::popcount(std::uint8_t(p[n / 8] & ((1u << r) - 1)))) : 0);
}
static u64 bit_size(const char* q, const char* r) { return vf_nd(q, 0, VF_MAX / 16) * 8 + vf_residue(r, 8); }

// an element of the array before the edit
template <class T>
struct element
{
    bool has;
    T value;
};

// an array created by the library: any offset, length, content, and buffers with room to spare
template <class T>
struct owned
{
    u64 off, len, slots;
    const std::uint8_t* h0;
    const T* v0;
    primitive_array<T> a;

    static primitive_array<T> make(u64 off, u64 len, u64 slots, const void* h, const void* v)
    {
        std::vector<U8> bufs;
        bufs.push_back(U8(static_cast<std::uint8_t*>(const_cast<void*>(h)), (slots + 7) / 8));
        bufs.push_back(U8(static_cast<std::uint8_t*>(const_cast<void*>(v)), slots * sizeof(T)));
        auto a = make_arrow_array(std::int64_t(len), 0, std::int64_t(off), std::move(bufs), 0, nullptr, nullptr);
        a.null_count = vf_any<std::int64_t>("old null count");
        auto s = make_arrow_schema(std::string(format_of<T>()), std::optional<std::string>("name"), std::optional<std::string>(), ArrowFlag::NULLABLE, 0, nullptr, nullptr);
        return primitive_array<T>(arrow_proxy(std::move(a), std::move(s)));
    }

    owned(u64 o, u64 l, u64 s)
        : off(o)
        , len(l)
        , slots(s)
        , h0(static_cast<const std::uint8_t*>(vf_bytes("validity", (s + 7) / 8, 1)))
        , v0(static_cast<const T*>(vf_bytes("values", s * sizeof(T), sizeof(T))))
        , a(make(o, l, s, h0, v0))
    {
    }

    // to be taken before the edit
    element<T> old(u64 i) const
    {
        vf_assume(i < len);
        return {bool((h0[(off + i) / 8] >> ((off + i) % 8)) & 1), v0[off + i]};
    }
    void is(u64 i, element<T> x, const char* what)
    {
        const auto& c = a;
        auto e = c[i];
        vf_assert(agree(e.has_value(), x.has, e.get() == x.value), what);
        auto y = *(c.begin() + std::ptrdiff_t(i));
        vf_assert(agree(y.has_value(), x.has, y.get() == x.value), "the same by iterator");
    }

    const std::uint8_t* bits() { return static_cast<const std::uint8_t*>(get_arrow_array(a)->buffers[0]); }
    void shape(u64 n)
    {
        const auto& c = a;
        auto [x, s] = get_arrow_structures(a);
        vf_assert(c.size() == n && x->length == std::int64_t(n) && c.end() - c.begin() == std::ptrdiff_t(n), "length after the edit");
        vf_assert(x->offset == std::int64_t(off) && x->n_buffers == 2 && x->n_children == 0, "offset and structure are kept");
        vf_assert(std::strcmp(s->format, format_of<T>()) == 0 && std::strcmp(s->name, "name") == 0, "format and name are kept");
    }
    // the validity buffer covers the designated elements and the null count is its number of unset bits
    void counted(u64 n)
    {
        auto* x = get_arrow_array(a);
        vf_assert(x->null_count == std::int64_t(n - (ones(bits(), off + n) - ones(bits(), off))), "the null count is the number of missing elements");
    }
};

// --- assignment, any length, offset and position

template <class T>
static void assign(unsigned how)
{
    vf_leak_check lc;
    auto p = vf_nd("pq", 0, VF_MAX / 16) * 8 + vf_residue("pr", 8);
    auto q = vf_nd("qq", 0, VF_MAX / 16) * 8 + vf_residue("qr", 8);
    auto off = vf_nd("off", 0, VF_MAX);
    vf_assume(off <= p && off <= q && p != q);
    const auto i = p - off, j = q - off;
    auto end = bit_size("eq", "er"), slack = vf_nd("slack", 0, 20);
    vf_assume(p < end && q < end);
    const auto len = end - off;
    auto v = vf_any<T>("v");
    bool h = vf_split(vf_bool("h"));
    {
        owned<T> o(off, len, off + len + slack);
        auto x = o.old(i), y = o.old(j);
        switch (how)
        {
            case 0: o.a[i] = nullable<T>(v, bool(h)); break;
            case 1: o.a[i] = nullval; h = false; break;
            case 2: o.a[i] = v; h = true; break;
            case 3: *(o.a.begin() + std::ptrdiff_t(i)) = nullable<T>(v, bool(h)); break;
            default:
                o.a[i].get() = v;
                h = x.has;
                break;
        }
        o.shape(len);
        o.is(i, {h, v}, "the addressed element has the assigned value");
        o.is(j, y, "elements not addressed keep their value and validity");
        vf_cover("assigned");
    }
}
HARNESS(assign_value) { assign<std::int32_t>(0); }            // vf: use=bits residues
HARNESS(assign_null) { assign<std::int32_t>(1); }             // vf: use=bits residues
HARNESS(assign_plain) { assign<std::int32_t>(2); }            // vf: use=bits residues
HARNESS(assign_iterator) { assign<std::int32_t>(3); }         // vf: use=bits residues
HARNESS(assign_get) { assign<std::int32_t>(4); }              // vf: use=bits residues
HARNESS(assign_uint8) { assign<std::uint8_t>(0); }            // vf: use=bits residues
HARNESS(assign_int64) { assign<std::int64_t>(3); }            // vf: use=bits residues thorough

// --- resizing, inserting and erasing: any length, offset, position and count
// The edits of the validity bitmap are replaced by their contracts (bodies: C02, C06 and the whole edits below).

static u64 bit_pos(const char* q, const char* r) { return vf_nd(q, 0, VF_MAX / 16) * 8 + vf_residue(r, 8); }

// an edit that puts `in` elements in place of `out` elements before position `at`: element g of the buffers after the edit
template <class T, class Edit>
static void edit(u64 off, u64 at, u64 len, u64 in, u64 out, element<T> v, Edit e)
{
    auto slots = vf_below("slots", VF_MAX / 2);
    vf_assume(off + len <= slots && at + out <= len && off + len - out + in < VF_MAX);
    vf_assume(off <= ghost && ghost < off + len - out + in);
    {
        owned<T> o(off, len, slots);
        bool before = vf_split(ghost < off + at), fresh = !before && vf_split(ghost < off + at + in);
        auto x = before ? o.old(ghost - off) : fresh ? v : o.old(from(ghost - in + out) - off);
        auto r = e(o.a);
        o.shape(len - out + in);
        vf_assert(r == at, "the result designates the place of the edit");
        o.is(ghost - off, x, before ? "elements before keep their value and validity" : fresh ? "new elements have the given value" : "elements after keep their value and validity");
        vf_cover("edited");
    }
}

template <class T>
static element<T> any_element()
{
    bool h = vf_split(vf_bool("h"));
    return {h, vf_any<T>("v")};
}
template <class A, class I>
static u64 place(A& a, I it)
{
    return u64(it - a.begin());
}

template <class T>
static void resize_any()
{
    vf_leak_check lc;
    ghost = bit_pos("gq", "gr");
    auto off = vf_nd("off", 0, VF_MAX), len = vf_nd("len", 0, VF_MAX), n = vf_nd("n", 0, VF_MAX);
    auto v = any_element<T>();
    edit<T>(off, n < len ? n : len, len, n > len ? n - len : 0, n < len ? len - n : 0, v, [&](auto& a)
            {
                a.resize(n, nullable<T>(v.value, bool(v.has)));
                return n < len ? n : len;
            });
}
HARNESS(resize_int32) { resize_any<std::int32_t>(); }  // vf: residues use=bits,bitmap,values

template <class T>
static void insert_any(unsigned how)
{
    vf_leak_check lc;
    ghost = bit_pos("gq", "gr");
    source = bit_pos("pq", "pr");
    vf_assume(source <= ghost);
    auto off = vf_nd("off", 0, VF_MAX), at = vf_nd("at", 0, VF_MAX), len = vf_nd("len", 0, VF_MAX);
    u64 count = how == 0 ? 1 : ghost - source;
    auto v = any_element<T>();
    edit<T>(off, at, len, count, 0, v, [&](auto& a)
            {
                nullable<T> x(v.value, bool(v.has));
                if (how == 0) return place(a, a.insert(a.cbegin() + std::ptrdiff_t(at), x));
                return place(a, a.insert(a.cbegin() + std::ptrdiff_t(at), x, count));
            });
}
HARNESS(insert_one_int32) { insert_any<std::int32_t>(0); }    // vf: residues use=bits,bitmap,values
HARNESS(insert_count_int32) { insert_any<std::int32_t>(1); }  // vf: residues use=bits,bitmap,values

// a position at one of few places within its block
static u64 some_pos(const char* q, const char* r, u64 x, u64 y)
{
    return vf_nd(q, 0, VF_MAX / 16) * 8 + (vf_split(vf_bool(r)) ? x : y);
}
template <class T>
static void erase_any(unsigned how)
{
    vf_leak_check lc;
#ifdef VF_QUICK
    source = some_pos("sq", "sr", 0, 7);
#else
    source = bit_pos("sq", "sr");
#endif
    auto off = vf_nd("oq", 0, VF_MAX / 16) * 8 + 3;
    auto first = some_pos("fq", "fr", 7, 3), end = some_pos("eq", "er", 3, 0);
    auto last = how == 0 ? first + 1 : some_pos("lq", "lr", 3, 0);
    vf_assume(off <= first && first < last && last <= end && off <= source && source < end);
    ghost = source;
    if (vf_split(source >= first))
    {
        vf_assume(source >= last);
        ghost = source - (last - first);
    }
    const auto at = first - off, len = end - off, count = last - first;
    edit<T>(off, at, len, 0, count, {}, [&](auto& a)
            {
                if (how == 0) return place(a, a.erase(a.cbegin() + std::ptrdiff_t(at)));
                return place(a, a.erase(a.cbegin() + std::ptrdiff_t(at), a.cbegin() + std::ptrdiff_t(at + count)));
            });
}
HARNESS(erase_one_int32) { erase_any<std::int32_t>(0); }    // vf: residues use=bits,bitmap,values
HARNESS(erase_range_int32) { erase_any<std::int32_t>(1); }  // vf: residues use=bits,bitmap,values

HARNESS(push_back)  // vf: residues use=bits,bitmap,values
{
    vf_leak_check lc;
    ghost = bit_pos("gq", "gr");
    auto off = vf_nd("off", 0, VF_MAX), len = vf_nd("len", 0, VF_MAX);
    auto v = any_element<std::int32_t>();
    edit<std::int32_t>(off, len, len, 1, 0, v, [&](auto& a)
                       {
                           a.push_back(nullable<std::int32_t>(v.value, bool(v.has)));
                           return len;
                       });
}
HARNESS(pop_back)  // vf: residues use=bits,bitmap,values
{
    vf_leak_check lc;
    ghost = bit_pos("gq", "gr");
    auto off = vf_nd("off", 0, VF_MAX), len = vf_nd("len", 1, VF_MAX);
    edit<std::int32_t>(off, len - 1, len, 0, 1, {}, [&](auto& a)
                       {
                           a.pop_back();
                           return len - 1;
                       });
}

// --- whole edits on small arrays: every element and the null count (bounded: up to 4 elements after an offset of 0 or 5)

template <class T>
struct small
{
    u64 off = vf_split(vf_bool("offset")) ? 5 : 0;
    u64 len = vf_pick("len", 0, 4);
    owned<T> o{off, len, off + len + (vf_split(vf_bool("slack")) ? 6 : 0)};
    std::vector<element<T>> e;
    small()
    {
        for (u64 i = 0; i < len; ++i) e.push_back(o.old(i));
    }
    void check()
    {
        o.shape(e.size());
        for (u64 i = 0; i < e.size(); ++i) o.is(i, e[i], "the element of the edited sequence");
        o.counted(e.size());
        vf_cover("edited");
    }
    auto at(u64 i) { return o.a.cbegin() + std::ptrdiff_t(i); }
    void put(u64 i, u64 n, element<T> v) { e.insert(e.begin() + std::ptrdiff_t(i), n, v); }
    void take(u64 i, u64 n) { e.erase(e.begin() + std::ptrdiff_t(i), e.begin() + std::ptrdiff_t(i + n)); }
};
template <class T>
static nullable<T> opt(element<T> v) { return nullable<T>(v.value, bool(v.has)); }
template <class T>
static element<T> some_element(const char* h, const char* v) { return {vf_bool(h), vf_any<T>(v)}; }

template <class T>
static void small_insert(unsigned how)
{
    vf_leak_check lc;
    {
        small<T> s;
        auto at = vf_pick("at", 0, s.len);
        auto v = some_element<T>("h", "v"), w = some_element<T>("h2", "v2");
        u64 r;
        if (how == 0)
        {
            auto n = vf_pick("n", 0, 4);
            r = place(s.o.a, s.o.a.insert(s.at(at), opt(v), n));
            s.put(at, n, v);
        }
        else if (how == 1)
        {
            std::initializer_list<nullable<T>> il = {opt(v), opt(w), opt(v)};
            r = place(s.o.a, s.o.a.insert(s.at(at), il));
            s.put(at, 1, v);
            s.put(at + 1, 1, w);
            s.put(at + 2, 1, v);
        }
        else
        {
            auto n = vf_pick("n", 0, 3);
            std::array<nullable<T>, 3> x = {opt(v), opt(w), opt(v)};
            r = how == 2 ? place(s.o.a, s.o.a.insert(s.at(at), x.data(), x.data() + n)) : place(s.o.a, s.o.a.insert(s.at(at), std::vector<nullable<T>>(x.data(), x.data() + n)));
            for (u64 k = 0; k < n; ++k) s.put(at + k, 1, k == 1 ? w : v);
        }
        vf_assert(r == at, "the result designates the first new element");
        s.check();
    }
}
HARNESS(small_insert_count) { small_insert<std::int32_t>(0); }
HARNESS(small_insert_list) { small_insert<std::int32_t>(1); }
HARNESS(small_insert_pointers) { small_insert<std::int32_t>(2); }
HARNESS(small_insert_range) { small_insert<std::int16_t>(3); }  // vf: thorough

HARNESS(small_erase)
{
    vf_leak_check lc;
    {
        small<std::int32_t> s;
        vf_assume(s.len > 0);
        auto at = vf_pick("at", 0, s.len - 1);
        if (vf_split(vf_bool("one")))
        {
            vf_assert(place(s.o.a, s.o.a.erase(s.at(at))) == at, "the result designates the element after");
            s.take(at, 1);
        }
        else
        {
            auto n = vf_pick("n", 1, s.len - at);
            vf_assert(place(s.o.a, s.o.a.erase(s.at(at), s.at(at + n))) == at, "the result designates the element after");
            s.take(at, n);
        }
        s.check();
    }
}

HARNESS(small_resize)
{
    vf_leak_check lc;
    {
        small<std::uint8_t> s;
        auto v = some_element<std::uint8_t>("h", "v");
        auto n = vf_pick("n", 0, 6);
        s.o.a.resize(n, opt(v));
        while (s.e.size() > n) s.e.pop_back();
        while (s.e.size() < n) s.e.push_back(v);
        s.check();
    }
}

// histories of edits, each with its own arguments
template <class T>
static void history(unsigned steps)
{
    vf_leak_check lc;
    {
        small<T> s;
        vf_assume(s.len <= 2);
        s.o.a.push_back(nullable<T>(T(7)));
        s.put(s.len, 1, {true, T(7)});
        for (unsigned k = 0; k < steps; ++k)
        {
            auto v = some_element<T>("h", "v");
            const auto n = s.e.size();
            auto what = vf_pick("what", 0, n ? 5 : 2);
            if (what == 0) s.o.a.push_back(opt(v)), s.put(n, 1, v);
            if (what == 1) s.o.a.insert(s.at(0), opt(v), 2), s.put(0, 2, v);
            if (what == 2) s.o.a.resize(n + 3, opt(v)), s.put(n, 3, v);
            if (what == 3) s.o.a.pop_back(), s.take(n - 1, 1);
            if (what == 4) s.o.a.erase(s.at(0)), s.take(0, 1);
            if (what == 5) s.o.a[n - 1].get() = v.value, s.e[n - 1].value = v.value;
        }
        s.check();
    }
}
HARNESS(history_two) { history<std::int32_t>(2); }
HARNESS(history_three) { history<std::int32_t>(3); }  // vf: thorough

// assigned elements keep their place through later edits, copies are not affected
HARNESS(assign_then_edit)
{
    vf_leak_check lc;
    {
        small<std::int32_t> s;
        vf_assume(s.len > 0);
        auto i = vf_pick("i", 0, s.len - 1);
        auto v = some_element<std::int32_t>("h", "v"), w = some_element<std::int32_t>("h2", "v2");
        primitive_array<std::int32_t> copy(s.o.a);
        auto before = s.e;
        *(s.o.a.end() - std::ptrdiff_t(s.len - i)) = opt(v);
        s.e[i] = v;
        s.o.a.insert(s.at(i), opt(w));
        s.put(i, 1, w);
        s.check();
        vf_assert(copy.size() == before.size(), "a copy keeps its length");
        for (u64 k = 0; k < before.size(); ++k)
        {
            auto e = std::as_const(copy)[k];
            vf_assert(agree(e.has_value(), before[k].has, e.get() == before[k].value), "a copy keeps its elements");
        }
    }
}

// assigning nothing (or a value to a missing element) counts
HARNESS(assigned_null_count)
{
    small<std::int32_t> s;
    s.o.a.push_back(make_nullable<std::int32_t>(7));
    s.put(s.len, 1, {true, 7});
    s.o.counted(s.e.size());
    s.o.a[s.len] = nullval;
    s.o.counted(s.e.size());
}

// what is not an array of the library cannot change its length
HARNESS(foreign_arrays_are_refused)
{
    fixed_node<std::int32_t> n(range(vf_pick("off", 0, 2), vf_pick("len", 1, 2)));
    auto a = borrow<primitive_array<std::int32_t>>(n);
    bool refused = false;
    try
    {
        switch (vf_pick("what", 0, 3))
        {
            case 0: a.push_back(make_nullable<std::int32_t>(1)); break;
            case 1: a.pop_back(); break;
            case 2: a.resize(4, make_nullable<std::int32_t>(1)); break;
            default: a.insert(a.cbegin(), make_nullable<std::int32_t>(1), 2); break;
        }
    }
    catch (const arrow_proxy_exception&)
    {
        refused = true;
    }
    vf_assert(refused, "edits of the length are refused");
    vf_assert(a.size() == n.len(), "and change nothing");
    vf_cover("end");
}
