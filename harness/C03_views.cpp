// C03: views and typed adaptors over bytes act as the typed sequence; byte buffers built from ranges.
// vf: headers-only
#include "vf.h"
#include <sparrow/buffer/buffer.hpp>
#include <sparrow/buffer/buffer_adaptor.hpp>
#include <sparrow/buffer/buffer_view.hpp>
#include <sparrow/buffer/u8_buffer.hpp>
#include <sparrow/utils/buffers.hpp>
#include <string>
#include <utility>
#include <vector>

using U8 = sparrow::buffer<std::uint8_t>;

// bytes holding n elements of T, with any capacity
template <class T>
static U8 mk(const char* nm = "data")
{
    auto cap = vf_size("cap");
    auto n = vf_upto("n", cap);
    auto* p = static_cast<std::uint8_t*>(vf_bytes(nm, cap * sizeof(T), sizeof(T)));
    U8 b(p, cap * sizeof(T));
    b.resize(n * sizeof(T));
    return b;
}

template <class T>
static T elem(const U8& b, std::uint64_t i)
{
    return reinterpret_cast<const T*>(b.data())[i];
}

template <class T>
static void adaptor_state()
{
    vf_leak_check lc;
    U8 b = mk<T>();
    auto a = sparrow::make_buffer_adaptor<T>(b);
    const auto& ca = a;
    auto n = b.size() / sizeof(T);
    vf_assert(a.size() == n && a.empty() == (n == 0), "size in elements");
    vf_assert(a.capacity() == b.capacity() / sizeof(T) && a.max_size() == b.max_size() / sizeof(T), "capacity in elements");
    vf_assert(std::uint64_t(a.end() - a.begin()) == n && std::uint64_t(ca.cend() - ca.cbegin()) == n, "iterator range");
    vf_assert(std::uint64_t(a.rend() - a.rbegin()) == n && std::uint64_t(ca.crend() - ca.crbegin()) == n, "reverse range");
    vf_cover("state");
    auto j = vf_below("j", n);
    auto* p = reinterpret_cast<T*>(b.data());
    vf_assert(&a[j] == p + j && &ca[j] == p + j && &*(a.begin() + std::ptrdiff_t(j)) == p + j, "element j");
    vf_assert(&*(ca.rbegin() + std::ptrdiff_t(j)) == p + (n - 1 - j), "reverse element j");
    vf_assert(&a.front() == p && &ca.front() == p && &a.back() == p + n - 1 && &ca.back() == p + n - 1, "front and back");
    auto i = vf_below("i", n);
    T old = a[j], v = vf_any<T>("v");
    a[i] = v;
    vf_assert(elem<T>(b, j) == (i == j ? v : old), "writing changes exactly one element");
    vf_cover("end");
}

HARNESS(adaptor_state_i32) { adaptor_state<std::int32_t>(); }
HARNESS(adaptor_state_u16) { adaptor_state<std::uint16_t>(); }
HARNESS(adaptor_state_i64) { adaptor_state<std::int64_t>(); }

template <class T>
static void adaptor_const()
{
    vf_leak_check lc;
    U8 b0 = mk<T>();
    const U8& b = b0;
    auto a = sparrow::make_buffer_adaptor<T>(b);
    auto n = b.size() / sizeof(T);
    vf_assert(a.size() == n && a.empty() == (n == 0) && std::uint64_t(a.end() - a.begin()) == n, "size in elements");
    vf_cover("state");
    auto j = vf_below("j", n);
    vf_assert(a[j] == elem<T>(b, j) && a.front() == elem<T>(b, 0) && a.back() == elem<T>(b, n - 1), "elements");
    vf_cover("end");
}

HARNESS(adaptor_const_i32) { adaptor_const<std::int32_t>(); }

// frame of an edit: element j moved to where(j)
template <class T>
struct edit
{
    U8 b = mk<T>();
    std::uint64_t n = b.size() / sizeof(T);
    std::uint64_t j = vf_size("j");
    T old = j < n ? elem<T>(b, j) : T();
};

template <class T>
static void adaptor_insert(int how)
{
    vf_leak_check lc;
    edit<T> e;
    auto a = sparrow::make_buffer_adaptor<T>(e.b);
    auto i = how == 3 ? e.n : vf_upto("i", e.n);
    auto c = how == 1 ? vf_size("c") : 1;
    T v = vf_any<T>("v");
    auto pos = a.cbegin() + std::ptrdiff_t(i);
    if (how == 3)
    {
        a.push_back(v);
    }
    else
    {
        auto it = how == 0 ? a.insert(pos, v) : how == 1 ? a.insert(pos, c, v) : a.emplace(pos, v);
        vf_assert(std::uint64_t(it - a.begin()) == i, "returned iterator");
    }
    vf_assert(a.size() == e.n + c && e.b.size() == (e.n + c) * sizeof(T), "size grows by the count");
    vf_cover("inserted");
    auto k = vf_size("k");
    if (k < c)
    {
        vf_assert(elem<T>(e.b, i + k) == v, "inserted values");
        vf_cover("value");
    }
    if (e.j < e.n)
    {
        vf_assert(elem<T>(e.b, vf_split(e.j < i) ? e.j : e.j + c) == e.old, "other elements shift by the count");
        vf_cover("end");
    }
}

HARNESS(adaptor_insert_one_u16) { adaptor_insert<std::uint16_t>(0); }
HARNESS(adaptor_insert_one_i32) { adaptor_insert<std::int32_t>(0); }  // vf: thorough
HARNESS(adaptor_insert_one_i64) { adaptor_insert<std::int64_t>(0); }  // vf: thorough
HARNESS(adaptor_insert_count_i32) { adaptor_insert<std::int32_t>(1); }  // vf: thorough
HARNESS(adaptor_insert_count_u16) { adaptor_insert<std::uint16_t>(1); }
HARNESS(adaptor_emplace_u16) { adaptor_insert<std::uint16_t>(2); }
HARNESS(adaptor_emplace_i32) { adaptor_insert<std::int32_t>(2); }  // vf: thorough
HARNESS(adaptor_push_back_i32) { adaptor_insert<std::int32_t>(3); }

template <class T>
static void adaptor_insert_range()
{
    vf_leak_check lc;
    edit<T> e;
    auto a = sparrow::make_buffer_adaptor<T>(e.b);
    auto i = vf_upto("i", e.n);
    auto c = vf_size("c");
    auto* p = static_cast<T*>(vf_bytes("src", c * sizeof(T), sizeof(T)));
    auto k = vf_size("k");
    {
        auto it = a.insert(a.cbegin() + std::ptrdiff_t(i), p, p + c);
        vf_assert(std::uint64_t(it - a.begin()) == i, "returned iterator");
        vf_assert(a.size() == e.n + c, "size grows by the length of the range");
        vf_cover("inserted");
        if (k < c)
        {
            vf_assert(elem<T>(e.b, i + k) == p[k], "inserted values");
            vf_cover("value");
        }
        if (e.j < e.n)
        {
            vf_assert(elem<T>(e.b, vf_split(e.j < i) ? e.j : e.j + c) == e.old, "other elements shift");
            vf_cover("end");
        }
    }
    ::operator delete(p);
}

HARNESS(adaptor_insert_range_u16) { adaptor_insert_range<std::uint16_t>(); }
HARNESS(adaptor_insert_range_i32) { adaptor_insert_range<std::int32_t>(); }  // vf: thorough

template <class T>
static void adaptor_insert_list()
{
    vf_leak_check lc;
    edit<T> e;
    auto a = sparrow::make_buffer_adaptor<T>(e.b);
    auto i = vf_upto("i", e.n);
    auto x = vf_any<T>("x"), y = vf_any<T>("y");
    auto it = a.insert(a.cbegin() + std::ptrdiff_t(i), {x, y});
    vf_assert(std::uint64_t(it - a.begin()) == i && a.size() == e.n + 2 && a[i] == x && a[i + 1] == y, "inserted list");
    if (e.j < e.n)
    {
        vf_assert(elem<T>(e.b, vf_split(e.j < i) ? e.j : e.j + 2) == e.old, "other elements shift");
        vf_cover("end");
    }
}

HARNESS(adaptor_insert_list_u16) { adaptor_insert_list<std::uint16_t>(); }
HARNESS(adaptor_insert_list_i32) { adaptor_insert_list<std::int32_t>(); }  // vf: thorough

template <class T>
static void adaptor_erase(int how)
{
    vf_leak_check lc;
    edit<T> e;
    auto a = sparrow::make_buffer_adaptor<T>(e.b);
    vf_assume(e.n > 0);
    std::uint64_t l = how == 2 ? e.n : vf_upto("l", e.n);
    std::uint64_t f = how == 2 ? e.n - 1 : vf_below("f", l);
    if (how == 0)
    {
        vf_assume(l == f + 1);
    }
    if (how == 2)
    {
        a.pop_back();
    }
    else
    {
        auto pos = a.cbegin() + std::ptrdiff_t(f);
        auto it = how == 0 ? a.erase(pos) : a.erase(pos, a.cbegin() + std::ptrdiff_t(l));
        vf_assert(std::uint64_t(it - a.begin()) == f, "returned iterator");
    }
    vf_assert(a.size() == e.n - (l - f) && e.b.size() == (e.n - (l - f)) * sizeof(T), "size shrinks");
    vf_cover("erased");
    if (e.j < f || (e.j >= l && e.j < e.n))
    {
        vf_assert(elem<T>(e.b, vf_split(e.j < f) ? e.j : e.j - (l - f)) == e.old, "other elements close the gap");
        vf_cover("end");
    }
}

HARNESS(adaptor_erase_one_i32) { adaptor_erase<std::int32_t>(0); }
HARNESS(adaptor_erase_range_i32) { adaptor_erase<std::int32_t>(1); }
HARNESS(adaptor_erase_range_i64) { adaptor_erase<std::int64_t>(1); }
HARNESS(adaptor_pop_back_i32) { adaptor_erase<std::int32_t>(2); }

template <class T>
static void adaptor_resize(bool fill)
{
    vf_leak_check lc;
    edit<T> e;
    auto a = sparrow::make_buffer_adaptor<T>(e.b);
    auto m = vf_size("m");
    T v = vf_any<T>("v");
    fill ? a.resize(m, v) : a.resize(m);
    vf_assert(a.size() == m && e.b.size() == m * sizeof(T), "size");
    vf_cover("resized");
    auto k = vf_size("k");
    if (k >= e.n && k < m)
    {
        vf_assert(elem<T>(e.b, k) == (fill ? v : T(0)), "new elements");
        vf_cover("new");
    }
    if (e.j < e.n && e.j < m)
    {
        vf_assert(elem<T>(e.b, e.j) == e.old, "kept elements");
        vf_cover("end");
    }
}

HARNESS(adaptor_resize_i32) { adaptor_resize<std::int32_t>(false); }
HARNESS(adaptor_resize_fill_i32) { adaptor_resize<std::int32_t>(true); }
HARNESS(adaptor_resize_fill_i64) { adaptor_resize<std::int64_t>(true); }

HARNESS(adaptor_reserve)
{
    vf_leak_check lc;
    edit<std::int32_t> e;
    auto a = sparrow::make_buffer_adaptor<std::int32_t>(e.b);
    auto c = vf_size("c");
    auto oc = a.capacity();
    a.reserve(c);
    vf_assert(a.capacity() >= c && a.capacity() >= oc && a.size() == e.n, "capacity covers the request");
    a.shrink_to_fit();
    vf_assert(a.capacity() == e.n && a.size() == e.n, "shrink_to_fit");
    vf_cover("reserved");
    if (e.j < e.n)
    {
        vf_assert(a[e.j] == e.old, "elements kept");
        vf_cover("end");
    }
    a.clear();
    vf_assert(a.size() == 0 && a.empty() && e.b.size() == 0, "cleared");
}

template <class T>
static void view()
{
    vf_leak_check lc;
    auto n = vf_size("n");
    auto* p = static_cast<T*>(vf_bytes("data", n * sizeof(T), sizeof(T)));
    sparrow::buffer<T> b(p, n);
    const sparrow::buffer<T>& cb = b;
    using V = sparrow::buffer_view<T>;
    V vs[] = {V(b), V(p, n), V(b.begin(), b.end())};
    V v = vs[vf_pick("how", 0, 2)];
    const V& c = v;
    sparrow::buffer_view<const T> k(cb);
    vf_assert(v.size() == n && v.empty() == (n == 0) && v.max_size() >= n && v.data() == p && c.data() == p, "designates the range");
    vf_assert(k.size() == n && k.data() == p, "const view");
    vf_assert(std::uint64_t(v.end() - v.begin()) == n && std::uint64_t(c.cend() - c.cbegin()) == n, "iterator range");
    vf_assert(std::uint64_t(v.rend() - v.rbegin()) == n && std::uint64_t(c.crend() - c.crbegin()) == n, "reverse range");
    auto f = vf_upto("f", n);
    auto s = c.subrange(f);
    vf_assert(s.data() == p + f && s.size() == n - f, "suffix");
    auto q = vf_upto("q", n - f);
    auto t = c.subrange(f, q);
    vf_assert(t.data() == p + f && t.size() == q, "subrange by count");
    V x, y = v;
    vf_assert(x.size() == 0 && x.empty(), "default view");
    x.swap(y);
    vf_assert(x.data() == p && x.size() == n && y.size() == 0, "swap");
    vf_cover("state");
    auto j = vf_below("j", n);
    vf_assert(&v[j] == p + j && &c[j] == p + j && &*(c.begin() + std::ptrdiff_t(j)) == p + j, "element j");
    vf_assert(&*(c.rbegin() + std::ptrdiff_t(j)) == p + (n - 1 - j), "reverse element j");
    vf_assert(&v.front() == p && &c.front() == p && &v.back() == p + n - 1 && &c.back() == p + n - 1, "front and back");
    T val = vf_any<T>("v");
    auto i = vf_below("i", n);
    T old = p[j];
    v[i] = val;
    vf_assert(b[j] == (i == j ? val : old), "writing through the view changes exactly one element");
    vf_cover("end");
}

HARNESS(view_i32) { view<std::int32_t>(); }
HARNESS(view_u8) { view<std::uint8_t>(); }

HARNESS(view_equality)
{
    vf_leak_check lc;
    auto n = vf_size("n"), m = vf_size("m");
    auto* p = static_cast<std::int32_t*>(vf_bytes("a", n * 4, 4));
    auto* q = static_cast<std::int32_t*>(vf_bytes("b", m * 4, 4));
    sparrow::buffer<std::int32_t> x(p, n), y(q, m);
    sparrow::buffer_view<std::int32_t> a(x), b(y);
    bool eq = a == b;
    auto j = vf_size("j");
    if (eq)
    {
        vf_skolem(j);
        vf_skolem(4 * j);
        vf_skolem(4 * j + 1);
        vf_skolem(4 * j + 2);
        vf_skolem(4 * j + 3);
        vf_assert(n == m && (j >= n || p[j] == q[j]), "equal views have equal elements");
        vf_cover("equal");
    }
    bool self = a == sparrow::buffer_view<std::int32_t>(p, n);
    vf_assert(self, "a view equals itself");
    vf_cover("end");
}

HARNESS(view_to_buffer)
{
    vf_leak_check lc;
    auto n = vf_size("n");
    auto* p = static_cast<std::int32_t*>(vf_bytes("a", n * 4, 4));
    sparrow::buffer<std::int32_t> x(p, n);
    auto y = static_cast<sparrow::buffer<std::int32_t>>(sparrow::buffer_view<const std::int32_t>(x));
    vf_assert(y.size() == n, "size");
    vf_cover("copied");
    auto j = vf_below("j", n);
    vf_assert(y[j] == p[j] && y.data() != p, "own copy");
    vf_cover("end");
}

template <class T>
static void u8_fill()
{
    vf_leak_check lc;
    auto n = vf_size("n");
    T v = vf_any<T>("v");
    sparrow::u8_buffer<T> b(n, v);
    vf_assert(b.size() == n, "size");
    sparrow::u8_buffer<T> c(b), d(std::move(b));
    vf_assert(c.size() == n && d.size() == n, "copy and move keep the size");
    vf_cover("built");
    if (n > 0)
    {
        auto j = vf_below("j", n);
        vf_assert(c[j] == v && d[j] == v, "fill value");
        T w = vf_any<T>("w");
        c[j] = w;
        vf_assert(d[j] == v && c[j] == w, "copies are independent");
        auto raw = std::move(d).extract_storage();
        vf_assert(raw.size() == n * sizeof(T) && elem<T>(raw, j) == v, "extracted bytes");
        vf_cover("end");
    }
}

HARNESS(u8_fill_i32) { u8_fill<std::int32_t>(); }
HARNESS(u8_fill_u8) { u8_fill<std::uint8_t>(); }

template <class T>
static void u8_range()
{
    vf_leak_check lc;
    auto n = vf_size("n");
    auto* p = static_cast<T*>(vf_bytes("src", n * sizeof(T), sizeof(T)));
    {
        sparrow::buffer<T> src(p, n);
        sparrow::u8_buffer<T> b(src);
        vf_assert(b.size() == n, "size");
        vf_cover("built");
        auto j = vf_below("j", n);
        vf_assert(b[j] == src[j], "element j");
        auto raw = std::move(b).extract_storage();
        vf_assert(raw.size() == n * sizeof(T) && elem<T>(raw, j) == src[j], "extracted bytes");
        vf_cover("end");
    }
}

HARNESS(u8_range_i32) { u8_range<std::int32_t>(); }
HARNESS(u8_range_i64) { u8_range<std::int64_t>(); }

HARNESS(u8_convert)
{
    vf_leak_check lc;
    auto n = vf_size("n");
    auto* p = static_cast<std::uint8_t*>(vf_bytes("src", n, 1));
    sparrow::buffer<std::uint8_t> src(p, n);
    sparrow::u8_buffer<std::uint32_t> b(src);
    vf_assert(b.size() == n, "size");
    vf_cover("built");
    auto j = vf_below("j", n);
    vf_assert(b[j] == src[j], "converted element j");
    vf_cover("end");
}

HARNESS(u8_list)
{
    vf_leak_check lc;
    auto x = vf_any<std::int16_t>("x"), y = vf_any<std::int16_t>("y");
    sparrow::u8_buffer<std::int16_t> b{x, y, x};
    vf_assert(b.size() == 3 && b[0] == x && b[1] == y && b[2] == x, "initialiser list");
    vf_cover("end");
}

HARNESS(range_bytes)
{
    vf_leak_check lc;
    auto n = vf_size("n");
    auto* p = static_cast<std::int32_t*>(vf_bytes("src", n * 4, 4));
    sparrow::buffer<std::int32_t> src(p, n);
    auto b = sparrow::range_to_buffer(src);
    vf_assert(b.size() == n * 4, "size in bytes");
    vf_cover("built");
    auto j = vf_below("j", n);
    vf_assert(elem<std::int32_t>(b, j) == p[j], "element j");
    vf_cover("end");
}

// concatenation of byte strings (three of any lengths)
HARNESS(strings_bytes)
{
    vf_leak_check lc;
    sparrow::buffer<char> s[3];
    const char* nm[] = {"a", "b", "c"};
    for (int i = 0; i < 3; ++i)
    {
        auto n = vf_size(nm[i]);
        s[i] = sparrow::buffer<char>(static_cast<char*>(vf_bytes(nm[i], n, 1)), n);
    }
    std::vector<sparrow::buffer_view<char>> v;
    for (auto& x : s)
    {
        v.emplace_back(x);
    }
    auto total = s[0].size() + s[1].size() + s[2].size();
    vf_assert(sparrow::number_of_bytes(v) == total, "number of bytes");
    auto b = sparrow::strings_to_buffer(v);
    vf_assert(b.size() == total, "total size");
    vf_cover("built");
    auto i = vf_pick("i", 0, 2);
    auto j = vf_below("j", s[i].size());
    std::uint64_t at = i == 0 ? j : i == 1 ? s[0].size() + j : s[0].size() + s[1].size() + j;
    vf_assert(b[at] == std::uint8_t(s[i][j]), "bytes in order");
    vf_cover("end");
}
