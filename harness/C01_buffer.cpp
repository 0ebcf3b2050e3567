// C01: an owning buffer is a resizable sequence of values.  Every operation is specified from an arbitrary state: any size, any
// capacity (also the empty state without storage), any content; the postcondition fixes the size and every element (through a
// nondeterministic index), that no access leaves the storage, and that storage is returned exactly once.
// vf: headers-only
#include "vf.h"
#include <sparrow/buffer/buffer.hpp>
#include <array>
#include <vector>
#include <stdexcept>

template <class T>
using B = sparrow::buffer<T>;

// arbitrary reachable state
template <class T>
static B<T> mk(const char* nm = "data")
{
    if (vf_bool("nostorage"))
    {
        return B<T>();
    }
    auto cap = vf_size("cap");
    auto n = vf_upto("n", cap);
    auto* p = static_cast<T*>(vf_bytes(nm, cap * sizeof(T), sizeof(T)));
    B<T> b(p, cap);
    b.resize(n);
    return b;
}

template <class T>
static void state()
{
    vf_leak_check lc;
    auto b = mk<T>();
    const B<T>& c = b;
    vf_assert(b.empty() == (b.size() == 0), "empty iff size is zero");
    vf_assert(b.capacity() >= b.size(), "capacity covers size");
    vf_assert(std::uint64_t(c.end() - c.begin()) == b.size(), "iterator range length");
    vf_assert(std::uint64_t(b.rend() - b.rbegin()) == b.size(), "reverse iterator range length");
    vf_assert(b.max_size() >= b.size(), "max size");
    auto j = vf_below("j", b.size());
    vf_assert(&c[j] == b.data() + j, "indexing is contiguous");
    vf_assert(&*(c.begin() + std::ptrdiff_t(j)) == b.data() + j, "iterator at j is element j");
    vf_assert(&*(b.rbegin() + std::ptrdiff_t(j)) == b.data() + (b.size() - 1 - j), "reverse iterator");
    vf_assert(&b.front() == b.data() && &c.front() == b.data(), "front");
    vf_assert(&b.back() == b.data() + b.size() - 1 && &c.back() == &b.back(), "back");
    auto v = vf_any<T>("v");
    auto i = vf_below("i", b.size());
    T old = b[j];
    b[i] = v;
    vf_assert(c[j] == (i == j ? v : old), "writing one element changes only that element");
    vf_cover("end");
}

HARNESS(state_u8) { state<std::uint8_t>(); }
HARNESS(state_i32) { state<std::int32_t>(); }

template <class T>
static void ctor_fill()
{
    vf_leak_check lc;
    auto n = vf_size("n");
    auto v = vf_any<T>("v");
    B<T> b(n, v);
    vf_assert(b.size() == n, "size");
    vf_cover("built");
    auto j = vf_below("j", n);
    vf_assert(b[j] == v, "every element is the fill value");
    B<T> z(n);
    vf_assert(z.size() == n, "size of value-initialised buffer");
    vf_assert(z[j] == T(), "value-initialised element");
    vf_cover("end");
}

HARNESS(ctor_fill_u8) { ctor_fill<std::uint8_t>(); }
HARNESS(ctor_fill_i64) { ctor_fill<std::int64_t>(); }

template <class T>
static void ctor_range()
{
    vf_leak_check lc;
    auto n = vf_size("n");
    auto* p = static_cast<T*>(vf_bytes("src", n * sizeof(T), sizeof(T)));
    {
        B<T> b(p, p + n);
        vf_assert(b.size() == n, "size");
        if (n > 0)
        {
            auto j = vf_below("j", n);
            vf_assert(b[j] == p[j], "elements equal the range");
            vf_assert(b.data() != p, "own storage");
            vf_cover("end");
        }
    }
    ::operator delete(p);
}

HARNESS(ctor_range_u8) { ctor_range<std::uint8_t>(); }
HARNESS(ctor_range_i32) { ctor_range<std::int32_t>(); }

HARNESS(ctor_list)
{
    vf_leak_check lc;
    auto x = vf_any<std::int32_t>("x"), y = vf_any<std::int32_t>("y"), z = vf_any<std::int32_t>("z");
    B<std::int32_t> b{x, y, z};
    vf_assert(b.size() == 3 && b[0] == x && b[1] == y && b[2] == z, "initialiser list");
    b = {z, y};
    vf_assert(b.size() == 2 && b[0] == z && b[1] == y, "assignment from an initialiser list");
    b = {z, y, x, x};
    vf_assert(b.size() == 4 && b[0] == z && b[1] == y && b[2] == x && b[3] == x, "growing assignment from an initialiser list");
    std::array<std::int32_t, 3> r{y, y, x};
    B<std::int32_t> c(r);
    vf_assert(c.size() == 3 && c[0] == y && c[1] == y && c[2] == x, "from a range");
    vf_cover("end");
}

template <class T>
static void adopt()
{
    vf_leak_check lc;
    auto n = vf_size("n");
    auto* p = static_cast<T*>(vf_bytes("src", n * sizeof(T), sizeof(T)));
    B<T> b(p, n);
    vf_assert(b.data() == p && b.size() == n && b.capacity() == n, "adopts the storage");
    vf_cover("end");
}

HARNESS(adopt_u8) { adopt<std::uint8_t>(); }

template <class T>
static void copy_ctor()
{
    vf_leak_check lc;
    auto b = mk<T>();
    B<T> c(b);
    vf_assert(c.size() == b.size(), "copy has the size");
    vf_assert(b.size() == 0 || c.data() != b.data(), "copy has its own storage");
    vf_cover("built");
    auto j = vf_below("j", b.size());
    vf_assert(c[j] == b[j], "copy has the elements");
    T old = b[j];
    c[j] = vf_any<T>("v");
    vf_assert(b[j] == old, "writing the copy leaves the original alone");
    vf_cover("end");
}

HARNESS(copy_ctor_u8) { copy_ctor<std::uint8_t>(); }
HARNESS(copy_ctor_i32) { copy_ctor<std::int32_t>(); }

template <class T>
static void copy_assign()
{
    vf_leak_check lc;
    auto a = mk<T>("a");
    auto b = mk<T>("b");
    auto n = b.size();
    B<T>& r = (a = b);
    vf_assert(&r == &a, "returns itself");
    vf_assert(a.size() == n && b.size() == n, "size");
    vf_assert(a.capacity() >= n, "capacity");
    vf_cover("assigned");
    auto j = vf_below("j", n);
    vf_assert(a[j] == b[j], "elements");
    vf_assert(a.data() != b.data(), "own storage");
    vf_cover("end");
}

HARNESS(copy_assign_u8) { copy_assign<std::uint8_t>(); }
HARNESS(copy_assign_i32) { copy_assign<std::int32_t>(); }

template <class T>
static void self_assign()
{
    vf_leak_check lc;
    auto a = mk<T>();
    auto n = a.size();
    auto j = vf_below("j", n);
    T old = a[j];
    B<T>& r = a;
    a = r;
    vf_assert(a.size() == n && a[j] == old, "self assignment changes nothing");
    vf_cover("end");
}

HARNESS(self_assign_i32) { self_assign<std::int32_t>(); }

template <class T>
static void moves()
{
    vf_leak_check lc;
    auto a = mk<T>("a");
    auto n = a.size();
    auto* p = a.data();
    auto cap = a.capacity();
    B<T> b(std::move(a));
    vf_assert(b.data() == p && b.size() == n && b.capacity() == cap, "move construction transfers the storage");
    vf_assert(a.size() == 0 && a.empty(), "moved-from buffer is empty");
    auto c = mk<T>("c");
    c = std::move(b);
    vf_assert(c.data() == p && c.size() == n && c.capacity() == cap, "move assignment transfers the storage");
    vf_cover("end");
}

HARNESS(moves_u8) { moves<std::uint8_t>(); }

template <class T>
static void swaps()
{
    vf_leak_check lc;
    auto a = mk<T>("a");
    auto b = mk<T>("b");
    auto* pa = a.data();
    auto* pb = b.data();
    auto na = a.size(), nb = b.size(), ca = a.capacity(), cb = b.capacity();
    a.swap(b);
    vf_assert(a.data() == pb && a.size() == nb && a.capacity() == cb, "first gets the second");
    vf_assert(b.data() == pa && b.size() == na && b.capacity() == ca, "second gets the first");
    vf_cover("end");
}

HARNESS(swap_i32) { swaps<std::int32_t>(); }

template <class T>
static void push_back()
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    auto j = vf_size("j");
    T old = j < n ? b[j] : T();
    auto v = vf_any<T>("v");
    if (vf_bool("rv"))
    {
        T w = v;
        b.push_back(std::move(w));
    }
    else
    {
        b.push_back(v);
    }
    vf_assert(b.size() == n + 1 && b.capacity() >= n + 1, "one element more");
    vf_assert(b[n] == v, "the new element is last");
    vf_cover("pushed");
    if (j < n)
    {
        vf_assert(b[j] == old, "other elements keep their place");
        vf_cover("end");
    }
}

HARNESS(push_back_u8) { push_back<std::uint8_t>(); }
HARNESS(push_back_i32) { push_back<std::int32_t>(); }

template <class T>
static void pop_back()
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    vf_assume(n > 0);
    b.pop_back();
    vf_assert(b.size() == n - 1, "one element less");
    vf_cover("popped");
}

HARNESS(pop_back_i32) { pop_back<std::int32_t>(); }

template <class T>
static void insert_one(bool rv)
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    auto i = vf_upto("i", n);
    auto j = vf_size("j");
    T old = j < n ? b[j] : T();
    auto v = vf_any<T>("v");
    T w = v;
    auto it = rv ? b.insert(b.cbegin() + std::ptrdiff_t(i), std::move(w)) : b.insert(b.cbegin() + std::ptrdiff_t(i), v);
    vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator designates the inserted element");
    vf_assert(b.size() == n + 1, "one element more");
    vf_assert(b[i] == v, "inserted value");
    vf_cover("inserted");
    if (j < n)
    {
        vf_assert(b[j < i ? j : j + 1] == old, "other elements shift by at most one");
        vf_cover("end");
    }
}

HARNESS(insert_one_u8) { insert_one<std::uint8_t>(vf_bool("rv")); }
HARNESS(insert_one_i32) { insert_one<std::int32_t>(false); }

HARNESS(emplace_i64)
{
    vf_leak_check lc;
    auto b = mk<std::int64_t>();
    auto n = b.size();
    auto i = vf_upto("i", n);
    auto j = vf_size("j");
    auto old = j < n ? b[j] : 0;
    auto v = vf_any<std::int64_t>("v");
    auto it = b.emplace(b.cbegin() + std::ptrdiff_t(i), v);
    vf_assert(std::uint64_t(it - b.begin()) == i && *it == v && b.size() == n + 1, "emplaced");
    if (j < n)
    {
        vf_assert(b[j < i ? j : j + 1] == old, "other elements shift by at most one");
        vf_cover("end");
    }
}

template <class T>
static void insert_count()
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    auto i = vf_upto("i", n);
    auto c = vf_size("c");
    auto j = vf_size("j");
    T old = j < n ? b[j] : T();
    auto v = vf_any<T>("v");
    auto it = b.insert(b.cbegin() + std::ptrdiff_t(i), c, v);
    vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator");
    vf_assert(b.size() == n + c, "size grows by the count");
    vf_cover("inserted");
    auto k = vf_size("k");
    if (k < c)
    {
        vf_assert(b[i + k] == v, "inserted values");
        vf_cover("value");
    }
    if (j < n)
    {
        vf_assert(b[j < i ? j : j + c] == old, "other elements shift by the count");
        vf_cover("end");
    }
}

HARNESS(insert_count_u8) { insert_count<std::uint8_t>(); }
HARNESS(insert_count_i32) { insert_count<std::int32_t>(); }

template <class T>
static void insert_range(int how)
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    auto i = vf_upto("i", n);
    auto c = vf_size("c");
    auto* p = static_cast<T*>(vf_bytes("src", c * sizeof(T), sizeof(T)));
    auto j = vf_size("j");
    T old = j < n ? b[j] : T();
    auto k = vf_size("k");
    {
        auto pos = b.cbegin() + std::ptrdiff_t(i);
        auto it = how == 0 ? b.insert(pos, p, p + c) : b.insert(pos, std::make_move_iterator(p), std::make_move_iterator(p + c));
        vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator");
        vf_assert(b.size() == n + c, "size grows by the length of the range");
        vf_cover("inserted");
        if (k < c)
        {
            vf_assert(b[i + k] == p[k], "inserted values");
            vf_cover("value");
        }
        if (j < n)
        {
            vf_assert(b[j < i ? j : j + c] == old, "other elements shift by the length of the range");
            vf_cover("end");
        }
    }
    ::operator delete(p);
}

HARNESS(insert_range_u8) { insert_range<std::uint8_t>(0); }
HARNESS(insert_range_i32) { insert_range<std::int32_t>(0); }
HARNESS(insert_range_move) { insert_range<std::int32_t>(1); }

HARNESS(insert_list)
{
    vf_leak_check lc;
    auto b = mk<std::int32_t>();
    auto n = b.size();
    auto i = vf_upto("i", n);
    auto x = vf_any<std::int32_t>("x"), y = vf_any<std::int32_t>("y");
    auto j = vf_size("j");
    auto old = j < n ? b[j] : 0;
    auto it = b.insert(b.cbegin() + std::ptrdiff_t(i), {x, y});
    vf_assert(std::uint64_t(it - b.begin()) == i && b.size() == n + 2 && b[i] == x && b[i + 1] == y, "inserted values");
    if (j < n)
    {
        vf_assert(b[j < i ? j : j + 2] == old, "other elements");
        vf_cover("end");
    }
}

template <class T>
static void erase_one()
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    auto i = vf_below("i", n);
    auto j = vf_below("j", n);
    T old = b[j];
    auto cap = b.capacity();
    auto it = b.erase(b.cbegin() + std::ptrdiff_t(i));
    vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator follows the erased element");
    vf_assert(b.size() == n - 1 && b.capacity() == cap, "one element less");
    vf_cover("erased");
    if (j != i)
    {
        vf_assert(b[j < i ? j : j - 1] == old, "other elements close the gap");
        vf_cover("end");
    }
}

HARNESS(erase_one_u8) { erase_one<std::uint8_t>(); }
HARNESS(erase_one_i32) { erase_one<std::int32_t>(); }

template <class T>
static void erase_range()
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    auto e = vf_upto("e", n);
    auto i = vf_below("i", e);
    auto j = vf_below("j", n);
    T old = b[j];
    auto it = b.erase(b.cbegin() + std::ptrdiff_t(i), b.cbegin() + std::ptrdiff_t(e));
    vf_assert(std::uint64_t(it - b.begin()) == i, "returned iterator follows the erased elements");
    vf_assert(b.size() == n - (e - i), "size shrinks by the length of the range");
    vf_cover("erased");
    if (j < i || j >= e)
    {
        vf_assert(b[j < i ? j : j - (e - i)] == old, "other elements close the gap");
        vf_cover("end");
    }
}

HARNESS(erase_range_u8) { erase_range<std::uint8_t>(); }
HARNESS(erase_range_i32) { erase_range<std::int32_t>(); }

template <class T>
static void resize(bool fill)
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    auto m = vf_size("m");
    auto j = vf_size("j");
    T old = j < n ? b[j] : T();
    T v = T();
    if (fill)
    {
        v = vf_any<T>("v");
        b.resize(m, v);
    }
    else
    {
        b.resize(m);
    }
    vf_assert(b.size() == m && b.capacity() >= m, "size");
    vf_cover("resized");
    if (j < m)
    {
        vf_assert(b[j] == (j < n ? old : v), "kept elements and new elements");
        vf_cover("end");
    }
}

HARNESS(resize_u8) { resize<std::uint8_t>(false); }
HARNESS(resize_i32) { resize<std::int32_t>(false); }
HARNESS(resize_fill_u8) { resize<std::uint8_t>(true); }
HARNESS(resize_fill_i32) { resize<std::int32_t>(true); }

template <class T>
static void reserve()
{
    vf_leak_check lc;
    auto b = mk<T>();
    auto n = b.size();
    auto cap = b.capacity();
    auto m = vf_size("m");
    auto j = vf_size("j");
    T old = j < n ? b[j] : T();
    b.reserve(m);
    vf_assert(b.size() == n, "reserve keeps the size");
    vf_assert(b.capacity() >= m && b.capacity() >= cap, "reserve provides the capacity");
    if (j < n)
    {
        vf_assert(b[j] == old, "reserve keeps the elements");
    }
    b.shrink_to_fit();
    vf_assert(b.size() == n && b.capacity() == n, "shrink_to_fit");
    vf_cover("shrunk");
    if (j < n)
    {
        vf_assert(b[j] == old, "shrink_to_fit keeps the elements");
        vf_cover("end");
    }
}

HARNESS(reserve_u8) { reserve<std::uint8_t>(); }
HARNESS(reserve_i64) { reserve<std::int64_t>(); }

HARNESS(reserve_too_much)
{
    vf_leak_check lc;
    auto b = mk<std::int32_t>();
    auto n = b.size();
    bool thrown = false;
    try
    {
        b.reserve(b.max_size() + 1);
    }
    catch (const std::length_error&)
    {
        thrown = true;
    }
    vf_assert(thrown && b.size() == n, "more than max_size is refused");
    vf_cover("end");
}

HARNESS(clear)
{
    vf_leak_check lc;
    auto b = mk<std::int32_t>();
    auto cap = b.capacity();
    b.clear();
    vf_assert(b.size() == 0 && b.empty() && b.capacity() == cap, "cleared");
    vf_cover("end");
}

template <class T>
static void equality()
{
    auto a = mk<T>("a");
    auto b = mk<T>("b");
    bool eq = a == b;
    vf_cover("compared");
    if (a.size() != b.size())
    {
        vf_assert(!eq, "buffers of different sizes differ");
        vf_cover("sizes");
    }
    else if (eq)
    {
        auto j = vf_below("j", a.size());
        vf_skolem(j);
        vf_assert(a[j] == b[j], "equal buffers agree everywhere");
        vf_cover("equal");
    }
    B<T> c(a);
    vf_assert(c == a, "a copy is equal");
    vf_cover("copy");
}

HARNESS(equality_i32) { equality<std::int32_t>(); }
HARNESS(equality_u8) { equality<std::uint8_t>(); }
