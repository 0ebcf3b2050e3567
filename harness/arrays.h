// Arbitrary arrays of every layout, as a foreign producer would hand them over: each buffer is a block of exactly the size
// the format demands, lengths, offsets and contents are arbitrary.
#pragma once
// vf-contract bits: sparrow::dynamic_bitset_base<sparrow::buffer_view<unsigned char>>::count_non_null() const => vf_c_count
// vf-contract bits: sparrow::dynamic_bitset_base<sparrow::buffer_view<unsigned char const>>::count_non_null() const => vf_c_ccount
// vf-contract bits: sparrow::bitset_iterator<sparrow::dynamic_bitset_base<sparrow::buffer_view<unsigned char>>, false>::advance(long) => vf_c_advance
// vf-contract bits: sparrow::bitset_iterator<sparrow::dynamic_bitset_base<sparrow::buffer_view<unsigned char>>, true>::advance(long) => vf_c_advance
// vf-contract bits: sparrow::bitset_iterator<sparrow::dynamic_bitset_base<sparrow::buffer_view<unsigned char const>>, false>::advance(long) => vf_c_advance
// vf-contract bits: sparrow::bitset_iterator<sparrow::dynamic_bitset_base<sparrow::buffer_view<unsigned char const>>, true>::advance(long) => vf_c_advance
#include "vf.h"
#include <sparrow/array.hpp>
#include <sparrow/arrow_array_schema_proxy.hpp>
#include <sparrow/layout/dictionary_encoded_array.hpp>
#include <sparrow/layout/list_layout/list_array.hpp>
#include <sparrow/layout/null_array.hpp>
#include <sparrow/layout/primitive_array.hpp>
#include <sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp>
#include <sparrow/layout/struct_layout/struct_array.hpp>
#include <sparrow/layout/union_array.hpp>
#include <sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp>
#include <sparrow/layout/variable_size_binary_view_array.hpp>
#include <algorithm>
#include <bit>
#include <cstring>
#include <limits>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>

// callers of the bit count are checked against its contract (its body is proved exact in C02): requires blocks for every bit,
// ensures a result of at most the size, and the size without storage
template <class B>
static std::size_t vf_count_contract(const B* b)
{
    vf_assert(b->data() == nullptr || b->size() <= 8 * b->buffer().size(), "counting bits requires blocks for every bit");
    if (b->data() == nullptr)
    {
        return b->size();
    }
    auto n = vf_bits("count", 64);
    vf_assume(n <= b->size());
    return n;
}
extern "C" __attribute__((weak, used)) std::size_t vf_c_count(const sparrow::dynamic_bitset_view<std::uint8_t>* b)
{
    return vf_count_contract(b);
}
// contract of advance() of bit iterators (C02 checks it): the position moves by n
struct vf_bit_iterator
{
    const void* bits;
    const std::uint8_t* block;
    std::size_t index;
};
extern "C" __attribute__((weak, used)) void vf_c_advance(vf_bit_iterator* i, std::int64_t n)
{
    std::size_t t = i->index + std::size_t(n);
    i->block += n >= 0 ? std::int64_t(t >> 3) : std::int64_t(t) >> 3;
    i->index = t & 7;
}
extern "C" __attribute__((weak, used)) std::size_t vf_c_ccount(const sparrow::dynamic_bitset_view<const std::uint8_t>* b)
{
    return vf_count_contract(b);
}

namespace vf
{
    using namespace sparrow;
    using u64 = std::uint64_t;

    struct node
    {
        ArrowArray a{};
        ArrowSchema s{};
        const void* bufs[6] = {};
        ArrowArray* ca[3] = {};
        ArrowSchema* cs[3] = {};
        const std::uint8_t* valid = nullptr;
        unsigned a_released = 0, s_released = 0;

        // element positions are counted from the start of the buffers: the array designates [off, off + len)
        node(const char* fmt, u64 off, u64 len)
        {
            a.length = std::int64_t(len);
            a.offset = std::int64_t(off);
            a.null_count = -1;
            a.buffers = bufs;
            a.private_data = this;
            a.release = [](ArrowArray* x)
            {
                ++static_cast<node*>(x->private_data)->a_released;
                x->release = nullptr;
            };
            s.format = fmt;
            s.private_data = this;
            s.release = [](ArrowSchema* x)
            {
                ++static_cast<node*>(x->private_data)->s_released;
                x->release = nullptr;
            };
            s.flags = 2;
        }

        node(const node&) = delete;

        u64 off() const { return u64(a.offset); }
        u64 len() const { return u64(a.length); }
        // buffers may hold more elements than the array designates
        u64 slack = vf_nd("slack", 0, 1000);
        u64 slots() const { return u64(a.length + a.offset) + slack; }

        void* add(const char* nm, u64 n, u64 elem)
        {
            void* p = vf_bytes(nm, n, elem);
            bufs[a.n_buffers++] = p;
            return p;
        }

        // 0: with or without validity buffer, 1: with, 2: without
        void add_validity(unsigned how = 0)
        {
            if (how == 2 || (how == 0 && vf_split(vf_bool("no validity"))))
            {
                bufs[a.n_buffers++] = nullptr;
            }
            else
            {
                valid = static_cast<const std::uint8_t*>(add("validity", (slots() + 7) / 8, 1));
            }
        }

        void add_child(node& c)
        {
            ca[a.n_children] = &c.a;
            cs[a.n_children] = &c.s;
            a.n_children = ++s.n_children;
            a.children = ca;
            s.children = cs;
        }

        // the format's own requirements: on the element at a position, and on the end of a range
        void well(u64) const {}
        void ends(u64) const {}
        void ordered(u64, u64) const {}

        // validity of the element at a position of the buffers
        bool has(u64 pos) const { return valid == nullptr ? true : (valid[pos / 8] >> (pos % 8)) & 1; }

        // how the source looks like does not change
        void untouched(u64 off, u64 len) const
        {
            vf_assert(a.offset == std::int64_t(off) && a.length == std::int64_t(len), "the source keeps its range");
            vf_assert(a.buffers == bufs, "the source keeps its buffers");
        }

        ~node()
        {
            for (std::int64_t i = 0; i < a.n_buffers; ++i)
            {
                ::operator delete(const_cast<void*>(bufs[i]));
            }
        }
    };

    inline u64 any_off() { return vf_size("off"); }
    inline u64 any_len(u64 off) { return vf_upto("len", VF_MAX - off); }

    struct range
    {
        u64 off, len;
        range() : off(any_off()), len(any_len(off)) {}
        range(u64 o, u64 l) : off(o), len(l) {}
    };

    template <class T>
    constexpr const char* format_of()
    {
        if constexpr (std::is_same_v<T, float>) return "f";
        else if constexpr (std::is_same_v<T, double>) return "g";
        else if constexpr (std::is_signed_v<T>) return sizeof(T) == 1 ? "c" : sizeof(T) == 2 ? "s" : sizeof(T) == 4 ? "i" : "l";
        else return sizeof(T) == 1 ? "C" : sizeof(T) == 2 ? "S" : sizeof(T) == 4 ? "I" : "L";
    }

    // same validity and, where there is a value, the same value (without a path per case)
    inline bool agree(bool has_e, bool has_m, bool same) { return (has_e == has_m) & (!has_m | same); }

    // bit for bit the same value
    template <class T>
    bool same_value(const T& x, const T& y)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            using I = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
            return std::bit_cast<I>(x) == std::bit_cast<I>(y);
        }
        else
        {
            return x == y;
        }
    }

    // is a type-erased element the value v of type T (or missing)?
    template <class T, class V>
    bool is_element(const array_traits::const_reference& r, bool has, const V& v)
    {
        using ref = detail::array_const_reference_t<T>;
        const typename array_traits::const_reference::base_type& b = r;
        const ref* p = std::get_if<ref>(&b);
        return p != nullptr && (agree(p->has_value(), has, same_value<std::remove_cvref_t<V>>(p->get(), v)) & (r.has_value() == has));
    }

    template <class T>
    struct fixed_node : node
    {
        const T* data;
        explicit fixed_node(range r = {}, unsigned always_validity = 0)
            : node(format_of<T>(), r.off, r.len)
        {
            add_validity(always_validity);
            data = static_cast<const T*>(add("data", slots() * sizeof(T), sizeof(T)));
        }
        bool is(const auto& e, u64 pos) const { return agree(e.has_value(), has(pos), same_value<T>(e.get(), data[pos])); }
        bool is_erased(const array_traits::const_reference& e, u64 pos) const { return is_element<T>(e, has(pos), data[pos]); }
        bool value_is(const auto& v, u64 pos) const { return same_value<T>(v, data[pos]); }
    };

    struct null_node : node
    {
        explicit null_node(range r = {}) : node("n", r.off, r.len) {}
        bool is(const auto& e, u64) const { return !e.has_value(); }
        bool is_erased(const array_traits::const_reference& e, u64) const { return is_element<null_type>(e, false, null_type{}); }
    };

    // strings: the bytes of an element are told by their place
    template <class O>
    struct string_node : node
    {
        const O* offsets;
        const char* data;
        explicit string_node(range r = {}, const char* fmt = sizeof(O) == 4 ? "u" : "U", unsigned how = 0)
            : node(fmt, r.off, r.len)
        {
            add_validity(how);
            offsets = static_cast<const O*>(add("offsets", (slots() + 1) * sizeof(O), sizeof(O)));
            auto last = vf_nd("bytes", 0, std::min<u64>(VF_MAX, std::numeric_limits<O>::max()));
            vf_assume(offsets[slots()] == O(last));
            data = static_cast<const char*>(add("data", last, 1));
        }
        // the format's own requirement at this position
        void well(u64 pos) const { vf_assume(0 <= offsets[pos] && offsets[pos] <= offsets[pos + 1] && offsets[pos + 1] <= offsets[slots()]); }
        void ends(u64 pos) const { vf_assume(0 <= offsets[pos] && offsets[pos] <= offsets[slots()]); }
        // offsets do not decrease
        void ordered(u64 p, u64 q) const { vf_assume(offsets[p] <= offsets[q]); }
        bool view(const auto& v, u64 pos) const
        {
            return v.size() == u64(offsets[pos + 1] - offsets[pos]) && (const void*) (v.data()) == (const void*) (data + offsets[pos]);
        }
        // the same content wherever it is stored: the bytes at an arbitrary index k of the element
        bool same(const auto& v, u64 pos, u64 k) const
        {
            auto n = u64(offsets[pos + 1] - offsets[pos]);
            return v.size() == n && (k >= n || (char) v[k] == data[u64(offsets[pos]) + k]);
        }
    };

    template <class T, class O, class Z = O>
    struct list_node : node
    {
        fixed_node<T> child;
        const O* offsets = nullptr;
        const Z* sizes = nullptr;
        u64 width = 0;
        list_node(const char* fmt, range r, range cr, u64 w = 0, unsigned how_child = 0)
            : node(fmt, r.off, r.len)
            , child(cr, how_child)
            , width(w)
        {
            add_validity();
            std::string_view f(fmt);
            if (f == "+l" || f == "+L" || f == "+vl" || f == "+vL")
            {
                offsets = static_cast<const O*>(add("offsets", (slots() + (f.size() == 2)) * sizeof(O), sizeof(O)));
                if (f.size() == 3)
                {
                    sizes = static_cast<const Z*>(add("sizes", slots() * sizeof(Z), sizeof(Z)));
                }
            }
            add_child(child);
        }
        u64 first(u64 pos) const { return offsets == nullptr ? pos * width : u64(offsets[pos]); }
        u64 last(u64 pos) const
        {
            return offsets == nullptr ? pos * width + width : sizes != nullptr ? u64(offsets[pos]) + u64(sizes[pos]) : u64(offsets[pos + 1]);
        }
        void well(u64 pos) const
        {
            if (offsets != nullptr)
            {
                vf_assume(offsets[pos] >= 0 && u64(offsets[pos]) <= VF_MAX);
                if (sizes != nullptr)
                {
                    vf_assume(sizes[pos] >= 0 && u64(sizes[pos]) <= VF_MAX);
                }
                else
                {
                    vf_assume(offsets[pos + 1] >= 0);
                }
            }
            vf_assume(first(pos) <= last(pos) && last(pos) <= child.len());
        }
        bool is_list(const list_value& v, u64 pos, u64 k) const
        {
            return v.size() == last(pos) - first(pos)
                   && (k >= v.size() || child.is_erased(v[k], child.off() + first(pos) + k));
        }
    };

    // structs with two fields
    struct struct_node : node
    {
        fixed_node<std::int32_t> x;
        fixed_node<std::uint8_t> y;
        explicit struct_node(unsigned how_fields = 0, range r = {}, range rx = {}, range ry = {}, unsigned how = 0)
            : node("+s", r.off, r.len)
            , x(rx, how_fields)
            , y(ry, how_fields)
        {
            add_validity(how);
            add_child(x);
            add_child(y);
            vf_assume(off() + len() <= x.len() && off() + len() <= y.len());
        }
        bool is_struct(const struct_value& v, u64 pos) const
        {
            return (v.size() == 2) & x.is_erased(v[0], x.off() + pos) & y.is_erased(v[1], y.off() + pos);
        }
        bool is(const auto& e, u64 pos) const { return agree(e.has_value(), has(pos), is_struct(e.get(), pos)); }
        bool is_erased(const array_traits::const_reference& e, u64 pos) const
        {
            const typename array_traits::const_reference::base_type& b = e;
            auto* p = std::get_if<detail::array_const_reference_t<struct_value>>(&b);
            return p != nullptr && is(*p, pos);
        }
    };

    // unions of two types with type ids t0, t1; dense ones have offsets
    struct union_node : node
    {
        fixed_node<std::int32_t> x;
        fixed_node<std::uint8_t> y;
        const std::uint8_t* ids;
        const std::int32_t* offsets = nullptr;
        u64 t0, t1;
        union_node(const char* fmt, u64 id0, u64 id1, range r = {}, range rx = {}, range ry = {}, unsigned how_x = 0, unsigned how_y = 3)
            : node(fmt, r.off, r.len)
            , x(rx, how_x)
            , y(ry, how_y == 3 ? how_x : how_y)
            , t0(id0)
            , t1(id1)
        {
            ids = static_cast<const std::uint8_t*>(add("ids", slots(), 1));
            if (fmt[2] == 'd')
            {
                offsets = static_cast<const std::int32_t*>(add("offsets", slots() * 4, 4));
            }
            add_child(x);
            add_child(y);
            if (offsets == nullptr)
            {
                vf_assume(off() + len() <= x.len() && off() + len() <= y.len());
            }
        }
        void well(u64 pos) const
        {
            vf_assume(ids[pos] == t0 || ids[pos] == t1);
            if (offsets != nullptr)
            {
                vf_assume(offsets[pos] >= 0 && u64(offsets[pos]) < (ids[pos] == t0 ? x.len() : y.len()));
            }
        }
        bool is_erased(const array_traits::const_reference& e, u64 pos) const
        {
            u64 p = offsets == nullptr ? pos : u64(offsets[pos]);
            return ids[pos] == t0 ? x.is_erased(e, x.off() + p) : y.is_erased(e, y.off() + p);
        }
        bool is(const auto& e, u64 pos) const { return is_erased(e, pos); }
    };

    // indices of type I in a dictionary of values
    template <class I>
    struct dictionary_node : node
    {
        fixed_node<std::int32_t> values;
        const I* keys;
        explicit dictionary_node(range r = {}, range rv = {}, unsigned how = 0, unsigned how_values = 0)
            : node(format_of<I>(), r.off, r.len)
            , values(rv, how_values)
        {
            add_validity(how);
            keys = static_cast<const I*>(add("keys", slots() * sizeof(I), sizeof(I)));
            a.dictionary = &values.a;
            s.dictionary = &values.s;
        }
        void well(u64 pos) const { vf_assume(!has(pos) || (keys[pos] >= 0 && u64(keys[pos]) < values.len())); }
        bool is_erased(const array_traits::const_reference& e, u64 pos) const
        {
            if (!vf_split(has(pos)))
            {
                // of the type of the values
                return is_element<std::int32_t>(e, false, 0);
            }
            return values.is_erased(e, values.off() + u64(keys[pos]));
        }
        bool is(const auto& e, u64 pos) const { return is_erased(e, pos); }
    };

    // runs: run k ends before position ends[k] (counted from the start of the buffers) and has the value number k
    template <class R>
    struct run_node : node
    {
        fixed_node<R> runs;
        fixed_node<std::int32_t> values;
        u64 n_runs;
        const R* ends;
        // positions whose run has been chosen
        u64 asked[2] = {}, answer[2] = {};
        unsigned n_asked = 0;
        run_node(range r, range rr, range rv, unsigned how_values = 0)
            : node("+r", r.off, r.len)
            , runs(rr, 2)
            , values(rv, how_values)
            , n_runs(rr.len)
            , ends(runs.data + rr.off)
        {
            add_child(runs);
            add_child(values);
            vf_assume(values.len() >= n_runs);
            // the runs cover the array
            if (len() > 0)
            {
                vf_assume(n_runs > 0 && u64(ends[n_runs - 1]) >= off() + len());
            }
        }
        // run ends ascend: at these positions
        void ascend(u64 j, u64 k) const { vf_assume(j >= k || ends[j] < ends[k]); }
        // the run of position pos, by its definition
        u64 choose(u64 pos)
        {
            return choose(pos, vf_below("run", n_runs));
        }
        u64 choose(u64 pos, u64 k)
        {
            vf_assume(k < n_runs && u64(ends[k]) > pos);
            if (vf_split(k > 0))
            {
                vf_assume(u64(ends[k - 1]) <= pos);
            }
            asked[n_asked] = pos;
            answer[n_asked++] = k;
            return k;
        }
        bool value_of(const auto& e, u64 k) const { return values.is_erased(e, values.off() + k); }
    };

    // string views: elements of up to 12 bytes are stored in their view, others in one of two buffers
    struct view_node : node
    {
        const std::uint8_t* views;
        const char* data[2];
        std::int64_t* sizes;
        explicit view_node(range r = {}, const char* fmt = "vu", unsigned how = 0)
            : node(fmt, r.off, r.len)
        {
            add_validity(how);
            views = static_cast<const std::uint8_t*>(add("views", slots() * 16, 1));
            auto n0 = vf_size("bytes 0"), n1 = vf_size("bytes 1");
            data[0] = static_cast<const char*>(add("data 0", n0, 1));
            data[1] = static_cast<const char*>(add("data 1", n1, 1));
            sizes = static_cast<std::int64_t*>(::operator new(16));
            bufs[a.n_buffers++] = sizes;
            sizes[0] = std::int64_t(n0);
            sizes[1] = std::int64_t(n1);
        }
        std::int32_t word(u64 pos, u64 w) const
        {
            const std::uint8_t* p = views + pos * 16 + w * 4;
            return std::int32_t(std::uint32_t(p[0]) | std::uint32_t(p[1]) << 8 | std::uint32_t(p[2]) << 16 | std::uint32_t(p[3]) << 24);
        }
        u64 size(u64 pos) const { return u64(word(pos, 0)); }
        void well(u64 pos) const
        {
            vf_assume(word(pos, 0) >= 0);
            if (vf_split(size(pos) > 12))
            {
                vf_assume(word(pos, 2) == 0 || word(pos, 2) == 1);
                bool one = vf_split(word(pos, 2) == 1);
                vf_assume(word(pos, 3) >= 0 && u64(word(pos, 3)) + size(pos) <= u64(sizes[one]));
            }
        }
        const void* place(u64 pos) const
        {
            return size(pos) <= 12 ? (const void*) (views + pos * 16 + 4) : (const void*) (data[word(pos, 2) & 1] + word(pos, 3));
        }
        bool view(const auto& v, u64 pos) const { return v.size() == size(pos) && (const void*) v.data() == place(pos); }
        bool same(const auto& v, u64 pos, u64 k) const
        {
            auto n = size(pos);
            return v.size() == n && (k >= n || (char) v[k] == static_cast<const char*>(place(pos))[k]);
        }
    };

    // an array over structures owned by somebody else / an array owning its structures
    template <class A>
    A borrow(node& n)
    {
        if constexpr (std::is_same_v<A, array>)
            return array(&n.a, &n.s);
        else
            return A(arrow_proxy(&n.a, &n.s));
    }

    template <class A>
    A adopt(node& n)
    {
        if constexpr (std::is_same_v<A, array>)
            return array(std::move(n.a), std::move(n.s));
        else
            return A(arrow_proxy(std::move(n.a), std::move(n.s)));
    }

    template <class A>
    concept mutable_array = requires(A a, typename A::iterator i) { a[0] = nullval; a.pop_back(); };
    template <class A>
    concept checked_array = requires(const A a) { a.at(0); a.front(); a.back(); a.empty(); };
    template <class A>
    concept crtp_array = checked_array<A> && requires(const A a) { a.crbegin(); a.bitmap(); };

    // reading element i of an array by every route: chk(e, p) tells whether e is the element at position p of the buffers
    enum route { by_index, by_iterator, by_at, by_ends, by_reverse, by_steps, by_bitmap, by_null_count, routes };
    template <class A, class N, class C>
    void reading(N& n, C chk, unsigned r)
    {
        const auto off = n.off(), len = n.len();
        auto i = vf_size("i");
        bool in = i < len;
        n.ends(off + len);
        if (in) n.well(off + i), n.ordered(off + i + 1, off + len);
        if (r == by_ends && len) n.well(off), n.well(off + len - 1), n.ordered(off + 1, off + len);
        {
            A src = borrow<A>(n);
            const A& c = src;
            vf_assert(c.size() == len, "the size is the length of the structure");
            if (r == by_index)
            {
                if (vf_split(in))
                {
                    vf_assert(chk(c[i], off + i), "element i by index");
                    vf_cover("index");
                }
                if constexpr (mutable_array<A>)
                {
                    if (vf_split(in)) vf_assert(chk(src[i], off + i), "element i by mutable index");
                }
            }
            if constexpr (requires { c.cend() - c.cbegin(); })
            {
                if (r == by_iterator)
                {
                    vf_assert(u64(c.cend() - c.cbegin()) == len && u64(c.end() - c.begin()) == len, "begin to end visits exactly the size");
                    vf_assert((c.begin() == c.end()) == (len == 0), "empty ranges");
                    if (vf_split(in))
                    {
                        vf_assert(chk(*(c.begin() + std::ptrdiff_t(i)), off + i), "element i by iterator");
                        vf_cover("iterator");
                    }
                    if constexpr (mutable_array<A>)
                    {
                        vf_assert(u64(src.end() - src.begin()) == len, "also of mutable iterators");
                        if (vf_split(in)) vf_assert(chk(*(src.begin() + std::ptrdiff_t(i)), off + i), "element i by mutable iterator");
                    }
                }
                if (r == by_steps)
                {
                    if (vf_split(in))
                    {
                        auto it = c.cbegin() + std::ptrdiff_t(i), b = it;
                        vf_assert(it - c.cbegin() == std::ptrdiff_t(i) && it != c.cend(), "distance");
                        ++it;
                        vf_assert((it == c.cend()) == (i + 1 == len) && it - b == 1 && b < it, "stepping forward");
                        --it;
                        vf_assert(it == b && chk(*it, off + i), "stepping back");
                        auto z = c.cend() - std::ptrdiff_t(len - i);
                        vf_assert(z == b && chk(*z, off + i), "from the end");
                        vf_cover("steps");
                    }
                }
            }
            if constexpr (checked_array<A>)
            {
                if (r == by_at)
                {
                    bool refused = false;
                    try
                    {
                        auto e = c.at(i);
                        vf_assert(chk(e, off + i), "element i by checked access");
                        vf_cover("at");
                    }
                    catch (const std::out_of_range&)
                    {
                        refused = true;
                    }
                    vf_assert(refused == !in, "checked access refuses exactly the indices outside");
                    vf_assert(c.empty() == (len == 0), "empty");
                }
                if (r == by_ends && vf_split(len > 0))
                {
                    vf_assert(chk(c.front(), off), "first element");
                    vf_assert(chk(c.back(), off + len - 1), "last element");
                    vf_cover("ends");
                }
            }
            if constexpr (crtp_array<A>)
            {
                if (r == by_reverse)
                {
                    vf_assert(u64(c.crend() - c.crbegin()) == len && u64(c.rend() - c.rbegin()) == len, "the same size backward");
                    if (vf_split(in))
                    {
                        vf_assert(chk(*(c.crbegin() + std::ptrdiff_t(len - 1 - i)), off + i), "element i backward");
                        vf_cover("reverse");
                    }
                }
                if (r == by_bitmap)
                {
                    auto b = c.bitmap();
                    auto v = c.values();
                    vf_assert(u64(b.size()) == len && u64(v.size()) == len, "as many validities and values");
                    if (vf_split(in))
                    {
                        vf_assert(bool(*(b.begin() + std::ptrdiff_t(i))) == n.has(off + i), "validity of element i");
                        if constexpr (requires { n.value_is(*v.begin(), 0); })
                            vf_assert(n.value_is(*(v.begin() + std::ptrdiff_t(i)), off + i), "value of element i");
                        vf_cover("bitmap");
                    }
                }
            }
        }
        n.untouched(off, len);
        vf_assert(n.a_released == 0 && n.s_released == 0, "reading does not release borrowed structures");
    }
    template <class A, class N, class C>
    void reading_all(N& n, C chk)
    {
        reading<A>(n, chk, unsigned(vf_pick("route", 0, by_bitmap)));
    }
}
