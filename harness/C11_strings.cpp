// C11: variable-size string arrays: reading, building and editing; offsets and bytes stay consistent.
// vf: use=bits
// vf: cflags=-mllvm
// vf: cflags=-force-attribute=_ZN7sparrow14buffer_adaptorIiRNS_6bufferIhEEE6insertENS_16pointer_iteratorIPKiEEmRS6_QntL_ZNS_14buffer_adaptor8is_constEE:noinline
// vf: cflags=-mllvm
// vf: cflags=-force-attribute=_ZN7sparrow14buffer_adaptorIiRNS_6bufferIhEEE5eraseENS_16pointer_iteratorIPKiEES8_QntL_ZNS_14buffer_adaptor8is_constEE:noinline
// vf: cflags=-mllvm
// vf: cflags=-force-attribute=_ZN7sparrow14buffer_adaptorIiRNS_6bufferIhEEE6resizeEmRKiQntL_ZNS_14buffer_adaptor8is_constEE:noinline
// vf: cflags=-mllvm
// vf: cflags=-force-attribute=_ZN7sparrow14buffer_adaptorIiRNS_6bufferIhEEE6resizeEmQntL_ZNS_14buffer_adaptor8is_constEE:noinline
#include "edits.h"
#include <array>
#include <initializer_list>
#include <span>
using namespace vf;
using u8 = std::uint8_t;
using i32 = std::int32_t;
using U8 = buffer<u8>;

// --- arrays handed over by others: any offset, length, offsets and bytes
template <class A>
static void read(unsigned r, unsigned how = 0)
{
    string_node<i32> n({}, "u", how);
    reading<A>(n, [&](const auto& e, u64 p)
               {
                   if constexpr (requires { e.get().data(); })
                       return agree(e.has_value(), n.has(p), n.view(e.get(), p));
                   else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(e)>, array_traits::const_reference>)
                   {
                       const array_traits::const_reference::base_type& b = e;
                       auto* q = std::get_if<detail::array_const_reference_t<std::string>>(&b);
                       return q != nullptr && agree(q->has_value(), n.has(p), n.view(q->get(), p)) && e.has_value() == n.has(p);
                   }
                   else
                   {
                       // a reference to the element
                       auto x = e.get();
                       const auto& cx = x;
                       const char* first = n.data + n.offsets[p];
                       const char* last = n.data + n.offsets[p + 1];
                       vf_assert(x.size() == u64(last - first) && x.begin() == first && x.end() == last && cx.begin() == first && cx.end() == last && cx.cbegin() == first && cx.cend() == last, "the bytes of a reference");
                       return bool(e.has_value()) == n.has(p);
                   }
               }, r);
}
HARNESS(read_index) { read<string_array>(by_index); }
HARNESS(read_iterator) { read<string_array>(by_iterator); }
HARNESS(read_at) { read<string_array>(by_at); }
HARNESS(read_ends) { read<string_array>(by_ends, 2); }
HARNESS(read_reverse) { read<string_array>(by_reverse); }
HARNESS(read_steps) { read<string_array>(by_steps, 2); }
HARNESS(read_bitmap) { read<string_array>(by_bitmap); }
HARNESS(erased_index) { read<array>(by_index); }
HARNESS(erased_at) { read<array>(by_at); }
HARNESS(erased_ends) { read<array>(by_ends, 2); }

// --- an array created by the library: any offset, length, content, and room to spare
struct owned
{
    u64 off, len, slots;
    const u8* h0;
    const i32* o0;
    const u8* d0;
    u64 bytes;
    string_array a;

    static string_array make(u64 off, u64 len, u64 slots, const void* h, const void* o, const void* d, u64 bytes)
    {
        std::vector<U8> bufs;
        bufs.push_back(U8(static_cast<u8*>(const_cast<void*>(h)), (slots + 7) / 8));
        bufs.push_back(U8(static_cast<u8*>(const_cast<void*>(o)), (slots + 1) * 4));
        bufs.push_back(U8(static_cast<u8*>(const_cast<void*>(d)), bytes));
        auto a = make_arrow_array(std::int64_t(len), 0, std::int64_t(off), std::move(bufs), 0, nullptr, nullptr);
        a.null_count = vf_any<std::int64_t>("old null count");
        auto s = make_arrow_schema(std::string("u"), std::optional<std::string>("name"), std::optional<std::string>(), ArrowFlag::NULLABLE, 0, nullptr, nullptr);
        return string_array(arrow_proxy(std::move(a), std::move(s)));
    }
    static u64 sized(const i32* o, u64 n)
    {
        auto bytes = vf_nd("bytes", 0, VF_MAX / 4);
        vf_assume(o[n] == i32(bytes));
        return bytes;
    }
    owned(u64 off, u64 len, u64 slots)
        : off(off)
        , len(len)
        , slots(slots)
        , h0(static_cast<const u8*>(vf_bytes("validity", (slots + 7) / 8, 1)))
        , o0(static_cast<const i32*>(vf_bytes("offsets", (slots + 1) * 4, 4)))
        , d0(static_cast<const u8*>(vf_bytes("bytes", sized(o0, slots), 1)))
        , bytes(u64(o0[slots]))
        , a(make(off, len, slots, h0, o0, d0, bytes))
    {
    }
    // the requirement of the format: at a position of the source, between two of them
    void rises(u64 p) const { vf_assume(0 <= o0[p] && o0[p] <= o0[slots]); }
    void well(u64 p) const { vf_assume(0 <= o0[p] && o0[p] <= o0[p + 1] && o0[p + 1] <= o0[slots]); }
    void ordered(u64 p, u64 q) const { vf_assume(p > q || o0[p] <= o0[q]); }

    const i32* offsets() { return static_cast<const i32*>(get_arrow_array(a)->buffers[1]); }
    void shape(u64 n)
    {
        const auto& c = a;
        auto [x, s] = get_arrow_structures(a);
        vf_assert(c.size() == n && x->length == std::int64_t(n) && c.end() - c.begin() == std::ptrdiff_t(n), "length after the edit");
        vf_assert(x->offset == std::int64_t(off) && x->n_buffers == 3 && x->n_children == 0, "offset and structure are kept");
    }
};


// the array of the library before and after an edit that puts `in` elements in place of `out` elements before position `at`;
// positions are counted from the start of the buffers
struct editing
{
    u64 off, at, len, in, out, g;  // g: a position after the edit
    owned o;
    bool before, fresh, has = false;
    u64 b = 0, e = 0, k = 0;  // where its bytes were, one of their indices
    u8 x = 0;

    editing(u64 off, u64 at, u64 len, u64 in, u64 out, u64 slack, u64 g)
        : off(off)
        , at(at)
        , len(len)
        , in(in)
        , out(out)
        , g(g)
        , o(off, len, off + len + slack)
    {
        vf_assume(off <= at && at + out <= off + len && off <= g && g < off + len - out + in);
        o.rises(at);
        o.rises(at + out);
        o.rises(off + len);
        o.ordered(at + out, off + len);
        before = vf_split(g < at);
        fresh = !before && vf_split(g < at + in);
        if (!fresh)
        {
            auto p = before ? g : from(g - in + out);
            o.well(p);
            if (before) o.ordered(p + 1, at);
            else o.ordered(at + out, p), o.ordered(p + 1, off + len);
            b = u64(o.o0[p]), e = u64(o.o0[p + 1]);
            has = bit_at(o.h0, p);
            k = vf_below("k", e - b + 1);
            if (k < e - b) x = o.d0[b + k];
        }
        o.ordered(at, at + out);
    }
    // after the edit: v is the new element at position g (if it is new)
    void check(bool h, const char* v, u64 n)
    {
        const u64 size = len - out + in;
        o.shape(size);
        const auto& c = o.a;
        auto y = c[g - off];
        if (fresh)
        {
            vf_assert(y.has_value() == h, "validity of the new elements");
            vf_assert(y.get().size() == n, "size of the new elements");
            k = vf_below("k", n + 1);
            if (vf_split(k < n)) vf_assert(y.get()[k] == v[k], "bytes of the new elements");
        }
        else
        {
            vf_assert(y.has_value() == has, "elements not addressed keep their validity");
            vf_assert(y.get().size() == e - b, "elements not addressed keep their size");
            if (vf_split(k < e - b)) vf_assert(u8(y.get()[k]) == x, "elements not addressed keep their bytes");
        }
        const u64 bytes = static_cast<arrow_array_private_data*>(get_arrow_array(o.a)->private_data)->buffers()[2].size();
        vf_assert(u64(o.offsets()[o.slots - out + in]) == bytes, "the offsets end at the size of the data");
        vf_cover("edited");
    }
};

static const char* any_chars(u64 n) { return static_cast<const char*>(vf_bytes("v", n, 1)); }

// a position with its place within its block of validities; 8: any
static u64 place_in_block(const char* q, u64 r) { return r == 8 ? vf_nd(q, 0, VF_MAX) : vf_nd(q, 0, VF_MAX / 8) * 8 + r; }

static void assign(unsigned how, u64 ri = 8, u64 rg = 8)
{
    auto off = vf_nd("off", 0, VF_MAX), end = vf_nd("end", 1, VF_MAX);
    const auto i = place_in_block("i", ri), g = place_in_block("g", rg);
    vf_assume(off <= i && i < end && off <= g && g < end);
    auto n = vf_nd("n", 0, VF_MAX / 4);
    auto* v = any_chars(n);
    vf_leak_check lc;
    bool h = vf_split(vf_bool("h"));
    {
        source = g;
        editing x(off, i, end - off, 1, 1, vf_nd("slack", 0, 100), g);
        auto& a = x.o.a;
        bool was = bit_at(x.o.h0, i);
        switch (how)
        {
            case 0: a[i - off] = make_nullable(std::string_view(v, n), bool(h)); break;
            case 1: a[i - off] = make_nullable(std::string_view(v, n)), h = true; break;
            case 2: *(a.begin() + std::ptrdiff_t(i - off)) = make_nullable(std::string_view(v, n), bool(h)); break;
            case 3: a[i - off].get() = std::string_view(v, n), h = was; break;
        }
        x.check(h, v, n);
    }
}
HARNESS(assign_value) { assign(0, 0, 7); }
HARNESS(assign_value_next) { assign(0, 3, 4); }
HARNESS(assign_plain) { assign(1, 7, 0); }
HARNESS(assign_iterator) { assign(2, 5, 5); }
HARNESS(assign_get) { assign(3); }
HARNESS(assign_anywhere) { assign(0); }  // vf: thorough

// --- edits of the length; the bitmap's edits by their contracts

// places within the blocks of validities: fixed ones in quick runs
static u64 offset_in_block()
{
#ifdef VF_QUICK
    return 3;
#else
    return vf_pick("offset in block", 0, 7);
#endif
}
// a position before or after an edit that puts `in` elements in place of `out` ones before position `at`, or new
static void designate(u64 at, u64 end, u64 in, u64 out)
{
    auto what = vf_pick("before, after or new", 0, in ? 2 : 1);
    if (what == 0)
    {
        source = ghost = place_in_block("g", 7);
        vf_assume(ghost < at);
    }
    else if (what == 1)
    {
        source = place_in_block("source", 1);
        vf_assume(source >= at + out && source < end);
        ghost = source + in - out;
    }
    else
    {
        ghost = at + vf_pick("new", 0, in - 1);
        source = VF_MAX * 4;
    }
}

static void erase(unsigned how, u64 count)
{
    vf_leak_check lc;
    auto off = place_in_block("off", offset_in_block()), first = place_in_block("first", 6), end = how > 1 ? first : vf_nd("end", 1, VF_MAX);
    if (count == 0) count = place_in_block("count", 2);
    if (how > 1) end += count;
    vf_assume(count > 0 && off <= first && first + count <= end);
    designate(first, end, 0, count);
    vf_assume(off <= source);
    {
        editing x(off, first, end - off, 0, count, 0, ghost);
        auto& a = x.o.a;
        auto at = a.cbegin() + std::ptrdiff_t(first - off);
        if (how == 2)
            a.pop_back();
        else if (how == 3)
            a.resize(first - off, make_nullable(std::string("x")));
        else
        {
            auto r = how == 0 ? a.erase(at) : a.erase(at, at + std::ptrdiff_t(count));
            vf_assert(u64(r - a.begin()) == first - off, "the result designates the element after");
        }
        x.check(false, nullptr, 0);
    }
}
HARNESS(erase_one) { erase(0, 1); }     // vf: use=bits,bitmap
HARNESS(erase_range) { erase(1, 0); }   // vf: use=bits,bitmap
HARNESS(pop_back) { erase(2, 1); }      // vf: use=bits,bitmap
HARNESS(resize_less) { erase(3, 0); }   // vf: use=bits,bitmap

// new elements of any of a few sizes (bounded), anywhere in any array
static void insert(unsigned how, u64 count)
{
    auto off = place_in_block("off", offset_in_block()), at = place_in_block("at", 6), end = how == 1 || how == 2 ? at : vf_nd("end", 0, VF_MAX / 2);
    vf_assume(off <= at && at <= end);
    designate(at, end, count, 0);
    vf_assume(off <= ghost);
    const u64 near[] = {at, ghost, ghost + 1, ghost - count, ghost + 1 - count, end, end + count};
    for (u64 p : near) also[n_also++] = p;
    const auto n = count == 2 ? 2 : vf_pick("n", 0, 1);
    const char v[] = {char(vf_bits("v0", 8)), char(vf_bits("v1", 8))};
    const bool h = vf_bool("h");
    vf_leak_check lc;
    {
        editing x(off, at, end - off, count, 0, 0, ghost);
        auto& a = x.o.a;
        auto pos = a.cbegin() + std::ptrdiff_t(at - off);
        std::string s(v, n);
        auto e = make_nullable(std::string(s), bool(h));
        if (how == 0)
        {
            auto r = count == 1 ? a.insert(pos, e) : a.insert(pos, e, count);
            vf_assert(u64(r - a.begin()) == at - off, "the result designates the first new element");
        }
        else if (how == 1)
            a.push_back(e);
        else
            a.resize(end - off + count, e);
        x.check(h, v, n);
    }
}
HARNESS(insert_one) { insert(0, 1); }    // vf: use=bits,bitmap,values
HARNESS(insert_two) { insert(0, 2); }    // vf: use=bits,bitmap,values
HARNESS(push_back) { insert(1, 1); }     // vf: use=bits,bitmap,values
HARNESS(resize_more) { insert(2, 2); }   // vf: use=bits,bitmap,values

// a range of elements, in arrays of up to two elements of any content (bounded)
static void insert_range(u64 n, u64 max)
{
    const u64 off = 3, end = off + vf_pick("len", 0, max), at = off + vf_pick("at", 0, end - off), count = n;
    ghost = off + vf_pick("g", 0, 3);
    vf_assume(ghost < end + count);
    source = ghost - count;
    const u64 near[] = {at, ghost, ghost + 1, ghost - count, ghost + 1 - count, end, end + count};
    for (u64 p : near) also[n_also++] = p;
    const char v[] = {char(vf_bits("v0", 8)), char(vf_bits("v1", 8))};
    const bool h[] = {bool(vf_bool("h0")), bool(vf_bool("h1"))};
    vf_leak_check lc;
    {
        editing x(off, at, end - off, count, 0, 0, ghost);
        auto& a = x.o.a;
        // of one and two bytes
        std::array<nullable<std::string>, 2> es = {make_nullable(std::string(v, 1), bool(h[0])), make_nullable(std::string(v, 2), bool(h[1]))};
        auto r = a.insert(a.cbegin() + std::ptrdiff_t(at - off), es.data(), es.data() + count);
        vf_assert(u64(r - a.begin()) == at - off, "the result designates the first new element");
        const u64 k = ghost - at;
        x.check(x.fresh && h[k], v, k + 1);
    }
}
HARNESS(insert_range_two) { insert_range(2, 1); }  // vf: use=bits,values
HARNESS(insert_range_in_two) { insert_range(2, 2); }  // vf: use=bits,values thorough
HARNESS(insert_range_one) { insert_range(1, 2); }  // vf: use=bits,values
HARNESS(insert_range_none) { insert_range(0, 2); }  // vf: use=bits,values

// --- assigning from the array itself, from literals, comparing references

HARNESS(assign_element_to_another)
{
    vf_leak_check lc;
    {
        // two elements of arbitrary bytes
        auto n0 = vf_nd("n0", 0, VF_MAX / 4), n1 = vf_nd("n1", 0, VF_MAX / 4);
        owned o(0, 2, 2);
        vf_assume(o.o0[0] == 0 && u64(o.o0[1]) == n0 && u64(o.o0[2]) == n0 + n1);
        auto k = vf_below("k", n0 + 1);
        auto x = k < n0 ? o.d0[k] : u8(0);
        o.a[1].get() = o.a[0].get();
        auto y = std::as_const(o.a)[0], z = std::as_const(o.a)[1];
        vf_assert(y.get().size() == n0 && z.get().size() == n0, "sizes");
        if (vf_split(k < n0)) vf_assert(u8(y.get()[k]) == x && u8(z.get()[k]) == x, "the bytes of the other element");
        vf_cover("end");
    }
}
HARNESS(assign_literal)
{
    vf_leak_check lc;
    {
        owned o(0, 1, 1);
        vf_assume(o.o0[0] == 0);
        o.a[0].get() = "ab";
        auto y = std::as_const(o.a)[0];
        vf_assert(y.get() == "ab" && o.a[0].get() == "ab" && !(o.a[0].get() == "abc") && !(o.a[0].get() == "a"), "the bytes of the literal");
        vf_assert(o.a[0].get() <=> "aa" > 0 && o.a[0].get() <=> "b" < 0 && o.a[0].get() <=> std::string("ab") == 0, "ordered as bytes");
        vf_cover("end");
    }
}
// assigning nothing keeps the bytes: they are not asked for
HARNESS(assign_null)
{
    vf_leak_check lc;
    {
        auto i = place_in_block("i", 3), g = place_in_block("g", 6), end = vf_nd("end", 1, VF_MAX);
        vf_assume(i < end && g < end);
        source = g;
        owned o(0, end, end);
        o.well(g);
        o.well(i);
        o.ordered(g + 1, end);
        o.ordered(i + 1, end);
        const bool has = bit_at(o.h0, g);
        const u64 n = u64(o.o0[g + 1] - o.o0[g]);
        o.a[i] = nullval;
        vf_assert(!std::as_const(o.a)[i].has_value(), "the element is missing");
        auto y = std::as_const(o.a)[g];
        vf_assert(y.has_value() == has && y.get().size() == n, "others are kept");
        vf_cover("end");
    }
}

// --- building

// from buffers
HARNESS(build_buffers)
{
    const u64 n = vf_nd("nq", 0, VF_MAX / 16) * 8 + vf_residue("nr", 8), bytes = vf_nd("bytes", 0, VF_MAX / 4);
    auto* offs = static_cast<i32*>(vf_bytes("offsets", (n + 1) * 4, 4));
    auto* data = static_cast<char*>(vf_bytes("data", bytes, 1));
    auto* bits = static_cast<u8*>(vf_bytes("bits", (n + 7) / 8, 1));
    auto missing = n - vf_popcount(bits, n / 8) - (n % 8 ? u64(std::popcount(u8(bits[n / 8] & ((1u << n % 8) - 1)))) : 0);
    auto i = vf_nd("i", 0, VF_MAX), k = vf_nd("k", 0, VF_MAX);
    bool in = vf_split(i < n);
    i32 b = 0, e = 0;
    if (in)
    {
        vf_assume(0 <= offs[i] && offs[i] <= offs[i + 1] && offs[i + 1] <= offs[n]);
        b = offs[i], e = offs[i + 1];
    }
    vf_assume(offs[n] == i32(bytes));
    const char c = k < u64(e - b) ? data[u64(b) + k] : 0;
    const bool has = in && bit_at(bits, i);
    bool with = vf_split(vf_bool("bitmap"));
    {
        u8_buffer<char> db(buffer<char>(data, bytes));
        u8_buffer<i32> ob(buffer<i32>(offs, n + 1));
        validity_bitmap vb(bits, n, missing);
        auto a = with ? string_array(std::move(db), std::move(ob), std::as_const(vb)) : string_array(std::move(db), std::move(ob));
        auto [x, s] = get_arrow_structures(a);
        vf_assert(x->length == std::int64_t(n) && x->offset == 0 && x->n_buffers == 3 && x->n_children == 0 && !x->dictionary, "structure");
        vf_assert(std::strcmp(s->format, "u") == 0 && x->null_count == std::int64_t(with ? missing : 0), "format and null count");
        if (in)
        {
            auto v = std::as_const(a)[i];
            vf_assert(v.has_value() == (!with || has) && v.get().size() == u64(e - b), "validity and size");
            if (vf_split(k < u64(e - b))) vf_assert(v.get()[k] == c, "bytes");
        }
        vf_cover("built");
    }
}
// offsets of any sizes
HARNESS(build_offsets)
{
    auto n = vf_nd("n", 0, VF_MAX);
    auto* sizes = static_cast<std::uint32_t*>(vf_bytes("sizes", n * 4, 4));
    auto k = vf_nd("k", 0, VF_MAX);
    buffer<std::uint32_t> b(sizes, n);
    auto offs = string_array::offset_from_sizes(b);
    vf_assert(offs.size() == n + 1 && offs[0] == 0, "one more offset than sizes, from 0");
    if (vf_split(k < n)) vf_assert(std::uint32_t(offs[k + 1]) == std::uint32_t(offs[k]) + sizes[k], "each offset is the previous one plus the size");
    vf_cover("end");
}
// from values (bounded: up to 3 values of up to 3 bytes)
static void build(bool nullable_values)
{
    vf_leak_check lc;
    {
        auto n = vf_pick("n", 0, 3);
        const u64 size[] = {vf_pick("s0", 0, 1), 2 * vf_pick("s1", 0, 1), 3};
        char v[3][3];
        bool h[3];
        for (auto& w : v)
            for (auto& c : w) c = char(vf_bits("c", 8));
        for (auto& b : h) b = nullable_values ? vf_bool("h") : true;
        auto word = [&](u64 k) { return std::string(v[k], size[k]); };
        string_array a = [&]
        {
            if (nullable_values)
            {
                std::vector<nullable<std::string>> r;
                for (u64 k = 0; k < n; ++k) r.push_back(make_nullable(word(k), bool(h[k])));
                return string_array(r);
            }
            std::vector<std::string> r;
            for (u64 k = 0; k < n; ++k) r.push_back(word(k));
            return string_array(r);
        }();
        const auto& c = a;
        u64 missing = 0;
        vf_assert(c.size() == n && c.end() - c.begin() == std::ptrdiff_t(n), "as many elements as values");
        for (u64 k = 0; k < n; ++k)
        {
            auto e = c[k];
            missing += !h[k];
            vf_assert(e.has_value() == h[k], "validity");
            vf_assert(e.get().size() == size[k], "size");
            for (u64 j = 0; j < size[k]; ++j) vf_assert(e.get()[j] == v[k][j], "bytes");
        }
        vf_assert(u64(get_arrow_array(a)->null_count) == missing, "null count");
        vf_cover("end");
    }
}
HARNESS(build_vector) { build(false); }
HARNESS(build_nullables) { build(true); }

// --- binary arrays
using binary = variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, i32>;
static void read_binary(unsigned r)
{
    string_node<i32> n({}, "z", 0);
    reading<binary>(n, [&](const auto& e, u64 p)
                    {
                        if constexpr (requires { e.get().data(); }) return agree(e.has_value(), n.has(p), n.view(e.get(), p));
                        else
                        {
                            auto x = e.get();
                            return bool(e.has_value()) == n.has(p) && x.size() == u64(n.offsets[p + 1] - n.offsets[p]) && (const char*) x.begin() == n.data + n.offsets[p];
                        }
                    }, r);
}
HARNESS(binary_index) { read_binary(by_index); }
HARNESS(binary_at) { read_binary(by_at); }

// large strings have offsets of 64 bits
HARNESS(large_strings)
{
    string_node<std::int64_t> n({0, 1}, "U", 2);
    vf_assume(n.offsets[0] == 0 && n.offsets[1] > 0 && n.offsets[1] <= n.offsets[n.slots()]);
    auto a = borrow<array>(n);
    auto e = std::as_const(a)[0];
    const array_traits::const_reference::base_type& b = e;
    auto* q = std::get_if<detail::array_const_reference_t<std::string>>(&b);
    vf_assert(q != nullptr && q->get().size() == u64(n.offsets[1]), "the size of a large string");
}
