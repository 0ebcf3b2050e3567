// C05: copies of Arrow structures are deep, equal and independent; nothing outside the source buffers is read.
#include "vf.h"
#include <sparrow/arrow_array_schema_proxy.hpp>
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/arrow_interface/arrow_schema.hpp>
#include <cstring>
#include <optional>
#include <string>
#include <utility>
#include <vector>

using namespace sparrow;

// a foreign array: every buffer is a block of exactly the size the format demands
struct src
{
    ArrowArray a{};
    ArrowSchema s{};
    const void* bufs[5] = {};
    std::uint64_t sizes[5] = {};

    explicit src(const char* fmt)
    {
        auto off = vf_size("off");
        auto len = vf_upto("len", VF_MAX - off);
        a.length = std::int64_t(len);
        a.offset = std::int64_t(off);
        a.null_count = std::int64_t(vf_upto("nulls", len));
        a.buffers = bufs;
        a.release = &empty_release_arrow_array;
        s.format = fmt;
        s.release = &empty_release_arrow_schema;
        s.flags = std::int64_t(vf_nd("flags", 0, 7));
    }

    src(const src&) = delete;

    std::uint64_t slots() const { return std::uint64_t(a.length + a.offset); }

    void add(const char* nm, std::uint64_t n, std::uint64_t elem)
    {
        bufs[a.n_buffers] = vf_bytes(nm, n, elem);
        sizes[a.n_buffers++] = n;
    }

    void add_validity()
    {
        if (vf_split(vf_bool("no validity")))
        {
            bufs[a.n_buffers++] = nullptr;
        }
        else
        {
            add("validity", (slots() + 7) / 8, 1);
        }
    }

    ~src()
    {
        for (std::int64_t i = 0; i < a.n_buffers; ++i)
        {
            ::operator delete(const_cast<void*>(bufs[i]));
        }
    }
};

// byte j of buffer k is equal and stored elsewhere
template <class T>
static void same_buffer(const src& x, const ArrowArray& c, std::int64_t k)
{
    auto n = x.sizes[k] / sizeof(T);
    if (n > 0)
    {
        auto j = vf_below("j", n);
        vf_assert(c.buffers[k] != x.bufs[k], "own storage");
        vf_assert(static_cast<const T*>(c.buffers[k])[j] == static_cast<const T*>(x.bufs[k])[j], "equal content");
        vf_cover("content");
    }
}

static void same_counts(const src& x, const ArrowArray& c)
{
    vf_assert(c.length == x.a.length && c.offset == x.a.offset && c.null_count == x.a.null_count, "equal counts");
    vf_assert(c.n_buffers == x.a.n_buffers && c.n_children == 0 && c.children == nullptr && c.dictionary == nullptr, "equal shape");
    vf_assert(c.release == &release_arrow_array && c.buffers != x.a.buffers, "owned by the copy");
    vf_assert(x.a.buffers == x.bufs && x.a.release == &empty_release_arrow_array, "source untouched");
}

template <class T>
static void fixed(const char* fmt, std::uint64_t words = 1)
{
    vf_leak_check lc;
    {
        src x(fmt);
        x.add_validity();
        x.add("data", x.slots() * words * sizeof(T), sizeof(T));
        ArrowArray c = copy_array(x.a, x.s);
        same_counts(x, c);
        if (x.bufs[0] != nullptr)
        {
            same_buffer<std::uint8_t>(x, c, 0);
        }
        same_buffer<T>(x, c, 1);
        c.release(&c);
        vf_cover("end");
    }
}

HARNESS(copy_u8) { fixed<std::uint8_t>(vf_bool("s") ? "c" : "C"); }
HARNESS(copy_16) { const char* f[] = {"s", "S", "e"}; fixed<std::uint16_t>(f[vf_pick("f", 0, 2)]); }
HARNESS(copy_32) { const char* f[] = {"i", "I", "f"}; fixed<std::uint32_t>(f[vf_pick("f", 0, 2)]); }
HARNESS(copy_64) { const char* f[] = {"l", "L", "g"}; fixed<std::uint64_t>(f[vf_pick("f", 0, 2)]); }
HARNESS(copy_temporal_64)
{
    const char* f[] = {"tdm", "ttu", "ttn", "tss:", "tsn:UTC", "tDs", "tiD"};
    fixed<std::uint64_t>(f[vf_pick("f", 0, 6)]);
}
HARNESS(copy_temporal_32)
{
    const char* f[] = {"tdD", "tts", "ttm", "tiM"};
    fixed<std::uint32_t>(f[vf_pick("f", 0, 3)]);
}
HARNESS(copy_temporal_128) { fixed<std::uint64_t>("tin", 2); }
HARNESS(copy_decimal)
{
    const char* f[] = {"d:38,10", "d:7,3,32", "d:15,3,64", "d:38,10,128", "d:76,20,256"};
    std::uint64_t w[] = {4, 1, 2, 4, 8};
    auto i = vf_pick("f", 0, 4);
    fixed<std::uint32_t>(f[i], w[i]);
}
HARNESS(copy_fixed_width)
{
    const char* f[] = {"w:1", "w:3", "w:12", "w:130"};
    std::uint64_t w[] = {1, 3, 12, 130};
    auto i = vf_pick("f", 0, 3);
    fixed<std::uint8_t>(f[i], w[i]);
}

HARNESS(copy_bool)
{
    vf_leak_check lc;
    {
        src x("b");
        x.add_validity();
        x.add("data", (x.slots() + 7) / 8, 1);
        ArrowArray c = copy_array(x.a, x.s);
        same_counts(x, c);
        same_buffer<std::uint8_t>(x, c, 1);
        c.release(&c);
        vf_cover("end");
    }
}

template <class O>
static void offsets_and_data(const char* fmt, bool data)
{
    vf_leak_check lc;
    {
        src x(fmt);
        x.add_validity();
        x.add("offsets", (x.slots() + 1) * sizeof(O), sizeof(O));
        if (data)
        {
            auto last = static_cast<const O*>(x.bufs[1])[x.slots()];
            vf_assume(last >= 0 && std::uint64_t(last) <= VF_MAX);
            x.add("data", std::uint64_t(last), 1);
        }
        ArrowArray c = copy_array(x.a, x.s);
        same_counts(x, c);
        same_buffer<O>(x, c, 1);
        if (data)
        {
            same_buffer<std::uint8_t>(x, c, 2);
        }
        c.release(&c);
        vf_cover("end");
    }
}

HARNESS(copy_string) { offsets_and_data<std::int32_t>(vf_split(vf_bool("s")) ? "u" : "z", true); }
HARNESS(copy_large_string) { offsets_and_data<std::int64_t>(vf_split(vf_bool("s")) ? "U" : "Z", true); }

// layouts with children: the buffers are those of the parent alone here, the children are copied below
HARNESS(copy_string_view)
{
    vf_leak_check lc;
    {
        src x(vf_split(vf_bool("s")) ? "vu" : "vz");
        auto extra = vf_pick("extra", 0, 2);
        x.add_validity();
        x.add("views", x.slots() * 16, 8);
        for (std::uint64_t i = 0; i < extra; ++i)
        {
            x.add("long", vf_size("ln"), 1);
        }
        x.add("sizes", extra * 8, 8);
        for (std::uint64_t i = 0; i < extra; ++i)
        {
            vf_assume(static_cast<const std::uint64_t*>(x.bufs[2 + extra])[i] == x.sizes[2 + i]);
        }
        ArrowArray c = copy_array(x.a, x.s);
        same_counts(x, c);
        same_buffer<std::uint64_t>(x, c, 1);
        if (extra > 0)
        {
            same_buffer<std::uint8_t>(x, c, 2);
            same_buffer<std::uint8_t>(x, c, std::int64_t(1 + extra));
        }
        same_buffer<std::uint64_t>(x, c, std::int64_t(2 + extra));
        c.release(&c);
        vf_cover("end");
    }
}

// one level of nesting: parent buffers of every nested layout, with two int32 children
struct nested
{
    src p;
    src c0, c1;
    ArrowArray* ca[2] = {&c0.a, &c1.a};
    ArrowSchema* cs[2] = {&c0.s, &c1.s};

    nested(const char* fmt, std::int64_t nc)
        : p(fmt), c0("i"), c1("s")
    {
        c0.add_validity();
        c0.add("c0", c0.slots() * 4, 4);
        c1.add("v1", (c1.slots() + 7) / 8, 1);
        c1.add("c1", c1.slots() * 2, 2);
        p.a.n_children = p.s.n_children = nc;
        p.a.children = ca;
        p.s.children = cs;
    }
};

static void check_nested(nested& x)
{
    ArrowArray c = copy_array(x.p.a, x.p.s);
    ArrowSchema s = copy_schema(x.p.s);
    vf_assert(c.length == x.p.a.length && c.offset == x.p.a.offset && c.null_count == x.p.a.null_count, "equal counts");
    vf_assert(c.n_buffers == x.p.a.n_buffers && c.n_children == x.p.a.n_children && c.children != x.p.a.children, "equal shape");
    vf_assert(s.n_children == x.p.s.n_children && s.children != x.p.s.children && s.flags == x.p.s.flags, "equal schema shape");
    for (std::int64_t i = 0; i < c.n_children; ++i)
    {
        vf_assert(c.children[i] != x.ca[i] && s.children[i] != x.cs[i], "own children");
        vf_assert(std::strcmp(s.children[i]->format, x.cs[i]->format) == 0 && s.children[i]->flags == x.cs[i]->flags, "child schema");
        same_counts(i == 0 ? x.c0 : x.c1, *c.children[i]);
    }
    same_buffer<std::int32_t>(x.c0, *c.children[0], 1);
    if (c.n_children > 1)
    {
        same_buffer<std::int16_t>(x.c1, *c.children[1], 1);
    }
    for (std::int64_t k = 0; k < c.n_buffers; ++k)
    {
        if (x.p.bufs[k] != nullptr)
        {
            same_buffer<std::uint8_t>(x.p, c, k);
        }
    }
    vf_assert(c.release == &release_arrow_array && s.release == &release_arrow_schema, "owned by the copy");
    c.release(&c);
    s.release(&s);
    vf_assert(x.p.a.children == x.ca && x.c0.a.release == &empty_release_arrow_array, "source untouched");
    vf_cover("end");
}

HARNESS(copy_struct)
{
    vf_leak_check lc;
    {
        nested x("+s", std::int64_t(vf_pick("nc", 1, 2)));
        x.p.add_validity();
        check_nested(x);
    }
}

HARNESS(copy_fixed_list)
{
    vf_leak_check lc;
    {
        nested x("+w:3", 1);
        x.p.add_validity();
        check_nested(x);
    }
}

HARNESS(copy_lists)
{
    vf_leak_check lc;
    {
        const char* f[] = {"+l", "+L", "+vl", "+vL", "+m"};
        auto i = vf_pick("f", 0, 4);
        nested x(f[i], 1);
        auto w = i == 1 || i == 3 ? 8 : 4;
        x.p.add_validity();
        if (i == 2 || i == 3)
        {
            x.p.add("offsets", x.p.slots() * w, 1);
            x.p.add("sizes", x.p.slots() * w, 1);
        }
        else
        {
            x.p.add("offsets", (x.p.slots() + 1) * w, 1);
        }
        check_nested(x);
    }
}

HARNESS(copy_unions)
{
    vf_leak_check lc;
    {
        bool dense = vf_split(vf_bool("dense"));
        nested x(dense ? "+ud:0,1" : "+us:0,1", 2);
        x.p.add("types", x.p.slots(), 1);
        if (dense)
        {
            x.p.add("offsets", x.p.slots() * 4, 1);
        }
        check_nested(x);
    }
}

HARNESS(copy_run_end_and_null)
{
    vf_leak_check lc;
    {
        nested x("+r", 2);
        check_nested(x);
        src n("n");
        ArrowArray c = copy_array(n.a, n.s);
        same_counts(n, c);
        c.release(&c);
    }
}

HARNESS(copy_dictionary)
{
    vf_leak_check lc;
    {
        src k("C"), d("i");
        k.add_validity();
        k.add("keys", k.slots(), 1);
        d.add_validity();
        d.add("values", d.slots() * 4, 4);
        k.a.dictionary = &d.a;
        k.s.dictionary = &d.s;
        ArrowArray c = copy_array(k.a, k.s);
        ArrowSchema s = copy_schema(k.s);
        vf_assert(c.length == k.a.length && c.offset == k.a.offset, "keys");
        same_buffer<std::uint8_t>(k, c, 1);
        vf_assert(c.dictionary != nullptr && c.dictionary != &d.a && s.dictionary != nullptr && s.dictionary != &d.s, "own dictionary");
        same_counts(d, *c.dictionary);
        same_buffer<std::int32_t>(d, *c.dictionary, 1);
        vf_assert(std::strcmp(s.dictionary->format, "i") == 0 && std::strcmp(s.format, "C") == 0, "formats");
        c.release(&c);
        s.release(&s);
        vf_cover("end");
    }
}

static const char* text(const char* nm)
{
    static const char* t[] = {nullptr, "", "short", "a text that is too long for the small string buffer"};
    return t[vf_pick(nm, 0, 3)];
}

static bool same_text(const char* a, const char* b)
{
    return a == nullptr ? b == nullptr : b != nullptr && a != b && std::strcmp(a, b) == 0;
}

HARNESS(copy_schema_texts)
{
    vf_leak_check lc;
    ArrowSchema x{};
    const char* f[] = {"i", "+w:12345678901234567890"};
    x.format = f[vf_pick("f", 0, 1)];
    x.name = text("name");
    x.metadata = text("meta");
    x.flags = std::int64_t(vf_bits("flags", 64));
    x.release = &empty_release_arrow_schema;
    ArrowSchema c = copy_schema(x);
    vf_assert(same_text(x.format, c.format) && same_text(x.name, c.name) && same_text(x.metadata, c.metadata), "equal texts in own storage");
    vf_assert(c.flags == x.flags && c.n_children == 0 && c.children == nullptr && c.dictionary == nullptr, "equal flags and shape");
    vf_assert(c.release == &release_arrow_schema, "owned by the copy");
    c.release(&c);
    vf_cover("end");
}

HARNESS(copy_handle)
{
    vf_leak_check lc;
    {
        src x("i");
        x.add_validity();
        x.add("data", x.slots() * 4, 4);
        x.s.name = text("name");
        const arrow_proxy p(&x.a, &x.s);
        bool assign = vf_split(vf_bool("assign"));
        arrow_proxy c(p);
        if (assign)
        {
            arrow_proxy d(&x.a, &x.s);
            d = c;
            c = d;
        }
        vf_assert(c.owns_array() && c.owns_schema() && c.is_created_with_sparrow(), "the copy owns its structures");
        same_counts(x, c.array());
        vf_assert(c.length() == p.length() && c.offset() == p.offset() && c.null_count() == p.null_count(), "equal counts");
        vf_assert(c.format() == "i" && c.data_type() == p.data_type() && c.name() == p.name() && c.flags() == p.flags(), "equal schema");
        vf_assert(c.buffers().size() == 2 && c.buffers()[1].data() == c.array().buffers[1] && c.buffers()[1].size() == x.sizes[1], "views of its own buffers");
        same_buffer<std::int32_t>(x, c.array(), 1);
        if (x.sizes[1] > 0)
        {
            auto k = vf_below("k", x.sizes[1] / 4);
            auto old = static_cast<const std::int32_t*>(x.bufs[1])[k];
            c.buffers()[1].data<std::int32_t>()[k] = vf_any<std::int32_t>("v");
            vf_assert(static_cast<const std::int32_t*>(x.bufs[1])[k] == old, "writing to the copy leaves the source");
        }
        vf_cover("end");
    }
}
