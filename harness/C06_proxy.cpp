// C06: whatever is set on a handle is what it reports; its buffer views designate the live buffers; the null count is that
// of the designated elements; refused calls change nothing.
#include "vf.h"
#include <sparrow/arrow_array_schema_proxy.hpp>
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/arrow_interface/arrow_schema.hpp>
#include <array>
#include <bit>
#include <optional>
#include <string>
#include <utility>
#include <vector>

using namespace sparrow;
using U8 = buffer<std::uint8_t>;

// number of set bits among the first n (n = 8q + r with r one of few values per path)
static std::uint64_t ones(const std::uint8_t* p, std::uint64_t n)
{
    auto r = n % 8;
    return vf_popcount(p, n / 8) + (r ? std::uint64_t(std::popcount(std::uint8_t(p[n / 8] & ((1u << r) - 1)))) : 0);
}

static std::uint64_t bit_size(const char* q, const char* r) { return vf_nd(q, 0, VF_MAX / 16) * 8 + vf_residue(r, 8); }

struct state
{
    std::uint64_t off, len, slots;  // off + len <= slots; the buffers hold `slots` elements
    std::string name = "a name that does not fit inline", meta = "meta";
    ArrowArray a;
    ArrowSchema s;

    explicit state(std::uint64_t cap)
        : off(0)
        , len(cap)
        , slots(cap)
    {
        std::vector<U8> bufs;
        auto nb = (cap + 7) / 8;
        bufs.push_back(U8(static_cast<std::uint8_t*>(vf_bytes("validity", nb, 1)), nb));
        bufs.push_back(U8(static_cast<std::uint8_t*>(vf_bytes("data", cap * 4, 4)), cap * 4));
        a = make_arrow_array(std::int64_t(cap), 0, 0, std::move(bufs), 0, nullptr, nullptr);
        s = make_arrow_schema(std::string("i"), std::optional<std::string>(name), std::optional<std::string>(meta), ArrowFlag::NULLABLE, 0, nullptr, nullptr);
    }

    void designate(std::uint64_t o, std::uint64_t l)
    {
        off = o;
        len = l;
        a.offset = std::int64_t(o);
        a.length = std::int64_t(l);
        a.null_count = std::int64_t(l - (ones(static_cast<const std::uint8_t*>(a.buffers[0]), o + l) - ones(static_cast<const std::uint8_t*>(a.buffers[0]), o)));
    }
};

static const std::uint8_t* validity(const arrow_proxy& p) { return static_cast<const std::uint8_t*>(p.array().buffers[0]); }

static void live_views(const arrow_proxy& p)
{
    vf_assert(p.buffers().size() == p.n_buffers() && p.n_buffers() == std::size_t(p.array().n_buffers), "one view per buffer");
    for (std::size_t i = 0; i < p.n_buffers(); ++i)
    {
        vf_assert(p.buffers()[i].data() == p.array().buffers[i], "the views designate the live buffers");
    }
}

static void counts(const arrow_proxy& p, std::uint64_t off, std::uint64_t len)
{
    vf_assert(p.offset() == off && p.array().offset == std::int64_t(off), "offset as last set");
    vf_assert(p.length() == len && p.array().length == std::int64_t(len), "length as last set");
    vf_assert(p.null_count() == p.array().null_count, "null count as in the structure");
    vf_assert(
        p.null_count() == std::int64_t(len - (ones(validity(p), off + len) - ones(validity(p), off))),
        "null count is the number of unset validity bits among the designated elements"
    );
}

static void rest(const arrow_proxy& p)
{
    vf_assert(p.format() == "i" && p.data_type() == data_type::INT32, "format unchanged");
    vf_assert(p.name() == std::string_view("a name that does not fit inline") && p.metadata() == std::string_view("meta"), "name and metadata unchanged");
    vf_assert(p.flags() == std::vector<ArrowFlag>{ArrowFlag::NULLABLE}, "flags unchanged");
    vf_assert(p.n_children() == 0 && p.children().empty() && p.dictionary() == nullptr, "no children");
}

HARNESS(fresh)  // vf: residues
{
    vf_leak_check lc;
    auto off = bit_size("oq", "or"), end = bit_size("eq", "er");
    vf_assume(off <= end);
    state st(end);
    st.designate(off, end - off);
    auto* d = st.a.buffers[1];
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        vf_assert(st.a.release == nullptr && st.s.release == nullptr, "adopted");
        vf_assert(p.owns_array() && p.owns_schema() && p.is_created_with_sparrow(), "owned");
        live_views(p);
        vf_assert(p.array().buffers[1] == d && p.buffers()[1].size() == end * 4 && p.buffers()[0].size() == (end + 7) / 8, "views cover the buffers");
        counts(p, off, end - off);
        rest(p);
        vf_cover("end");
    }
}

HARNESS(set_length)  // vf: residues
{
    vf_leak_check lc;
    auto off = bit_size("oq", "or"), end = bit_size("eq", "er");
    vf_assume(off <= end);
    auto cap = vf_below("cap", VF_MAX);
    vf_assume(end <= cap);
    state st(cap);
    st.a.offset = std::int64_t(off);
    st.a.length = std::int64_t(vf_upto("len0", cap - off));
    st.a.null_count = vf_any<std::int64_t>("stale");
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        p.set_length(end - off);
        live_views(p);
        counts(p, off, end - off);
        rest(p);
        vf_assert(p.buffers()[1].size() == end * 4, "the view covers the designated elements");
        vf_cover("end");
    }
}

HARNESS(set_offset_then_length)  // vf: residues
{
    vf_leak_check lc;
    auto off = bit_size("oq", "or"), end = bit_size("eq", "er");
    vf_assume(off <= end);
    auto cap = vf_below("cap", VF_MAX);
    vf_assume(end <= cap);
    state st(cap);
    {
        // a handle to structures owned by somebody else may be written too
        bool own = vf_split(vf_bool("own"));
        arrow_proxy p = own ? arrow_proxy(std::move(st.a), std::move(st.s)) : arrow_proxy(&st.a, &st.s);
        p.set_offset(off);
        vf_assert(p.offset() == off && p.length() == cap, "offset as set, length unchanged");
        p.set_length(end - off);
        live_views(p);
        counts(p, off, end - off);
        rest(p);
        vf_cover("end");
    }
    if (st.a.release != nullptr)
    {
        vf_assert(st.a.offset == std::int64_t(off) && st.a.length == std::int64_t(end - off), "written through");
        st.a.release(&st.a);
        st.s.release(&st.s);
        vf_cover("borrowed");
    }
}

HARNESS(set_buffer_validity)  // vf: residues
{
    vf_leak_check lc;
    auto off = bit_size("oq", "or"), end = bit_size("eq", "er");
    vf_assume(off <= end);
    state st(end);
    st.designate(off, end - off);
    auto nb = (end + 7) / 8;
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        auto* n = static_cast<std::uint8_t*>(vf_bytes("new", nb, 1));
        if (vf_split(vf_bool("adopt")))
        {
            p.set_buffer(0, U8(n, nb));
            vf_assert(p.array().buffers[0] == n, "the buffer is adopted");
            vf_cover("adopted");
        }
        else
        {
            p.set_buffer(0, buffer_view<std::uint8_t>(n, nb));
            vf_assert(nb == 0 || p.array().buffers[0] != n, "the buffer is copied");
            if (nb > 0)
            {
                auto j = vf_below("j", nb);
                vf_assert(validity(p)[j] == n[j], "with its content");
                vf_cover("copied");
            }
            ::operator delete(n);
        }
        live_views(p);
        counts(p, off, end - off);
        rest(p);
        vf_cover("end");
    }
}

HARNESS(set_buffer_data)
{
    vf_leak_check lc;
    auto end = vf_size("len");
    state st(end);
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        auto* v = p.array().buffers[0];
        auto* n = static_cast<std::uint8_t*>(vf_bytes("new", end * 4, 4));
        p.set_buffer(1, U8(n, end * 4));
        live_views(p);
        vf_assert(p.array().buffers[1] == n && p.array().buffers[0] == v && p.buffers()[1].size() == end * 4, "the other buffer is kept");
        vf_assert(p.offset() == 0 && p.length() == end, "counts kept");
        vf_assert(p.null_count() == std::int64_t(end - ones(validity(p), end)), "null count");
        rest(p);
        vf_cover("end");
    }
}

HARNESS(set_n_buffers)
{
    vf_leak_check lc;
    state st(vf_size("len"));
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        auto *v = p.array().buffers[0], *d = p.array().buffers[1];
        auto n = vf_pick("n", 2, 4);
        p.set_n_buffers(n);
        vf_assert(p.n_buffers() == n && p.array().n_buffers == std::int64_t(n), "as set");
        vf_assert(p.array().buffers[0] == v && p.array().buffers[1] == d, "the buffers are kept");
        vf_assert(p.buffers()[0].data() == v && p.buffers()[1].data() == d, "the views designate the live buffers");
        vf_cover("end");
    }
}

static const char* texts[] = {"", "x", "fifteen chars..", "sixteen chars...", "a text that certainly needs a heap block"};

template <class Set, class Get>
static void text(Set set, Get get)
{
    vf_leak_check lc;
    state st(3);
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        for (int round = 0; round < 2; ++round)
        {
            auto i = vf_pick(round ? "second" : "first", 0, 5);
            if (i == 5)
            {
                set(p, std::nullopt);
                vf_assert(!get(p).has_value(), "no text as last set");
                vf_cover("none");
            }
            else
            {
                std::string arg(texts[i]);
                set(p, std::string_view(arg));
                std::fill(arg.begin(), arg.end(), '#');
                vf_assert(get(p) == std::string_view(texts[i]), "the text is what was last set, in storage of its own");
                vf_cover("some");
            }
        }
        vf_assert(p.length() == 3 && p.format() == "i" && p.flags() == std::vector<ArrowFlag>{ArrowFlag::NULLABLE}, "others unchanged");
        live_views(p);
        vf_cover("end");
    }
}

HARNESS(set_name)
{
    text([](arrow_proxy& p, std::optional<std::string_view> t) { p.set_name(t); }, [](const arrow_proxy& p) {
        vf_assert(p.metadata() == std::string_view("meta"), "metadata unchanged");
        return p.name();
    });
}

HARNESS(set_metadata)
{
    text([](arrow_proxy& p, std::optional<std::string_view> t) { p.set_metadata(t); }, [](const arrow_proxy& p) {
        vf_assert(p.name() == std::string_view("a name that does not fit inline"), "name unchanged");
        return p.metadata();
    });
}

HARNESS(set_format)
{
    vf_leak_check lc;
    state st(3);
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        const char* f[] = {"I", "f", "ttm", "tsn:a zone with a rather long name"};
        data_type t[] = {data_type::UINT32, data_type::FLOAT};
        for (int round = 0; round < 2; ++round)
        {
            auto i = vf_pick(round ? "second" : "first", 0, 3);
            if (i < 2 && vf_split(vf_bool(round ? "t2" : "t1")))
            {
                p.set_data_type(t[i]);
                vf_assert(p.data_type() == t[i], "the data type as last set");
                vf_cover("type");
            }
            else
            {
                std::string arg(f[i]);
                p.set_format(arg);
                std::fill(arg.begin(), arg.end(), '#');
            }
            vf_assert(p.format() == std::string_view(f[i]), "the format as last set");
        }
        vf_assert(p.length() == 3 && p.name() == std::string_view("a name that does not fit inline"), "others unchanged");
        live_views(p);
        vf_cover("end");
    }
}

HARNESS(set_flags_and_count)
{
    vf_leak_check lc;
    state st(3);
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        auto m = vf_pick("mask", 0, 7);
        std::vector<ArrowFlag> fl;
        for (auto f : {ArrowFlag::DICTIONARY_ORDERED, ArrowFlag::NULLABLE, ArrowFlag::MAP_KEYS_SORTED})
        {
            if (m & std::uint64_t(f))
            {
                fl.push_back(f);
            }
        }
        p.set_flags(fl);
        vf_assert(p.schema().flags == std::int64_t(m) && p.flags() == fl, "flags as last set");
        auto n = vf_any<std::int64_t>("nulls");
        p.set_null_count(n);
        vf_assert(p.null_count() == n && p.array().null_count == n, "null count as last set");
        vf_assert(p.length() == 3 && p.offset() == 0, "others unchanged");
        live_views(p);
        vf_cover("end");
    }
}

// editing the bitmap: states of up to 6 elements, with any validity bits (bounded)
static std::uint64_t mid()
{
#ifdef VF_QUICK
    return vf_pick("len", 0, 1) * 5;
#else
    return vf_pick("len", 0, 6);
#endif
}

template <class Edit>
static void bitmap(Edit edit)
{
    vf_leak_check lc;
    auto kind = vf_pick("kind", 0, 2), off = kind > 0 ? std::uint64_t(3) : 0, spare = kind == 2 ? std::uint64_t(9) : 0, len = mid();
    state st(off + len + spare);
    st.designate(off, len);
    {
        arrow_proxy p(std::move(st.a), std::move(st.s));
        std::vector<std::uint8_t> model;
        auto bit = [&](std::uint64_t i) { return std::uint8_t((validity(p)[i / 8] >> (i % 8)) & 1); };
        for (std::uint64_t i = 0; i < off + len; ++i)
        {
            model.push_back(bit(i));
        }
        edit(p, model, off, len);
        live_views(p);
        for (std::size_t i = 0; i < model.size(); ++i)
        {
            vf_assert(bit(i) == model[i], "the validity bits after the edit, including those before the offset");
        }
        vf_assert(p.offset() == off, "the offset is kept");
        vf_assert(p.length() == len, "the length is set separately");
        p.set_length(model.size() - off);
        std::int64_t z = 0;
        for (std::size_t i = off; i < model.size(); ++i)
        {
            z += 1 - model[i];
        }
        vf_assert(p.null_count() == z, "null count is the number of unset validity bits among the designated elements");
        rest(p);
        vf_cover("end");
    }
}

HARNESS(insert_bitmap)
{
    bitmap([](arrow_proxy& p, std::vector<std::uint8_t>& m, std::uint64_t off, std::uint64_t len) {
        auto at = vf_pick("at", 0, len), n = vf_pick("count", 0, 1) * 3;
        bool v = vf_split(vf_bool("value"));
        vf_assert(p.insert_bitmap(at, v, n) == at, "position of the first inserted bit");
        m.insert(m.begin() + std::ptrdiff_t(off + at), n, v);
    });
}

HARNESS(insert_bitmap_range)
{
    bitmap([](arrow_proxy& p, std::vector<std::uint8_t>& m, std::uint64_t off, std::uint64_t len) {
        auto at = vf_pick("at", 0, len);
        auto m3 = vf_pick("r", 0, 3);
        std::array<bool, 3> r = {m3 == 1 || m3 == 2, m3 >= 2, m3 != 0};
        vf_assert(p.insert_bitmap(at, r) == at, "position of the first inserted bit");
        m.insert(m.begin() + std::ptrdiff_t(off + at), r.begin(), r.end());
    });
}

HARNESS(erase_bitmap)
{
    bitmap([](arrow_proxy& p, std::vector<std::uint8_t>& m, std::uint64_t off, std::uint64_t len) {
        if (len == 0)
        {
            return;
        }
        auto at = vf_pick("at", 0, len - 1);
        auto n = vf_pick("count", 1, len - at);
        vf_assert(p.erase_bitmap(at, n) == at, "position after the erased bits");
        m.erase(m.begin() + std::ptrdiff_t(off + at), m.begin() + std::ptrdiff_t(off + at + n));
    });
}

HARNESS(push_pop_bitmap)
{
    bitmap([](arrow_proxy& p, std::vector<std::uint8_t>& m, std::uint64_t, std::uint64_t len) {
        if (len > 0 && vf_split(vf_bool("pop")))
        {
            p.pop_back_bitmap();
            m.pop_back();
            vf_cover("popped");
        }
        else
        {
            bool v = vf_split(vf_bool("value"));
            p.push_back_bitmap(v);
            m.push_back(v);
        }
    });
}

HARNESS(resize_bitmap)
{
    bitmap([](arrow_proxy& p, std::vector<std::uint8_t>& m, std::uint64_t off, std::uint64_t) {
        auto n = off + vf_pick("to", 0, 12);
        bool v = vf_split(vf_bool("value"));
        p.resize_bitmap(n, v);
        m.resize(n, v);
    });
}

// structures of somebody else: every setter refuses and changes nothing
template <class F>
static void refused(const arrow_proxy& p, const ArrowArray& a, const ArrowSchema& s, F call)
{
    ArrowArray a0 = a;
    ArrowSchema s0 = s;
    bool threw = false;
    try
    {
        call();
    }
    catch (const arrow_proxy_exception&)
    {
        threw = true;
    }
    vf_assert(threw, "setters refuse structures not created by the library");
    vf_assert(
        a.length == a0.length && a.offset == a0.offset && a.null_count == a0.null_count && a.n_buffers == a0.n_buffers && a.n_children == a0.n_children
            && a.buffers == a0.buffers && a.children == a0.children && a.dictionary == a0.dictionary && a.release == a0.release && a.private_data == a0.private_data,
        "a refused call changes nothing of the array"
    );
    vf_assert(
        s.format == s0.format && s.name == s0.name && s.metadata == s0.metadata && s.flags == s0.flags && s.n_children == s0.n_children
            && s.children == s0.children && s.dictionary == s0.dictionary && s.release == s0.release && s.private_data == s0.private_data,
        "a refused call changes nothing of the schema"
    );
    live_views(p);
}

HARNESS(foreign_refused)
{
    vf_leak_check lc;
    auto n = vf_size("len");
    const void* bufs[2] = {vf_bytes("validity", (n + 7) / 8, 1), vf_bytes("data", n * 4, 4)};
    {
        ArrowArray a{};
        a.length = std::int64_t(n);
        a.null_count = vf_any<std::int64_t>("nulls");
        a.n_buffers = 2;
        a.buffers = bufs;
        a.release = &empty_release_arrow_array;
        ArrowSchema s{};
        s.format = "i";
        s.name = "name";
        s.flags = 2;
        s.release = &empty_release_arrow_schema;
        // the array, the schema or both are foreign
        auto kind = vf_pick("kind", 0, 2);
        ArrowSchema own_s = make_arrow_schema(std::string("i"), std::optional<std::string>("n"), std::nullopt, std::nullopt, 0, nullptr, nullptr);
        std::vector<U8> own_b;
        own_b.push_back(U8(std::size_t(3), std::uint8_t(1)));
        own_b.push_back(U8(std::size_t(12), std::uint8_t(1)));
        ArrowArray own_a = make_arrow_array(3, 0, 0, std::move(own_b), 0, nullptr, nullptr);
        ArrowArray& A = kind == 1 ? own_a : a;
        ArrowSchema& S = kind == 2 ? own_s : s;
        {
            arrow_proxy p(&A, &S);
            vf_assert(!p.is_created_with_sparrow() && !p.owns_array() && !p.owns_schema(), "foreign");
            const bool fa = kind != 1, fs = kind != 2;
            ArrowArray ca{};
            ca.release = &empty_release_arrow_array;
            ArrowSchema cs{};
            cs.release = &empty_release_arrow_schema;
            auto go = [&](bool applies, auto f) {
                if (applies)
                {
                    refused(p, A, S, f);
                }
            };
            std::array<bool, 1> one = {false};
            switch (vf_pick("setter", 0, 19))
            {
                case 0: go(fa, [&] { p.set_length(1); }); break;
                case 1: go(fa, [&] { p.set_offset(1); }); break;
                case 2: go(true, [&] { p.set_null_count(1); }); break;
                case 3: go(fa, [&] { p.set_n_buffers(3); }); break;
                case 4: go(fa, [&] { p.set_buffer(1, U8(std::size_t(4), std::uint8_t(1))); }); break;
                case 5: go(fa, [&] { p.set_buffer(1, buffer_view<std::uint8_t>(nullptr, 0)); }); break;
                case 6: go(true, [&] { p.set_format("f"); }); break;
                case 7: go(fs, [&] { p.set_data_type(data_type::FLOAT); }); break;
                case 8: go(fs, [&] { p.set_name("f"); }); break;
                case 9: go(fs, [&] { p.set_metadata("f"); }); break;
                case 10: go(fs, [&] { p.set_flags({ArrowFlag::NULLABLE}); }); break;
                case 11: go(fa, [&] { p.resize_bitmap(1); }); break;
                case 12: go(fa, [&] { p.insert_bitmap(0, true, 2); }); break;
                case 13: go(fa, [&] { p.insert_bitmap(0, one); }); break;
                case 14: go(fa, [&] { p.erase_bitmap(0); }); break;
                case 15: go(fa, [&] { p.push_back_bitmap(true); }); break;
                case 16: go(fa, [&] { p.pop_back_bitmap(); }); break;
                case 17: go(true, [&] { p.add_child(&ca, &cs); }); break;
                case 18: go(true, [&] { p.pop_children(0); }); break;
                case 19: go(true, [&] { p.set_dictionary(&ca, &cs); }); break;
            }
            vf_cover("refused");
        }
        own_a.release(&own_a);
        own_s.release(&own_s);
    }
    ::operator delete(const_cast<void*>(bufs[0]));
    ::operator delete(const_cast<void*>(bufs[1]));
    vf_cover("end");
}

// children
static ArrowArray child_array(std::int64_t len)
{
    std::vector<U8> b;
    b.push_back(U8(std::size_t(len + 7) / 8, std::uint8_t(0xFF)));
    b.push_back(U8(std::size_t(len) * 2, std::uint8_t(1)));
    return make_arrow_array(len, 0, 0, std::move(b), 0, nullptr, nullptr);
}

static ArrowSchema child_schema(std::string nm)
{
    return make_arrow_schema(std::string("s"), std::optional<std::string>(std::move(nm)), std::nullopt, std::nullopt, 0, nullptr, nullptr);
}

static void same_children(const arrow_proxy& p, const std::vector<std::int64_t>& m)
{
    vf_assert(p.n_children() == m.size() && p.children().size() == m.size(), "number of children");
    vf_assert(p.array().n_children == std::int64_t(m.size()) && p.schema().n_children == std::int64_t(m.size()), "in both structures");
    for (std::size_t i = 0; i < m.size(); ++i)
    {
        const arrow_proxy& c = p.children()[i];
        vf_assert(&c.array() == p.array().children[i] && &c.schema() == p.schema().children[i], "the children handles designate the live children");
        vf_assert(c.length() == std::size_t(m[i]) && c.format() == "s" && c.name().has_value(), "the children as last set");
        live_views(c);
    }
}

HARNESS(children)
{
    vf_leak_check lc;
    {
        std::vector<U8> b;
        b.push_back(U8(std::size_t(1), std::uint8_t(0xFF)));
        arrow_proxy p(
            make_arrow_array(2, 0, 0, std::move(b), 0, nullptr, nullptr),
            make_arrow_schema(std::string("+s"), std::optional<std::string>(), std::nullopt, std::nullopt, 0, nullptr, nullptr)
        );
        ArrowArray oa = child_array(7);
        ArrowSchema os = child_schema("borrowed");
        std::vector<std::int64_t> m;
        const auto steps = vf_pick("steps", 0, 4);
        for (std::uint64_t i = 0; i < steps; ++i)
        {
            const char* nm[] = {"op1", "op2", "op3", "op4"};
            switch (vf_pick(nm[i], 0, 4))
            {
                case 0:
                    p.add_child(child_array(std::int64_t(i) + 2), child_schema("a child with a long enough name"));
                    m.push_back(std::int64_t(i) + 2);
                    break;
                case 1:
                    p.add_child(&oa, &os);
                    m.push_back(7);
                    break;
                case 2:
                    if (!m.empty())
                    {
                        p.pop_children(1);
                        m.pop_back();
                    }
                    break;
                case 3:
                    if (!m.empty())
                    {
                        p.set_child(0, child_array(9), child_schema("set"));
                        m[0] = 9;
                        vf_cover("set");
                    }
                    break;
                case 4:
                    if (!m.empty())
                    {
                        p.set_child(m.size() - 1, &oa, &os);
                        m.back() = 7;
                    }
                    break;
            }
            same_children(p, m);
        }
        bool threw = false;
        try
        {
            p.pop_children(m.size() + 1);
        }
        catch (const arrow_proxy_exception&)
        {
            threw = true;
        }
        vf_assert(threw, "popping too many children is refused");
        same_children(p, m);
        arrow_proxy q(std::move(p));
        same_children(q, m);
        vf_assert(oa.release != nullptr && os.release != nullptr && oa.length == 7, "borrowed children are left alone");
        vf_cover("end");
        arrow_proxy drop(std::move(q));
        oa.offset = 0;
        {
            arrow_proxy gone(std::move(drop));
        }
        oa.release(&oa);
        os.release(&os);
    }
}

HARNESS(dictionary)
{
    vf_leak_check lc;
    {
        state st(3);
        arrow_proxy p(std::move(st.a), std::move(st.s));
        ArrowArray oa = child_array(7), ob = child_array(4);
        ArrowSchema os = child_schema("first"), ot = child_schema("second");
        vf_assert(p.dictionary() == nullptr, "no dictionary");
        p.set_dictionary(&oa, &os);
        vf_assert(p.dictionary() != nullptr && &p.dictionary()->array() == &oa && &p.dictionary()->schema() == &os, "the dictionary as set");
        vf_assert(p.array().dictionary == &oa && p.schema().dictionary == &os && p.dictionary()->length() == 7, "in the structures");
        live_views(*p.dictionary());
        p.set_dictionary(&ob, &ot);
        vf_assert(oa.release == nullptr && os.release == nullptr, "the replaced dictionary is released");
        vf_assert(&p.dictionary()->array() == &ob && p.dictionary()->length() == 4 && p.dictionary()->name() == std::string_view("second"), "the dictionary as last set");
        p.set_dictionary(nullptr, nullptr);
        vf_assert(p.dictionary() == nullptr && p.array().dictionary == nullptr && ob.release == nullptr, "no dictionary any more");
        live_views(p);
        vf_assert(p.length() == 3 && p.format() == "i", "others unchanged");
        vf_cover("end");
    }
}

HARNESS(swap_and_move)
{
    vf_leak_check lc;
    state x(vf_size("nx")), y(vf_size("ny"));
    {
        auto *dx = x.a.buffers[1], *dy = y.a.buffers[1];
        arrow_proxy p(std::move(x.a), std::move(x.s)), q(std::move(y.a), std::move(y.s));
        if (vf_split(vf_bool("move")))
        {
            p = std::move(q);
            vf_cover("moved");
        }
        else
        {
            std::swap(p, q);
            vf_assert(q.length() == x.slots && q.array().buffers[1] == dx, "exchanged");
            live_views(q);
            rest(q);
        }
        vf_assert(p.length() == y.slots && p.array().buffers[1] == dy, "designates what the other did");
        live_views(p);
        rest(p);
        arrow_proxy r(std::move(p));
        vf_assert(r.length() == y.slots && r.array().buffers[1] == dy, "designates what the other did");
        live_views(r);
        rest(r);
        
        auto v = r.view();
        vf_assert(!v.owns_array() && !v.owns_schema() && &v.array() == &r.array() && &v.schema() == &r.schema(), "a view designates the same structures");
        live_views(v);
        rest(v);
        vf_cover("end");
    }
}

HARNESS(extract)
{
    vf_leak_check lc;
    state x(vf_size("n"));
    auto* d = x.a.buffers[1];
    arrow_proxy p(std::move(x.a), std::move(x.s));
    {
        arrow_proxy v(&p.array(), &p.schema());
        int threw = 0;
        try
        {
            (void) v.extract_array();
        }
        catch (const std::runtime_error&)
        {
            ++threw;
        }
        try
        {
            (void) v.extract_schema();
        }
        catch (const std::runtime_error&)
        {
            ++threw;
        }
        vf_assert(threw == 2 && v.length() == x.slots, "structures of others cannot be extracted");
    }
    ArrowArray a = p.extract_array();
    ArrowSchema s = p.extract_schema();
    vf_assert(a.release == &release_arrow_array && s.release == &release_arrow_schema, "what was adopted comes out");
    vf_assert(a.buffers[1] == d && a.length == std::int64_t(x.slots) && std::string_view(s.format) == "i", "with its content");
    a.release(&a);
    s.release(&s);
    vf_cover("end");
}
