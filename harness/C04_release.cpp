// C04: a released structure has given back everything it owns exactly once; handles release exactly what they own.
#include "vf.h"
#include <sparrow/arrow_array_schema_proxy.hpp>
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/arrow_interface/arrow_schema.hpp>
#include <array>
#include <optional>
#include <string>
#include <utility>
#include <vector>

using namespace sparrow;
using U8 = buffer<std::uint8_t>;

static U8 mk_buffer(const char* nm, std::uint64_t n)
{
    return U8(static_cast<std::uint8_t*>(vf_bytes(nm, n, 1)), n);
}

// an int32 array of arbitrary length with nc children and possibly a dictionary
static ArrowArray mk_array(std::uint64_t len, std::uint64_t nc = 0, ArrowArray** children = nullptr, ArrowArray* dict = nullptr)
{
    std::vector<U8> bufs;
    bufs.push_back(mk_buffer("validity", (len + 7) / 8));
    bufs.push_back(mk_buffer("data", len * 4));
    return make_arrow_array(std::int64_t(len), 0, 0, std::move(bufs), nc, children, dict);
}

static ArrowSchema mk_schema(std::uint64_t nc = 0, ArrowSchema** children = nullptr, ArrowSchema* dict = nullptr, std::string fmt = "i")
{
    return make_arrow_schema(
        std::move(fmt), std::optional<std::string>("a name that does not fit inline"), std::optional<std::string>("meta"), std::nullopt,
        std::int64_t(nc), children, dict
    );
}

template <class T>
static void released(const T& t)
{
    vf_assert(t.release == nullptr, "marked released");
    vf_assert(t.private_data == nullptr && t.children == nullptr && t.dictionary == nullptr, "nothing left to give back");
}

HARNESS(release_array)
{
    vf_leak_check lc;
    ArrowArray a = mk_array(vf_size("len"));
    vf_assert(a.release == &release_arrow_array && a.n_buffers == 2 && a.n_children == 0, "as built");
    a.release(&a);
    released(a);
    vf_assert(a.buffers == nullptr, "no buffers");
    vf_cover("end");
}

HARNESS(release_array_nested)
{
    vf_leak_check lc;
    auto nc = vf_pick("children", 0, 2);
    bool dict = vf_split(vf_bool("dict")), moved = vf_split(vf_bool("moved"));
    auto len = vf_size("len");
    ArrowArray** ch = nc ? new ArrowArray*[nc] : nullptr;
    for (std::uint64_t i = 0; i < nc; ++i)
    {
        ch[i] = new ArrowArray(mk_array(len));
    }
    ArrowArray* d = dict ? new ArrowArray(mk_array(len)) : nullptr;
    ArrowArray a = mk_array(len, nc, ch, d);
    vf_assert(a.children == ch && a.dictionary == d && a.n_children == std::int64_t(nc), "as built");
    ArrowArray out{};
    if (moved && nc > 0)
    {
        // a consumer moves the first child out, as the specification allows
        out = *a.children[0];
        a.children[0]->release = nullptr;
    }
    a.release(&a);
    released(a);
    if (out.release != nullptr)
    {
        vf_assert(out.length == std::int64_t(len), "a moved child stays usable");
        out.release(&out);
        vf_cover("moved");
    }
    vf_cover("end");
}

HARNESS(release_schema)
{
    vf_leak_check lc;
    auto nc = vf_pick("children", 0, 2);
    bool dict = vf_split(vf_bool("dict")), moved = vf_split(vf_bool("moved"));
    ArrowSchema** ch = nc ? new ArrowSchema*[nc] : nullptr;
    for (std::uint64_t i = 0; i < nc; ++i)
    {
        ch[i] = new ArrowSchema(mk_schema());
    }
    ArrowSchema* d = dict ? new ArrowSchema(mk_schema()) : nullptr;
    ArrowSchema a = mk_schema(nc, ch, d, "+s");
    ArrowSchema out{};
    if (moved && nc > 0)
    {
        out = *a.children[nc - 1];
        a.children[nc - 1]->release = nullptr;
    }
    a.release(&a);
    released(a);
    if (out.release != nullptr)
    {
        out.release(&out);
        vf_cover("moved");
    }
    vf_cover("end");
}

// owning handle
HARNESS(proxy_owns_both)
{
    vf_leak_check lc;
    auto len = vf_size("len");
    ArrowArray a = mk_array(len);
    ArrowSchema s = mk_schema();
    {
        arrow_proxy p(std::move(a), std::move(s));
        vf_assert(a.release == nullptr && s.release == nullptr, "ownership is taken");
        vf_assert(p.owns_array() && p.owns_schema(), "owns both");
        vf_cover("end");
    }
}

// structures of a foreign producer: their callbacks count the calls
static std::uint64_t arrays_released, schemas_released;

static void foreign_release_array(ArrowArray* a)
{
    ++arrays_released;
    a->release = nullptr;
}

static void foreign_release_schema(ArrowSchema* s)
{
    ++schemas_released;
    s->release = nullptr;
}

struct foreign
{
    std::int32_t values[4] = {1, 2, 3, 4};
    std::uint8_t bits[1] = {15};
    const void* bufs[2] = {bits, values};
    ArrowArray a{};
    ArrowSchema s{};

    foreign()
    {
        arrays_released = schemas_released = 0;
        a.length = std::int64_t(vf_upto("len", 4));
        a.n_buffers = 2;
        a.buffers = bufs;
        a.release = &foreign_release_array;
        s.format = "i";
        s.release = &foreign_release_schema;
    }

    foreign(const foreign&) = delete;
};

HARNESS(foreign_ownership)
{
    vf_leak_check lc;
    foreign f;
    auto how = vf_pick("how", 0, 2);
    {
        if (how == 0)
        {
            arrow_proxy p(std::move(f.a), std::move(f.s));
            vf_assert(p.owns_array() && p.owns_schema() && arrays_released == 0 && schemas_released == 0, "owns both");
            vf_assert(f.a.release == nullptr && f.s.release == nullptr, "taken");
        }
        else if (how == 1)
        {
            arrow_proxy p(std::move(f.a), &f.s);
            vf_assert(p.owns_array() && !p.owns_schema() && &p.schema() == &f.s, "owns the array only");
            vf_assert(f.a.release == nullptr && f.s.release != nullptr, "taken");
        }
        else
        {
            arrow_proxy p(&f.a, &f.s);
            vf_assert(!p.owns_array() && !p.owns_schema() && &p.schema() == &f.s && &p.array() == &f.a, "owns nothing");
        }
    }
    vf_assert(arrays_released == (how < 2 ? 1u : 0u) && schemas_released == (how == 0 ? 1u : 0u), "released exactly once if owned");
    vf_assert((f.a.release != nullptr) == (how == 2) && (f.s.release != nullptr) == (how > 0), "not owned: untouched");
    vf_cover("end");
}

HARNESS(foreign_view_and_slice_view)
{
    vf_leak_check lc;
    foreign f;
    {
        arrow_proxy p(std::move(f.a), std::move(f.s));
        {
            arrow_proxy v = p.view();
            vf_assert(!v.owns_array() && !v.owns_schema(), "a view owns nothing");
            auto e = vf_upto("e", p.length());
            arrow_proxy w = p.slice_view(vf_upto("b", e), e);
            arrow_proxy x = w.slice_view(0, w.length());
            arrow_proxy y = std::move(x);
        }
        vf_assert(arrays_released == 0 && schemas_released == 0, "views release nothing");
        vf_assert(p.array().release == &foreign_release_array && p.schema().release == &foreign_release_schema, "the owner still owns");
        vf_cover("views");
    }
    vf_assert(arrays_released == 1 && schemas_released == 1, "the owner releases once");
}

HARNESS(foreign_extract)
{
    vf_leak_check lc;
    foreign f;
    auto len = f.a.length;
    auto how = vf_pick("how", 0, 3);
    ArrowArray a{};
    ArrowSchema s{};
    {
        arrow_proxy p = how == 3 ? arrow_proxy(&f.a, &f.s) : arrow_proxy(std::move(f.a), std::move(f.s));
        if (how == 3)
        {
            bool t1 = false, t2 = false;
            try
            {
                a = p.extract_array();
            }
            catch (const std::runtime_error&)
            {
                t1 = true;
            }
            try
            {
                s = p.extract_schema();
            }
            catch (const std::runtime_error&)
            {
                t2 = true;
            }
            vf_assert(t1 && t2 && f.a.release != nullptr && f.s.release != nullptr, "cannot extract what is not owned");
            vf_cover("refused");
            return;
        }
        if (how != 1)
        {
            a = p.extract_array();
            vf_assert(a.length == len && a.release == &foreign_release_array, "extracted array");
        }
        if (how != 0)
        {
            s = p.extract_schema();
            vf_assert(s.release == &foreign_release_schema, "extracted schema");
        }
    }
    vf_assert(arrays_released == (how == 1 ? 1u : 0u) && schemas_released == (how == 0 ? 1u : 0u), "what was extracted is not released by the handle");
    if (a.release)
    {
        a.release(&a);
    }
    if (s.release)
    {
        s.release(&s);
    }
    vf_assert(arrays_released == 1 && schemas_released == 1, "released once in total");
    vf_cover("end");
}

HARNESS(foreign_move_swap)
{
    vf_leak_check lc;
    foreign f;
    auto how = vf_pick("how", 0, 2);
    {
        arrow_proxy p(std::move(f.a), std::move(f.s));
        const ArrowArray was = p.array();
        if (how == 0)
        {
            arrow_proxy q(std::move(p));
            vf_assert(q.owns_array() && q.owns_schema() && q.array().buffers == was.buffers && arrays_released == 0, "moved");
        }
        else if (how == 1)
        {
            arrow_proxy q(mk_array(4), mk_schema());
            q = std::move(p);
            vf_assert(q.array().release == &foreign_release_array && arrays_released == 0, "move assigned");
        }
        else
        {
            arrow_proxy q(mk_array(4), mk_schema());
            q = p;
            vf_assert(q.array().release == &release_arrow_array && q.array().buffers != was.buffers, "copy assigned");
            q = *&q;
            vf_assert(arrays_released == 0 && schemas_released == 0, "copying releases nothing of the source");
            vf_assert(p.array().buffers == was.buffers, "source untouched");
        }
        vf_cover("moved");
    }
    vf_assert(arrays_released == 1 && schemas_released == 1, "released exactly once");
}

// children: owned ones are released and deleted exactly once, borrowed ones never
HARNESS(children_ownership)
{
    vf_leak_check lc;
    foreign f;
    auto len = vf_size("n");
    auto own = vf_pick("own", 0, 1);
    {
        arrow_proxy p(mk_array(len), mk_schema(0, nullptr, nullptr, "+s"));
        if (own)
        {
            p.add_child(std::move(f.a), std::move(f.s));
        }
        else
        {
            p.add_child(&f.a, &f.s);
        }
        vf_assert(p.n_children() == 1 && p.children().size() == 1 && p.array().n_children == 1 && p.schema().n_children == 1, "one child");
        p.add_child(mk_array(len), mk_schema());
        vf_assert(p.n_children() == 2 && p.children()[1].length() == len && arrays_released == 0, "two children");
        auto act = vf_pick("act", 0, 4);
        if (act == 1)
        {
            p.pop_children(1);
            vf_assert(p.n_children() == 1 && p.children().size() == 1 && arrays_released == 0, "popped the last");
        }
        else if (act == 2)
        {
            p.pop_children(2);
            vf_assert(p.n_children() == 0 && arrays_released == own && schemas_released == own, "popped children are released if owned");
        }
        else if (act == 3)
        {
            p.set_child(0, mk_array(len), mk_schema());
            vf_assert(arrays_released == own && schemas_released == own && p.children()[0].length() == len, "a replaced child is released if owned");
        }
        else if (act == 4)
        {
            bool t = false;
            try
            {
                p.pop_children(3);
            }
            catch (const arrow_proxy_exception&)
            {
                t = true;
            }
            vf_assert(t && p.n_children() == 2 && arrays_released == 0, "refuses to pop more than there are");
        }
        vf_cover("act");
    }
    vf_assert(arrays_released == own && schemas_released == own, "released exactly once if owned");
}

HARNESS(dictionary_ownership)
{
    vf_leak_check lc;
    foreign f;
    auto len = vf_size("n");
    bool had = vf_split(vf_bool("had")), again = vf_split(vf_bool("again"));
    {
        ArrowArray* d = had ? new ArrowArray(mk_array(len)) : nullptr;
        ArrowSchema* ds = had ? new ArrowSchema(mk_schema()) : nullptr;
        arrow_proxy p(mk_array(len, 0, nullptr, d), mk_schema(0, nullptr, ds));
        vf_assert(bool(p.dictionary()) == had && (!had || p.dictionary()->length() == len), "dictionary");
        p.set_dictionary(&f.a, &f.s);
        vf_assert(p.dictionary() && &p.dictionary()->array() == &f.a && arrays_released == 0, "replaced");
        if (again)
        {
            ArrowArray a2 = mk_array(len);
            ArrowSchema s2 = mk_schema();
            p.set_dictionary(&a2, &s2);
            vf_assert(arrays_released == 1 && schemas_released == 1 && &p.dictionary()->array() == &a2, "the replaced one is released");
            { arrow_proxy q = std::move(p); }
            vf_assert(a2.release == nullptr && s2.release == nullptr, "released with the owner");
            vf_cover("again");
        }
        vf_cover("set");
    }
    vf_assert(arrays_released == 1 && schemas_released == 1, "released exactly once");
}
