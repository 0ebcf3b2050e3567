// C08: data types, format strings and flags map one to one.
// The reference is the table of the Arrow C data interface, written out here.
#include "vf.h"
#include <sparrow/sparrow.hpp>
#include <sparrow/arrow_interface/arrow_flag_utils.hpp>
#include <sparrow/arrow_interface/arrow_array_schema_info_utils.hpp>
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/utils/bit.hpp>
#include <cstring>
using namespace sparrow;
using DT = data_type;
using u64 = std::uint64_t;

struct row
{
    const char* format;
    DT type;
    unsigned bytes;   // of a fixed-width value (0: not fixed, or bits)
};

// formats without parameters
static const row table[] = {
    {"n", DT::NA, 0}, {"b", DT::BOOL, 0}, {"c", DT::INT8, 1}, {"C", DT::UINT8, 1}, {"s", DT::INT16, 2}, {"S", DT::UINT16, 2},
    {"i", DT::INT32, 4}, {"I", DT::UINT32, 4}, {"l", DT::INT64, 8}, {"L", DT::UINT64, 8}, {"e", DT::HALF_FLOAT, 2},
    {"f", DT::FLOAT, 4}, {"g", DT::DOUBLE, 8}, {"z", DT::BINARY, 0}, {"Z", DT::BINARY, 0}, {"u", DT::STRING, 0}, {"U", DT::STRING, 0},
    {"vz", DT::BINARY_VIEW, 0}, {"vu", DT::STRING_VIEW, 0}, {"+l", DT::LIST, 0}, {"+L", DT::LARGE_LIST, 0}, {"+vl", DT::LIST_VIEW, 0},
    {"+vL", DT::LARGE_LIST_VIEW, 0}, {"+s", DT::STRUCT, 0}, {"+m", DT::MAP, 0}, {"+r", DT::RUN_ENCODED, 0},
    {"tdD", DT::TIMESTAMP, 4}, {"tdm", DT::TIMESTAMP, 8}, {"tts", DT::TIMESTAMP, 4}, {"ttm", DT::TIMESTAMP, 4}, {"ttu", DT::TIMESTAMP, 8},
    {"ttn", DT::TIMESTAMP, 8}, {"tDs", DT::TIMESTAMP, 8}, {"tDm", DT::TIMESTAMP, 8}, {"tDu", DT::TIMESTAMP, 8}, {"tDn", DT::TIMESTAMP, 8},
    {"tiM", DT::TIMESTAMP, 4}, {"tiD", DT::TIMESTAMP, 8}, {"tin", DT::TIMESTAMP, 16}, {"tss:UTC", DT::TIMESTAMP, 8}, {"tsm:", DT::TIMESTAMP, 8},
    {"tsu:Europe/Paris", DT::TIMESTAMP, 8}, {"tsn:", DT::TIMESTAMP, 8},
};
constexpr u64 N = sizeof(table) / sizeof(table[0]);
constexpr u64 last_type = u64(DT::FIXED_WIDTH_BINARY);

// the format written for a type is read back as this type
HARNESS(type_to_format)
{
    auto k = vf_nd("type", 0, last_type);
    auto t = static_cast<DT>(k);
    std::string_view f;
    bool written = true;
    try
    {
        f = data_type_to_format(t);
    }
    catch (const std::runtime_error&)
    {
        written = false;
    }
    bool plain = k <= u64(DT::BINARY) || t == DT::TIMESTAMP || t == DT::LIST || t == DT::LARGE_LIST;
    vf_assert(!plain || written, "types of the plain families have a format");
    if (written)
    {
        vf_assert(format_to_data_type(f) == t, "the format of a type is read as this type");
        vf_assert(f.size() >= 1 && f.data()[f.size()] == 0, "formats are null terminated");
        vf_cover("end");
    }
}

HARNESS(distinct_types)
{
    auto i = static_cast<DT>(vf_nd("i", 0, last_type)), j = static_cast<DT>(vf_nd("j", 0, last_type));
    try
    {
        auto f = data_type_to_format(i), g = data_type_to_format(j);
        vf_assert((f == g) == (i == j), "two types never share a format");
        vf_cover("end");
    }
    catch (const std::runtime_error&)
    {
    }
}

HARNESS(format_to_type)
{
    auto& r = table[vf_pick("format", 0, N - 1)];
    vf_assert(format_to_data_type(r.format) == r.type, "the type of a format");
    vf_assert(data_descriptor(r.format).id() == r.type, "also as a descriptor");
    vf_cover("end");
}

// every format of one character
HARNESS(one_character)
{
    char c[2] = {vf_any<char>("c"), 0};
    DT want = DT::NA;
    for (u64 i = 0; i < N; ++i)
    {
        if (table[i].format[1] == 0)
        {
            want = c[0] == table[i].format[0] ? table[i].type : want;
        }
    }
    vf_assert(format_to_data_type(std::string_view(c, 1)) == want || c[0] == 't', "single characters");
    vf_cover("end");
}

// parametric families: whatever follows the prefix
HARNESS(parametric)
{
    static const row fam[] = {{"+w:", DT::FIXED_SIZED_LIST, 0}, {"w:", DT::FIXED_WIDTH_BINARY, 0}, {"d:", DT::DECIMAL, 0},
                              {"+ud:", DT::DENSE_UNION, 0}, {"+us:", DT::SPARSE_UNION, 0}, {"tss:", DT::TIMESTAMP, 0},
                              {"tsm:", DT::TIMESTAMP, 0}, {"tsu:", DT::TIMESTAMP, 0}, {"tsn:", DT::TIMESTAMP, 0}};
    auto& r = fam[vf_pick("family", 0, 8)];
    auto p = std::strlen(r.format);
    auto n = vf_upto("parameter length", 100000);
    char* f = static_cast<char*>(vf_bytes("format", p + n, 1));
    for (u64 i = 0; i < p; ++i)
    {
        f[i] = r.format[i];
    }
    vf_assert(format_to_data_type(std::string_view(f, p + n)) == r.type, "the family is told by its prefix");
    vf_cover("end");
    ::operator delete(f);
}

HARNESS(kinds)
{
    auto k = vf_nd("type", 0, last_type);
    auto t = static_cast<DT>(k);
    bool integer = k >= u64(DT::UINT8) && k <= u64(DT::INT64);
    vf_assert(data_type_is_integer(t) == integer, "integers");
    vf_assert(data_type_is_primitive(t) == (integer || t == DT::BOOL || t == DT::HALF_FLOAT || t == DT::FLOAT || t == DT::DOUBLE), "primitive types");
    vf_cover("end");
}

HARNESS(bitmaps)
{
    auto& r = table[vf_pick("format", 0, N - 1)];
    if (r.type != DT::MAP)  // maps: see DESIGN.md
    {
        vf_assert(has_bitmap(r.type) == (r.type != DT::NA && r.type != DT::RUN_ENCODED), "layouts with a validity bitmap");
    }
    vf_assert(!has_bitmap(DT::SPARSE_UNION) && !has_bitmap(DT::DENSE_UNION), "unions have none");
    vf_assert(has_bitmap(DT::FIXED_SIZED_LIST) && has_bitmap(DT::DECIMAL) && has_bitmap(DT::FIXED_WIDTH_BINARY), "others have one");
    vf_cover("end");
}

template <class T>
static void native(const char* f)
{
    vf_assert(std::strcmp(data_type_format_of<T>().data(), f) == 0, "the format of a C++ type");
    vf_assert(arrow_traits<T>::type_id == format_to_data_type(f), "the type of a C++ type");
    for (u64 i = 0; i < N; ++i)
    {
        if constexpr (!std::is_same_v<T, std::string> && !std::is_same_v<T, null_type> && !std::is_same_v<T, bool>)
        {
            vf_assert(std::strcmp(table[i].format, f) != 0 || table[i].bytes == sizeof(T), "the width of a C++ type");
        }
    }
}
HARNESS(native_types)  // vf: unroll=100
{
    native<null_type>("n");
    native<bool>("b");
    native<std::int8_t>("c");
    native<std::uint8_t>("C");
    native<std::int16_t>("s");
    native<std::uint16_t>("S");
    native<std::int32_t>("i");
    native<std::uint32_t>("I");
    native<std::int64_t>("l");
    native<std::uint64_t>("L");
    native<float16_t>("e");
    native<float>("f");
    native<double>("g");
    native<std::string>("u");
    vf_assert(arrow_traits<timestamp>::type_id == DT::TIMESTAMP && arrow_traits<list_value>::type_id == DT::LIST && arrow_traits<struct_value>::type_id == DT::STRUCT,
              "nested and temporal types");
    vf_cover("end");
}

// flags
HARNESS(flags_read)  // vf: unroll=70
{
    auto f = vf_any<std::int64_t>("flags");
    bool ok = vf_split((f & ~std::int64_t(7)) == 0);
    bool refused = false;
    std::vector<ArrowFlag> v;
    try
    {
        v = to_vector_of_ArrowFlags(f);
    }
    catch (const std::runtime_error&)
    {
        refused = true;
    }
    vf_assert(refused == !ok, "exactly the unknown flags are refused");
    vf_cover("read");
    if (!refused)
    {
        std::int64_t sum = 0;
        for (u64 i = 0; i < v.size(); ++i)
        {
            auto b = std::int64_t(v[i]);
            vf_assert((b == 1 || b == 2 || b == 4) && (sum & b) == 0, "each flag is listed once");
            sum |= b;
        }
        vf_assert(sum == f, "all of them");
        vf_assert(to_ArrowFlag_value(v) == f, "and convert back");
        vf_cover("end");
    }
}
HARNESS(flags_write)  // vf: unroll=10
{
    auto n = vf_pick("n", 0, 4);
    std::vector<ArrowFlag> v;
    std::int64_t want = 0;
    for (u64 i = 0; i < n; ++i)
    {
        auto b = std::int64_t(1) << vf_nd("flag", 0, 2);
        v.push_back(static_cast<ArrowFlag>(b));
        want |= b;
    }
    vf_assert(to_ArrowFlag_value(v) == want, "the mask is the union of the flags");
    vf_cover("end");
}
HARNESS(flags_known)  // vf: nosum
{
    auto f = vf_any<std::int64_t>("flag");
    vf_assert(is_valid_ArrowFlag_value(f) == (f == 1 || f == 2 || f == 4), "the flags of the specification");
    vf_assert(std::int64_t(ArrowFlag::DICTIONARY_ORDERED) == 1 && std::int64_t(ArrowFlag::NULLABLE) == 2 && std::int64_t(ArrowFlag::MAP_KEYS_SORTED) == 4, "their bits");
    vf_cover("end");
}

// bytes taken by the buffers of each type
HARNESS(widths)
{
    auto& r = table[vf_pick("format", 0, N - 1)];
    if (r.bytes == 0 && r.type != DT::BOOL)
    {
        return;
    }
    auto off = vf_size("off"), len = vf_size("len");
    vf_assume(off + len <= VF_MAX);
    ArrowArray a{};
    ArrowSchema s{};
    std::uint8_t x, y;
    const void* b[2] = {vf_split(vf_bool("no validity")) ? nullptr : &x, &y};
    a.length = std::int64_t(len);
    a.offset = std::int64_t(off);
    a.n_buffers = 2;
    a.buffers = b;
    s.format = r.format;
    auto v = get_arrow_array_buffers(a, s);
    u64 bits = (off + len + 7) / 8;
    vf_assert(v.size() == 2 && v[0].data() == b[0] && v[1].data() == b[1], "validity and values");
    vf_assert(v[0].size() == (b[0] == nullptr ? 0 : bits), "one validity bit per element");
    vf_assert(v[1].size() == (r.bytes == 0 ? bits : (off + len) * r.bytes), "the width of the format per element");
    vf_cover("end");
}

// widths declared by the format: any number of up to 6 digits
HARNESS(declared_width)  // vf: unroll=40
{
    auto digits = vf_pick("digits", 1, 6);
    char f[16] = "w:";
    u64 w = 0;
    for (u64 i = 0; i < digits; ++i)
    {
        auto d = vf_nd("digit", 0, 9);
        f[2 + i] = char('0' + d);
        w = 10 * w + d;
    }
    f[2 + digits] = 0;
    auto len = vf_size("len");
    ArrowArray a{};
    ArrowSchema s{};
    std::uint8_t y;
    const void* b[2] = {nullptr, &y};
    a.length = std::int64_t(len);
    a.n_buffers = 2;
    a.buffers = b;
    s.format = f;
    bool refused = false;
    try
    {
        auto v = get_arrow_array_buffers(a, s);
        vf_assert(v.size() == 2 && v[1].size() == len * w, "the declared number of bytes per element");
        vf_cover("end");
    }
    catch (const std::runtime_error&)
    {
        refused = true;
    }
    vf_assert(refused == (w == 0), "only a width of zero is refused");
}
HARNESS(declared_width_text)  // vf: unroll=40
{
    const char* good[] = {"d:19,10", "d:38,10,32", "d:38,10,64", "d:5,2,128", "d:76,38,256", "d:9,-3"};
    const unsigned want[] = {16, 4, 8, 16, 32, 16};
    const char* bad[] = {"w:", "w:x", "w:1x", "w:-1", "d:38,10,", "d:38,10,33", "d:38,10,x", "d:38,10,-32"};
    auto len = vf_size("len");
    ArrowArray a{};
    ArrowSchema s{};
    std::uint8_t y;
    const void* b[2] = {nullptr, &y};
    a.length = std::int64_t(len);
    a.n_buffers = 2;
    a.buffers = b;
    if (vf_split(vf_bool("good")))
    {
        auto i = vf_pick("format", 0, 5);
        s.format = good[i];
        auto v = get_arrow_array_buffers(a, s);
        vf_assert(v.size() == 2 && v[1].size() == len * want[i], "the declared width of a decimal");
        vf_cover("good");
    }
    else
    {
        s.format = bad[vf_pick("format", 0, 7)];
        bool refused = false;
        try
        {
            get_arrow_array_buffers(a, s);
        }
        catch (const std::runtime_error&)
        {
            refused = true;
        }
        vf_assert(refused, "malformed widths are refused");
        vf_cover("end");
    }
}

// byte order
template <class T>
static void swap_bytes()
{
    auto x = vf_any<T>("x");
    T y = byteswap(x);
    u64 want = 0;
    for (unsigned i = 0; i < sizeof(T); ++i)
    {
        want |= (u64(x) >> (8 * i) & 0xff) << (8 * (sizeof(T) - 1 - i));
    }
    vf_assert(y == T(want), "the bytes in reverse order");
    vf_assert(byteswap(y) == x, "twice is nothing");
    vf_assert(to_native_endian<std::endian::native>(x) == x, "native values are left alone");
    vf_assert(to_native_endian<std::endian::big>(x) == (std::endian::native == std::endian::big ? x : y), "big endian values are swapped");
    vf_cover("end");
}
HARNESS(byteswap_8) { swap_bytes<std::uint8_t>(); }
HARNESS(byteswap_16) { swap_bytes<std::int16_t>(); }
HARNESS(byteswap_32) { swap_bytes<std::uint32_t>(); }
HARNESS(byteswap_64) { swap_bytes<std::int64_t>(); }
