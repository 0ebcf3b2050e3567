// C24: a null array has the stated length and only missing elements.
#include "arrays.h"
#include <algorithm>
using namespace vf;

// no buffers: every length and offset of the C data interface
static range any_range()
{
    auto off = vf_nd("off", 0, (u64(1) << 62)), len = vf_nd("len", 0, (u64(1) << 62));
    return range(off, len);
}

template <class A>
static void read(unsigned r)
{
    null_node n(any_range());
    n.slack = 0;
    reading<A>(n, [&](const auto& e, u64 p)
               {
                   if constexpr (std::is_same_v<A, array>) return n.is_erased(e, p);
                   else return n.is(e, p);
               }, r);
}
HARNESS(index) { read<null_array>(by_index); }
HARNESS(iterator) { read<null_array>(by_iterator); }
HARNESS(steps) { read<null_array>(by_steps); }
HARNESS(erased_index) { read<array>(by_index); }
HARNESS(erased_at) { read<array>(by_at); }
HARNESS(erased_ends) { read<array>(by_ends); }

// values and validities; mutable access; iteration at every position
HARNESS(ranges)
{
    null_node n(any_range());
    n.slack = 0;
    const auto len = n.len();
    {
        auto a = borrow<null_array>(n);
        const auto& c = a;
        auto v = c.values();
        auto b = c.bitmap();
        vf_assert(u64(v.size()) == len && u64(b.size()) == len, "as many validities and values as elements");
        vf_assert(u64(a.end() - a.begin()) == len && u64(c.end() - c.begin()) == len, "begin to end visits exactly the size");
        auto i = vf_nd("i", 0, u64(1) << 62);
        if (vf_split(i < len))
        {
            vf_assert(!*(b.begin() + std::ptrdiff_t(i)), "no element is valid");
            vf_assert(!a[i].has_value() && !c[i].has_value() && !(*(a.begin() + std::ptrdiff_t(i))).has_value(), "every element is missing");
            vf_assert(a[i] == nullval && c[i] == nullval, "and equals nothing");
            vf_cover("element");
        }
    }
}

// visiting one by one, from either end
HARNESS(walk)
{
    auto len = vf_pick("len", 0, 5);
    null_node n(range(vf_nd("off", 0, u64(1) << 62), len));
    n.slack = 0;
    auto a = borrow<null_array>(n);
    u64 seen = 0;
    for (auto e : std::as_const(a))
    {
        vf_assert(!e.has_value(), "only missing elements");
        ++seen;
    }
    vf_assert(seen == len, "visits as many elements as the length");
    auto it = a.end();
    for (u64 k = 0; k < len; ++k)
    {
        --it;
        vf_assert(!it->has_value() && it - a.begin() == std::ptrdiff_t(len - 1 - k), "backward");
    }
    vf_assert(it == a.begin(), "back at the begin");
    vf_cover("end");
}

// equal exactly to the null arrays of the same length
HARNESS(equality)
{
    null_node n(any_range()), m(any_range());
    n.slack = m.slack = 0;
    {
        auto a = borrow<null_array>(n), b = borrow<null_array>(m);
        vf_assert((a == b) == (n.len() == m.len()), "equal exactly when the lengths are");
        vf_assert((a != b) == (n.len() != m.len()), "and different otherwise");
        vf_assert(a == a, "reflexive");
        vf_cover("typed");
        auto x = borrow<array>(n), y = borrow<array>(m);
        vf_assert((x == y) == (n.len() == m.len()), "also type-erased");
        vf_assert(x.data_type() == data_type::NA && x.size() == n.len() && x.empty() == (n.len() == 0), "type and size");
        vf_cover("erased");
    }
    vf_assert(n.a_released == 0 && m.a_released == 0, "comparing does not release");
}

// copies, moves, ownership
HARNESS(copies)
{
    vf_leak_check lc;
    auto len = vf_nd("len", 0, u64(1) << 62);
    {
        auto a = make_arrow_array(std::int64_t(len), std::int64_t(len), 0, std::vector<buffer<std::uint8_t>>(), 0, nullptr, nullptr);
        auto s = make_arrow_schema(std::string("n"), std::optional<std::string>(), std::optional<std::string>(), std::optional<ArrowFlag>(), 0, nullptr, nullptr);
        null_array x(arrow_proxy(std::move(a), std::move(s)));
        null_array y(x);
        vf_assert(x == y && y.size() == len, "a copy is equal");
        null_array z(std::move(x));
        vf_assert(z.size() == len, "a moved array keeps its length");
        z = std::as_const(y);
        vf_assert(z.size() == len && z == y, "assigned");
        auto [za, zs] = get_arrow_structures(z);
        vf_assert(za->null_count == std::int64_t(len) && za->n_buffers == 0, "all missing, no buffers");
        vf_cover("end");
    }
}

