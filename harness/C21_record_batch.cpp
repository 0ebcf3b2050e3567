// C21: a record batch keeps names, columns and rows consistent.
// vf: use=bits
#include "arrays.h"
#include <sparrow/record_batch.hpp>
#include <stdexcept>
using namespace vf;
using u8 = std::uint8_t;
using i32 = std::int32_t;

// names: one arbitrary character, possibly after a long common beginning
static std::string name(const char* nm, bool lengthy)
{
    std::string s = lengthy ? "a name longer than what strings store in themselves " : "";
    s.push_back(char(vf_nd(nm, 1, 127)));
    return s;
}

// up to three columns of the same arbitrary length
struct table
{
    u64 columns, rows;
    std::vector<std::string> names;
    std::optional<fixed_node<i32>> data[3];
    table(u64 least, u64 most, bool lengthy)
        : columns(vf_pick("columns", least, most))
        , rows(vf_size("rows"))
    {
        for (u64 k = 0; k < columns; ++k)
        {
            names.push_back(name("name", lengthy));
            for (u64 j = 0; j < k; ++j) vf_assume(names[j].back() != names[k].back());
            data[k].emplace(range(vf_upto("off", VF_MAX - rows), rows), 2);
        }
    }
    std::vector<array> arrays()
    {
        std::vector<array> v;
        v.reserve(columns);
        for (u64 k = 0; k < columns; ++k) v.push_back(borrow<array>(*data[k]));
        return v;
    }
    record_batch batch() { return record_batch(std::vector<std::string>(names), arrays()); }
    bool element(const array& a, u64 k, u64 i) const { return data[k]->is_erased(a[i], data[k]->off() + i); }
};

// everything a batch answers about these columns
static void answers(const record_batch& b, const table& t)
{
    vf_assert(b.nb_columns() == t.columns, "number of columns");
    vf_assert(b.nb_rows() == (t.columns ? t.rows : 0), "number of rows");
    vf_assert(b.names().size() == t.columns && b.columns().size() == t.columns, "as many names as columns");
    auto i = vf_size("i");
    for (u64 k = 0; k < t.columns; ++k)
    {
        const array& c = b.get_column(k);
        vf_assert(b.get_column_name(k) == t.names[k] && b.names()[k] == t.names[k], "names in their order");
        vf_assert(&b.columns()[k] == &c && c.size() == t.rows, "columns in their order");
        vf_assert(b.contains_column(t.names[k]) && &b.get_column(t.names[k]) == &c, "a column is found by its name");
        if (vf_split(i < t.rows)) vf_assert(t.element(c, k, i), "the elements of the columns");
    }
}
static void unknown(const record_batch& b, const table& t, bool lengthy)
{
    auto q = name("query", lengthy);
    bool known = false, refused = false;
    for (u64 k = 0; k < t.columns; ++k) known = known | (q.back() == t.names[k].back());
    vf_assert(b.contains_column(q) == known, "contains exactly its names");
    try
    {
        const array& a = b.get_column(q);
        for (u64 k = 0; k < t.columns; ++k)
            if (vf_split(q.back() == t.names[k].back())) vf_assert(&a == &b.get_column(k), "the column of that name");
        vf_cover("found");
    }
    catch (const std::out_of_range&)
    {
        refused = true;
        vf_cover("not found");
    }
    vf_assert(refused == !known, "unknown names are refused");
    vf_assert(!b.contains_column(q + "x") && !b.contains_column("x" + q), "other names are not contained");
}

HARNESS(columns)
{
    table t(0, 3, false);
    auto b = t.batch();
    answers(b, t);
    vf_cover("batch");
}
HARNESS(long_names)
{
    table t(1, 2, true);
    auto b = t.batch();
    answers(b, t);
    vf_cover("batch");
}
HARNESS(lookup)
{
    table t(1, 3, false);
    auto b = t.batch();
    unknown(b, t, false);
}
HARNESS(lookup_long)
{
    table t(1, 2, true);
    auto b = t.batch();
    unknown(b, t, true);
}
HARNESS(pairs)
{
    table t(2, 2, false);
    record_batch b({{t.names[0], borrow<array>(*t.data[0])}, {t.names[1], borrow<array>(*t.data[1])}});
    answers(b, t);
    vf_cover("batch");
}
HARNESS(nothing)
{
    record_batch b{std::vector<std::string>(), std::vector<array>()};
    vf_assert(b.nb_columns() == 0 && b.nb_rows() == 0 && !b.contains_column("a") && !b.contains_column(""), "no columns, no rows");
    bool refused = false;
    try
    {
        b.get_column("a");
    }
    catch (const std::out_of_range&)
    {
        refused = true;
    }
    vf_assert(refused, "refused");
    vf_cover("nothing");
}
// the ranges given stay as they are, unless they are given away
HARNESS(given_ranges)
{
    table t(1, 2, true);
    const auto names = t.names;
    auto columns = t.arrays();
    record_batch b(t.names, columns);
    for (u64 k = 0; k < t.columns; ++k)
    {
        vf_assert(t.names[k] == names[k], "the names given stay as they are");
        vf_assert(columns[k].size() == t.rows && &columns[k] != &b.get_column(k), "the columns given too");
    }
    answers(b, t);
    vf_cover("batch");
}

// --- copies
HARNESS(copies)
{
    table t(1, 2, false);
    std::optional<record_batch> a(t.batch());
    record_batch c(*a);
    for (u64 k = 0; k < t.columns; ++k) vf_assert(&c.get_column(k) != &a->get_column(k), "columns of their own");
    answers(*a, t);
    a.reset();
    answers(c, t);
    vf_cover("copied");
}
HARNESS(assigned)
{
    table t(1, 2, false), u(0, 2, false);
    std::optional<record_batch> a(t.batch());
    record_batch c = u.batch();
    c = *a;
    a.reset();
    answers(c, t);
    unknown(c, t, false);
}
HARNESS(self_assigned)
{
    table t(1, 2, false);
    record_batch a = t.batch();
    const record_batch& r = a;
    a = r;
    answers(a, t);
    vf_cover("assigned");
}
HARNESS(moved)
{
    table t(1, 2, false);
    std::optional<record_batch> a(t.batch());
    record_batch c(std::move(*a));
    a.reset();
    answers(c, t);
    vf_cover("moved");
}
HARNESS(move_assigned)
{
    table t(1, 2, false), u(0, 2, false);
    std::optional<record_batch> a(t.batch());
    record_batch c = u.batch();
    c = std::move(*a);
    a.reset();
    answers(c, t);
    unknown(c, t, false);
}
HARNESS(assigned_later)
{
    // a batch copied to is then independent
    table t(1, 2, false), u(1, 2, false);
    record_batch a = t.batch(), c(a);
    a = u.batch();
    answers(c, t);
    answers(a, u);
    vf_cover("independent");
}

// --- equality
HARNESS(equality)
{
    const u64 n = vf_pick("n", 0, 2), m = vf_pick("m", 0, 2), rows = vf_pick("rows", 0, 2), others = vf_pick("others", 0, 2);
    std::vector<std::string> x, y;
    std::optional<fixed_node<i32>> p[2], q[2];
    std::vector<array> v, w;
    for (u64 k = 0; k < n; ++k)
    {
        x.push_back(name("x", false));
        p[k].emplace(range(0, rows), 2);
        v.push_back(borrow<array>(*p[k]));
    }
    for (u64 k = 0; k < m; ++k)
    {
        y.push_back(name("y", false));
        q[k].emplace(range(0, others), 2);
        w.push_back(borrow<array>(*q[k]));
    }
    if (n == 2) vf_assume(x[0].back() != x[1].back());
    if (m == 2) vf_assume(y[0].back() != y[1].back());
    bool same = n == m && (n == 0 || rows == others);
    if (same)
        for (u64 k = 0; k < n; ++k)
        {
            same = same & (x[k].back() == y[k].back());
            for (u64 i = 0; i < rows; ++i) same = same & (p[k]->data[i] == q[k]->data[i]);
        }
    record_batch a(std::move(x), std::move(v)), b(std::move(y), std::move(w));
    vf_assert((a == b) == same && (b == a) == same && (a != b) == !same, "equal exactly when names and columns are");
    vf_assert(a == a && b == b, "reflexive");
    vf_cover("compared");
}

// --- what is not consistent is refused
HARNESS(refuses_lengths)
{
    fixed_node<i32> a({}, 2), b({}, 2), c({a.off(), a.len()}, 2);
    vf_assume(a.len() != b.len());
    std::vector<array> v;
    const auto at = vf_pick("at", 0, 2), n = vf_pick("n", 2, 3);
    vf_assume(at < n);
    for (u64 k = 0; k < n; ++k) v.push_back(k == at ? borrow<array>(b) : borrow<array>(a));
    std::vector<std::string> names{"a", "b", "c"};
    names.resize(n);
    vf_refusing("columns of different lengths");
    record_batch r(std::move(names), std::move(v));
    vf_assert(false, "columns of different lengths are refused");
}
HARNESS(refuses_names)
{
    fixed_node<i32> a({}, 2);
    const auto n = vf_pick("n", 2, 3), j = vf_pick("j", 0, 2), k = vf_pick("k", 0, 2);
    vf_assume(j < k && k < n);
    std::vector<array> v;
    std::vector<std::string> names;
    for (u64 i = 0; i < n; ++i) v.push_back(borrow<array>(a)), names.push_back(name("name", false));
    names[k] = names[j];
    vf_refusing("twice the same name");
    record_batch r(std::move(names), std::move(v));
    vf_assert(false, "two columns of the same name are refused");
}
HARNESS(refuses_counts)
{
    fixed_node<i32> a({}, 2);
    const auto n = vf_pick("n", 0, 2), m = vf_pick("m", 0, 2);
    vf_assume(n != m);
    std::vector<array> v;
    std::vector<std::string> names;
    for (u64 i = 0; i < n; ++i) v.push_back(borrow<array>(a));
    for (u64 i = 0; i < m; ++i) names.push_back(i ? "b" : "a");
    vf_refusing("names and columns of different numbers");
    record_batch r(std::move(names), std::move(v));
    vf_assert(false, "as many names as columns, or refused");
}
HARNESS(refuses_positions)
{
    table t(0, 2, false);
    auto b = t.batch();
    auto i = vf_size("i");
    vf_assume(i >= t.columns);
    vf_refusing("outside");
    if (vf_split(vf_bool("name")))
        (void) b.get_column_name(i);
    else
        (void) b.get_column(i);
    vf_assert(false, "positions outside are refused");
}
