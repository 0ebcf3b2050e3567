#include "expr.hpp"

#include <algorithm>
#include <cassert>
#include <deque>
#include <map>

namespace vf
{
    std::vector<std::string> symNames;
    static std::unordered_map<std::string, u32> symIds;
    std::vector<SumDef> sumDefs;
    static std::unordered_map<E, u32> sumIds;

    u32 symId(const std::string& s)
    {
        auto it = symIds.find(s);
        if (it != symIds.end())
        {
            return it->second;
        }
        u32 id = symNames.size();
        symNames.push_back(s);
        symIds[s] = id;
        return id;
    }

    static std::deque<Expr> arena;

    size_t exprCount()
    {
        return arena.size();
    }

    struct KeyHash
    {
        size_t operator()(const Expr* e) const
        {
            size_t h = size_t(e->k) * 1000003u + e->w * 7919u + e->aux * 104729u;
            h ^= size_t(e->c) * 0x9E3779B97F4A7C15ull + size_t(e->c >> 64) * 0xC2B2AE3D27D4EB4Full;
            for (auto x : e->a)
            {
                h = (h ^ x->id) * 0x100000001B3ull;
            }
            for (auto x : e->coef)
            {
                h = (h ^ size_t(x) ^ size_t(x >> 64)) * 0x100000001B3ull;
            }
            return h ^ (h >> 29);
        }
    };

    struct KeyEq
    {
        bool operator()(const Expr* x, const Expr* y) const
        {
            return x->k == y->k && x->w == y->w && x->aux == y->aux && x->c == y->c && x->a == y->a
                   && x->coef == y->coef;
        }
    };

    static std::unordered_set<const Expr*, KeyHash, KeyEq> table;
    static std::unordered_map<u64, E> smallConst;

    static E intern(Expr&& e)
    {
        auto it = table.find(&e);
        if (it != table.end())
        {
            return *it;
        }
        e.id = arena.size() + 1;
        u32 h = 0;
        for (auto x : e.a)
        {
            h = std::max(h, x->height + 1);
        }
        e.height = h;
        arena.push_back(std::move(e));
        E p = &arena.back();
        table.insert(p);
        return p;
    }

    static Expr proto(K k, unsigned w)
    {
        Expr e;
        e.k = k;
        e.w = w;
        e.lo = 0;
        e.hi = mask(w);
        return e;
    }

    E mkConst(u128 v, unsigned w)
    {
        v &= mask(w);
        u64 key = 0;
        bool fast = w <= 64 && v < (u128(1) << 56);
        if (fast)
        {
            key = (u64(v) << 7) | (w - 1);
            auto it = smallConst.find(key);
            if (it != smallConst.end())
            {
                return it->second;
            }
        }
        Expr e = proto(K::Const, w);
        e.c = v;
        e.lo = e.hi = v;
        E r = intern(std::move(e));
        if (fast)
        {
            smallConst[key] = r;
        }
        return r;
    }

    E mkVar(const std::string& name, unsigned w, u128 lo, u128 hi)
    {
        Expr e = proto(K::Var, w);
        e.aux = symId(name);
        e.lo = std::min(lo, mask(w));
        e.hi = std::min(hi, mask(w));
        return intern(std::move(e));
    }

    E mkUFs(u32 sym, unsigned w, const std::vector<E>& args)
    {
        Expr e = proto(K::UF, w);
        e.aux = sym;
        e.a = args;
        return intern(std::move(e));
    }

    E mkUF(const std::string& name, unsigned w, const std::vector<E>& args)
    {
        return mkUFs(symId(name), w, args);
    }

    // ---- linear forms
    struct LinB
    {
        unsigned w;
        u128 c = 0;
        std::vector<std::pair<E, u128>> t;

        void add(E e, u128 m)
        {
            if (e->k == K::Const)
            {
                c = (c + e->c * m) & mask(w);
            }
            else if (e->k == K::Lin)
            {
                c = (c + e->c * m) & mask(w);
                for (size_t i = 0; i < e->a.size(); ++i)
                {
                    addTerm(e->a[i], e->coef[i] * m);
                }
            }
            else
            {
                addTerm(e, m);
            }
        }

        void addTerm(E e, u128 m)
        {
            for (auto& p : t)
            {
                if (p.first == e)
                {
                    p.second = (p.second + m) & mask(w);
                    return;
                }
            }
            t.emplace_back(e, m & mask(w));
        }
    };

    static i128 sgn(u128 v, unsigned w)
    {
        if (w >= 128)
        {
            return i128(v);
        }
        if (v >> (w - 1) & 1)
        {
            return i128(v) - (i128(1) << w);
        }
        return i128(v);
    }

    static IntRange rangeOf(unsigned w, u128 c, const std::vector<E>& a, const std::vector<u128>& coef)
    {
        if (w > 64)
        {
            return {false, 0, 0};
        }
        i128 lo = sgn(c, w), hi = lo;
        for (size_t i = 0; i < a.size(); ++i)
        {
            i128 m = sgn(coef[i], w);
            i128 x, y;
            if (__builtin_mul_overflow(m, i128(a[i]->lo), &x) || __builtin_mul_overflow(m, i128(a[i]->hi), &y))
            {
                return {false, 0, 0};
            }
            if (x > y)
            {
                std::swap(x, y);
            }
            if (__builtin_add_overflow(lo, x, &lo) || __builtin_add_overflow(hi, y, &hi))
            {
                return {false, 0, 0};
            }
        }
        return {true, lo, hi};
    }

    IntRange linRange(E e)
    {
        if (e->k == K::Lin)
        {
            return rangeOf(e->w, e->c, e->a, e->coef);
        }
        if (e->w > 64)
        {
            return {false, 0, 0};
        }
        if (e->k == K::Const)
        {
            i128 s = i128(e->c);
            return {true, s, s};
        }
        return {true, i128(e->lo), i128(e->hi)};
    }

    // (A >> k) + ((B + A % 2^k) >> k) = (A + B) >> k: positions of bits moved in steps
    static bool joinShifts(LinB& b)
    {
        for (size_t j = 0; j < b.t.size(); ++j)
        {
            E s = b.t[j].first;
            if (s->k != K::LShr || !isC(s->a[1]) || s->a[0]->k != K::Lin)
            {
                continue;
            }
            u128 k = s->a[1]->c;
            E l = s->a[0];
            for (size_t x = 0; x < l->a.size(); ++x)
            {
                if (l->coef[x] != 1)
                {
                    continue;
                }
                for (size_t i = 0; i < b.t.size(); ++i)
                {
                    E f = b.t[i].first;
                    if (i == j || b.t[i].second != b.t[j].second || f->k != K::LShr || !isC(f->a[1]) || f->a[1]->c != k)
                    {
                        continue;
                    }
                    E A = f->a[0];
                    if (l->a[x] != mkZExt(mkExtract(A, 0, unsigned(k)), b.w))
                    {
                        continue;
                    }
                    E sum = mkAdd(mkSub(l, l->a[x]), A);
                    IntRange r = linRange(mkSub(l, l->a[x]));
                    i128 hi;
                    if (!r.ok || r.lo < 0 || A->hi > mask(63) || __builtin_add_overflow(r.hi, i128(A->hi), &hi) || u128(hi) > mask(b.w))
                    {
                        continue;
                    }
                    u128 m = b.t[i].second;
                    b.t.erase(b.t.begin() + std::max(i, j));
                    b.t.erase(b.t.begin() + std::min(i, j));
                    b.add(mkLShr(sum, mkConst(k, b.w)), m);
                    return true;
                }
            }
        }
        return false;
    }

    static E finish(LinB& b)
    {
        b.t.erase(
            std::remove_if(
                b.t.begin(),
                b.t.end(),
                [](auto& p)
                {
                    return p.second == 0;
                }
            ),
            b.t.end()
        );
        if (b.t.empty())
        {
            return mkConst(b.c, b.w);
        }
        if (b.c == 0 && b.t.size() == 1 && b.t[0].second == 1)
        {
            return b.t[0].first;
        }
        if (b.t.size() >= 2 && joinShifts(b))
        {
            return finish(b);
        }
        std::sort(
            b.t.begin(),
            b.t.end(),
            [](auto& x, auto& y)
            {
                return x.first->id < y.first->id;
            }
        );
        Expr e = proto(K::Lin, b.w);
        e.c = b.c;
        for (auto& p : b.t)
        {
            e.a.push_back(p.first);
            e.coef.push_back(p.second);
        }
        IntRange r = rangeOf(e.w, e.c, e.a, e.coef);
        if (r.ok && r.lo >= 0 && u128(r.hi) <= mask(e.w))
        {
            e.lo = u128(r.lo);
            e.hi = u128(r.hi);
        }
        return intern(std::move(e));
    }

    E mkAdd(E a, E b)
    {
        assert(a->w == b->w);
        if (a->w == 1)
        {
            return mkXor(a, b);
        }
        if (isC(a) && isC(b))
        {
            return mkConst(a->c + b->c, a->w);
        }
        if (isFalse(b) || (isC(b) && b->c == 0))
        {
            return a;
        }
        if (isC(a) && a->c == 0)
        {
            return b;
        }
        LinB l{a->w};
        l.add(a, 1);
        l.add(b, 1);
        return finish(l);
    }

    E mkSub(E a, E b)
    {
        assert(a->w == b->w);
        if (a->w == 1)
        {
            return mkXor(a, b);
        }
        if (isC(a) && isC(b))
        {
            return mkConst(a->c - b->c, a->w);
        }
        if (a == b)
        {
            return mkConst(0, a->w);
        }
        LinB l{a->w};
        l.add(a, 1);
        l.add(b, mask(a->w));
        return finish(l);
    }

    E mkMulC(E a, u128 c)
    {
        c &= mask(a->w);
        if (a->w == 1)
        {
            return c ? a : mkConst(0, 1);
        }
        if (isC(a))
        {
            return mkConst(a->c * c, a->w);
        }
        if (c == 0)
        {
            return mkConst(0, a->w);
        }
        if (c == 1)
        {
            return a;
        }
        LinB l{a->w};
        l.add(a, c);
        return finish(l);
    }

    static E bin(K k, E a, E b)
    {
        Expr e = proto(k, a->w);
        e.a = {a, b};
        return intern(std::move(e));
    }

    E mkMul(E a, E b)
    {
        if (isC(b))
        {
            return mkMulC(a, b->c);
        }
        if (isC(a))
        {
            return mkMulC(b, a->c);
        }
        if (a->w == 1)
        {
            return mkAnd(a, b);
        }
        if (a->id > b->id)
        {
            std::swap(a, b);
        }
        Expr e = proto(K::Mul, a->w);
        e.a = {a, b};
        if (a->hi <= mask(60) && b->hi <= mask(60) && a->hi * b->hi <= mask(a->w))
        {
            e.lo = a->lo * b->lo;
            e.hi = a->hi * b->hi;
        }
        return intern(std::move(e));
    }

    unsigned knownZeros(E e)
    {
        auto ctz = [](u128 v, unsigned w) -> unsigned
        {
            if (v == 0)
            {
                return w;
            }
            unsigned n = 0;
            while (!(v & 1))
            {
                v >>= 1;
                ++n;
            }
            return n;
        };
        switch (e->k)
        {
            case K::Const:
                return ctz(e->c, e->w);
            case K::Lin:
            {
                unsigned r = ctz(e->c, e->w);
                for (size_t i = 0; i < e->a.size(); ++i)
                {
                    r = std::min<unsigned>(r, std::min<unsigned>(e->w, ctz(e->coef[i], e->w) + knownZeros(e->a[i])));
                }
                return r;
            }
            case K::ZExt:
            {
                unsigned r = knownZeros(e->a[0]);
                return r == e->a[0]->w ? e->w : r;
            }
            case K::Ite:
                return e->height > 30 ? 0 : std::min(knownZeros(e->a[1]), knownZeros(e->a[2]));
            case K::Concat:
            {
                unsigned r = knownZeros(e->a[1]);
                return r == e->a[1]->w ? r + knownZeros(e->a[0]) : r;
            }
            default:
                return 0;
        }
    }

    bool multipleOf(E e, u128 m)
    {
        if (m == 1)
        {
            return true;
        }
        if ((m & (m - 1)) == 0)
        {
            unsigned s = 0;
            while ((u128(1) << s) < m)
            {
                ++s;
            }
            return knownZeros(e) >= s;
        }
        // only meaningful when there is no wrap-around
        IntRange r = linRange(e);
        if (!r.ok)
        {
            return false;
        }
        if (e->k == K::Const)
        {
            return sgn(e->c, e->w) % i128(m) == 0;
        }
        if (e->k == K::Lin)
        {
            if (r.hi >= (i128(1) << (e->w - 1)) || r.lo < -(i128(1) << (e->w - 1)))
            {
                return false;
            }
            if (sgn(e->c, e->w) % i128(m) != 0)
            {
                return false;
            }
            for (size_t i = 0; i < e->a.size(); ++i)
            {
                if (sgn(e->coef[i], e->w) % i128(m) != 0)
                {
                    return false;
                }
            }
            return true;
        }
        return false;
    }

    // floor division of an exact non-negative integer linear form by d; nullptr when it does not apply
    static E divSplit(E e, u128 d)
    {
        if (e->w > 64 || e->k != K::Lin || d >= (u128(1) << (e->w - 2)))
        {
            return nullptr;
        }
        IntRange r = linRange(e);
        if (!r.ok || r.lo < 0 || u128(r.hi) > mask(e->w))
        {
            return nullptr;
        }
        LinB q{e->w}, rest{e->w};
        i128 D = i128(d);
        i128 c = sgn(e->c, e->w);
        i128 qc = c >= 0 ? c / D : -((-c + D - 1) / D);
        i128 rc = c - qc * D;
        q.c = u128(qc) & mask(e->w);
        rest.c = u128(rc) & mask(e->w);
        bool any = qc != 0;
        for (size_t i = 0; i < e->a.size(); ++i)
        {
            i128 m = sgn(e->coef[i], e->w);
            if (m % D == 0)
            {
                q.add(e->a[i], u128(m / D));
                any = true;
            }
            else
            {
                rest.add(e->a[i], u128(m));
            }
        }
        if (!any)
        {
            return nullptr;
        }
        E R = finish(rest);
        IntRange rr = linRange(R);
        if (!rr.ok || rr.lo < 0 || u128(rr.hi) > mask(e->w))
        {
            return nullptr;
        }
        E Q = finish(q);
        if (u128(rr.hi) < d)
        {
            return Q;
        }
        E dr = (d & (d - 1)) == 0 ? nullptr : mkUDiv(R, mkConst(d, e->w));
        if (!dr)
        {
            unsigned s = 0;
            while ((u128(1) << s) < d)
            {
                ++s;
            }
            dr = mkLShr(R, mkConst(s, e->w));
        }
        return mkAdd(Q, dr);
    }

    // exact division of a signed exact integer form
    E divExact(E e, u128 d)
    {
        if (e->k == K::Const)
        {
            i128 v = sgn(e->c, e->w);
            return v % i128(d) == 0 ? mkConst(u128(v / i128(d)) & mask(e->w), e->w) : nullptr;
        }
        if (e->w > 64 || e->k != K::Lin || d >= (u128(1) << (e->w - 2)))
        {
            return nullptr;
        }
        IntRange r = linRange(e);
        if (!r.ok || r.lo < -(i128(1) << (e->w - 1)) || r.hi >= (i128(1) << (e->w - 1)))
        {
            return nullptr;
        }
        i128 D = i128(d);
        i128 c = sgn(e->c, e->w);
        if (c % D)
        {
            return nullptr;
        }
        LinB q{e->w};
        q.c = u128(c / D) & mask(e->w);
        for (size_t i = 0; i < e->a.size(); ++i)
        {
            i128 m = sgn(e->coef[i], e->w);
            if (m % D)
            {
                return nullptr;
            }
            q.add(e->a[i], u128(m / D));
        }
        return finish(q);
    }

    E mkUDiv(E a, E b)
    {
        if (isC(b) && b->c != 0)
        {
            if (isC(a))
            {
                return mkConst(a->c / b->c, a->w);
            }
            if (b->c == 1)
            {
                return a;
            }
            if ((b->c & (b->c - 1)) == 0)
            {
                unsigned s = 0;
                while ((u128(1) << s) < b->c)
                {
                    ++s;
                }
                return mkLShr(a, mkConst(s, a->w));
            }
            if (a->hi < b->c)
            {
                return mkConst(0, a->w);
            }
            if (E q = divSplit(a, b->c))
            {
                return q;
            }
        }
        Expr e = proto(K::UDiv, a->w);
        e.a = {a, b};
        if (isC(b) && b->c != 0)
        {
            e.lo = a->lo / b->c;
            e.hi = a->hi / b->c;
        }
        return intern(std::move(e));
    }

    E mkURem(E a, E b)
    {
        if (isC(b) && b->c != 0)
        {
            if (isC(a))
            {
                return mkConst(a->c % b->c, a->w);
            }
            if ((b->c & (b->c - 1)) == 0)
            {
                return mkAnd(a, mkConst(b->c - 1, a->w));
            }
            if (a->hi < b->c)
            {
                return a;
            }
            IntRange ar = linRange(a);
            if (ar.ok && ar.lo >= 0 && u128(ar.hi) <= mask(a->w) && multipleOf(a, b->c))
            {
                return mkConst(0, a->w);
            }
        }
        Expr e = proto(K::URem, a->w);
        e.a = {a, b};
        if (isC(b) && b->c != 0)
        {
            e.hi = b->c - 1;
        }
        return intern(std::move(e));
    }

    static bool nonneg(E a)
    {
        return a->hi < (u128(1) << (a->w - 1));
    }

    E mkSDiv(E a, E b)
    {
        if (isC(a) && isC(b) && b->c != 0)
        {
            return mkConst(u128(sgn(a->c, a->w) / sgn(b->c, b->w)), a->w);
        }
        if (isC(b) && b->c != 0 && nonneg(b))
        {
            if (b->c == 1)
            {
                return a;
            }
            if (E q = divExact(a, b->c))
            {
                return q;
            }
            if (nonneg(a))
            {
                return mkUDiv(a, b);
            }
        }
        if (nonneg(a) && nonneg(b))
        {
            return mkUDiv(a, b);
        }
        return bin(K::SDiv, a, b);
    }

    E mkSRem(E a, E b)
    {
        if (isC(a) && isC(b) && b->c != 0)
        {
            return mkConst(u128(sgn(a->c, a->w) % sgn(b->c, b->w)), a->w);
        }
        if (nonneg(a) && nonneg(b))
        {
            return mkURem(a, b);
        }
        return bin(K::SRem, a, b);
    }

    E mkShl(E a, E b)
    {
        if (isC(b))
        {
            if (b->c >= a->w)
            {
                return mkConst(0, a->w);
            }
            return mkMulC(a, u128(1) << unsigned(b->c));
        }
        if (isC(a) && a->c == 0)
        {
            return a;
        }
        return bin(K::Shl, a, b);
    }

    E mkLShr(E a, E b)
    {
        if (isC(b))
        {
            if (b->c >= a->w)
            {
                return mkConst(0, a->w);
            }
            unsigned s = unsigned(b->c);
            if (s == 0)
            {
                return a;
            }
            if (isC(a))
            {
                return mkConst(a->c >> s, a->w);
            }
            if ((a->hi >> s) == 0)
            {
                return mkConst(0, a->w);
            }
            if (a->k == K::Lin)
            {
                if (E q = divSplit(a, u128(1) << s))
                {
                    return q;
                }
                Expr e = proto(K::LShr, a->w);
                e.a = {a, b};
                e.lo = a->lo >> s;
                e.hi = a->hi >> s;
                return intern(std::move(e));
            }
            if (a->k == K::LShr && isC(a->a[1]))
            {
                return mkLShr(a->a[0], mkConst(a->a[1]->c + s, a->w));
            }
            if (a->k == K::Ite && (isC(a->a[1]) || isC(a->a[2])))
            {
                return mkIte(a->a[0], mkLShr(a->a[1], b), mkLShr(a->a[2], b));
            }
            return mkZExt(mkExtract(a, s, a->w - s), a->w);
        }
        if (isC(a) && a->c == 0)
        {
            return a;
        }
        Expr e = proto(K::LShr, a->w);
        e.a = {a, b};
        e.hi = a->hi;
        return intern(std::move(e));
    }

    E mkAShr(E a, E b)
    {
        if (isC(b) && isC(a))
        {
            unsigned s = b->c >= a->w ? a->w - 1 : unsigned(b->c);
            return mkConst(u128(sgn(a->c, a->w) >> s), a->w);
        }
        if (nonneg(a))
        {
            if (isC(b) && b->c >= a->w)
            {
                return mkConst(0, a->w);
            }
            return mkLShr(a, b);
        }
        if (isC(b))
        {
            if (b->c == 0)
            {
                return a;
            }
            if (b->c < a->w)
            {
                if (E q = divExact(a, u128(1) << unsigned(b->c)))
                {
                    return q;
                }
            }
        }
        return bin(K::AShr, a, b);
    }

    static bool isNotOf(E a, E b)
    {
        return a->w == 1
               && ((a->k == K::Xor && a->a[0] == b && isTrue(a->a[1]))
                   || (b->k == K::Xor && b->a[0] == a && isTrue(b->a[1])));
    }

    E mkAnd(E a, E b)
    {
        assert(a->w == b->w);
        if (a == b)
        {
            return a;
        }
        if (isC(a))
        {
            std::swap(a, b);
        }
        for (int t = 0; t < 2; ++t, std::swap(a, b))
        {
            // a single bit of a narrower term
            if (a->k == K::ZExt && b->k == K::Shl && isC(b->a[0]) && b->a[0]->c == 1 && b->a[1]->hi < a->a[0]->w)
            {
                return mkZExt(mkAnd(a->a[0], mkExtract(b, 0, a->a[0]->w)), a->w);
            }
        }
        unsigned w = a->w;
        if (isC(b))
        {
            if (isC(a))
            {
                return mkConst(a->c & b->c, w);
            }
            if (b->c == 0)
            {
                return b;
            }
            if (b->c == mask(w))
            {
                return a;
            }
            if (a->k == K::And && isC(a->a[1]))
            {
                return mkAnd(a->a[0], mkConst(a->a[1]->c & b->c, w));
            }
            unsigned l = 0;
            while (!((b->c >> l) & 1))
            {
                ++l;
            }
            unsigned h = l;
            while (h < w && ((b->c >> h) & 1))
            {
                ++h;
            }
            if ((b->c >> (h < w ? h : 0)) == 0 || h == w)
            {
                if (l == 0)
                {
                    if (a->hi <= b->c)
                    {
                        return a;
                    }
                    return mkZExt(mkExtract(a, 0, h), w);
                }
                if (h == w)
                {
                    return mkSub(a, mkAnd(a, mkConst(mask(l), w)));
                }
                return mkMulC(mkZExt(mkExtract(a, l, h - l), w), u128(1) << l);
            }
            if (a->k == K::Ite && isC(a->a[1]) && isC(a->a[2]))
            {
                return mkIte(a->a[0], mkAnd(a->a[1], b), mkAnd(a->a[2], b));
            }
        }
        else if (w == 1)
        {
            if (isNotOf(a, b))
            {
                return mkConst(0, 1);
            }
            if (a->k == K::And && (a->a[0] == b || a->a[1] == b))
            {
                return a;
            }
            if (b->k == K::And && (b->a[0] == a || b->a[1] == a))
            {
                return b;
            }
            for (int i = 0; i < 2; ++i)
            {
                if (b->k == K::Or)
                {
                    for (int j = 0; j < 2; ++j)
                    {
                        if (b->a[j] == a)
                        {
                            return a;
                        }
                        if (isNotOf(b->a[j], a))
                        {
                            return mkAnd(a, b->a[1 - j]);
                        }
                    }
                }
                std::swap(a, b);
            }
        }
        if (!isC(b) && a->id > b->id)
        {
            std::swap(a, b);
        }
        Expr e = proto(K::And, w);
        e.a = {a, b};
        e.hi = std::min(a->hi, b->hi);
        return intern(std::move(e));
    }

    E mkOr(E a, E b)
    {
        assert(a->w == b->w);
        unsigned w = a->w;
        if (a == b)
        {
            return a;
        }
        if (isC(a))
        {
            std::swap(a, b);
        }
        if (isC(b))
        {
            if (isC(a))
            {
                return mkConst(a->c | b->c, w);
            }
            if (b->c == 0)
            {
                return a;
            }
            if (b->c == mask(w))
            {
                return b;
            }
        }
        if (w == 1)
        {
            return mkNot(mkAnd(mkNot(a), mkNot(b)));
        }
        {
            unsigned zb = knownZeros(b), za = knownZeros(a);
            if ((zb < 128 && (a->hi >> zb) == 0) || (za < 128 && (b->hi >> za) == 0))
            {
                return mkAdd(a, b);
            }
        }
        if (!isC(b) && a->id > b->id)
        {
            std::swap(a, b);
        }
        Expr e = proto(K::Or, w);
        e.a = {a, b};
        u128 m = std::max(a->hi, b->hi);
        unsigned bits = 0;
        while (bits < w && (m >> bits) != 0)
        {
            ++bits;
        }
        e.hi = mask(bits);
        e.lo = std::max(a->lo, b->lo);
        return intern(std::move(e));
    }

    E mkXor(E a, E b)
    {
        assert(a->w == b->w);
        unsigned w = a->w;
        if (a == b)
        {
            return mkConst(0, w);
        }
        if (isC(a))
        {
            std::swap(a, b);
        }
        if (isC(b))
        {
            if (isC(a))
            {
                return mkConst(a->c ^ b->c, w);
            }
            if (b->c == 0)
            {
                return a;
            }
            if (w > 1 && b->c == mask(w))
            {
                return mkSub(b, a);
            }
            if (a->k == K::Xor && isC(a->a[1]))
            {
                return mkXor(a->a[0], mkConst(a->a[1]->c ^ b->c, w));
            }
            if (a->k == K::Ite && isC(a->a[1]) && isC(a->a[2]))
            {
                return mkIte(a->a[0], mkXor(a->a[1], b), mkXor(a->a[2], b));
            }
        }
        else if (w == 1)
        {
            if (isNotOf(a, b))
            {
                return mkConst(1, 1);
            }
            // pull negations out
            if (a->k == K::Xor && isTrue(a->a[1]))
            {
                return mkXor(mkXor(a->a[0], b), mkBool(true));
            }
            if (b->k == K::Xor && isTrue(b->a[1]))
            {
                return mkXor(mkXor(a, b->a[0]), mkBool(true));
            }
        }
        if (!isC(b) && a->id > b->id)
        {
            std::swap(a, b);
        }
        Expr e = proto(K::Xor, w);
        e.a = {a, b};
        u128 m = a->hi | b->hi;
        unsigned bits = 0;
        while (bits < w && (m >> bits) != 0)
        {
            ++bits;
        }
        e.hi = mask(bits);
        return intern(std::move(e));
    }

    E mkNot(E a)
    {
        return mkXor(a, mkConst(mask(a->w), a->w));
    }

    E mkConcat(E hi, E lo)
    {
        unsigned w = hi->w + lo->w;
        if (isC(hi) && isC(lo))
        {
            return mkConst((hi->c << lo->w) | lo->c, w);
        }
        if (isC(hi) && hi->c == 0)
        {
            return mkZExt(lo, w);
        }
        if (hi->k == K::Extract && lo->k == K::Extract && hi->a[0] == lo->a[0] && hi->aux == lo->aux + lo->w)
        {
            return mkExtract(lo->a[0], lo->aux, w);
        }
        // lo may be (truncated) base itself: Extract(x, lo.w, ..) ++ Extract(x,0,lo.w) is covered; x of width lo.w no
        if (lo->k == K::Concat && hi->k == K::Extract && lo->a[0]->k == K::Extract && lo->a[0]->a[0] == hi->a[0]
            && hi->aux == lo->a[0]->aux + lo->a[0]->w)
        {
            return mkConcat(mkExtract(hi->a[0], lo->a[0]->aux, hi->w + lo->a[0]->w), lo->a[1]);
        }
        if (hi->k == K::Ite && lo->k == K::Ite && hi->a[0] == lo->a[0])
        {
            return mkIte(hi->a[0], mkConcat(hi->a[1], lo->a[1]), mkConcat(hi->a[2], lo->a[2]));
        }
        Expr e = proto(K::Concat, w);
        e.a = {hi, lo};
        e.lo = (hi->lo << lo->w) | lo->lo;
        e.hi = (hi->hi << lo->w) | lo->hi;
        return intern(std::move(e));
    }

    E mkExtract(E a, unsigned lo, unsigned w)
    {
        assert(lo + w <= a->w && w > 0);
        if (w == a->w)
        {
            return a;
        }
        switch (a->k)
        {
            case K::Const:
                return mkConst(a->c >> lo, w);
            case K::Concat:
            {
                E h = a->a[0];
                E l = a->a[1];
                if (lo >= l->w)
                {
                    return mkExtract(h, lo - l->w, w);
                }
                if (lo + w <= l->w)
                {
                    return mkExtract(l, lo, w);
                }
                return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
            }
            case K::Extract:
                return mkExtract(a->a[0], a->aux + lo, w);
            case K::ZExt:
            {
                E x = a->a[0];
                if (lo + w <= x->w)
                {
                    return mkExtract(x, lo, w);
                }
                if (lo >= x->w)
                {
                    return mkConst(0, w);
                }
                return mkZExt(mkExtract(x, lo, x->w - lo), w);
            }
            case K::SExt:
            {
                E x = a->a[0];
                if (lo + w <= x->w)
                {
                    return mkExtract(x, lo, w);
                }
                if (lo == 0)
                {
                    return mkSExt(x, w);
                }
                break;
            }
            case K::Ite:
                if (a->height < 40 || isC(a->a[1]) || isC(a->a[2]))
                {
                    return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
                }
                break;
            case K::And:
            case K::Or:
            case K::Xor:
            {
                E x = mkExtract(a->a[0], lo, w), y = mkExtract(a->a[1], lo, w);
                return a->k == K::And ? mkAnd(x, y) : a->k == K::Or ? mkOr(x, y) : mkXor(x, y);
            }
            case K::LShr:
                if (isC(a->a[1]) && a->a[1]->c + lo + w <= a->w)
                {
                    return mkExtract(a->a[0], unsigned(a->a[1]->c) + lo, w);
                }
                break;
            case K::Lin:
                if (lo == 0 && w > 1)
                {
                    LinB l{w};
                    l.c = a->c & mask(w);
                    for (size_t i = 0; i < a->a.size(); ++i)
                    {
                        if ((a->coef[i] & mask(w)) != 0)
                        {
                            l.add(mkExtract(a->a[i], 0, w), a->coef[i] & mask(w));
                        }
                    }
                    return finish(l);
                }
                if (lo == 0 && w == 1)
                {
                    E r = mkConst(a->c & 1, 1);
                    for (size_t i = 0; i < a->a.size(); ++i)
                    {
                        if (a->coef[i] & 1)
                        {
                            r = mkXor(r, mkExtract(a->a[i], 0, 1));
                        }
                    }
                    return r;
                }
                {
                    // drop the low part when it cannot carry: common power of two factor
                    unsigned z = knownZeros(a);
                    if (lo > 0 && lo + w == a->w && a->w <= 64)
                    {
                        if (E q = divSplit(a, u128(1) << lo))
                        {
                            return mkExtract(q, 0, w);
                        }
                    }
                    if (z >= lo + w)
                    {
                        return mkConst(0, w);
                    }
                    if (lo > 0 && a->w <= 64)
                    {
                        if (E q = divSplit(a, u128(1) << lo))
                        {
                            return mkExtract(q, 0, w);
                        }
                    }
                }
                break;
            case K::Mul:
                if (lo == 0)
                {
                    return mkMul(mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
                }
                break;
            default:
                break;
        }
        if (lo < 128 && (a->hi >> lo) == 0)
        {
            return mkConst(0, w);
        }
        Expr e = proto(K::Extract, w);
        e.a = {a};
        e.aux = lo;
        u128 h = a->hi >> lo;
        if (h <= mask(w))
        {
            e.hi = h;
            if (lo == 0)
            {
                e.lo = a->lo;
            }
            else
            {
                e.lo = a->lo >> lo;
            }
        }
        return intern(std::move(e));
    }

    E mkZExt(E a, unsigned w)
    {
        if (w == a->w)
        {
            return a;
        }
        assert(w > a->w);
        if (isC(a))
        {
            return mkConst(a->c, w);
        }
        if (a->k == K::ZExt)
        {
            return mkZExt(a->a[0], w);
        }
        if (a->k == K::Ite && (isC(a->a[1]) || isC(a->a[2])))
        {
            return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
        }
        if (a->k == K::Lin && w <= 64)
        {
            IntRange r = linRange(a);
            if (r.ok && r.lo >= 0 && u128(r.hi) <= mask(a->w))
            {
                LinB l{w};
                l.c = u128(sgn(a->c, a->w)) & mask(w);
                for (size_t i = 0; i < a->a.size(); ++i)
                {
                    l.add(mkZExt(a->a[i], w), u128(sgn(a->coef[i], a->w)));
                }
                return finish(l);
            }
        }
        if (a->k == K::Extract && a->aux == 0 && a->a[0]->w <= w && a->a[0]->hi <= mask(a->w))
        {
            return mkZExt(a->a[0], w);
        }
        Expr e = proto(K::ZExt, w);
        e.a = {a};
        e.lo = a->lo;
        e.hi = a->hi;
        return intern(std::move(e));
    }

    E mkSExt(E a, unsigned w)
    {
        if (w == a->w)
        {
            return a;
        }
        if (isC(a))
        {
            return mkConst(u128(sgn(a->c, a->w)), w);
        }
        if (nonneg(a))
        {
            return mkZExt(a, w);
        }
        if (a->k == K::SExt)
        {
            return mkSExt(a->a[0], w);
        }
        if (a->k == K::Ite && (isC(a->a[1]) || isC(a->a[2])))
        {
            return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
        }
        if (a->k == K::Lin && w <= 64)
        {
            IntRange r = linRange(a);
            bool ok = r.ok && r.lo >= -(i128(1) << (a->w - 1)) && r.hi < (i128(1) << (a->w - 1));
            if (ok)
            {
                LinB l{w};
                l.c = u128(sgn(a->c, a->w)) & mask(w);
                for (size_t i = 0; i < a->a.size(); ++i)
                {
                    l.add(mkZExt(a->a[i], w), u128(sgn(a->coef[i], a->w)));
                }
                return finish(l);
            }
        }
        if (a->k == K::Extract && a->aux == 0 && a->a[0]->w == w)
        {
            IntRange r = linRange(a->a[0]);
            if (r.ok && r.lo >= -(i128(1) << (a->w - 1)) && r.hi < (i128(1) << (a->w - 1)))
            {
                return a->a[0];
            }
        }
        Expr e = proto(K::SExt, w);
        e.a = {a};
        return intern(std::move(e));
    }

    E mkIte(E c, E t, E f)
    {
        assert(t->w == f->w && c->w == 1);
        if (isC(c))
        {
            return c->c ? t : f;
        }
        if (t == f)
        {
            return t;
        }
        if (c->k == K::Xor && isTrue(c->a[1]))
        {
            return mkIte(c->a[0], f, t);
        }
        if (t->k == K::Ite && t->a[0] == c)
        {
            t = t->a[1];
        }
        if (f->k == K::Ite && f->a[0] == c)
        {
            f = f->a[2];
        }
        if (t == f)
        {
            return t;
        }
        if (t->w == 1)
        {
            if (isTrue(t) && isFalse(f))
            {
                return c;
            }
            if (isFalse(t) && isTrue(f))
            {
                return mkNot(c);
            }
            if (isTrue(t))
            {
                return mkOr(c, f);
            }
            if (isFalse(t))
            {
                return mkAnd(mkNot(c), f);
            }
            if (isTrue(f))
            {
                return mkOr(mkNot(c), t);
            }
            if (isFalse(f))
            {
                return mkAnd(c, t);
            }
        }
        else if (isC(t) && isC(f) && t->c == 1 && f->c == 0)
        {
            return mkZExt(c, t->w);
        }
        if (f->k == K::Ite && f->a[1] == t)
        {
            return mkIte(mkOr(c, f->a[0]), t, f->a[2]);
        }
        Expr e = proto(K::Ite, t->w);
        e.a = {c, t, f};
        e.lo = std::min(t->lo, f->lo);
        e.hi = std::max(t->hi, f->hi);
        return intern(std::move(e));
    }

    E mkEq(E a, E b)
    {
        assert(a->w == b->w);
        if (a == b)
        {
            return mkBool(true);
        }
        unsigned w = a->w;
        if (w == 1)
        {
            return mkNot(mkXor(a, b));
        }
        if (isC(a))
        {
            std::swap(a, b);
        }
        if (isC(a) && isC(b))
        {
            return mkBool(a->c == b->c);
        }
        if (a->hi < b->lo || b->hi < a->lo)
        {
            return mkBool(false);
        }
        if (isC(b))
        {
            if (a->k == K::ZExt)
            {
                if (b->c > mask(a->a[0]->w))
                {
                    return mkBool(false);
                }
                return mkEq(a->a[0], mkConst(b->c, a->a[0]->w));
            }
            if (a->k == K::Ite)
            {
                E t = a->a[1], f = a->a[2];
                if ((isC(t) || isC(f)) || t->k == K::Ite || f->k == K::Ite)
                {
                    E et = mkEq(t, b), ef = mkEq(f, b);
                    if (isC(et) || isC(ef))
                    {
                        return mkIte(a->a[0], et, ef);
                    }
                }
            }
            if (a->k == K::Concat)
            {
                E l = a->a[1];
                return mkAnd(
                    mkEq(a->a[0], mkConst(b->c >> l->w, a->a[0]->w)),
                    mkEq(l, mkConst(b->c, l->w))
                );
            }
        }
        if (a->k == K::ZExt && b->k == K::ZExt)
        {
            E x = a->a[0], y = b->a[0];
            unsigned m = std::max(x->w, y->w);
            if (m < w)
            {
                return mkEq(mkZExt(x, m), mkZExt(y, m));
            }
        }
        if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w)
        {
            return mkEq(a->a[0], b->a[0]);
        }
        if (a->k == K::Concat && b->k == K::Concat && a->a[1]->w == b->a[1]->w)
        {
            return mkAnd(mkEq(a->a[0], b->a[0]), mkEq(a->a[1], b->a[1]));
        }
        if (w <= 64)
        {
            E d = mkSub(a, b);
            if (isC(d))
            {
                return mkBool(d->c == 0);
            }
            IntRange r = linRange(d);
            bool exact = r.ok && r.lo > -(i128(1) << w) && r.hi < (i128(1) << w);
            if (exact && (r.lo > 0 || r.hi < 0))
            {
                return mkBool(false);
            }
            if (d->k == K::Lin)
            {
                unsigned z = 64;
                for (size_t i = 0; i < d->a.size(); ++i)
                {
                    z = std::min(z, knownZeros(mkMulC(d->a[i], d->coef[i])));
                }
                if (z > 0 && z < w && (d->c & mask(z)) != 0)
                {
                    return mkBool(false);
                }
                if (d->a.size() == 1 && exact)
                {
                    i128 m = sgn(d->coef[0], w), k = sgn(d->c, w);
                    if (k % m != 0)
                    {
                        return mkBool(false);
                    }
                    i128 v = -k / m;
                    if (v < i128(d->a[0]->lo) || v > i128(d->a[0]->hi))
                    {
                        return mkBool(false);
                    }
                    if (!(a == d->a[0] && isC(b)))
                    {
                        return mkEq(d->a[0], mkConst(u128(v), w));
                    }
                }
                else if (exact)
                {
                    // divide by the common factor, canonicalise sign and sides
                    u128 g = 0;
                    auto gcd = [](u128 x, u128 y)
                    {
                        while (y)
                        {
                            u128 t = x % y;
                            x = y;
                            y = t;
                        }
                        return x;
                    };
                    for (auto m : d->coef)
                    {
                        i128 s = sgn(m, w);
                        g = gcd(g, u128(s < 0 ? -s : s));
                    }
                    i128 k = sgn(d->c, w);
                    if (g > 1)
                    {
                        if (k % i128(g) != 0)
                        {
                            return mkBool(false);
                        }
                    }
                    LinB p{w}, n{w};
                    bool neg = sgn(d->coef[0], w) < 0;
                    for (size_t i = 0; i < d->a.size(); ++i)
                    {
                        i128 m = sgn(d->coef[i], w) / i128(g ? g : 1);
                        if (neg)
                        {
                            m = -m;
                        }
                        if (m > 0)
                        {
                            p.add(d->a[i], u128(m));
                        }
                        else
                        {
                            n.add(d->a[i], u128(-m));
                        }
                    }
                    k = k / i128(g ? g : 1);
                    if (neg)
                    {
                        k = -k;
                    }
                    if (k > 0)
                    {
                        p.c = u128(k) & mask(w);
                    }
                    else
                    {
                        n.c = u128(-k) & mask(w);
                    }
                    a = finish(p);
                    b = finish(n);
                    if (isC(a))
                    {
                        std::swap(a, b);
                    }
                    Expr e = proto(K::Eq, 1);
                    e.a = {a, b};
                    return intern(std::move(e));
                }
            }
        }
        if (!isC(b) && a->id > b->id)
        {
            std::swap(a, b);
        }
        Expr e = proto(K::Eq, 1);
        e.a = {a, b};
        return intern(std::move(e));
    }

    static bool exactU(E e)
    {
        IntRange r = linRange(e);
        return r.ok && r.lo >= 0 && u128(r.hi) <= mask(e->w);
    }

    static bool exactS(E e)
    {
        IntRange r = linRange(e);
        return r.ok && r.lo >= -(i128(1) << (e->w - 1)) && r.hi < (i128(1) << (e->w - 1));
    }

    // integer a - b as a linear form evaluated at width 64 with integer range; coefficients may exceed: give up on overflow
    static bool diffRange(E a, E b, i128& lo, i128& hi)
    {
        // collect signed coefficients
        std::map<u32, std::pair<E, i128>> t;
        i128 c = 0;
        auto add = [&](E e, int s)
        {
            if (e->k == K::Const)
            {
                c += s * i128(sgn(e->c, e->w));
            }
            else if (e->k == K::Lin)
            {
                c += s * sgn(e->c, e->w);
                for (size_t i = 0; i < e->a.size(); ++i)
                {
                    auto& p = t[e->a[i]->id];
                    p.first = e->a[i];
                    p.second += s * sgn(e->coef[i], e->w);
                }
            }
            else
            {
                auto& p = t[e->id];
                p.first = e;
                p.second += s;
            }
        };
        add(a, 1);
        add(b, -1);
        lo = hi = c;
        for (auto& [id, p] : t)
        {
            i128 x, y;
            if (__builtin_mul_overflow(p.second, i128(p.first->lo), &x)
                || __builtin_mul_overflow(p.second, i128(p.first->hi), &y))
            {
                return false;
            }
            if (x > y)
            {
                std::swap(x, y);
            }
            if (__builtin_add_overflow(lo, x, &lo) || __builtin_add_overflow(hi, y, &hi))
            {
                return false;
            }
        }
        return true;
    }

    // the integer comparison a < b of two linear forms read as exact signed integers, in canonical form:
    // no common terms, no negative coefficients, common factor removed.  nullptr when a side could overflow.
    static E intLt(E a, E b)
    {
        unsigned w = a->w;
        std::map<u32, std::pair<E, i128>> t;
        i128 c = 0;
        auto add = [&](E e, int s)
        {
            if (e->k == K::Const)
            {
                c += s * sgn(e->c, w);
            }
            else if (e->k == K::Lin)
            {
                c += s * sgn(e->c, w);
                for (size_t i = 0; i < e->a.size(); ++i)
                {
                    auto& p = t[e->a[i]->id];
                    p.first = e->a[i];
                    p.second += s * sgn(e->coef[i], w);
                }
            }
            else
            {
                auto& p = t[e->id];
                p.first = e;
                p.second += s;
            }
        };
        add(a, 1);
        add(b, -1);
        i128 g = 0;
        for (auto& [id, p] : t)
        {
            i128 x = p.second < 0 ? -p.second : p.second;
            i128 y = g;
            while (x)
            {
                i128 r = y % x;
                y = x;
                x = r;
            }
            g = y;
        }
        if (g == 0)
        {
            return mkBool(c < 0);
        }
        // sum(g*m*x) + c < 0  <=>  sum(m*x) < ceil(-c/g)
        i128 q = -c;
        i128 lim = q >= 0 ? (q + g - 1) / g : -((-q) / g);
        LinB P{w}, N{w};
        i128 pl = 0, ph = 0, nl = 0, nh = 0;
        for (auto& [id, p] : t)
        {
            if (p.second == 0)
            {
                continue;
            }
            i128 m = p.second / g;
            i128 am = m < 0 ? -m : m, xl, xh;
            if (p.first->hi > (u128(1) << 64) || __builtin_mul_overflow(am, i128(p.first->lo), &xl)
                || __builtin_mul_overflow(am, i128(p.first->hi), &xh) || am > (i128(1) << 62))
            {
                return nullptr;
            }
            (m > 0 ? P : N).add(p.first, u128(am));
            (m > 0 ? pl : nl) += xl;
            (m > 0 ? ph : nh) += xh;
        }
        if (lim >= 0)
        {
            if (u128(lim) > mask(w))
            {
                return nullptr;
            }
            N.c = u128(lim);
            nl += lim;
            nh += lim;
        }
        else
        {
            if (u128(-lim) > mask(w))
            {
                return nullptr;
            }
            P.c = u128(-lim);
            pl += -lim;
            ph += -lim;
        }
        if (ph < nl)
        {
            return mkBool(true);
        }
        if (pl >= nh)
        {
            return mkBool(false);
        }
        if (u128(ph) > mask(w) || u128(nh) > mask(w))
        {
            return nullptr;
        }
        E x = finish(P), y = finish(N);
        if (isC(x) && isC(y))
        {
            return mkBool(x->c < y->c);
        }
        if (isC(x) && x->c == 0)
        {
            return mkNot(mkEq(y, x));
        }
        if (isC(y) && y->c == 1)
        {
            return mkEq(x, mkConst(0, w));
        }
        if (x->k == K::ZExt && y->k == K::ZExt)
        {
            unsigned m = std::max(x->a[0]->w, y->a[0]->w);
            if (m < w)
            {
                return mkUlt(mkZExt(x->a[0], m), mkZExt(y->a[0], m));
            }
        }
        if (x->k == K::ZExt && isC(y) && y->c <= mask(x->a[0]->w))
        {
            return mkUlt(x->a[0], mkConst(y->c, x->a[0]->w));
        }
        if (y->k == K::ZExt && isC(x) && x->c <= mask(y->a[0]->w))
        {
            return mkUlt(mkConst(x->c, y->a[0]->w), y->a[0]);
        }
        if (x->k == K::Ite && isC(y) && (isC(x->a[1]) || isC(x->a[2])))
        {
            E t1 = mkUlt(x->a[1], y), f1 = mkUlt(x->a[2], y);
            if (isC(t1) || isC(f1))
            {
                return mkIte(x->a[0], t1, f1);
            }
        }
        Expr e = proto(K::Ult, 1);
        e.a = {x, y};
        return intern(std::move(e));
    }

    E mkUlt(E a, E b)
    {
        assert(a->w == b->w);
        if (a == b)
        {
            return mkBool(false);
        }
        if (isC(a) && isC(b))
        {
            return mkBool(a->c < b->c);
        }
        if (a->hi < b->lo)
        {
            return mkBool(true);
        }
        if (a->lo >= b->hi)
        {
            return mkBool(false);
        }
        unsigned w = a->w;
        if (w == 1)
        {
            return mkAnd(mkNot(a), b);
        }
        if (isC(a) && a->c == 0)
        {
            return mkNot(mkEq(b, a));
        }
        if (isC(b) && b->c == 1)
        {
            return mkEq(a, mkConst(0, w));
        }
        if (isC(a) && a->c == mask(w))
        {
            return mkBool(false);
        }
        if (a->k == K::ZExt && b->k == K::ZExt)
        {
            unsigned m = std::max(a->a[0]->w, b->a[0]->w);
            if (m < w)
            {
                return mkUlt(mkZExt(a->a[0], m), mkZExt(b->a[0], m));
            }
        }
        if (a->k == K::ZExt && isC(b) && b->c <= mask(a->a[0]->w))
        {
            return mkUlt(a->a[0], mkConst(b->c, a->a[0]->w));
        }
        if (b->k == K::ZExt && isC(a) && a->c <= mask(b->a[0]->w))
        {
            return mkUlt(mkConst(a->c, b->a[0]->w), b->a[0]);
        }
        if (w <= 64)
        {
            // the unsigned value must equal the integer linear form for both sides; a Const is read as signed in diffRange
            auto okU = [](E e)
            {
                return e->k == K::Const ? e->c < (u128(1) << (e->w - 1)) : e->k == K::Lin ? exactU(e) : true;
            };
            i128 lo, hi;
            if (okU(a) && okU(b) && diffRange(a, b, lo, hi))
            {
                if (hi < 0)
                {
                    return mkBool(true);
                }
                if (lo >= 0)
                {
                    return mkBool(false);
                }
            }
        }
        if (w <= 64)
        {
            bool ua = exactU(a), ub = exactU(b);
            if (ua && ub)
            {
                bool sa = exactS(a) || a->k != K::Const, sb = exactS(b) || b->k != K::Const;
                if (sa && sb)
                {
                    if (E r = intLt(a, b))
                    {
                        return r;
                    }
                }
            }
            else if (a->k == K::Lin && !ua && exactS(a) && ub && exactS(b))
            {
                E ge0 = intLt(a, mkConst(0, w));
                E lt = intLt(a, b);
                if (ge0 && lt)
                {
                    return mkAnd(mkNot(ge0), lt);
                }
            }
            else if (b->k == K::Lin && !ub && exactS(b) && ua && exactS(a))
            {
                E lt0 = intLt(b, mkConst(0, w));
                E lt = intLt(a, b);
                if (lt0 && lt)
                {
                    return mkOr(lt0, lt);
                }
            }
        }
        if (a->k == K::Ite && isC(b) && (isC(a->a[1]) || isC(a->a[2])))
        {
            E t = mkUlt(a->a[1], b), f = mkUlt(a->a[2], b);
            if (isC(t) || isC(f))
            {
                return mkIte(a->a[0], t, f);
            }
        }
        Expr e = proto(K::Ult, 1);
        e.a = {a, b};
        return intern(std::move(e));
    }

    E mkSlt(E a, E b)
    {
        assert(a->w == b->w);
        if (a == b)
        {
            return mkBool(false);
        }
        unsigned w = a->w;
        if (isC(a) && isC(b))
        {
            return mkBool(sgn(a->c, w) < sgn(b->c, w));
        }
        if (w == 1)
        {
            return mkAnd(a, mkNot(b));
        }
        if (nonneg(a) && nonneg(b))
        {
            return mkUlt(a, b);
        }
        if (nonneg(a) && isC(b) && !nonneg(b))
        {
            return mkBool(false);
        }
        if (nonneg(b) && isC(a) && !nonneg(a))
        {
            return mkBool(true);
        }
        if (w <= 64)
        {
            auto okS = [](E e)
            {
                return e->k == K::Const || (e->k == K::Lin ? exactS(e) : nonneg(e));
            };
            i128 lo, hi;
            if (okS(a) && okS(b) && diffRange(a, b, lo, hi))
            {
                if (hi < 0)
                {
                    return mkBool(true);
                }
                if (lo >= 0)
                {
                    return mkBool(false);
                }
            }
        }
        if (w <= 64 && exactS(a) && exactS(b) && (a->k == K::Lin || b->k == K::Lin))
        {
            auto sok = [&](E e) { return e->k == K::Lin || e->k == K::Const ? true : nonneg(e); };
            if (sok(a) && sok(b))
            {
                if (E r = intLt(a, b))
                {
                    return r;
                }
            }
        }
        Expr e = proto(K::Slt, 1);
        e.a = {a, b};
        return intern(std::move(e));
    }

    // ---- sums
    static E sumVar()
    {
        static E v = mkVar("$sumidx", 64, 0, (u128(1) << 60));
        return v;
    }

    u32 newSumDef(E var, E body)
    {
        E b = subst(body, var, sumVar());
        auto it = sumIds.find(b);
        if (it != sumIds.end())
        {
            return it->second;
        }
        u32 id = sumDefs.size();
        sumDefs.push_back({sumVar(), b});
        sumIds[b] = id;
        return id;
    }

    E mkSum(u32 def, E n)
    {
        if (isC(n) && n->c <= 64)
        {
            E r = mkConst(0, 64);
            for (u64 i = 0; i < u64(n->c); ++i)
            {
                r = mkAdd(r, subst(sumDefs[def].body, sumDefs[def].var, mkConst(i, 64)));
            }
            return r;
        }
        if (n->k == K::Lin)
        {
            i128 c = sgn(n->c, 64);
            IntRange r = linRange(n);
            if (c > 0 && c <= 16 && r.ok && r.lo >= 0)
            {
                E base = mkSub(n, mkConst(u128(c), 64));
                E s = mkSum(def, base);
                for (i128 j = 0; j < c; ++j)
                {
                    s = mkAdd(s, subst(sumDefs[def].body, sumDefs[def].var, mkAdd(base, mkConst(u128(j), 64))));
                }
                return s;
            }
        }
        Expr e = proto(K::Sum, 64);
        e.aux = def;
        e.a = {n};
        u128 h = sumDefs[def].body->hi;
        if (h <= mask(32) && n->hi <= mask(62) && h * n->hi <= mask(63))
        {
            e.hi = h * n->hi;
        }
        return intern(std::move(e));
    }

    // o such that (c <=> var == o); nullptr when c has another form
    static E solveEq(E c, E var)
    {
        if (c->k != K::Eq || c->a[0]->w != var->w)
        {
            return nullptr;
        }
        E d = mkSub(c->a[0], c->a[1]);
        if (d == var)
        {
            return mkConst(0, var->w);
        }
        if (d->k != K::Lin)
        {
            return nullptr;
        }
        for (size_t i = 0; i < d->a.size(); ++i)
        {
            if (d->a[i] == var)
            {
                E rest = mkSub(d, mkMulC(var, d->coef[i]));
                if (contains(rest, var))
                {
                    return nullptr;
                }
                if (d->coef[i] == 1)
                {
                    return mkSub(mkConst(0, var->w), rest);
                }
                if (d->coef[i] == mask(var->w))
                {
                    return rest;
                }
            }
        }
        return nullptr;
    }

    static E findSplit(E e, E var, std::unordered_set<E>& seen)
    {
        if (!seen.insert(e).second)
        {
            return nullptr;
        }
        auto good = [&](E c)
        {
            if ((c->k == K::Eq || c->k == K::Ult) && (c->a[0] == var || c->a[1] == var))
            {
                return !contains(c->a[0] == var ? c->a[1] : c->a[0], var);
            }
            if (solveEq(c, var))
            {
                return true;
            }
            return !contains(c, var);
        };
        if (e->w == 1 && (e->k == K::Eq || e->k == K::Ult || e->k == K::Slt || e->k == K::Var) && good(e))
        {
            return e;
        }
        if (e->k == K::Ite && !isC(e->a[0]) && good(e->a[0]))
        {
            return e->a[0];
        }
        for (auto x : e->a)
        {
            if (E r = findSplit(x, var, seen))
            {
                return r;
            }
        }
        return nullptr;
    }

    static E replaceCond(E e, E cond, bool val, std::unordered_map<E, E>& memo);
    static E rebuild(E e, const std::vector<E>& a);

    static E replaceCond(E e, E cond, bool val, std::unordered_map<E, E>& memo)
    {
        if (e == cond)
        {
            return mkBool(val);
        }
        if (e->a.empty() || e->id < cond->id)
        {
            return e;
        }
        auto it = memo.find(e);
        if (it != memo.end())
        {
            return it->second;
        }
        std::vector<E> a;
        bool ch = false;
        for (auto x : e->a)
        {
            E y = replaceCond(x, cond, val, memo);
            ch |= y != x;
            a.push_back(y);
        }
        E r = ch ? rebuild(e, a) : e;
        memo[e] = r;
        return r;
    }

    E mkSumOf(E var, E body, E n)
    {
        if (!contains(body, var))
        {
            return mkMul(body, n);
        }
        if (body->k == K::Lin)
        {
            E r = mkMulC(n, body->c);
            for (size_t i = 0; i < body->a.size(); ++i)
            {
                r = mkAdd(r, mkMulC(mkSumOf(var, body->a[i], n), body->coef[i]));
            }
            return r;
        }
        std::unordered_set<E> seen;
        if (E c = findSplit(body, var, seen))
        {
            std::unordered_map<E, E> m1, m2;
            E A = replaceCond(body, c, true, m1), B = replaceCond(body, c, false, m2);
            if (!contains(c, var))
            {
                return mkIte(c, mkSumOf(var, A, n), mkSumOf(var, B, n));
            }
            E o = c->k == K::Eq ? solveEq(c, var) : c->a[0] == var ? c->a[1] : c->a[0];
            if (c->k == K::Eq)
            {
                E delta = mkSub(subst(A, var, o), subst(B, var, o));
                return mkAdd(mkSumOf(var, B, n), mkIte(mkUlt(o, n), delta, mkConst(0, 64)));
            }
            bool less = c->a[0] == var;  // var < o
            E L = o;
            if (!less)
            {
                // o < var  <=> !(var < o+1)   (o < 2^63 by interval)
                if (o->hi < mask(62))
                {
                    L = mkAdd(o, mkConst(1, 64));
                    std::swap(A, B);
                    less = true;
                }
            }
            if (less)
            {
                E m = mkIte(mkUlt(L, n), L, n);
                return mkAdd(mkSumOf(var, A, m), mkSub(mkSumOf(var, B, n), mkSumOf(var, B, m)));
            }
        }
        if (n->k == K::Ite)
        {
            return mkIte(n->a[0], mkSumOf(var, body, n->a[1]), mkSumOf(var, body, n->a[2]));
        }
        return mkSum(newSumDef(var, body), n);
    }

    E mkFInt(E x, int exp)
    {
        // the FInt node stands for the bit pattern of the double unsigned(x)*2^exp
        if (isC(x))
        {
            double d = double(u64(x->c));
            d = __builtin_ldexp(d, exp);
            u64 b;
            __builtin_memcpy(&b, &d, 8);
            return mkConst(b, 64);
        }
        Expr e = proto(K::FInt, 64);
        e.a = {x};
        e.aux = u32(exp);
        return intern(std::move(e));
    }

    E mkFOp(u32 op, unsigned w, const std::vector<E>& a)
    {
        Expr e = proto(K::FOp, w);
        e.aux = op;
        e.a = a;
        return intern(std::move(e));
    }

    static E rebuild(E e, const std::vector<E>& a)
    {
        switch (e->k)
        {
            case K::UF:
                return mkUFs(e->aux, e->w, a);
            case K::Lin:
            {
                E r = mkConst(e->c, e->w);
                LinB l{e->w};
                l.add(r, 1);
                for (size_t i = 0; i < a.size(); ++i)
                {
                    l.add(a[i], e->coef[i]);
                }
                return finish(l);
            }
            case K::Mul:
                return mkMul(a[0], a[1]);
            case K::UDiv:
                return mkUDiv(a[0], a[1]);
            case K::URem:
                return mkURem(a[0], a[1]);
            case K::SDiv:
                return mkSDiv(a[0], a[1]);
            case K::SRem:
                return mkSRem(a[0], a[1]);
            case K::Shl:
                return mkShl(a[0], a[1]);
            case K::LShr:
                return mkLShr(a[0], a[1]);
            case K::AShr:
                return mkAShr(a[0], a[1]);
            case K::And:
                return mkAnd(a[0], a[1]);
            case K::Or:
                return mkOr(a[0], a[1]);
            case K::Xor:
                return mkXor(a[0], a[1]);
            case K::Concat:
                return mkConcat(a[0], a[1]);
            case K::Extract:
                return mkExtract(a[0], e->aux, e->w);
            case K::ZExt:
                return mkZExt(a[0], e->w);
            case K::SExt:
                return mkSExt(a[0], e->w);
            case K::Ite:
                return mkIte(a[0], a[1], a[2]);
            case K::Eq:
                return mkEq(a[0], a[1]);
            case K::Ult:
                return mkUlt(a[0], a[1]);
            case K::Slt:
                return mkSlt(a[0], a[1]);
            case K::Sum:
                return mkSum(e->aux, a[0]);
            case K::FInt:
                return mkFInt(a[0], int(e->aux));
            case K::FOp:
                return mkFOp(e->aux, e->w, a);
            default:
                return e;
        }
    }

    static E substRec(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo)
    {
        auto f = m.find(e);
        if (f != m.end())
        {
            return f->second;
        }
        if (e->a.empty())
        {
            return e;
        }
        auto it = memo.find(e);
        if (it != memo.end())
        {
            return it->second;
        }
        std::vector<E> a;
        a.reserve(e->a.size());
        bool ch = false;
        for (auto x : e->a)
        {
            E y = substRec(x, m, memo);
            ch |= y != x;
            a.push_back(y);
        }
        E r = e;
        if (e->k == K::Sum)
        {
            // the body of a sum may mention the variables too
            u32 def = e->aux;
            E b = substRec(sumDefs[def].body, m, memo);
            if (b != sumDefs[def].body)
            {
                r = mkSumOf(sumVar(), b, a[0]);
            }
            else if (ch)
            {
                r = mkSum(def, a[0]);
            }
        }
        else if (ch)
        {
            r = rebuild(e, a);
        }
        memo[e] = r;
        return r;
    }

    E subst(E e, E var, E repl)
    {
        std::unordered_map<E, E> m{{var, repl}}, memo;
        return substRec(e, m, memo);
    }

    E substMany(E e, const std::unordered_map<E, E>& m)
    {
        std::unordered_map<E, E> memo;
        return substRec(e, m, memo);
    }

    void collect(E e, std::unordered_set<E>& seen, const std::function<void(E)>& f)
    {
        std::vector<E> st{e};
        while (!st.empty())
        {
            E x = st.back();
            st.pop_back();
            if (!seen.insert(x).second)
            {
                continue;
            }
            f(x);
            for (auto y : x->a)
            {
                st.push_back(y);
            }
            if (x->k == K::Sum)
            {
                st.push_back(sumDefs[x->aux].body);
            }
        }
    }

    bool contains(E e, E var)
    {
        std::unordered_set<E> seen;
        std::vector<E> st{e};
        while (!st.empty())
        {
            E x = st.back();
            st.pop_back();
            if (x == var)
            {
                return true;
            }
            if (x->id < var->id || !seen.insert(x).second)
            {
                continue;
            }
            for (auto y : x->a)
            {
                st.push_back(y);
            }
            if (x->k == K::Sum)
            {
                st.push_back(sumDefs[x->aux].body);
            }
        }
        return false;
    }

    std::string u128str(u128 v)
    {
        if (v == 0)
        {
            return "0";
        }
        std::string s;
        while (v)
        {
            s += char('0' + int(v % 10));
            v /= 10;
        }
        std::reverse(s.begin(), s.end());
        return s;
    }

    std::string str(E e, int depth)
    {
        static const char* nm[] = {"const", "var",  "uf",  "lin", "*",   "udiv", "urem", "sdiv", "srem",
                                   "shl",   "lshr", "ashr", "and", "or", "xor",  "cat",  "ext",  "zext",
                                   "sext",  "ite",  "=",   "ult", "slt", "sum",  "fint", "fop"};
        if (e->k == K::Const)
        {
            return (e->c > 0xffffffffull ? [&] { char b[64]; snprintf(b,64,"0x%llx",(unsigned long long)e->c); return std::string(b);}() : u128str(e->c)) + (e->w == 64 ? "" : ":" + std::to_string(e->w));
        }
        if (e->k == K::Var)
        {
            return symNames[e->aux];
        }
        if (depth == 0)
        {
            return "#" + std::to_string(e->id);
        }
        std::string s = "(";
        if (e->k == K::Lin)
        {
            s += "+";
            if (e->c)
            {
                s += " " + str(mkConst(e->c, e->w));
            }
            for (size_t i = 0; i < e->a.size(); ++i)
            {
                s += " ";
                i128 m = sgn(e->coef[i], e->w);
                if (m == -1)
                {
                    s += "-";
                }
                else if (m != 1)
                {
                    s += (m < 0 ? "-" + u128str(u128(-m)) : u128str(u128(m))) + "*";
                }
                s += str(e->a[i], depth - 1);
            }
            return s + ")";
        }
        s += e->k == K::UF ? symNames[e->aux] : nm[int(e->k)];
        if (e->k == K::Extract)
        {
            s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
        }
        if (e->k == K::ZExt || e->k == K::SExt)
        {
            s += std::to_string(e->w);
        }
        if (e->k == K::Sum)
        {
            s += std::to_string(e->aux);
        }
        for (auto x : e->a)
        {
            s += " " + str(x, depth - 1);
        }
        return s + ")";
    }
}
