#include "mem.hpp"

#include <cassert>
#include <unordered_map>

namespace vf
{
    static E c64(u128 v)
    {
        return mkConst(v, 64);
    }

    struct RKey
    {
        const Node* n;
        u32 off;
        u32 sz;
        u64 init;
        bool operator==(const RKey& o) const { return n == o.n && off == o.off && sz == o.sz && init == o.init; }
    };
    struct RHash
    {
        size_t operator()(const RKey& k) const
        {
            return (size_t(k.n) * 31 + k.off) * 1000003u + k.sz * 7 + k.init * 0x9E3779B97F4A7C15ull;
        }
    };
    static std::unordered_map<RKey, std::pair<NodeP, E>, RHash> memo;

    static u64 initKey(const Init& i)
    {
        return u64(i.k) | (u64(i.elem) << 2) | (u64(i.sym) << 16);
    }

    static E readList(const NodeP& nd, const Init& init, E off, u32 n);

    static E bytewise(const std::function<E(E)>& rd, E off, u32 n)
    {
        E r = rd(off);
        for (u32 i = 1; i < n; ++i)
        {
            r = mkConcat(rd(mkAdd(off, c64(i))), r);
        }
        return r;
    }

    // element index of a byte offset; exact for every offset that is a multiple of the element size
    static E elemIndex(E off, unsigned sh)
    {
        E q = off->k == K::Lin ? divExact(off, u128(1) << sh) : nullptr;
        return q ? q : mkLShr(off, c64(sh));
    }

    static E readInit(const Init& in, E off, u32 n)
    {
        switch (in.k)
        {
            case Init::Zero:
                return mkConst(0, n * 8);
            case Init::Undef:
            case Init::Sym:
            {
                u32 el = in.elem;
                unsigned sh = 0;
                while ((1u << sh) < el)
                {
                    ++sh;
                }
                auto uf = [&](E idx)
                {
                    return mkUFs(in.sym, el * 8, {idx});
                };
                if (n == el && multipleOf(off, el))
                {
                    return uf(elemIndex(off, sh));
                }
                if (n > el)
                {
                    if (multipleOf(off, el) && n % el == 0)
                    {
                        E idx = elemIndex(off, sh);
                        E r = uf(idx);
                        for (u32 i = 1; i < n / el; ++i)
                        {
                            r = mkConcat(uf(mkAdd(idx, c64(i))), r);
                        }
                        return r;
                    }
                    return bytewise([&](E o) { return readInit(in, o, 1); }, off, n);
                }
                // n < el
                if (n == 1 || multipleOf(off, n))
                {
                    E idx = mkLShr(off, c64(sh));
                    E sub = mkAnd(off, c64(el - 1));
                    E v = uf(idx);
                    if (isC(sub))
                    {
                        return mkExtract(v, unsigned(sub->c) * 8, n * 8);
                    }
                    // mux over positions
                    E r = mkExtract(v, 0, n * 8);
                    for (u32 i = n; i < el; i += n)
                    {
                        r = mkIte(mkEq(sub, c64(i)), mkExtract(v, i * 8, n * 8), r);
                    }
                    return r;
                }
                return bytewise([&](E o) { return readInit(in, o, 1); }, off, n);
            }
        }
        return nullptr;
    }

    // read from a cell map at constant offset, bytes fully covered by cells -> expr, else nullptr; `none` set if no byte covered
    static E cellsConst(const CellMap& m, i64 o, u32 n, bool& none)
    {
        none = false;
        auto it = m.upper_bound(o);
        if (it != m.begin())
        {
            auto p = std::prev(it);
            if (p->first + i64(p->second.n) > o)
            {
                it = p;
            }
        }
        if (it == m.end() || it->first >= o + i64(n))
        {
            none = true;
            return nullptr;
        }
        if (it->first == o && it->second.n == n)
        {
            return it->second.v;
        }
        i64 pos = o;
        E r = nullptr;
        while (pos < o + i64(n))
        {
            if (it == m.end() || it->first > pos)
            {
                return nullptr;
            }
            i64 ce = it->first + i64(it->second.n);
            i64 end = std::min(ce, o + i64(n));
            E part = mkExtract(it->second.v, unsigned(pos - it->first) * 8, unsigned(end - pos) * 8);
            r = r ? mkConcat(part, r) : part;
            pos = end;
            ++it;
        }
        return r;
    }

    static E muxTree(const std::vector<E>& v, size_t lo, size_t cnt, E idx, unsigned bit)
    {
        if (cnt == 1)
        {
            return v[lo];
        }
        size_t half = size_t(1) << bit;
        if (cnt <= half)
        {
            return muxTree(v, lo, cnt, idx, bit - 1);
        }
        E l = muxTree(v, lo, half, idx, bit == 0 ? 0 : bit - 1);
        E h = muxTree(v, lo + half, cnt - half, idx, bit == 0 ? 0 : bit - 1);
        return mkIte(mkExtract(idx, bit, 1), h, l);
    }

    static E popcount8(E x)  // x: width 8 -> width 8
    {
        E r = mkConst(0, 8);
        for (unsigned i = 0; i < 8; ++i)
        {
            r = mkAdd(r, mkZExt(mkExtract(x, i, 1), 8));
        }
        return r;
    }

    template <class Rest>
    static E readCells(const CellMap& m, E off, u32 n, Rest rest)
    {
        if (m.empty())
        {
            return rest(off, n);
        }
        if (isC(off))
        {
            bool none;
            i64 o = i64(u64(off->c));
            E r = cellsConst(m, o, n, none);
            if (r)
            {
                return r;
            }
            if (none || n == 1)
            {
                return rest(off, n);
            }
            // mixed: split in halves when aligned, else bytewise
            u32 h = n / 2;
            if (n % 2 == 0)
            {
                return mkConcat(readCells(m, c64(u64(o + h)), h, rest), readCells(m, off, h, rest));
            }
            return bytewise([&](E x) { return readCells(m, x, 1, rest); }, off, n);
        }
        // symbolic offset
        i64 lo = 0, hi = INT64_MAX;
        if (off->hi < (u128(1) << 62))
        {
            lo = i64(u64(off->lo));
            hi = i64(u64(off->hi));
        }
        // uniform contiguous table?
        auto b = m.begin();
        bool uniform = multipleOf(off, n) && b->first % n == 0;
        {
            i64 pos = b->first;
            for (auto& [o, c] : m)
            {
                if (c.n != n || o != pos)
                {
                    uniform = false;
                    break;
                }
                pos += n;
            }
        }
        unsigned sh = 0;
        while ((1u << sh) < n)
        {
            ++sh;
        }
        if (uniform && m.size() >= 4 && (1u << sh) == n)
        {
            i64 first = b->first;
            i64 end = first + i64(m.size()) * n;
            E idx = mkLShr(mkSub(off, c64(u64(first))), c64(sh));
            E t = nullptr;
            if (m.size() == 256)
            {
                bool pop = true;
                u32 i = 0;
                for (auto& [o, c] : m)
                {
                    if (!isC(c.v) || c.v->c != u128(__builtin_popcount(i)))
                    {
                        pop = false;
                        break;
                    }
                    ++i;
                }
                if (pop)
                {
                    E p = popcount8(mkExtract(idx, 0, 8));
                    t = n == 1 ? p : mkZExt(p, n * 8);
                }
            }
            if (!t)
            {
                std::vector<E> v;
                for (auto& [o, c] : m)
                {
                    v.push_back(c.v);
                }
                unsigned bit = 0;
                while ((size_t(2) << bit) < v.size())
                {
                    ++bit;
                }
                t = muxTree(v, 0, v.size(), idx, bit);
            }
            if (lo >= first && hi < end)
            {
                return t;
            }
            E in = mkUlt(mkSub(off, c64(u64(first))), c64(u64(end - first)));
            return isTrue(in) ? t : mkIte(in, t, rest(off, n));
        }
        bool aligned = multipleOf(off, n);
        if (aligned)
        {
            for (auto& [o, c] : m)
            {
                if (o + i64(c.n) <= lo || o > hi)
                {
                    continue;
                }
                if (c.n % n != 0 || o % n != 0)
                {
                    aligned = false;
                    break;
                }
            }
        }
        if (!aligned && n > 1)
        {
            return bytewise([&](E x) { return readCells(m, x, 1, rest); }, off, n);
        }
        E r = rest(off, n);
        for (auto& [o, c] : m)
        {
            if (o + i64(c.n) <= lo || o > hi)
            {
                continue;
            }
            for (u32 j = 0; j < c.n; j += n)
            {
                r = mkIte(mkEq(off, c64(u64(o + j))), mkExtract(c.v, j * 8, n * 8), r);
            }
        }
        return r;
    }

    static E readList(const NodeP& nd, const Init& init, E off, u32 n)
    {
        if (!nd)
        {
            return readInit(init, off, n);
        }
        RKey key{nd.get(), off->id, n, initKey(init)};
        auto it = memo.find(key);
        if (it != memo.end())
        {
            return it->second.second;
        }
        auto rest = [&](E o, u32 k)
        {
            return readList(nd->next, init, o, k);
        };
        auto self1 = [&](E o)
        {
            return readList(nd, init, o, 1);
        };
        E r = nullptr;
        switch (nd->kind)
        {
            case Node::Cells:
                r = readCells(*nd->cells, off, n, rest);
                break;
            case Node::Store:
            {
                E d = mkSub(off, nd->off);
                u32 sn = nd->n;
                if (isC(d))
                {
                    i64 x = i64(u64(d->c));
                    if (x >= 0 && x + i64(n) <= i64(sn))
                    {
                        r = mkExtract(nd->val, unsigned(x) * 8, n * 8);
                    }
                    else if (x <= -i64(n) || x >= i64(sn))
                    {
                        r = rest(off, n);
                    }
                    else
                    {
                        r = bytewise(self1, off, n);
                    }
                    break;
                }
                if (n <= sn && sn % n == 0 && (n == 1 || multipleOf(d, n)))
                {
                    r = rest(off, n);
                    for (u32 j = 0; j < sn; j += n)
                    {
                        r = mkIte(mkEq(d, c64(j)), mkExtract(nd->val, j * 8, n * 8), r);
                    }
                }
                else
                {
                    r = bytewise(self1, off, n);
                }
                break;
            }
            case Node::Copy:
            {
                E d = mkSub(off, nd->off);
                if (n == 1 || (multipleOf(d, n) && multipleOf(nd->len, n)))
                {
                    E in = mkUlt(d, nd->len);
                    if (isFalse(in))
                    {
                        r = rest(off, n);
                    }
                    else
                    {
                        E v = readContent(nd->src, mkAdd(d, nd->soff), n);
                        r = isTrue(in) ? v : mkIte(in, v, rest(off, n));
                    }
                }
                else
                {
                    // whole range inside?
                    E in = mkAnd(mkUlt(d, nd->len), mkUle(c64(n), mkSub(nd->len, d)));
                    if (isTrue(in))
                    {
                        r = readContent(nd->src, mkAdd(d, nd->soff), n);
                    }
                    else if (isC(d) && isC(nd->len) && (i64(u64(d->c)) <= -i64(n) || (i64(u64(d->c)) >= 0 && u64(d->c) >= u64(nd->len->c))))
                    {
                        r = rest(off, n);
                    }
                    else
                    {
                        r = bytewise(self1, off, n);
                    }
                }
                break;
            }
            case Node::Set:
            {
                E d = mkSub(off, nd->off);
                if (n == 1 || (multipleOf(d, n) && multipleOf(nd->len, n)))
                {
                    E in = mkUlt(d, nd->len);
                    E v = nd->val;
                    for (u32 i = 1; i < n; ++i)
                    {
                        v = mkConcat(nd->val, v);
                    }
                    r = isTrue(in) ? v : mkIte(in, v, rest(off, n));
                }
                else
                {
                    r = bytewise(self1, off, n);
                }
                break;
            }
            case Node::Map:
            {
                u64 as = nd->stride < 0 ? u64(-nd->stride) : u64(nd->stride);
                // region for stride>0: [off, off+as*count); elements at off+as*k; stride<0: elements at off-as*k
                E d = nd->stride > 0 ? mkSub(off, nd->off) : mkSub(nd->off, off);
                if (n == nd->n && (multipleOf(d, as) && as == n))
                {
                    E in = mkUlt(d, mkMulC(nd->count, as));
                    if (isFalse(in))
                    {
                        r = rest(off, n);
                        break;
                    }
                    E idx = d->k == K::Lin ? divExact(d, as) : nullptr;
                    idx = idx ? idx : mkUDiv(d, c64(as));
                    E v = subst(nd->val, nd->kvar, idx);
                    r = isTrue(in) ? v : mkIte(in, v, rest(off, n));
                }
                else if (n == nd->n && multipleOf(d, n) && as % n == 0)
                {
                    E idx = mkUDiv(d, c64(as));
                    E in = mkAnd(mkEq(mkURem(d, c64(as)), c64(0)), mkUlt(d, mkMulC(nd->count, as)));
                    if (isFalse(in))
                    {
                        r = rest(off, n);
                        break;
                    }
                    E v = subst(nd->val, nd->kvar, idx);
                    r = isTrue(in) ? v : mkIte(in, v, rest(off, n));
                }
                else if (n == 1)
                {
                    // byte inside an element
                    E dd = nd->stride > 0 ? d : mkAdd(d, c64(nd->n - 1));
                    // stride<0: byte off = o0 - as*k + b, b in [0,n): o0 - off + (n-1) = as*k + (n-1-b)
                    E idx = mkUDiv(dd, c64(as));
                    E rem = mkURem(dd, c64(as));
                    E in = mkAnd(mkUlt(rem, c64(nd->n)), mkUlt(dd, mkMulC(nd->count, as)));
                    E v = subst(nd->val, nd->kvar, idx);
                    E b = nd->stride > 0 ? rem : mkSub(c64(nd->n - 1), rem);
                    E sel = mkExtract(v, 0, 8);
                    for (u32 j = 1; j < nd->n; ++j)
                    {
                        sel = mkIte(mkEq(b, c64(j)), mkExtract(v, j * 8, 8), sel);
                    }
                    r = mkIte(in, sel, rest(off, 1));
                }
                else
                {
                    r = bytewise(self1, off, n);
                }
                break;
            }
        }
        memo[key] = {nd, r};
        return r;
    }

    E readContent(const Content& c, E off, u32 n)
    {
        auto rest = [&](E o, u32 k)
        {
            return readList(c.list, c.init, o, k);
        };
        if (c.cells)
        {
            return readCells(*c.cells, off, n, rest);
        }
        return rest(off, n);
    }

    static void freeze(Content& c)
    {
        if (c.cells && !c.cells->empty())
        {
            auto nd = std::make_shared<Node>();
            nd->kind = Node::Cells;
            nd->cells = c.cells;
            nd->next = c.list;
            c.list = nd;
        }
        c.cells.reset();
    }

    void pushNode(Content& c, std::shared_ptr<Node> n)
    {
        freeze(c);
        n->next = c.list;
        c.list = n;
    }

    static CellMap& cellsMut(Content& c)
    {
        if (!c.cells)
        {
            c.cells = std::make_shared<CellMap>();
        }
        else if (c.cells.use_count() > 1)
        {
            c.cells = std::make_shared<CellMap>(*c.cells);
        }
        return *c.cells;
    }

    static void cellWrite(CellMap& m, i64 o, E v)
    {
        u32 n = v->w / 8;
        auto it = m.lower_bound(o);
        if (it != m.end() && it->first == o && it->second.n == n)
        {
            it->second.v = v;
            return;
        }
        if (it != m.begin())
        {
            auto p = std::prev(it);
            i64 pe = p->first + i64(p->second.n);
            if (pe > o)
            {
                Cell old = p->second;
                i64 po = p->first;
                p->second = {mkExtract(old.v, 0, unsigned(o - po) * 8), u32(o - po)};
                if (pe > o + i64(n))
                {
                    unsigned tail = unsigned(pe - (o + i64(n)));
                    m[o + i64(n)] = {mkExtract(old.v, unsigned(o + i64(n) - po) * 8, tail * 8), tail};
                }
            }
        }
        it = m.lower_bound(o);
        while (it != m.end() && it->first < o + i64(n))
        {
            i64 ce = it->first + i64(it->second.n);
            if (ce > o + i64(n))
            {
                unsigned tail = unsigned(ce - (o + i64(n)));
                Cell nc{mkExtract(it->second.v, unsigned(o + i64(n) - it->first) * 8, tail * 8), tail};
                m.erase(it);
                m[o + i64(n)] = nc;
                break;
            }
            it = m.erase(it);
        }
        m[o] = {v, n};
    }

    void writeContent(Content& c, E off, E val)
    {
        assert(val->w % 8 == 0);
        if (isC(off))
        {
            cellWrite(cellsMut(c), i64(u64(off->c)), val);
            return;
        }
        auto nd = std::make_shared<Node>();
        nd->kind = Node::Store;
        nd->off = off;
        nd->val = val;
        nd->n = val->w / 8;
        pushNode(c, nd);
    }

    void copyContent(Content& dst, E doff, const Content& src0, E soff, E len)
    {
        if (isC(len) && len->c == 0)
        {
            return;
        }
        Content src = src0;  // snapshot (dst may alias)
        if (isC(len) && isC(doff) && len->c <= 4096)
        {
            u64 L = u64(len->c);
            i64 d = i64(u64(doff->c));
            bool smallEnough = L <= 64 || (isC(soff) && src.cells && !src.list);
            if (smallEnough)
            {
                std::vector<std::pair<i64, E>> out;
                u64 pos = 0;
                u32 chunkPref = (src.init.k != Init::Zero && src.init.elem > 1) ? src.init.elem : 8;
                while (pos < L)
                {
                    u32 n = 0;
                    E v = nullptr;
                    if (isC(soff) && src.cells)
                    {
                        i64 s = i64(u64(soff->c)) + i64(pos);
                        auto it = src.cells->upper_bound(s);
                        if (it != src.cells->begin())
                        {
                            auto p = std::prev(it);
                            if (p->first == s && p->second.n + pos <= L)
                            {
                                n = p->second.n;
                                v = p->second.v;
                            }
                            else if (p->first <= s && p->first + i64(p->second.n) > s)
                            {
                                n = 1;
                            }
                        }
                        if (!n && it != src.cells->end() && it->first < s + 8)
                        {
                            n = 1;
                        }
                    }
                    if (!n)
                    {
                        n = chunkPref;
                        while (n > 1 && (n > L - pos || !multipleOf(mkAdd(soff, c64(pos)), n)))
                        {
                            n /= 2;
                        }
                    }
                    if (!v)
                    {
                        v = readContent(src, mkAdd(soff, c64(pos)), n);
                    }
                    out.emplace_back(d + i64(pos), v);
                    pos += n;
                }
                CellMap& m = cellsMut(dst);
                for (auto& [o, v] : out)
                {
                    cellWrite(m, o, v);
                }
                return;
            }
        }
        auto nd = std::make_shared<Node>();
        nd->kind = Node::Copy;
        nd->off = doff;
        nd->len = len;
        // freeze the snapshot so later writes to the source clone its cells
        nd->src = src;
        nd->soff = soff;
        pushNode(dst, nd);
    }

    void setContent(Content& dst, E off, E byte, E len)
    {
        if (isC(len) && len->c == 0)
        {
            return;
        }
        if (isC(len) && isC(off) && len->c <= 256)
        {
            CellMap& m = cellsMut(dst);
            u64 L = u64(len->c), pos = 0;
            i64 o = i64(u64(off->c));
            while (pos < L)
            {
                u32 n = (L - pos >= 8 && (o + i64(pos)) % 8 == 0) ? 8 : (L - pos >= 4 && (o + i64(pos)) % 4 == 0) ? 4 : 1;
                E v = byte;
                for (u32 i = 1; i < n; ++i)
                {
                    v = mkConcat(byte, v);
                }
                cellWrite(m, o + i64(pos), v);
                pos += n;
            }
            return;
        }
        auto nd = std::make_shared<Node>();
        nd->kind = Node::Set;
        nd->off = off;
        nd->len = len;
        nd->val = byte;
        pushNode(dst, nd);
    }

    std::string contentStr(const Content& c)
    {
        std::string s;
        if (c.cells)
        {
            s += "cells{";
            for (auto& [o, x] : *c.cells)
            {
                s += std::to_string(o) + ":" + std::to_string(x.n) + "=" + str(x.v, 3) + " ";
            }
            s += "} ";
        }
        for (auto* n = c.list.get(); n; n = n->next.get())
        {
            static const char* nm[] = {"store", "copy", "set", "map", "cells"};
            s += std::string(nm[n->kind]) + "(";
            if (n->off)
            {
                s += str(n->off, 3);
            }
            if (n->val)
            {
                s += " v=" + str(n->val, 3);
            }
            if (n->len)
            {
                s += " len=" + str(n->len, 3);
            }
            s += ") ";
        }
        return s;
    }
}
