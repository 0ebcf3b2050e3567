// Loop invariants.  A loop whose exit test is undecided is replaced by an inductive summary over a symbolic iteration
// number k: every loop-carried value (phi, memory cell) gets a closed form in k, every array written gets a
// "for all j < k" description of its elements, and the facts that made the loop continue are kept as
// "for all j < k: cont(j)".  The summary is *checked*: one generic iteration is executed from the state described at k
// and every back edge must re-establish the description at k+1 (the base case k=0 is the entry state itself).
struct LoopForm
{
    enum Kind { Affine, Acc, Last, Unres } kind = Unres;
    E x0 = nullptr;      // value on entry
    u64 step = 0;        // Affine
    E e = nullptr;       // Acc: increment(k); Last: value(k) (value on entry of iteration k+1)
    std::string uf;      // Unres
    bool ptr = false;

    E at(E kv, E k) const
    {
        unsigned w = x0->w;
        switch (kind)
        {
            case Affine:
            {
                if (step == 0)
                {
                    return x0;
                }
                E kk = w == 64 ? k : w < 64 ? mkTrunc(k, w) : mkZExt(k, w);
                return mkAdd(x0, mkMulC(kk, u128(step) & mask(w)));
            }
            case Acc:
            {
                E b = w < 64 ? mkZExt(e, 64) : e;
                E sum = mkSumOf(kv, b, k);
                return mkAdd(x0, w < 64 ? mkTrunc(sum, w) : sum);
            }
            case Last:
                return mkIte(mkEq(k, mkConst(0, 64)), x0, subst(e, kv, mkSub(k, mkConst(1, 64))));
            case Unres:
                return mkUF(uf, w, {k});
        }
        return nullptr;
    }

    bool same(const LoopForm& o) const
    {
        return kind == o.kind && x0 == o.x0 && step == o.step && e == o.e;
    }
};

struct LoopMap
{
    E off = nullptr;    // offset written at iteration 0
    i64 stride = 0;
    u32 n = 0;
    E val = nullptr;    // template in kv

    bool same(const LoopMap& o) const
    {
        return off == o.off && stride == o.stride && n == o.n && val == o.val;
    }
};

struct LoopFail
{
    std::string why;
};

struct LoopSum
{
    Engine& en;
    Loop* L;
    std::shared_ptr<LoopSnap> sn;
    size_t depth;
    E kv;
    std::vector<PHINode*> phis;
    std::vector<LoopForm> pf;
    std::map<u32, std::map<i64, LoopForm>> cells;   // object -> offset -> form
    std::map<u32, std::vector<LoopMap>> maps;
    E cont = nullptr;                // loop continues at kv
    std::vector<E> bounds;           // terms t with: for all j<k: j != t   (hence k <= t)
    E rest = nullptr;                // cont without the bound conjuncts
    std::string uid;
    bool imprecise = false;
    u64 baseSteps = 0;

    LoopSum(Engine& e, Loop* l, std::shared_ptr<LoopSnap> s)
        : en(e)
        , L(l)
        , sn(s)
        , depth(s->st.fr.size())
    {
        uid = std::to_string(en.freshCtr++);
        kv = mkVar("$k" + uid, 64, 0, u128(1) << 43);
        for (auto& p : L->getHeader()->phis())
        {
            phis.push_back(&p);
        }
    }

    Val& locOf(State& s, PHINode* p)
    {
        Frame& f = s.fr[depth - 1];
        return f.loc[f.fi->slot.at(p)];
    }

    // state at the header at the start of iteration k
    State build(E k, bool final)
    {
        State s = sn->st;
        Frame& f = s.fr.back();
        auto nsn = std::make_shared<LoopSnap>();
        nsn->tried = true;
        f.snaps.emplace_back(L, nsn);
        for (auto it = f.forks.begin(); it != f.forks.end();)
        {
            it = L->contains(it->first->getParent()) ? f.forks.erase(it) : std::next(it);
        }
        for (size_t i = 0; i < phis.size(); ++i)
        {
            locOf(s, phis[i]).e = pf[i].at(kv, k);
        }
        std::set<u32> objs;
        for (auto& [id, m] : cells)
        {
            objs.insert(id);
        }
        for (auto& [id, m] : maps)
        {
            objs.insert(id);
        }
        for (u32 id : objs)
        {
            if (!en.obj(s, id))
            {
                throw LoopFail{"object"};
            }
            Obj* o = s.mem.mut(id);
            auto mi = maps.find(id);
            if (mi != maps.end())
            {
                for (auto& m : mi->second)
                {
                    auto nd = std::make_shared<Node>();
                    nd->kind = Node::Map;
                    nd->off = m.off;
                    nd->val = m.val;
                    nd->n = m.n;
                    nd->stride = m.stride;
                    nd->count = k;
                    nd->kvar = kv;
                    pushNode(o->c, nd);
                }
            }
            auto ci = cells.find(id);
            if (ci != cells.end())
            {
                for (auto& [off, fm] : ci->second)
                {
                    writeContent(o->c, c64(u64(off)), fm.at(kv, k));
                }
            }
            // freeze, so that the writes of one iteration are exactly what is in front of this point
            if (o->c.cells && !o->c.cells->empty())
            {
                auto nd = std::make_shared<Node>();
                nd->kind = Node::Cells;
                nd->cells = o->c.cells;
                nd->next = o->c.list;
                o->c.list = nd;
                o->c.cells.reset();
            }
        }
        // facts
        for (auto t : bounds)
        {
            en.addPC(s, mkUle(k, t));
        }
        E zero = c64(0), prev = mkSub(k, c64(1));
        if (cont)
        {
            en.addPC(s, mkOr(mkEq(k, zero), subst(cont, kv, prev)));
            if (rest && !isTrue(rest))
            {
                E kq = mkVar("$q" + uid, 64, 0, u128(1) << 43);
                QFact q{kq, k, subst(rest, kv, kq)};
                en.addQFact(s, q);
                en.instantiate(s, q, zero);
            }
        }
        // recurrences of the values without a closed form
        auto rec = [&](const LoopForm& fm)
        {
            if (fm.kind == LoopForm::Unres)
            {
                en.addPC(s, mkEq(mkUF(fm.uf, fm.x0->w, {zero}), fm.x0));
                if (fm.e)
                {
                    en.addPC(s, mkOr(mkEq(k, zero), mkEq(fm.at(kv, k), subst(fm.e, kv, prev))));
                    if (final)
                    {
                        E kq = mkVar("$q" + uid, 64, 0, u128(1) << 43);
                        QFact q{kq, k, mkEq(mkUF(fm.uf, fm.x0->w, {mkAdd(kq, c64(1))}), subst(fm.e, kv, kq))};
                        en.addQFact(s, q);
                    }
                }
            }
        };
        for (auto& fm : pf)
        {
            rec(fm);
        }
        for (auto& [id, m] : cells)
        {
            for (auto& [o, fm] : m)
            {
                rec(fm);
            }
        }
        return s;
    }

    struct Outcome
    {
        std::vector<State> back, exits;
    };

    Outcome run(State g, u64 limit)
    {
        Outcome o;
        u64 start = ++g.steps;
        BasicBlock* h = L->getHeader();
        Loop* l = L;
        size_t d = depth;
        auto stop = [&, start](State& s) -> bool
        {
            if (s.steps == start)
            {
                ++s.steps;   // the initial state
                return false;
            }
            if (s.fr.size() > d)
            {
                return false;
            }
            if (s.fr.size() == d)
            {
                Frame& f = s.fr.back();
                if (f.bb == h && f.ip == h->getFirstNonPHIIt())
                {
                    o.back.push_back(s);
                    return true;
                }
                if (l->contains(f.bb))
                {
                    return false;
                }
            }
            o.exits.push_back(s);
            return true;
        };
        std::vector<State> init;
        init.push_back(std::move(g));
        en.explore(std::move(init), stop, limit);
        return o;
    }

    static E conj(const std::vector<E>& v, size_t from)
    {
        E r = mkBool(true);
        for (size_t i = from; i < v.size(); ++i)
        {
            r = mkAnd(r, v[i]);
        }
        return r;
    }

    E merge(const std::vector<E>& cond, const std::vector<E>& val)
    {
        E r = val.back();
        for (size_t i = val.size() - 1; i-- > 0;)
        {
            r = mkIte(cond[i], val[i], r);
        }
        return r;
    }

    struct Write
    {
        bool sym = false;
        i64 coff = 0;
        E off = nullptr;
        u32 n = 0;
        E val = nullptr;
    };

    // writes of one iteration to one object, newest first
    std::vector<Write> writesOf(const Content& g, const Content& b)
    {
        std::vector<Write> r;
        auto addCells = [&](const CellMap& m, const CellMap* old)
        {
            for (auto& [o, c] : m)
            {
                if (old)
                {
                    auto it = old->find(o);
                    if (it != old->end() && it->second.v == c.v && it->second.n == c.n)
                    {
                        continue;
                    }
                }
                Write w;
                w.coff = o;
                w.n = c.n;
                w.val = c.v;
                r.push_back(w);
            }
        };
        const Node* stopAt = g.list.get();
        if (b.cells && b.cells != g.cells)
        {
            addCells(*b.cells, b.list.get() == stopAt ? g.cells.get() : nullptr);
        }
        const Node* nd = b.list.get();
        while (nd != stopAt)
        {
            if (!nd)
            {
                throw LoopFail{"contents replaced"};
            }
            if (nd->kind == Node::Cells)
            {
                // the cells of the entry state, frozen by a symbolic store of this iteration
                addCells(*nd->cells, g.cells.get());
            }
            else if (nd->kind == Node::Store)
            {
                Write w;
                w.sym = true;
                w.off = nd->off;
                w.n = nd->n;
                w.val = nd->val;
                r.push_back(w);
            }
            else
            {
                throw LoopFail{"block write in the loop body"};
            }
            nd = nd->next.get();
        }
        return r;
    }

    // analyse the back states against the current description; true when nothing changed
    bool analyse(State& g, std::vector<State>& back, bool first)
    {
        bool stable = true;
        size_t np = g.pc.size();
        std::vector<E> conds;
        for (auto& b : back)
        {
            conds.push_back(conj(b.pc, np));
        }
        E kE = first ? c64(0) : kv;
        // ---- continuation condition
        {
            // conjuncts common to all back states
            std::vector<E> common;
            for (size_t i = np; i < back[0].pc.size(); ++i)
            {
                E c = back[0].pc[i];
                bool all = true;
                for (auto& b : back)
                {
                    all = all && en.inPC(b, c);
                }
                if (all)
                {
                    common.push_back(c);
                }
            }
            E rst = mkBool(false);
            for (auto& b : back)
            {
                E r = mkBool(true);
                for (size_t i = np; i < b.pc.size(); ++i)
                {
                    if (std::find(common.begin(), common.end(), b.pc[i]) == common.end())
                    {
                        r = mkAnd(r, b.pc[i]);
                    }
                }
                rst = mkOr(rst, r);
            }
            if (!first)
            {
                std::vector<E> nb;
                E rr = rst;
                for (auto c : common)
                {
                    E t = boundOf(c);
                    if (t)
                    {
                        nb.push_back(t);
                    }
                    else
                    {
                        rr = mkAnd(rr, c);
                    }
                }
                E nc = mkAnd(conj(common, 0), rst);
                if (nc != cont || nb != bounds)
                {
                    stable = false;
                }
                cont = nc;
                bounds = nb;
                rest = rr;
                // a continuation condition over values without closed form is fine: they are functions of k
            }
        }
        // ---- phis
        auto update = [&](LoopForm& f, E next, bool isNew)
        {
            if (first)
            {
                E d = mkSub(next, f.x0);
                if (isC(d))
                {
                    f.kind = LoopForm::Affine;
                    f.step = u64(d->c);
                    if (f.x0->w < 64 && ((d->c >> (f.x0->w - 1)) & 1))
                    {
                        f.step = u64(d->c | ~mask(f.x0->w));
                    }
                }
                else
                {
                    f.kind = LoopForm::Unres;
                    if (f.ptr)
                    {
                        throw LoopFail{"pointer without an affine form"};
                    }
                }
                return;
            }
            E want = nullptr;
            if (f.kind != LoopForm::Unres && !isNew)
            {
                want = f.kind == LoopForm::Acc ? nullptr : f.at(kv, mkAdd(kv, c64(1)));
                if (f.kind == LoopForm::Acc)
                {
                    E d = mkSub(next, f.at(kv, kv));
                    if (d == f.e)
                    {
                        return;
                    }
                }
                else if (want == next)
                {
                    return;
                }
                else if (f.kind == LoopForm::Last && next == f.e)
                {
                    return;
                }
                else
                {
                    // equal up to what is known in the generic state?
                    State t = g;
                    if (f.kind == LoopForm::Affine && en.implied(t, mkEq(want, next)))
                    {
                        return;
                    }
                }
                stable = false;
                if (f.ptr)
                {
                    throw LoopFail{"pointer without an affine form"};
                }
                f.kind = LoopForm::Unres;
                f.e = nullptr;
                return;
            }
            // unresolved
            E self = f.at(kv, kv);
            E d = mkSub(next, self);
            if (isC(d))
            {
                f.kind = LoopForm::Affine;
                f.step = u64(d->c);
                if (f.x0->w < 64 && ((d->c >> (f.x0->w - 1)) & 1))
                {
                    f.step = u64(d->c | ~mask(f.x0->w));
                }
                stable = false;
                return;
            }
            if (f.x0->w <= 64 && !hasUnres(d))
            {
                f.kind = LoopForm::Acc;
                f.e = d;
                stable = false;
                return;
            }
            if (!hasUnres(next))
            {
                f.kind = LoopForm::Last;
                f.e = next;
                stable = false;
                return;
            }
            if (f.e != next)
            {
                stable = false;
                f.e = next;
            }
        };
        for (size_t i = 0; i < phis.size(); ++i)
        {
            std::vector<E> vals;
            for (auto& b : back)
            {
                Val& v = locOf(b, phis[i]);
                if (v.t || !v.e)
                {
                    throw LoopFail{"aggregate phi"};
                }
                vals.push_back(v.e);
            }
            update(pf[i], merge(conds, vals), false);
        }
        // ---- memory
        std::set<u32> touched;
        for (auto& b : back)
        {
            if (b.caught.size() != g.caught.size() || b.fr.back().allocas.size() != g.fr.back().allocas.size())
            {
                throw LoopFail{"exception or stack state"};
            }
            if (b.live != g.live)
            {
                throw LoopFail{"heap allocation in the loop body"};
            }
            for (size_t p = 0; p < b.mem.pages.size(); ++p)
            {
                auto* bp = b.mem.pages[p].get();
                auto* gp = p < g.mem.pages.size() ? g.mem.pages[p].get() : nullptr;
                if (bp == gp || !bp)
                {
                    continue;
                }
                for (u32 i = 0; i < ObjTable::PS; ++i)
                {
                    u32 id = u32(p * ObjTable::PS + i);
                    const Obj* bo = (*bp)[i].get();
                    const Obj* go = gp ? (*gp)[i].get() : nullptr;
                    if (bo == go)
                    {
                        continue;
                    }
                    if (id >= g.nextId)
                    {
                        if (bo && !bo->freed && bo->kind == ObjKind::Heap)
                        {
                            throw LoopFail{"heap block survives the iteration"};
                        }
                        continue;
                    }
                    if (!go)
                    {
                        // a global seen for the first time
                        en.obj(g, id);
                        go = g.mem.get(id);
                        if (!go)
                        {
                            throw LoopFail{"object"};
                        }
                    }
                    if (!bo || bo->freed != go->freed)
                    {
                        throw LoopFail{"object freed in the loop body"};
                    }
                    if (bo->c.list != go->c.list || bo->c.cells != go->c.cells)
                    {
                        touched.insert(id);
                    }
                }
            }
        }
        for (u32 id : touched)
        {
            const Content& gc = g.mem.get(id)->c;
            struct Merged { std::vector<E> vals; std::vector<bool> has; };
            std::map<std::pair<i64, u32>, Merged> cw;                // concrete
            std::vector<std::pair<Write, Merged>> sw;               // symbolic
            for (size_t bi = 0; bi < back.size(); ++bi)
            {
                auto* bo = back[bi].mem.get(id);
                if (!bo)
                {
                    throw LoopFail{"object"};
                }
                auto ws = writesOf(gc, bo->c);
                std::set<std::pair<i64, u32>> seenC;
                for (auto& w : ws)
                {
                    if (!w.sym)
                    {
                        if (!seenC.insert({w.coff, w.n}).second)
                        {
                            continue;
                        }
                        auto& m = cw[{w.coff, w.n}];
                        m.vals.resize(back.size());
                        m.vals[bi] = w.val;
                    }
                    else
                    {
                        Merged* mm = nullptr;
                        for (auto& [x, m] : sw)
                        {
                            if (x.off == w.off && x.n == w.n)
                            {
                                mm = &m;
                            }
                        }
                        if (!mm)
                        {
                            sw.push_back({w, {}});
                            mm = &sw.back().second;
                        }
                        mm->vals.resize(back.size());
                        if (!mm->vals[bi])
                        {
                            mm->vals[bi] = w.val;
                        }
                    }
                }
            }
            // concrete cells
            i64 lastEnd = INT64_MIN;
            for (auto& [key, m] : cw)
            {
                auto [o, n] = key;
                if (o < lastEnd)
                {
                    throw LoopFail{"overlapping cells"};
                }
                lastEnd = o + n;
            }
            for (auto& [key, m] : cw)
            {
                auto [o, n] = key;
                auto& forms = cells[id];
                auto it = forms.find(o);
                bool isNew = it == forms.end();
                if (!isNew && it->second.x0->w != n * 8)
                {
                    throw LoopFail{"cell width changed"};
                }
                if (isNew)
                {
                    for (auto& [o2, f2] : forms)
                    {
                        if (o2 < o + i64(n) && o < o2 + i64(f2.x0->w / 8))
                        {
                            throw LoopFail{"overlapping cells"};
                        }
                    }
                    LoopForm f;
                    const Obj* so = en.obj(sn->st, id);
                    f.x0 = readContent(so->c, c64(u64(o)), n);
                    f.uf = "lc" + uid + "_" + std::to_string(id) + "_" + std::to_string(o);
                    f.ptr = n == 8 && isPtrLike(f.x0);
                    it = forms.emplace(o, f).first;
                    stable = false;
                    if (!first)
                    {
                        // first seen now: description starts as unknown, refined in the next round
                        E nx = nullptr;
                        for (auto v : m.vals)
                        {
                            nx = v ? v : nx;
                        }
                        if (f.ptr || isPtrLike(nx))
                        {
                            // assume it is rewritten before use; start from the written value when it is independent
                            bool all = true;
                            for (auto v : m.vals)
                            {
                                all = all && v;
                            }
                            if (!all)
                            {
                                throw LoopFail{"pointer cell"};
                            }
                        }
                    }
                }
                std::vector<E> vals;
                E old = first ? it->second.x0 : isNew ? readContent(gc, c64(u64(o)), n) : it->second.at(kv, kv);
                for (auto v : m.vals)
                {
                    vals.push_back(v ? v : old);
                }
                E next = merge(conds, vals);
                if (isNew && !first)
                {
                    // value seen by this round was the entry value
                    E d = mkSub(next, old);
                    if (isC(d))
                    {
                        it->second.kind = LoopForm::Affine;
                        it->second.step = u64(d->c);
                    }
                    else if (!contains(next, old) && !hasUnres(next))
                    {
                        it->second.kind = LoopForm::Last;
                        it->second.e = next;
                    }
                    else if (it->second.ptr)
                    {
                        throw LoopFail{"pointer cell"};
                    }
                    continue;
                }
                update(it->second, next, false);
            }
            // array writes
            for (auto& [w, m] : sw)
            {
                if (first)
                {
                    throw LoopFail{"symbolic write in the first round"};
                }
                E d = mkSub(subst(w.off, kv, mkAdd(kv, c64(1))), w.off);
                if (!isC(d) || d->c == 0)
                {
                    // not moving, or not affine
                    throw LoopFail{"write at an offset that is not affine in the iteration"};
                }
                i64 st = i64(u64(d->c));
                if (u64(st < 0 ? -st : st) < w.n || hasUnres(w.off))
                {
                    throw LoopFail{"overlapping array writes"};
                }
                LoopMap nm;
                nm.off = subst(w.off, kv, c64(0));
                nm.stride = st;
                nm.n = w.n;
                std::vector<E> vals;
                for (auto v : m.vals)
                {
                    vals.push_back(v ? v : readContent(en.obj(sn->st, id)->c, w.off, w.n));
                }
                nm.val = merge(conds, vals);
                auto& mv = maps[id];
                bool found = false;
                for (auto& x : mv)
                {
                    if (x.off == nm.off && x.stride == nm.stride && x.n == nm.n)
                    {
                        found = true;
                        if (x.val != nm.val)
                        {
                            // equal up to what is known in the generic state?
                            bool same = true;
                            for (size_t b = 0; b < back.size() && same; ++b)
                            {
                                same = vals[b] == x.val || en.implied(back[b], mkEq(vals[b], x.val));
                            }
                            if (!same)
                            {
                                x.val = nm.val;
                                stable = false;
                            }
                        }
                    }
                }
                if (!found)
                {
                    mv.push_back(nm);
                    stable = false;
                }
            }
        }
        // carried cells that were not written this time keep their value: consistent only with a constant form
        if (!first)
        {
            for (auto& [id, forms] : cells)
            {
                if (!touched.count(id))
                {
                    for (auto& [o, f] : forms)
                    {
                        if (!(f.kind == LoopForm::Affine && f.step == 0))
                        {
                            update(f, f.at(kv, kv), false);
                        }
                    }
                    continue;
                }
                const Content& gc = g.mem.get(id)->c;
                for (auto& [o, f] : forms)
                {
                    bool written = false;
                    for (auto& b : back)
                    {
                        for (auto& w : writesOf(gc, b.mem.get(id)->c))
                        {
                            written = written || (!w.sym && w.coff == o);
                        }
                    }
                    if (!written && !(f.kind == LoopForm::Affine && f.step == 0))
                    {
                        update(f, f.at(kv, kv), false);
                    }
                }
            }
        }
        return stable;
    }

    static bool isPtrLike(E x)
    {
        if (!x || x->w != 64)
        {
            return false;
        }
        if (isC(x))
        {
            return x->c >= (u128(1) << SH) && x->c < (u128(1) << 63);
        }
        if (x->k == K::Lin)
        {
            return x->c >= (u128(1) << SH) && x->c < (u128(1) << 63);
        }
        return false;
    }

    bool hasUnres(E e)
    {
        bool r = false;
        std::unordered_set<E> seen;
        std::string p1 = "lp" + uid + "_", p2 = "lc" + uid + "_";
        collect(
            e,
            seen,
            [&](E x)
            {
                if (x->k == K::UF)
                {
                    auto& n = symNames[x->aux];
                    if (n.compare(0, p1.size(), p1) == 0 || n.compare(0, p2.size(), p2) == 0)
                    {
                        r = true;
                    }
                }
            }
        );
        return r;
    }

    // c is a conjunct of the continuation condition; returns t when c says  k != t  (or k < t)
    E boundOf(E c)
    {
        auto isK = [&](E x)
        {
            if (x == kv)
            {
                return true;
            }
            return x->k == K::Extract && x->aux == 0 && x->a[0] == kv;
        };
        auto widen = [&](E t)
        {
            return t->w < 64 ? mkZExt(t, 64) : t;
        };
        auto bound = [&](E a, E b) -> E
        {
            if (isK(a) && !contains(b, kv) && b->w <= 64)
            {
                return widen(b);
            }
            return nullptr;
        };
        if (c->k == K::Xor && isTrue(c->a[1]) && c->a[0]->k == K::Eq)
        {
            E q = c->a[0];
            if (E t = bound(q->a[0], q->a[1]))
            {
                return t;
            }
            if (E t = bound(q->a[1], q->a[0]))
            {
                return t;
            }
            return solveEq(q);
        }
        if (c->k == K::Ult && c->a[0] == kv && !contains(c->a[1], kv))
        {
            return c->a[1];
        }
        if (c->k == K::Ult)
        {
            return solveUlt(c);
        }
        return nullptr;
    }

    // a*k + r != 0 with exact division
    E solveEq(E q)
    {
        E a = q->a[0], b = q->a[1];
        if (a->w != 64)
        {
            // zext'ed narrow comparison: n' = k with widths below 64
            return nullptr;
        }
        E d = mkSub(a, b);   // == 0
        if (d->k != K::Lin)
        {
            return nullptr;
        }
        u128 ck = 0;
        for (size_t i = 0; i < d->a.size(); ++i)
        {
            if (d->a[i] == kv)
            {
                ck = d->coef[i];
            }
        }
        if (ck == 0)
        {
            return nullptr;
        }
        // d = ck*k + r ; k == t  <=>  t = -r/ck
        E r = mkSub(d, mkMulC(kv, ck));
        if (contains(r, kv))
        {
            return nullptr;
        }
        if (ck >> 63)
        {
            ck = (~ck + 1) & mask(64);
        }
        else
        {
            r = mkSub(c64(0), r);
        }
        if (ck == 1)
        {
            return r;
        }
        if (multipleOf(r, ck))
        {
            return mkUDiv(r, c64(ck));
        }
        return nullptr;
    }

    E solveUlt(E c)
    {
        // c1 + k < t (unsigned, no wrap known by range) : k < t - c1 when t >= c1
        E a = c->a[0], b = c->a[1];
        E r = mkSub(a, kv);
        if (a->w == 64 && !contains(r, kv) && !contains(b, kv))
        {
            // r + j < b implies j != b - r (modulo 2^64 too), which is all that is used of the result
            return mkSub(b, r);
        }
        return nullptr;
    }

    bool go()
    {
        // round 0: the first iteration, from the entry state
        State s0 = build0();
        Outcome o0;
        {
            TrialScope ts(en);
            o0 = run(s0, 64);
        }
        if (o0.back.empty())
        {
            throw LoopFail{"no second iteration"};
        }
        if (o0.back.size() > 16)
        {
            throw LoopFail{"too many paths through the body"};
        }
        for (auto* p : phis)
        {
            Val& v = locOf(sn->st, p);
            if (v.t || !v.e)
            {
                throw LoopFail{"aggregate phi"};
            }
            LoopForm f;
            f.x0 = v.e;
            f.uf = "lp" + uid + "_" + std::to_string(pf.size());
            f.ptr = p->getType()->isPointerTy() || isPtrLike(v.e);
            pf.push_back(f);
        }
        try
        {
            analyseFirst(s0, o0.back);
        }
        catch (LoopFail&)
        {
            throw;
        }
        bool ok = false;
        for (int r = 0; r < 9 && !ok; ++r)
        {
            State g = build(kv, false);
            Outcome o;
            {
                TrialScope ts(en);
                o = run(g, 64);
            }
            if (o.back.empty())
            {
                throw LoopFail{"generic iteration has no back edge"};
            }
            if (o.back.size() > 16)
            {
                throw LoopFail{"too many paths through the body"};
            }
            ok = analyse(g, o.back, false);
        }
        if (!ok)
        {
            throw LoopFail{"no fixpoint"};
        }
        for (auto& f : pf)
        {
            imprecise = imprecise || f.kind == LoopForm::Unres;
        }
        for (auto& [id, m] : cells)
        {
            for (auto& [o, f] : m)
            {
                imprecise = imprecise || f.kind == LoopForm::Unres;
            }
        }
        // final: obligations are recorded for real
        State g = build(kv, true);
        if (en.query(g, mkBool(true)) == Res::Unsat)
        {
            throw LoopFail{"generic state infeasible"};
        }
        checkDisjoint(g);
        Log saved;
        Log* outer = en.log;
        Log mine;
        en.log = &mine;
        Outcome o;
        try
        {
            o = run(g, 512);
            // induction step
            if (o.back.empty() || !stableAgain(g, o.back))
            {
                throw LoopFail{"induction step not re-established"};
            }
            for (auto& b : o.back)
            {
                if (!en.implied(b, cont))
                {
                    throw LoopFail{"continuation facts not re-established"};
                }
            }
            if (o.exits.empty())
            {
                throw LoopFail{"no exit"};
            }
        }
        catch (...)
        {
            en.log = outer;
            throw;
        }
        bool bad = false;
        for (auto& [n, ob] : mine.obl)
        {
            bad = bad || ob.failed || ob.unknown;
        }
        std::vector<State> out;
        std::vector<E> clean;
        for (auto& x : o.exits)
        {
            E t = nullptr;
            for (auto b : bounds)
            {
                if (en.implied(x, mkEq(kv, b)))
                {
                    t = b;
                    break;
                }
            }
            if (t)
            {
                if (std::find(clean.begin(), clean.end(), t) == clean.end())
                {
                    clean.push_back(t);
                }
            }
            else
            {
                out.push_back(std::move(x));
            }
        }
        for (auto t : clean)
        {
            State x = build(t, true);
            if (en.query(x, mkBool(true)) == Res::Unsat)
            {
                continue;
            }
            Outcome oo;
            try
            {
                oo = run(x, 512);
            }
            catch (...)
            {
                en.log = outer;
                throw;
            }
            if (!oo.back.empty())
            {
                en.log = outer;
                throw LoopFail{"exit state re-enters the loop"};
            }
            for (auto& y : oo.exits)
            {
                out.push_back(std::move(y));
            }
        }
        en.log = outer;
        for (auto& [n, ob] : mine.obl)
        {
            bad = bad || ob.failed || ob.unknown;
        }
        if (bad && (imprecise || en.opt.strictLoops))
        {
            // the description is too weak for this obligation: leave the decision to bounded unrolling
            throw LoopFail{"obligation not decided by the summary"};
        }
        en.log->merge(mine);
        for (auto& y : out)
        {
            if (imprecise)
            {
                y.abstracted = true;
            }
            en.work.push_back(std::move(y));
        }
        return true;
    }

    bool stableAgain(State& g, std::vector<State>& back)
    {
        auto spf = pf;
        auto sc = cells;
        auto sm = maps;
        auto sb = bounds;
        auto sr = rest;
        auto sco = cont;
        bool dummy = analyse(g, back, false);
        (void) dummy;
        bool ok = true;
        for (size_t i = 0; i < pf.size(); ++i)
        {
            ok = ok && pf[i].same(spf[i]);
        }
        ok = ok && cells.size() == sc.size() && maps.size() == sm.size();
        if (ok)
        {
            for (auto& [id, m] : cells)
            {
                auto& m2 = sc[id];
                ok = ok && m.size() == m2.size();
                for (auto& [o, f] : m)
                {
                    ok = ok && m2.count(o) && m2[o].same(f);
                }
            }
            for (auto& [id, v] : maps)
            {
                auto& v2 = sm[id];
                ok = ok && v.size() == v2.size();
                for (size_t i = 0; ok && i < v.size(); ++i)
                {
                    ok = v[i].same(v2[i]);
                }
            }
        }
        // the continuation facts assumed are the ones checked by the caller
        pf = spf;
        cells = sc;
        maps = sm;
        bounds = sb;
        rest = sr;
        cont = sco;
        return ok;
    }

    void checkDisjoint(State& g)
    {
        E k1 = mkAdd(kv, c64(1));
        for (auto& [id, v] : maps)
        {
            auto range = [&](const LoopMap& m, E& lo, E& len)
            {
                u64 as = m.stride < 0 ? u64(-m.stride) : u64(m.stride);
                len = mkAdd(mkMulC(kv, as), c64(m.n));
                lo = m.stride > 0 ? m.off : mkSub(m.off, mkMulC(kv, as));
            };
            for (size_t i = 0; i < v.size(); ++i)
            {
                E lo, len;
                range(v[i], lo, len);
                auto ci = cells.find(id);
                if (ci != cells.end())
                {
                    for (auto& [o, f] : ci->second)
                    {
                        E n = c64(f.x0->w / 8);
                        E a = c64(u64(o));
                        E disj = mkOr(mkUle(mkAdd(a, n), lo), mkUle(mkAdd(lo, len), a));
                        if (!en.implied(g, disj))
                        {
                            throw LoopFail{"array and cell may overlap"};
                        }
                    }
                }
                for (size_t j = i + 1; j < v.size(); ++j)
                {
                    E d = mkSub(v[j].off, v[i].off);
                    if (v[i].stride == v[j].stride && isC(d))
                    {
                        i64 st = v[i].stride < 0 ? -v[i].stride : v[i].stride;
                        i64 x = i64(u64(d->c)) % st;
                        if (x < 0)
                        {
                            x += st;
                        }
                        if (x >= i64(v[i].n) && x + i64(v[j].n) <= st)
                        {
                            continue;
                        }
                    }
                    E lo2, len2;
                    range(v[j], lo2, len2);
                    E disj = mkOr(mkUle(mkAdd(lo2, len2), lo), mkUle(mkAdd(lo, len), lo2));
                    if (!en.implied(g, disj))
                    {
                        throw LoopFail{"arrays may overlap"};
                    }
                }
            }
        }
        (void) k1;
    }

    State build0()
    {
        State s = sn->st;
        Frame& f = s.fr.back();
        auto nsn = std::make_shared<LoopSnap>();
        nsn->tried = true;
        f.snaps.emplace_back(L, nsn);
        for (auto it = f.forks.begin(); it != f.forks.end();)
        {
            it = L->contains(it->first->getParent()) ? f.forks.erase(it) : std::next(it);
        }
        return s;
    }

    // guesses from the first iteration: affine steps; symbolic writes of the first round are found by the next rounds
    void analyseFirst(State& g, std::vector<State>& back)
    {
        // symbolic stores are ignored here: strip them
        size_t np = g.pc.size();
        std::vector<E> conds;
        for (auto& b : back)
        {
            conds.push_back(conj(b.pc, np));
        }
        for (size_t i = 0; i < phis.size(); ++i)
        {
            std::vector<E> vals;
            for (auto& b : back)
            {
                Val& v = locOf(b, phis[i]);
                if (v.t || !v.e)
                {
                    throw LoopFail{"aggregate phi"};
                }
                vals.push_back(v.e);
            }
            LoopForm& f = pf[i];
            E d = mkSub(merge(conds, vals), f.x0);
            if (isC(d))
            {
                f.kind = LoopForm::Affine;
                f.step = u64(d->c);
            }
            else
            {
                f.kind = LoopForm::Unres;
                if (f.ptr)
                {
                    throw LoopFail{"pointer without an affine form"};
                }
            }
        }
        // memory cells at concrete offsets
        std::set<u32> ids;
        for (auto& b : back)
        {
            for (u32 id = 1; id < g.nextId; ++id)
            {
                const Obj* bo = b.mem.get(id);
                const Obj* go = g.mem.get(id);
                if (bo == go || !bo || !go)
                {
                    continue;
                }
                if (bo->c.list == go->c.list && bo->c.cells != go->c.cells && bo->c.cells)
                {
                    for (auto& w : writesOf(go->c, bo->c))
                    {
                        auto& forms = cells[id];
                        bool clash = false;
                        for (auto& [o2, f2] : forms)
                        {
                            clash = clash || (o2 < w.coff + i64(w.n) && w.coff < o2 + i64(f2.x0->w / 8));
                        }
                        if (clash)
                        {
                            continue;
                        }
                        LoopForm f;
                        f.x0 = readContent(go->c, c64(u64(w.coff)), w.n);
                        f.uf = "lc" + uid + "_" + std::to_string(id) + "_" + std::to_string(w.coff);
                        std::vector<E> vals;
                        for (auto& b2 : back)
                        {
                            vals.push_back(readContent(b2.mem.get(id)->c, c64(u64(w.coff)), w.n));
                        }
                        E nx = merge(conds, vals);
                        f.ptr = w.n == 8 && (isPtrLike(f.x0) || isPtrLike(nx));
                        E d = mkSub(nx, f.x0);
                        // an array element is not a carried cell: only keep it when it moves by a constant or is rewritten
                        if (isC(d) && !(f.x0->k == K::UF && symNames[f.x0->aux].find('#') == std::string::npos))
                        {
                            f.kind = LoopForm::Affine;
                            f.step = u64(d->c);
                        }
                        else if (f.ptr)
                        {
                            // rewritten with a pointer: constant after the first iteration?
                            f.kind = LoopForm::Last;
                            f.e = nx;
                        }
                        forms[w.coff] = f;
                    }
                }
            }
        }
        // drop cells of objects that are really arrays indexed by the iteration: they reappear as symbolic writes
        for (auto it = cells.begin(); it != cells.end();)
        {
            const Obj* o = en.obj(sn->st, it->first);
            bool arr = o && o->kind == ObjKind::Heap && !isC(o->size);
            it = arr ? cells.erase(it) : std::next(it);
        }
    }

    struct TrialScope
    {
        Engine& en;
        Log tmp;
        Log* old;
        bool ot;

        explicit TrialScope(Engine& e)
            : en(e)
            , old(e.log)
            , ot(e.trial)
        {
            en.log = &tmp;
            en.trial = true;
        }

        ~TrialScope()
        {
            en.log = old;
            en.trial = ot;
        }
    };
};

