// If-conversion: a small acyclic region of plain loads, stores and arithmetic between a branch and its join is
// executed once with guarded effects instead of on two paths.  The guards keep it exact: a store under guard g
// writes ite(g, value, old value), and obligations inside the region are checked under g.
struct Region
{
    bool ok = false;
    std::vector<BasicBlock*> topo;
    BasicBlock* join = nullptr;
};

Region buildRegion(FnInfo* fi, BranchInst* br)
{
    Region r;
    if (!fi->pdt)
    {
        fi->pdt = std::make_unique<PostDominatorTree>(*fi->f);
    }
    BasicBlock* bb = br->getParent();
    auto* node = fi->pdt->getNode(bb);
    if (!node || !node->getIDom() || !node->getIDom()->getBlock())
    {
        return r;
    }
    BasicBlock* join = node->getIDom()->getBlock();
    Loop* l = fi->li->getLoopFor(bb);
    if (fi->li->getLoopFor(join) != l || (l && l->getHeader() == join))
    {
        return r;
    }
    std::vector<BasicBlock*> order, st;
    std::set<BasicBlock*> in;
    for (auto* b : successors(bb))
    {
        if (b != join && in.insert(b).second)
        {
            st.push_back(b);
        }
    }
    size_t insts = 0;
    while (!st.empty())
    {
        auto* b = st.back();
        st.pop_back();
        order.push_back(b);
        if (order.size() > 8 || fi->li->getLoopFor(b) != l || (l && l->getHeader() == b) || b == bb)
        {
            return r;
        }
        auto* t = dyn_cast<BranchInst>(b->getTerminator());
        if (!t)
        {
            return r;
        }
        for (auto& i : *b)
        {
            if (&i == t || isa<DbgInfoIntrinsic>(i))
            {
                continue;
            }
            if (++insts > 60)
            {
                return r;
            }
            bool plain = isa<BinaryOperator>(i) || isa<CastInst>(i) || isa<ICmpInst>(i) || isa<GetElementPtrInst>(i)
                         || isa<PHINode>(i) || isa<SelectInst>(i) || isa<LoadInst>(i) || isa<StoreInst>(i) || isa<FreezeInst>(i);
            if (!plain)
            {
                return r;
            }
            if (isa<PHINode>(i) && !i.getType()->isIntegerTy())
            {
                return r;
            }
            if (auto* s = dyn_cast<StoreInst>(&i))
            {
                if (!s->getValueOperand()->getType()->isIntegerTy())
                {
                    return r;
                }
            }
            if (auto* s = dyn_cast<LoadInst>(&i))
            {
                if (s->getType()->isVectorTy() || s->getType()->isAggregateType())
                {
                    return r;
                }
            }
        }
        for (auto* n : successors(b))
        {
            if (n != join && in.insert(n).second)
            {
                st.push_back(n);
            }
        }
    }
    for (auto* b : order)
    {
        for (auto* p : predecessors(b))
        {
            if (p != bb && !in.count(p))
            {
                return r;
            }
        }
    }
    for (auto& p : join->phis())
    {
        if (!p.getType()->isIntegerTy())
        {
            return r;
        }
    }
    // topological order
    std::set<BasicBlock*> done;
    while (done.size() < order.size())
    {
        bool moved = false;
        for (auto* b : order)
        {
            if (done.count(b))
            {
                continue;
            }
            bool ready = true;
            for (auto* p : predecessors(b))
            {
                ready = ready && (p == bb || done.count(p));
            }
            if (ready)
            {
                done.insert(b);
                r.topo.push_back(b);
                moved = true;
            }
        }
        if (!moved)
        {
            return r;
        }
    }
    r.join = join;
    r.ok = true;
    return r;
}

std::unordered_map<const BranchInst*, Region> regions;

bool tryMerge(State& s, E c, BranchInst* br)
{
    auto it = regions.find(br);
    if (it == regions.end())
    {
        it = regions.emplace(br, buildRegion(s.fr.back().fi, br)).first;
    }
    const Region& r = it->second;
    if (!r.ok)
    {
        return false;
    }
    State back = s;
    size_t pc0 = s.pc.size();
    BasicBlock* bb = br->getParent();
    std::map<std::pair<BasicBlock*, BasicBlock*>, E> edge;
    auto flow = [&](BasicBlock* b, E p, BranchInst* t, E cond)
    {
        if (t->isUnconditional() || t->getSuccessor(0) == t->getSuccessor(1))
        {
            edge[{b, t->getSuccessor(0)}] = p;
            return;
        }
        edge[{b, t->getSuccessor(0)}] = mkAnd(p, cond);
        edge[{b, t->getSuccessor(1)}] = mkAnd(p, mkNot(cond));
    };
    auto phiVals = [&](BasicBlock* to)
    {
        std::vector<std::pair<PHINode*, Val>> vals;
        for (auto& ph : to->phis())
        {
            E v = nullptr;
            for (unsigned k = 0; k < ph.getNumIncomingValues(); ++k)
            {
                auto e = edge.find({ph.getIncomingBlock(k), to});
                if (e == edge.end() || isFalse(e->second))
                {
                    continue;
                }
                E x = get(s, ph.getIncomingValue(k)).e;
                v = v ? mkIte(e->second, x, v) : x;
            }
            vals.emplace_back(&ph, Val{v, nullptr});
        }
        for (auto& [p, v] : vals)
        {
            s.fr.back().loc[s.fr.back().fi->slot.at(p)] = v;
        }
    };
    bool quiet0 = quiet;
    try
    {
        quiet = true;
        flow(bb, mkBool(true), br, c);
        for (auto* b : r.topo)
        {
            E p = mkBool(false);
            for (auto* q : predecessors(b))
            {
                auto e = edge.find({q, b});
                if (e != edge.end())
                {
                    p = mkOr(p, e->second);
                }
            }
            if (isFalse(p))
            {
                continue;
            }
            phiVals(b);
            auto proved0 = s.proved;
            addPC(s, p);
            for (auto& i : *b)
            {
                if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i) || i.isTerminator())
                {
                    continue;
                }
                s.fr.back().bb = b;
                s.fr.back().ip = i.getIterator();
                if (auto* st = dyn_cast<StoreInst>(&i))
                {
                    noteLoc(i);
                    E a = getE(s, st->getPointerOperand());
                    Type* ty = st->getValueOperand()->getType();
                    E v = get(s, st->getValueOperand()).e;
                    if (!isTrue(p))
                    {
                        v = mkIte(p, v, load(s, a, ty).e);
                    }
                    store(s, a, {v, nullptr}, ty);
                }
                else
                {
                    step(s);
                }
            }
            auto* t = cast<BranchInst>(b->getTerminator());
            E tc = t->isConditional() ? getE(s, t->getCondition()) : mkBool(true);
            s.pc.resize(pc0);
            s.proved = std::move(proved0);
            flow(b, p, t, tc);
        }
        phiVals(r.join);
    }
    catch (ForkOn&)
    {
        quiet = quiet0;
        s = std::move(back);
        return false;
    }
    catch (PathEnd&)
    {
        quiet = quiet0;
        if (timedOut)
        {
            throw;
        }
        s = std::move(back);
        return false;
    }
    catch (Unsupported&)
    {
        quiet = quiet0;
        s = std::move(back);
        return false;
    }
    quiet = quiet0;
    Frame& f = s.fr.back();
    f.prev = r.topo.empty() ? bb : r.topo.back();
    f.bb = r.join;
    f.ip = r.join->getFirstNonPHIIt();
    ++nMerged;
    return true;
}
