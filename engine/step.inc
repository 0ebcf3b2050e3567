void Engine::branchOn(State& s, E c, BasicBlock* t, BasicBlock* f, Instruction& i)
{
    int k = known(s, c);
    if (k >= 0)
    {
        jump(s, k ? t : f);
        return;
    }
    Res rt = feasible(s, c);
    if (rt == Res::Unsat)
    {
        s.proved.insert(mkNot(c));
        jump(s, f);
        return;
    }
    Res rf = feasible(s, mkNot(c));
    if (rf == Res::Unsat)
    {
        s.proved.insert(c);
        jump(s, t);
        return;
    }
    if (opt.merge && isa<BranchInst>(i) && tryMerge(s, c, cast<BranchInst>(&i)))
    {
        return;
    }
    // genuine fork; is this the exit test of a loop?
    Frame& fr = s.fr.back();
    Loop* l = fr.fi->li->getLoopFor(fr.bb);
    bool dropT = false, dropF = false;
    if (l)
    {
        bool inT = l->contains(t), inF = l->contains(f);
        if (inT != inF)
        {
            std::string lname = userFn(s) + " [" + locOf(s).substr(0, 160) + "]";
            if (opt.summarise)
            {
                // the innermost snapshot that belongs to l
                std::shared_ptr<LoopSnap> sn;
                for (auto& p : fr.snaps)
                {
                    if (p.first == l)
                    {
                        sn = p.second;
                    }
                }
                if (sn && sn->done)
                {
                    throw PathEnd{"covered by the loop summary"};
                }
                if (sn && !sn->tried)
                {
                    sn->tried = true;
                    bool ok = false;
                    try
                    {
                        ok = summarise(s, l, sn);
                    }
                    catch (PathEnd& e)
                    {
                        if (timedOut)
                        {
                            throw;
                        }
                        ok = false;
                    }
                    if (ok)
                    {
                        sn->done = true;
                        loopsSummarised.insert(lname);
                        throw PathEnd{"loop summarised"};
                    }
                    loopsFailed.insert(lname);
                }
            }
            u32& cnt = fr.forks[&i];
            if (++cnt > opt.unroll)
            {
                (inT ? dropT : dropF) = true;
                s.bounded.insert(lname);
                log->bounded.insert(lname);
            }
        }
    }
    if (dropT)
    {
        addPC(s, mkNot(c));
        jump(s, f);
        return;
    }
    if (dropF)
    {
        addPC(s, c);
        jump(s, t);
        return;
    }
    if (getenv("VF_FORKS"))
    {
        std::cerr << "FORK " << userFn(s) << " [" << locOf(s).substr(0, 120) << "]\n";
    }
    State o = s;
    addPC(o, mkNot(c));
    jump(o, f);
    addPC(s, c);
    jump(s, t);
    work.push_back(std::move(o));
}

void Engine::step(State& s)
{
    Frame& fr = s.fr.back();
    Instruction& i = *fr.ip;
    ++nSteps;
    noteLoc(i);
    if ((nSteps & 4095) == 0)
    {
        checkTime();
    }
    switch (i.getOpcode())
    {
        case Instruction::Br:
        {
            auto& b = cast<BranchInst>(i);
            if (b.isUnconditional())
            {
                jump(s, b.getSuccessor(0));
            }
            else
            {
                E c = getE(s, b.getCondition());
                branchOn(s, c, b.getSuccessor(0), b.getSuccessor(1), i);
            }
            return;
        }
        case Instruction::Switch:
        {
            auto& sw = cast<SwitchInst>(i);
            E v = getE(s, sw.getCondition());
            if (isC(v))
            {
                for (auto& cs : sw.cases())
                {
                    if (ap(cs.getCaseValue()->getValue()) == v->c)
                    {
                        jump(s, cs.getCaseSuccessor());
                        return;
                    }
                }
                jump(s, sw.getDefaultDest());
                return;
            }
            std::vector<std::pair<E, BasicBlock*>> alts;
            E none = mkBool(true);
            std::map<BasicBlock*, E> byDest;
            for (auto& cs : sw.cases())
            {
                E eq = mkEq(v, mkConst(ap(cs.getCaseValue()->getValue()), v->w));
                none = mkAnd(none, mkNot(eq));
                auto& d = byDest[cs.getCaseSuccessor()];
                d = d ? mkOr(d, eq) : eq;
            }
            auto& dd = byDest[sw.getDefaultDest()];
            dd = dd ? mkOr(dd, none) : none;
            std::vector<std::pair<E, BasicBlock*>> feas;
            for (auto& [b, c] : byDest)
            {
                if (feasible(s, c) != Res::Unsat)
                {
                    feas.emplace_back(c, b);
                }
            }
            if (feas.empty())
            {
                throw PathEnd{"infeasible"};
            }
            for (size_t k = 1; k < feas.size(); ++k)
            {
                State o = s;
                addPC(o, feas[k].first);
                jump(o, feas[k].second);
                work.push_back(std::move(o));
            }
            addPC(s, feas[0].first);
            jump(s, feas[0].second);
            return;
        }
        case Instruction::Ret:
        {
            auto& r = cast<ReturnInst>(i);
            Val v;
            bool has = r.getReturnValue() != nullptr;
            if (has)
            {
                v = get(s, r.getReturnValue());
            }
            popFrame(s);
            if (s.fr.empty())
            {
                throw PathEnd{"done"};
            }
            auto& cb = cast<CallBase>(*s.fr.back().ip);
            if (has)
            {
                setResult(s, cb, v);
            }
            advance(s);
            return;
        }
        case Instruction::Call:
        case Instruction::Invoke:
            execCall(s, cast<CallBase>(i));
            return;
        case Instruction::Unreachable:
            definiteFail(s, "no-undefined-behaviour: " + userFn(s), "reached code the compiler marked unreachable");
            return;
        case Instruction::Resume:
        {
            // continue unwinding in the caller
            if (s.fr.size() == 1)
            {
                definiteFail(s, "uncaught-exception", "exception " + s.cur.tiName + " leaves the harness");
            }
            popFrame(s);
            unwind(s);
            return;
        }
        case Instruction::LandingPad:
        {
            auto& lp = cast<LandingPadInst>(i);
            u32 sel = 0;
            bool match = false;
            for (unsigned k = 0; k < lp.getNumClauses() && !match; ++k)
            {
                if (lp.isCatch(k))
                {
                    auto* c = lp.getClause(k);
                    if (isa<ConstantPointerNull>(c))
                    {
                        match = true;
                        sel = tiId("");
                    }
                    else if (tiDerives(s.cur.tiName, tiOf(c)))
                    {
                        match = true;
                        sel = tiId(tiOf(c));
                    }
                }
                else
                {
                    // exception specification: empty filter catches everything
                    match = true;
                    sel = u32(-1);
                }
            }
            if (!match && !lp.isCleanup())
            {
                if (s.fr.size() == 1)
                {
                    definiteFail(s, "uncaught-exception", "exception " + s.cur.tiName + " leaves the harness");
                }
                popFrame(s);
                unwind(s);
                return;
            }
            Val r;
            r.t = std::make_shared<std::vector<Val>>();
            r.t->push_back({c64(s.cur.ptr), nullptr});
            r.t->push_back({mkConst(sel, 32), nullptr});
            setLoc(s, i, r);
            ++fr.ip;
            return;
        }
        case Instruction::Alloca:
        {
            auto& al = cast<AllocaInst>(i);
            E n = getE(s, al.getArraySize());
            u64 cnt = isC(n) ? u64(n->c) : concretise(s, n, "alloca");
            u64 sz = cnt * DL.getTypeAllocSize(al.getAllocatedType()).getFixedValue();
            u32 id = newObj(s, ObjKind::Stack, c64(sz), al.hasName() ? "local " + al.getName().str() : "local");
            s.fr.back().allocas.push_back(id);
            setLoc(s, i, {addrOf(id), nullptr});
            ++s.fr.back().ip;
            return;
        }
        case Instruction::Load:
        {
            auto& l = cast<LoadInst>(i);
            Val v = load(s, getE(s, l.getPointerOperand()), l.getType());
            setLoc(s, i, v);
            break;
        }
        case Instruction::Store:
        {
            auto& st = cast<StoreInst>(i);
            store(s, getE(s, st.getPointerOperand()), get(s, st.getValueOperand()), st.getValueOperand()->getType());
            break;
        }
        case Instruction::GetElementPtr:
        {
            auto& g = cast<GetElementPtrInst>(i);
            if (g.getType()->isVectorTy())
            {
                throw Unsupported{"vector gep"};
            }
            E a = getE(s, g.getPointerOperand());
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
            {
                E x = getE(s, it.getOperand());
                if (auto* stt = it.getStructTypeOrNull())
                {
                    a = mkAdd(a, c64(DL.getStructLayout(stt)->getElementOffset(unsigned(x->c))));
                }
                else
                {
                    u64 sz = DL.getTypeAllocSize(it.getIndexedType()).getFixedValue();
                    if (x->w < 64)
                    {
                        x = mkSExt(x, 64);
                    }
                    a = mkAdd(a, mkMulC(x, sz));
                }
            }
            setLoc(s, i, {a, nullptr});
            break;
        }
        case Instruction::PHI:
            // evaluated by jump()
            break;
        case Instruction::Select:
        {
            auto& sl = cast<SelectInst>(i);
            Val c = get(s, sl.getCondition()), a = get(s, sl.getTrueValue()), b = get(s, sl.getFalseValue());
            if (c.t)
            {
                Val r;
                r.t = std::make_shared<std::vector<Val>>();
                for (size_t k = 0; k < c.t->size(); ++k)
                {
                    r.t->push_back({mkIte((*c.t)[k].e, (*a.t)[k].e, (*b.t)[k].e), nullptr});
                }
                setLoc(s, i, r);
            }
            else if (a.t)
            {
                int k = known(s, c.e);
                if (k < 0)
                {
                    throw ForkOn{c.e};
                }
                setLoc(s, i, k ? a : b);
            }
            else if (i.getType()->isPointerTy() && !isC(c.e) && a.e != b.e)
            {
                // keep pointers based on a single object
                E d = mkSub(a.e, b.e);
                bool sameObj = isC(d) ? (u64(d->c) + HALF) < 2 * HALF : (d->k == K::Lin ? (u64(d->c) + HALF) < 2 * HALF : true);
                if (sameObj && !(isC(a.e) && isC(b.e) && (a.e->c == 0 || b.e->c == 0)))
                {
                    // base + ite(...)
                    u64 base = isC(b.e) || b.e->k == K::Lin ? u64(b.e->c) : 0;
                    u32 id = u32((base + HALF) >> SH);
                    if (id)
                    {
                        E B = addrOf(id);
                        setLoc(s, i, {mkAdd(B, mkIte(c.e, mkSub(a.e, B), mkSub(b.e, B))), nullptr});
                        break;
                    }
                }
                int k = known(s, c.e);
                if (k < 0)
                {
                    if (implied(s, c.e))
                    {
                        k = 1;
                    }
                    else if (implied(s, mkNot(c.e)))
                    {
                        k = 0;
                    }
                    else
                    {
                        throw ForkOn{c.e};
                    }
                }
                setLoc(s, i, k ? a : b);
            }
            else
            {
                setLoc(s, i, {mkIte(c.e, a.e, b.e), nullptr});
            }
            break;
        }
        case Instruction::ICmp:
        {
            auto& c = cast<ICmpInst>(i);
            Val a = get(s, c.getOperand(0)), b = get(s, c.getOperand(1));
            if (a.t)
            {
                Val r;
                r.t = std::make_shared<std::vector<Val>>();
                for (size_t k = 0; k < a.t->size(); ++k)
                {
                    r.t->push_back({icmp(c.getPredicate(), (*a.t)[k].e, (*b.t)[k].e), nullptr});
                }
                setLoc(s, i, r);
            }
            else
            {
                setLoc(s, i, {icmp(c.getPredicate(), a.e, b.e), nullptr});
            }
            break;
        }
        case Instruction::FCmp:
        {
            auto& c = cast<FCmpInst>(i);
            setLoc(s, i, {fcmp(c.getPredicate(), getE(s, c.getOperand(0)), getE(s, c.getOperand(1))), nullptr});
            break;
        }
        case Instruction::ExtractValue:
        {
            auto& x = cast<ExtractValueInst>(i);
            Val v = get(s, x.getAggregateOperand());
            for (unsigned k : x.indices())
            {
                Val n = (*v.t)[k];
                v = n;
            }
            setLoc(s, i, v);
            break;
        }
        case Instruction::InsertValue:
        {
            auto& x = cast<InsertValueInst>(i);
            Val v = get(s, x.getAggregateOperand());
            Val nv = get(s, x.getInsertedValueOperand());
            std::function<Val(const Val&, unsigned)> ins = [&](const Val& o, unsigned d) -> Val
            {
                if (d == x.getNumIndices())
                {
                    return nv;
                }
                Val r;
                r.t = std::make_shared<std::vector<Val>>(*o.t);
                (*r.t)[x.getIndices()[d]] = ins((*o.t)[x.getIndices()[d]], d + 1);
                return r;
            };
            setLoc(s, i, ins(v, 0));
            break;
        }
        case Instruction::ExtractElement:
        {
            Val v = get(s, i.getOperand(0));
            E x = getE(s, i.getOperand(1));
            u64 k = isC(x) ? u64(x->c) : concretise(s, x, "vector index");
            setLoc(s, i, (*v.t).at(k));
            break;
        }
        case Instruction::InsertElement:
        {
            Val v = get(s, i.getOperand(0));
            E x = getE(s, i.getOperand(2));
            u64 k = isC(x) ? u64(x->c) : concretise(s, x, "vector index");
            Val r;
            r.t = std::make_shared<std::vector<Val>>(*v.t);
            r.t->at(k) = get(s, i.getOperand(1));
            setLoc(s, i, r);
            break;
        }
        case Instruction::ShuffleVector:
        {
            auto& sv = cast<ShuffleVectorInst>(i);
            Val a = get(s, sv.getOperand(0)), b = get(s, sv.getOperand(1));
            Val r;
            r.t = std::make_shared<std::vector<Val>>();
            int n = int(a.t->size());
            for (int m : sv.getShuffleMask())
            {
                r.t->push_back(m < 0 ? (*a.t)[0] : m < n ? (*a.t)[size_t(m)] : (*b.t)[size_t(m - n)]);
            }
            setLoc(s, i, r);
            break;
        }
        case Instruction::Freeze:
            setLoc(s, i, get(s, i.getOperand(0)));
            break;
        case Instruction::Fence:
            break;
        case Instruction::AtomicRMW:
        {
            auto& a = cast<AtomicRMWInst>(i);
            E p = getE(s, a.getPointerOperand());
            E old = load(s, p, a.getType()).e;
            E v = getE(s, a.getValOperand());
            E n;
            switch (a.getOperation())
            {
                case AtomicRMWInst::Add:
                    n = mkAdd(old, v);
                    break;
                case AtomicRMWInst::Sub:
                    n = mkSub(old, v);
                    break;
                case AtomicRMWInst::Xchg:
                    n = v;
                    break;
                case AtomicRMWInst::And:
                    n = mkAnd(old, v);
                    break;
                case AtomicRMWInst::Or:
                    n = mkOr(old, v);
                    break;
                default:
                    throw Unsupported{"atomicrmw"};
            }
            store(s, p, {n, nullptr}, a.getType());
            setLoc(s, i, {old, nullptr});
            break;
        }
        case Instruction::AtomicCmpXchg:
        {
            auto& a = cast<AtomicCmpXchgInst>(i);
            E p = getE(s, a.getPointerOperand());
            Type* t = a.getCompareOperand()->getType();
            E old = load(s, p, t).e;
            E ok = mkEq(old, getE(s, a.getCompareOperand()));
            store(s, p, {mkIte(ok, getE(s, a.getNewValOperand()), old), nullptr}, t);
            Val r;
            r.t = std::make_shared<std::vector<Val>>();
            r.t->push_back({old, nullptr});
            r.t->push_back({ok, nullptr});
            setLoc(s, i, r);
            break;
        }
        case Instruction::FNeg:
        {
            E x = getE(s, i.getOperand(0));
            setLoc(s, i, {mkXor(x, mkConst(u128(1) << (x->w - 1), x->w)), nullptr});
            break;
        }
        default:
        {
            if (auto* bo = dyn_cast<BinaryOperator>(&i))
            {
                Val a = get(s, bo->getOperand(0)), b = get(s, bo->getOperand(1));
                auto op = [&](E x, E y) -> E
                {
                    switch (bo->getOpcode())
                    {
                        case Instruction::Add:
                            return mkAdd(x, y);
                        case Instruction::Sub:
                            return mkSub(x, y);
                        case Instruction::Mul:
                            return mkMul(x, y);
                        case Instruction::UDiv:
                        case Instruction::SDiv:
                        case Instruction::URem:
                        case Instruction::SRem:
                        {
                            E z = mkNot(mkEq(y, mkConst(0, y->w)));
                            if (!isTrue(z) && !oblige(s, z, "no-division-by-zero: " + userFn(s), "division by zero"))
                            {
                                throw PathEnd{"div by zero"};
                            }
                            return bo->getOpcode() == Instruction::UDiv   ? mkUDiv(x, y)
                                   : bo->getOpcode() == Instruction::SDiv ? mkSDiv(x, y)
                                   : bo->getOpcode() == Instruction::URem ? mkURem(x, y)
                                                                          : mkSRem(x, y);
                        }
                        case Instruction::Shl:
                            return mkShl(x, y);
                        case Instruction::LShr:
                            return mkLShr(x, y);
                        case Instruction::AShr:
                            return mkAShr(x, y);
                        case Instruction::And:
                            return mkAnd(x, y);
                        case Instruction::Or:
                            return mkOr(x, y);
                        case Instruction::Xor:
                            return mkXor(x, y);
                        case Instruction::FAdd:
                            return fbin(FADD, x, y);
                        case Instruction::FSub:
                            return fbin(FSUB, x, y);
                        case Instruction::FMul:
                            return fbin(FMUL, x, y);
                        case Instruction::FDiv:
                            return fbin(FDIV, x, y);
                        case Instruction::FRem:
                            return fbin(FREM, x, y);
                        default:
                            throw Unsupported{"binary op"};
                    }
                };
                if (a.t)
                {
                    Val r;
                    r.t = std::make_shared<std::vector<Val>>();
                    for (size_t k = 0; k < a.t->size(); ++k)
                    {
                        r.t->push_back({op((*a.t)[k].e, (*b.t)[k].e), nullptr});
                    }
                    setLoc(s, i, r);
                }
                else
                {
                    setLoc(s, i, {op(a.e, b.e), nullptr});
                }
                break;
            }
            if (auto* ci = dyn_cast<CastInst>(&i))
            {
                Val a = get(s, ci->getOperand(0));
                Type* dt = ci->getType();
                auto op = [&](E x, Type* t) -> E
                {
                    unsigned w = bits(t);
                    switch (ci->getOpcode())
                    {
                        case Instruction::Trunc:
                            return mkTrunc(x, w);
                        case Instruction::ZExt:
                            return mkZExt(x, w);
                        case Instruction::SExt:
                            return mkSExt(x, w);
                        case Instruction::PtrToInt:
                        case Instruction::IntToPtr:
                        case Instruction::BitCast:
                        case Instruction::AddrSpaceCast:
                            return w < x->w ? mkTrunc(x, w) : mkZExt(x, w);
                        case Instruction::FPToUI:
                            return ftoi(x, w, false);
                        case Instruction::FPToSI:
                            return ftoi(x, w, true);
                        case Instruction::UIToFP:
                        case Instruction::SIToFP:
                        {
                            bool sg = ci->getOpcode() == Instruction::SIToFP && !(x->hi < (u128(1) << (x->w - 1)));
                            E lim = mkConst(u128(1) << 53, 64);
                            if (!isC(x) && w == 64 && x->w == 64 && x->hi >= lim->c && implied(s, mkUlt(x, lim)))
                            {
                                return mkFInt(x, 0);
                            }
                            return itof(x, w, sg);
                        }
                        case Instruction::FPExt:
                            if (isC(x) && x->w == 32 && w == 64)
                            {
                                return fromD(double(asF(x->c)));
                            }
                            return mkFOp(FEXT, w, {x});
                        case Instruction::FPTrunc:
                            if (isC(x) && x->w == 64 && w == 32)
                            {
                                return fromF(float(asD(x->c)));
                            }
                            return mkFOp(FTRUNC, w, {x});
                        default:
                            throw Unsupported{"cast"};
                    }
                };
                if (dt->isVectorTy() && a.t && aggCount(dt) == a.t->size())
                {
                    Val r;
                    r.t = std::make_shared<std::vector<Val>>();
                    for (size_t k = 0; k < a.t->size(); ++k)
                    {
                        r.t->push_back({op((*a.t)[k].e, aggElem(dt, k)), nullptr});
                    }
                    setLoc(s, i, r);
                }
                else if (dt->isVectorTy() || a.t)
                {
                    // bitcast between vector and scalar
                    E whole = nullptr;
                    if (a.t)
                    {
                        for (auto& x : *a.t)
                        {
                            whole = whole ? mkConcat(x.e, whole) : x.e;
                        }
                    }
                    else
                    {
                        whole = a.e;
                    }
                    if (dt->isVectorTy())
                    {
                        Val r;
                        r.t = std::make_shared<std::vector<Val>>();
                        unsigned w = bits(aggElem(dt, 0));
                        for (u64 k = 0; k < aggCount(dt); ++k)
                        {
                            r.t->push_back({mkExtract(whole, unsigned(k * w), w), nullptr});
                        }
                        setLoc(s, i, r);
                    }
                    else
                    {
                        setLoc(s, i, {whole, nullptr});
                    }
                }
                else
                {
                    setLoc(s, i, {op(a.e, dt), nullptr});
                }
                break;
            }
            std::string str;
            raw_string_ostream os(str);
            i.print(os);
            throw Unsupported{"instruction " + str.substr(0, 100)};
        }
    }
    ++s.fr.back().ip;
}

void Engine::explore(std::vector<State> init, const std::function<bool(State&)>& stop, u64 limit)
{
    std::vector<State> saved = std::move(work);
    work = std::move(init);
    u64 paths = 0;
    auto restore = [&]
    {
        work = std::move(saved);
    };
    try
    {
        while (!work.empty())
        {
            State s = std::move(work.back());
            work.pop_back();
            bool alive = true;
            while (alive)
            {
                try
                {
                    if (stop && stop(s))
                    {
                        alive = false;
                        break;
                    }
                    ++s.steps;
                    step(s);
                }
                catch (ForkOn& f)
                {
                    int k = known(s, f.cond);
                    if (k >= 0)
                    {
                        // the condition is already decided: record it so that the retry makes progress
                        throw Unsupported{"fork on a decided condition"};
                    }
                    bool ct, cf;
                    try
                    {
                        ct = feasible(s, f.cond) != Res::Unsat;
                        cf = feasible(s, mkNot(f.cond)) != Res::Unsat;
                    }
                    catch (PathEnd& e)
                    {
                        if (timedOut)
                        {
                            throw;
                        }
                        break;
                    }
                    if (!ct && !cf)
                    {
                        break;
                    }
                    if (ct && cf)
                    {
                        State o = s;
                        addPC(o, mkNot(f.cond));
                        work.push_back(std::move(o));
                        addPC(s, f.cond);
                    }
                    else
                    {
                        s.pc.push_back(ct ? f.cond : mkNot(f.cond));
                    }
                }
                catch (PathEnd& e)
                {
                    if (timedOut)
                    {
                        throw;
                    }
                    if (opt.verbose && e.why != "done" && !trial)
                    {
                        std::cerr << "path end: " << e.why << " at " << (s.fr.empty() ? "" : locOf(s)) << "\n";
                    }
                    if (e.why == "done" && !trial)
                    {
                        ++log->paths;
                    }
                    alive = false;
                }
                catch (Unsupported& u)
                {
                    if (!trial)
                    {
                        log->unsupported.insert(u.what + " at " + (s.fr.empty() ? "" : locOf(s)));
                    }
                    else
                    {
                        throw;
                    }
                    alive = false;
                }
            }
            if (++paths > limit)
            {
                if (trial)
                {
                    throw PathEnd{"trial path limit"};
                }
                log->bounded.insert("path limit " + std::to_string(limit));
                break;
            }
        }
    }
    catch (...)
    {
        restore();
        throw;
    }
    restore();
}
