// Models of functions outside the module: the harness intrinsics, and the C/C++ runtime.
void Engine::registerExternals()
{
    auto adv = [](auto f)
    {
        return Ext(
            [f](State& s, CallBase& cb, std::vector<Val>& a)
            {
                f(s, cb, a);
                return true;
            }
        );
    };
    // ---- harness intrinsics
    ext["vf_nd"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        std::string nm = cstr(s, a[0].e);
        E lo = a[1].e, hi = a[2].e;
        if (!isC(lo) || !isC(hi))
        {
            throw Unsupported{"vf_nd bounds must be constants"};
        }
        unsigned b = 1;
        while (b < 64 && (u64(hi->c) >> b))
        {
            ++b;
        }
        E v = mkVar(nm + "!" + std::to_string(s.in.size()), b, lo->c, hi->c);
        Input in;
        in.name = nm;
        in.sizeLike = true;
        in.v = mkZExt(v, 64);
        s.in.push_back(in);
        setResult(s, cb, {in.v, nullptr});
    });
    ext["vf_bits"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        std::string nm = cstr(s, a[0].e);
        unsigned b = unsigned(a[1].e->c);
        E v = mkVar(nm + "!" + std::to_string(s.in.size()), b);
        Input in;
        in.name = nm;
        in.v = mkZExt(v, 64);
        s.in.push_back(in);
        setResult(s, cb, {in.v, nullptr});
    });
    ext["vf_bytes"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        std::string nm = cstr(s, a[0].e);
        E n = a[1].e;
        u32 el = u32(a[2].e->c);
        u32 id = newObj(s, ObjKind::Heap, n, nm, Init::Sym, el);
        ++s.live;
        s.heapIds.push_back(id);
        Input in;
        in.name = nm;
        in.buffer = true;
        in.v = n;
        in.elem = el;
        in.sym = s.mem.get(id)->c.init.sym;
        s.in.push_back(in);
        setResult(s, cb, {addrOf(id), nullptr});
    });
    ext["vf_assume"] = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        E c = a[0].e;
        if (isTrue(c))
        {
            return;
        }
        if (isFalse(c) || query(s, c) == Res::Unsat)
        {
            throw PathEnd{"assume"};
        }
        addPC(s, c);
    });
    ext["vf_assert"] = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        std::string nm = cstr(s, a[1].e);
        if (!oblige(s, a[0].e, nm, "ensures clause: " + nm))
        {
            throw PathEnd{"assert"};
        }
    });
    ext["vf_cover"] = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        std::string nm = cstr(s, a[0].e);
        auto& c = log->covers[nm];
        if (c == 0)
        {
            if (query(s, mkBool(true)) == Res::Sat)
            {
                ++c;
            }
        }
        else
        {
            ++c;
        }
    });
    ext["vf_live"] = adv([this](State& s, CallBase& cb, std::vector<Val>&)
    {
        setResult(s, cb, {c64(u64(s.live)), nullptr});
    });
    ext["vf_symbolic"] = adv([this](State& s, CallBase& cb, std::vector<Val>&)
    {
        setResult(s, cb, {mkConst(1, 32), nullptr});
    });
    ext["vf_skolem"] = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        s.skolems.push_back(a[0].e);
        for (auto& q : s.qfacts)
        {
            instantiate(s, q, a[0].e);
        }
    });
    ext["vf_print"] = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        std::cerr << "print " << cstr(s, a[0].e) << " = " << str(a[1].e, 12) << "\n";
        std::unordered_set<E> seen;
        collect(a[1].e, seen, [&](E x) { if (x->k == K::Sum) std::cerr << "  sum" << x->aux << ": " << str(sumDefs[x->aux].body, 12) << "\n"; });
    });
    ext["vf_is_live"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        E p = pickIte(s, a[0].e);
        u32 id = u32((u64(p->c) + HALF) >> SH);
        const Obj* o = id ? obj(s, id) : nullptr;
        setResult(s, cb, {mkConst(o && !o->freed ? 1 : 0, 32), nullptr});
    });
    // number of set bits among the first n bytes at p, as a mathematical sum
    ext["vf_popcount"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        Ptr p = resolve(s, a[0].e, a[1].e, false, "vf_popcount");
        E k = mkVar("$pk", 64, 0, u128(1) << 43);
        E body = mkConst(0, 64);
        u64 el = u64(a[2].e->c);
        if (p.id)
        {
            body = mkZExt(popcnt(readContent(s.mem.get(p.id)->c, mkAdd(p.off, mkMulC(k, el)), el)), 64);
        }
        setResult(s, cb, {mkSumOf(k, body, mkUDiv(a[1].e, mkConst(el, 64))), nullptr});
    });
    // from here on the library must refuse (its contract check fails); being refused is what the name says
    ext["vf_refusing"] = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        s.refusing = cstr(s, a[0].e);
    });
    ext["vf_contract_fail"] = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        if (!s.refusing.empty())
        {
            auto& c = log->covers[s.refusing];
            if (c || query(s, mkBool(true)) == Res::Sat)
            {
                ++c;
            }
            throw PathEnd{"refused"};
        }
        definiteFail(s, "no-contract-failure: " + userFn(s), "internal contract of the library violated: " + cstr(s, a[0].e));
    });
    ext["vf_end_path"] = adv([](State&, CallBase&, std::vector<Val>&)
    {
        throw PathEnd{"end"};
    });

    // ---- allocation
    auto nw = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        E r = allocate(s, a[0].e, "operator new");
        setResult(s, cb, {r, nullptr});
    });
    for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"})
    {
        ext[n] = nw;
    }
    ext["aligned_alloc"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        setResult(s, cb, {allocate(s, a[1].e, "aligned_alloc"), nullptr});
    });
    ext["calloc"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        E n = mkMul(a[0].e, a[1].e);
        E r = allocate(s, n, "calloc");
        u32 id = u32(u64(r->c) >> SH);
        s.mem.mut(id)->c.init.k = Init::Zero;
        setResult(s, cb, {r, nullptr});
    });
    auto dl = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        deallocate(s, a[0].e);
    });
    auto dls = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        deallocate(s, a[0].e, a[1].e);
    });
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "free", "_ZdaPvmSt11align_val_t"})
    {
        ext[n] = dl;
    }
    for (auto n : {"_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"})
    {
        ext[n] = dls;
    }
    // ---- memory functions
    auto cpy = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        Ptr d = resolve(s, a[0].e, a[2].e, true, "memcpy");
        Ptr q = resolve(s, a[1].e, a[2].e, false, "memcpy");
        if (d.id && q.id)
        {
            Content src = s.mem.get(q.id)->c;
            copyContent(s.mem.mut(d.id)->c, d.off, src, q.off, a[2].e);
        }
        setResult(s, cb, a[0]);
    });
    ext["memcpy"] = cpy;
    ext["memmove"] = cpy;
    ext["memset"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        Ptr d = resolve(s, a[0].e, a[2].e, true, "memset");
        if (d.id)
        {
            setContent(s.mem.mut(d.id)->c, d.off, mkTrunc(a[1].e, 8), a[2].e);
        }
        setResult(s, cb, a[0]);
    });
    auto mcmp = [this](State& s, CallBase& cb, std::vector<Val>& a, bool eqOnly)
    {
        E n = a[2].e;
        if (isC(n) && n->c <= 4096)
        {
            setResult(s, cb, {memcmpExpr(s, a[0].e, a[1].e, u64(n->c), eqOnly), nullptr});
            return true;
        }
        return memcmpSym(s, cb, a[0].e, a[1].e, n);
    };
    ext["memcmp"] = [mcmp](State& s, CallBase& cb, std::vector<Val>& a) { return mcmp(s, cb, a, false); };
    ext["bcmp"] = [mcmp](State& s, CallBase& cb, std::vector<Val>& a) { return mcmp(s, cb, a, true); };

    // ---- exceptions
    ext["__cxa_allocate_exception"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        u32 id = newObj(s, ObjKind::Exn, a[0].e, "exception object", Init::Zero);
        setResult(s, cb, {addrOf(id), nullptr});
    });
    ext["__cxa_free_exception"] = adv([](State&, CallBase&, std::vector<Val>&) {});
    ext["__cxa_throw"] = [this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        std::string ti = tiOf(cb.getArgOperand(1));
        (void) doThrow(s, ti, u64(a[0].e->c));
        return false;
    };
    ext["__cxa_begin_catch"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        u64 p = u64(a[0].e->c);
        auto& x = s.exns[p];
        ++x.handlers;
        s.caught.push_back(x);
        setResult(s, cb, a[0]);
    });
    ext["__cxa_get_exception_ptr"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        setResult(s, cb, a[0]);
    });
    ext["__cxa_end_catch"] = adv([](State& s, CallBase&, std::vector<Val>&)
    {
        if (!s.caught.empty())
        {
            s.caught.pop_back();
        }
    });
    ext["__cxa_rethrow"] = [this](State& s, CallBase&, std::vector<Val>&)
    {
        Exn x = s.caught.empty() ? Exn{} : s.caught.back();
        (void) doThrow(s, x.tiName, x.ptr);
        return false;
    };
    const std::pair<const char*, const char*> thr[] = {
        {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
        {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
        {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
        {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
        {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
        {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
        {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
        {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"},
        {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
        {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
    };
    for (auto& [n, t] : thr)
    {
        std::string ti = t;
        ext[n] = [this, ti](State& s, CallBase&, std::vector<Val>&)
        {
            (void) throwStd(s, ti);
            return false;
        };
    }
    auto fatal = [this](const char* what)
    {
        std::string w = what;
        return Ext(
            [this, w](State& s, CallBase&, std::vector<Val>&)
            {
                definiteFail(s, "no-abnormal-termination: " + userFn(s), w);
                return false;
            }
        );
    };
    ext["_ZSt9terminatev"] = fatal("std::terminate");
    ext["abort"] = fatal("abort");
    ext["exit"] = fatal("exit");
    ext["__assert_fail"] = fatal("assertion failure");
    ext["__cxa_pure_virtual"] = fatal("pure virtual call");
    ext["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = fatal("libstdc++ assertion");
    ext["__cxa_throw_bad_array_new_length"] = [this](State& s, CallBase&, std::vector<Val>&)
    {
        (void) throwStd(s, "_ZTISt20bad_array_new_length");
        return false;
    };

    // ---- misc runtime
    auto nop = adv([this](State& s, CallBase& cb, std::vector<Val>&)
    {
        if (!cb.getType()->isVoidTy())
        {
            setResult(s, cb, zero(cb.getType()));
        }
    });
    for (auto n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc",
                   "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc",
                   "_ZNSt12length_errorC1EPKc", "_ZNSt12domain_errorC1EPKc", "_ZNSt11range_errorC1EPKc",
                   "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
                   "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev",
                   "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt12length_errorD1Ev",
                   "__cxa_guard_abort", "_ZNSt9bad_allocD1Ev"})
    {
        ext[n] = nop;
    }
    ext["__cxa_guard_acquire"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        Ptr p = resolve(s, a[0].e, c64(1), false, "guard");
        E v = readContent(s.mem.get(p.id)->c, p.off, 1);
        bool done = isC(v) && v->c != 0;
        setResult(s, cb, {mkConst(done ? 0 : 1, 32), nullptr});
    });
    ext["__cxa_guard_release"] = adv([this](State& s, CallBase&, std::vector<Val>& a)
    {
        Ptr p = resolve(s, a[0].e, c64(1), true, "guard");
        writeContent(s.mem.mut(p.id)->c, p.off, mkConst(1, 8));
    });
    ext["__dynamic_cast"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a)
    {
        // single inheritance, base at offset 0: the dynamic type is read from the vtable
        E vt = load(s, a[0].e, PointerType::get(M.getContext(), 0)).e;
        E ti = load(s, mkSub(vt, c64(8)), PointerType::get(M.getContext(), 0)).e;
        E top = load(s, mkSub(vt, c64(16)), Type::getInt64Ty(M.getContext())).e;
        std::string want = tiOf(cb.getArgOperand(2));
        std::string have;
        auto it = idg.find(u32(u64(ti->c) >> SH));
        if (it != idg.end())
        {
            have = it->second->getName().str();
        }
        bool ok = isC(ti) && tiDerives(have, want);
        setResult(s, cb, {ok ? mkAdd(a[0].e, top) : c64(0), nullptr});
    });
    ext["ceil"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a) { setResult(s, cb, {fround(FCEIL, a[0].e), nullptr}); });
    ext["floor"] = adv([this](State& s, CallBase& cb, std::vector<Val>& a) { setResult(s, cb, {fround(FFLOOR, a[0].e), nullptr}); });
}

bool Engine::callIntrinsic(State& s, CallBase& cb, Function* f, std::vector<Val>& a)
{
    auto fl = [&](auto fn)
    {
        // elementwise on vectors
        Type* t = cb.getType();
        if (t->isVectorTy())
        {
            Val r;
            r.t = std::make_shared<std::vector<Val>>();
            for (u64 i = 0; i < aggCount(t); ++i)
            {
                std::vector<E> x;
                for (auto& v : a)
                {
                    x.push_back(v.t ? (*v.t)[i].e : v.e);
                }
                r.t->push_back({fn(x), nullptr});
            }
            setResult(s, cb, r);
        }
        else
        {
            std::vector<E> x;
            for (auto& v : a)
            {
                x.push_back(v.e);
            }
            setResult(s, cb, {fn(x), nullptr});
        }
        return true;
    };
    auto tuple = [&](E x, E y)
    {
        Val r;
        r.t = std::make_shared<std::vector<Val>>();
        r.t->push_back({x, nullptr});
        r.t->push_back({y, nullptr});
        setResult(s, cb, r);
        return true;
    };
    switch (f->getIntrinsicID())
    {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline:
        {
            E len = a[2].e->w < 64 ? mkZExt(a[2].e, 64) : a[2].e;
            Ptr d = resolve(s, a[0].e, len, true, "memcpy/memmove");
            Ptr q = resolve(s, a[1].e, len, false, "memcpy/memmove");
            if (d.id && q.id)
            {
                Content src = s.mem.get(q.id)->c;
                copyContent(s.mem.mut(d.id)->c, d.off, src, q.off, len);
            }
            return true;
        }
        case Intrinsic::memset:
        {
            E len = a[2].e->w < 64 ? mkZExt(a[2].e, 64) : a[2].e;
            Ptr d = resolve(s, a[0].e, len, true, "memset");
            if (d.id)
            {
                setContent(s.mem.mut(d.id)->c, d.off, a[1].e, len);
            }
            return true;
        }
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::dbg_assign:
        case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_end:
        case Intrinsic::prefetch:
        case Intrinsic::donothing:
        case Intrinsic::stackrestore:
        case Intrinsic::var_annotation:
            return true;
        case Intrinsic::invariant_start:
        case Intrinsic::stacksave:
            setResult(s, cb, {c64(0), nullptr});
            return true;
        case Intrinsic::expect:
        case Intrinsic::expect_with_probability:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address:
        case Intrinsic::annotation:
        case Intrinsic::ptr_annotation:
            setResult(s, cb, a[0]);
            return true;
        case Intrinsic::umin:
            return fl([](auto& x) { return mkIte(mkUlt(x[0], x[1]), x[0], x[1]); });
        case Intrinsic::umax:
            return fl([](auto& x) { return mkIte(mkUlt(x[0], x[1]), x[1], x[0]); });
        case Intrinsic::smin:
            return fl([](auto& x) { return mkIte(mkSlt(x[0], x[1]), x[0], x[1]); });
        case Intrinsic::smax:
            return fl([](auto& x) { return mkIte(mkSlt(x[0], x[1]), x[1], x[0]); });
        case Intrinsic::abs:
            return fl([](auto& x) { return mkIte(mkSlt(x[0], mkConst(0, x[0]->w)), mkSub(mkConst(0, x[0]->w), x[0]), x[0]); });
        case Intrinsic::ctpop:
            return fl([](auto& x) { return popcnt(x[0]); });
        case Intrinsic::bswap:
            return fl(
                [](auto& x)
                {
                    E r = mkExtract(x[0], 0, 8);
                    for (unsigned i = 8; i < x[0]->w; i += 8)
                    {
                        r = mkConcat(r, mkExtract(x[0], i, 8));
                    }
                    return r;
                }
            );
        case Intrinsic::ctlz:
            return fl(
                [](auto& x)
                {
                    unsigned w = x[0]->w;
                    E r = mkConst(w, w);
                    for (unsigned i = 0; i < w; ++i)
                    {
                        r = mkIte(mkExtract(x[0], i, 1), mkConst(w - 1 - i, w), r);
                    }
                    return r;
                }
            );
        case Intrinsic::cttz:
            return fl(
                [](auto& x)
                {
                    unsigned w = x[0]->w;
                    E r = mkConst(w, w);
                    for (unsigned i = w; i-- > 0;)
                    {
                        r = mkIte(mkExtract(x[0], i, 1), mkConst(i, w), r);
                    }
                    return r;
                }
            );
        case Intrinsic::fshl:
        case Intrinsic::fshr:
        {
            E sh = a[2].e;
            unsigned w = sh->w;
            E cc = mkConcat(a[0].e, a[1].e);
            if (!isC(sh) || 2 * w > 128)
            {
                throw Unsupported{"fshl"};
            }
            unsigned k = unsigned(sh->c % w);
            E r = f->getIntrinsicID() == Intrinsic::fshl ? (k == 0 ? a[0].e : mkExtract(cc, w - k, w)) : (k == 0 ? a[1].e : mkExtract(cc, k, w));
            setResult(s, cb, {r, nullptr});
            return true;
        }
        case Intrinsic::uadd_with_overflow:
        {
            E r = mkAdd(a[0].e, a[1].e);
            return tuple(r, mkUlt(r, a[0].e));
        }
        case Intrinsic::usub_with_overflow:
            return tuple(mkSub(a[0].e, a[1].e), mkUlt(a[0].e, a[1].e));
        case Intrinsic::umul_with_overflow:
        {
            E x = a[0].e, y = a[1].e;
            unsigned w = x->w;
            if (isC(x))
            {
                std::swap(x, y);
            }
            if (isC(y))
            {
                E ov = y->c == 0 ? mkBool(false) : mkUlt(mkConst(mask(w) / y->c, w), x);
                return tuple(mkMulC(x, y->c), ov);
            }
            if (x->hi < (u128(1) << 60) && y->hi < (u128(1) << 60) && x->hi * y->hi <= mask(w))
            {
                return tuple(mkMul(x, y), mkBool(false));
            }
            if (2 * w <= 128)
            {
                E p = mkMul(mkZExt(x, 2 * w), mkZExt(y, 2 * w));
                return tuple(mkExtract(p, 0, w), mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w))));
            }
            throw Unsupported{"umul.overflow"};
        }
        case Intrinsic::sadd_with_overflow:
        {
            E x = a[0].e, y = a[1].e, r = mkAdd(x, y);
            unsigned w = x->w;
            E sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1);
            return tuple(r, mkAnd(mkNot(mkXor(sx, sy)), mkXor(sx, sr)));
        }
        case Intrinsic::ssub_with_overflow:
        {
            E x = a[0].e, y = a[1].e, r = mkSub(x, y);
            unsigned w = x->w;
            E sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1);
            return tuple(r, mkAnd(mkXor(sx, sy), mkXor(sx, sr)));
        }
        case Intrinsic::smul_with_overflow:
        {
            E x = a[0].e, y = a[1].e;
            unsigned w = x->w;
            if (2 * w > 128)
            {
                throw Unsupported{"smul.overflow"};
            }
            E p = mkMul(mkSExt(x, 2 * w), mkSExt(y, 2 * w));
            E r = mkExtract(p, 0, w);
            return tuple(r, mkNot(mkEq(mkSExt(r, 2 * w), p)));
        }
        case Intrinsic::usub_sat:
            return fl([](auto& x) { return mkIte(mkUlt(x[0], x[1]), mkConst(0, x[0]->w), mkSub(x[0], x[1])); });
        case Intrinsic::uadd_sat:
            return fl(
                [](auto& x)
                {
                    E r = mkAdd(x[0], x[1]);
                    return mkIte(mkUlt(r, x[0]), mkConst(mask(r->w), r->w), r);
                }
            );
        case Intrinsic::ceil:
            return fl([this](auto& x) { return fround(FCEIL, x[0]); });
        case Intrinsic::floor:
            return fl([this](auto& x) { return fround(FFLOOR, x[0]); });
        case Intrinsic::trunc:
            return fl([this](auto& x) { return fround(FTRU, x[0]); });
        case Intrinsic::round:
            return fl([this](auto& x) { return fround(FROUND, x[0]); });
        case Intrinsic::fabs:
            return fl([](auto& x) { return mkAnd(x[0], mkConst(mask(x[0]->w - 1), x[0]->w)); });
        case Intrinsic::fmuladd:
        case Intrinsic::fma:
            return fl([this](auto& x) { return fbin(FADD, fbin(FMUL, x[0], x[1]), x[2]); });
        case Intrinsic::trap:
            definiteFail(s, "no-abnormal-termination: " + userFn(s), "trap");
            return true;
        case Intrinsic::eh_typeid_for:
            setResult(s, cb, {mkConst(tiId(tiOf(cb.getArgOperand(0))), 32), nullptr});
            return true;
        case Intrinsic::objectsize:
            setResult(s, cb, {mkConst(mask(64), 64), nullptr});
            return true;
        case Intrinsic::is_constant:
            setResult(s, cb, {mkBool(false), nullptr});
            return true;
        case Intrinsic::ptrmask:
            setResult(s, cb, {mkAnd(a[0].e, a[1].e), nullptr});
            return true;
        default:
            throw Unsupported{"intrinsic " + f->getName().str()};
    }
}

// formatted output is outside the properties: stream operations have no effect and str() yields an empty string
bool Engine::streamModel(State& s, CallBase& cb, Function* f, std::vector<Val>& a)
{
    std::string n = demangle(f->getName().str());
    if (n.find("std::basic_ostream<") == std::string::npos && n.find("std::__cxx11::basic_ostringstream<") == std::string::npos
        && n.find("std::__cxx11::basic_stringstream<") == std::string::npos && n.find("std::ostream") == std::string::npos
        && n.find("std::ios_base") == std::string::npos && n.find("std::ios_base_library_init") == std::string::npos)
    {
        return false;
    }
    externals.insert(n);
    if (n.find("::str() const") != std::string::npos)
    {
        Ptr p = resolve(s, a[0].e, c64(32), true, "std::ostringstream::str");
        Obj* o = s.mem.mut(p.id);
        writeContent(o->c, p.off, mkAdd(a[0].e, c64(16)));
        writeContent(o->c, mkAdd(p.off, c64(8)), c64(0));
        writeContent(o->c, mkAdd(p.off, c64(16)), mkConst(0, 8));
        return true;
    }
    if (!cb.getType()->isVoidTy())
    {
        setResult(s, cb, {a.empty() ? c64(0) : a[0].e, nullptr});
    }
    return true;
}

void Engine::execCall(State& s, CallBase& cb)
{
    Function* f = cb.getCalledFunction();
    if (!f)
    {
        Value* cv = cb.getCalledOperand()->stripPointerCasts();
        if (cb.isInlineAsm())
        {
            // an empty asm is an optimisation barrier
            if (!cb.getType()->isVoidTy())
            {
                throw Unsupported{"inline asm"};
            }
            advance(s);
            return;
        }
        if (auto* al = dyn_cast<GlobalAlias>(cv))
        {
            f = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
        }
        else
        {
            E p = pickIte(s, getE(s, cb.getCalledOperand()));
            if (!isC(p))
            {
                p = c64(concretise(s, p, "function pointer"));
            }
            auto it = idg.find(u32(u64(p->c) >> SH));
            if (it == idg.end() || !isa<Function>(it->second) || (u64(p->c) & ((u64(1) << SH) - 1)))
            {
                definiteFail(s, "memory-safety: " + userFn(s), "call through an invalid function pointer " + str(p));
            }
            f = const_cast<Function*>(cast<Function>(it->second));
        }
    }
    std::vector<Val> args;
    for (auto& op : cb.args())
    {
        if (op->getType()->isMetadataTy())
        {
            args.push_back({});
        }
        else
        {
            args.push_back(get(s, op));
        }
    }
    if (f->isIntrinsic())
    {
        if (callIntrinsic(s, cb, f, args))
        {
            advance(s);
        }
        return;
    }
    auto it = ext.find(f->getName().str());
    if (it == ext.end() && f->isDeclaration() && streamModel(s, cb, f, args))
    {
        advance(s);
        return;
    }
    if (it != ext.end())
    {
        if (f->isDeclaration())
        {
            externals.insert(demangle(f->getName().str()));
        }
        if (it->second(s, cb, args))
        {
            advance(s);
        }
        return;
    }
    if (f->isDeclaration())
    {
        throw Unsupported{"external function " + demangle(f->getName().str())};
    }
    // the digits of a symbolic number only appear in messages: the text is left empty (an abstraction)
    if (f->getName().startswith("_ZNSt7__cxx119to_stringE") && args.size() == 2 && !isC(args[1].e))
    {
        externals.insert(demangle(f->getName().str()) + " of a symbolic number");
        s.abstracted = true;
        Ptr p = resolve(s, args[0].e, c64(32), true, "std::to_string");
        Obj* o = s.mem.mut(p.id);
        writeContent(o->c, p.off, mkAdd(args[0].e, c64(16)));
        writeContent(o->c, mkAdd(p.off, c64(8)), c64(0));
        writeContent(o->c, mkAdd(p.off, c64(16)), mkConst(0, 8));
        advance(s);
        return;
    }
    auto st = stubs.find(f->getName().str());
    if (st != stubs.end())
    {
        f = st->second;
    }
    enter(s, f, std::move(args), &cb);
}
