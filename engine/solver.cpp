#include "solver.hpp"

#include <iostream>
#include <cstdlib>
#include <cassert>
#include <chrono>
#include <cstdio>
#include <cstdlib>

namespace vf
{
    double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    static void onError(Z3_context c, Z3_error_code e)
    {
        fprintf(stderr, "z3 error %d: %s\n", int(e), Z3_get_error_msg(c, e));
        if (e != Z3_OK && e != Z3_EXCEPTION)
        {
            abort();
        }
    }

    Solver::Solver()
    {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        ctx = Z3_mk_context(cfg)  /* terms live as long as the context */;
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, onError);
        inc = Z3_mk_solver(ctx);
        Z3_solver_inc_ref(ctx, inc);
        lia = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFLIA"));
        Z3_solver_inc_ref(ctx, lia);
    }

    Solver::~Solver()
    {
    }

    static Z3_ast keep(Z3_context c, Z3_ast a)
    {
        Z3_inc_ref(c, a);
        return a;
    }

    Z3_func_decl Solver::uf(const std::string& name, unsigned w, const std::vector<E>& args)
    {
        std::string key = name + "/" + std::to_string(w);
        for (auto x : args)
        {
            key += "," + std::to_string(x->w);
        }
        auto it = ufs.find(key);
        if (it != ufs.end())
        {
            return it->second;
        }
        std::vector<Z3_sort> dom;
        for (auto x : args)
        {
            dom.push_back(Z3_mk_bv_sort(ctx, x->w));
        }
        Z3_func_decl d = Z3_mk_func_decl(
            ctx,
            Z3_mk_string_symbol(ctx, key.c_str()),
            dom.size(),
            dom.data(),
            Z3_mk_bv_sort(ctx, w)
        );
        Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, d));
        ufs[key] = d;
        return d;
    }

    static Z3_ast bvNum(Z3_context ctx, u128 v, unsigned w)
    {
        return Z3_mk_numeral(ctx, u128str(v).c_str(), Z3_mk_bv_sort(ctx, w));
    }

    Z3_ast Solver::asBool(E e)
    {
        assert(e->w == 1);
        return toZ3(e);
    }

    Z3_ast Solver::asBV(E e)
    {
        if (e->w != 1)
        {
            return toZ3(e);
        }
        return Z3_mk_ite(ctx, toZ3(e), bvNum(ctx, 1, 1), bvNum(ctx, 0, 1));
    }

    Z3_ast Solver::toZ3(E e)
    {
        if (e->z)
        {
            return Z3_ast(e->z);
        }
        // children first, iteratively for deep terms
        if (e->height > 200)
        {
            std::vector<std::pair<E, size_t>> st{{e, 0}};
            while (!st.empty())
            {
                auto& [x, i] = st.back();
                if (x->z || x->height < 200)
                {
                    st.pop_back();
                    continue;
                }
                bool pushed = false;
                while (i < x->a.size())
                {
                    E y = x->a[i++];
                    if (!y->z)
                    {
                        st.push_back({y, 0});
                        pushed = true;
                        break;
                    }
                }
                if (pushed)
                {
                    continue;
                }
                E done = x;
                st.pop_back();
                if (done != e)
                {
                    toZ3(done);
                }
            }
        }
        Z3_ast r = nullptr;
        auto A = [&](size_t i)
        {
            return asBV(e->a[i]);
        };
        bool b1 = e->w == 1;
        switch (e->k)
        {
            case K::Const:
                r = b1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : bvNum(ctx, e->c, e->w);
                break;
            case K::Var:
            {
                std::string nm = symNames[e->aux] + "/" + std::to_string(e->w);
                r = Z3_mk_const(
                    ctx,
                    Z3_mk_string_symbol(ctx, nm.c_str()),
                    b1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)
                );
                break;
            }
            case K::UF:
            case K::FOp:
            case K::FInt:
            case K::Sum:
            {
                std::string nm = e->k == K::UF    ? symNames[e->aux]
                                 : e->k == K::FOp ? "fop" + std::to_string(e->aux)
                                 : e->k == K::Sum ? "sum" + std::to_string(e->aux)
                                                  : "fint" + std::to_string(e->aux);
                Z3_func_decl d = uf(nm, e->w, e->a);
                std::vector<Z3_ast> args;
                for (size_t i = 0; i < e->a.size(); ++i)
                {
                    args.push_back(A(i));
                }
                r = Z3_mk_app(ctx, d, args.size(), args.data());
                if (b1)
                {
                    r = Z3_mk_eq(ctx, r, bvNum(ctx, 1, 1));
                }
                break;
            }
            case K::Lin:
            {
                for (size_t i = 0; i < e->a.size(); ++i)
                {
                    Z3_ast t = A(i);
                    u128 m = e->coef[i];
                    bool neg = false;
                    if (m == mask(e->w))
                    {
                        neg = true;
                    }
                    else if ((m >> (e->w - 1)) & 1)
                    {
                        m = (~m + 1) & mask(e->w);
                        if (!(m & (m - 1)) || m < 4096)
                        {
                            neg = true;
                        }
                        else
                        {
                            m = e->coef[i];
                        }
                        t = Z3_mk_bvmul(ctx, bvNum(ctx, m, e->w), t);
                    }
                    else if (m != 1)
                    {
                        t = Z3_mk_bvmul(ctx, bvNum(ctx, m, e->w), t);
                    }
                    if (!r)
                    {
                        r = neg ? Z3_mk_bvneg(ctx, t) : t;
                    }
                    else
                    {
                        r = neg ? Z3_mk_bvsub(ctx, r, t) : Z3_mk_bvadd(ctx, r, t);
                    }
                }
                if (e->c)
                {
                    r = Z3_mk_bvadd(ctx, r, bvNum(ctx, e->c, e->w));
                }
                break;
            }
            case K::Mul:
                r = Z3_mk_bvmul(ctx, A(0), A(1));
                break;
            case K::UDiv:
                r = Z3_mk_bvudiv(ctx, A(0), A(1));
                break;
            case K::URem:
                r = Z3_mk_bvurem(ctx, A(0), A(1));
                break;
            case K::SDiv:
                r = Z3_mk_bvsdiv(ctx, A(0), A(1));
                break;
            case K::SRem:
                r = Z3_mk_bvsrem(ctx, A(0), A(1));
                break;
            case K::Shl:
                r = Z3_mk_bvshl(ctx, A(0), A(1));
                break;
            case K::LShr:
                r = Z3_mk_bvlshr(ctx, A(0), A(1));
                break;
            case K::AShr:
                r = Z3_mk_bvashr(ctx, A(0), A(1));
                break;
            case K::And:
                if (b1)
                {
                    Z3_ast t[2] = {toZ3(e->a[0]), toZ3(e->a[1])};
                    r = Z3_mk_and(ctx, 2, t);
                }
                else
                {
                    r = Z3_mk_bvand(ctx, A(0), A(1));
                }
                break;
            case K::Or:
                if (b1)
                {
                    Z3_ast t[2] = {toZ3(e->a[0]), toZ3(e->a[1])};
                    r = Z3_mk_or(ctx, 2, t);
                }
                else
                {
                    r = Z3_mk_bvor(ctx, A(0), A(1));
                }
                break;
            case K::Xor:
                if (b1)
                {
                    r = isTrue(e->a[1]) ? Z3_mk_not(ctx, toZ3(e->a[0])) : Z3_mk_xor(ctx, toZ3(e->a[0]), toZ3(e->a[1]));
                }
                else
                {
                    r = Z3_mk_bvxor(ctx, A(0), A(1));
                }
                break;
            case K::Concat:
                r = Z3_mk_concat(ctx, A(0), A(1));
                break;
            case K::Extract:
                r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, A(0));
                if (b1)
                {
                    r = Z3_mk_eq(ctx, r, bvNum(ctx, 1, 1));
                }
                break;
            case K::ZExt:
                r = Z3_mk_zero_ext(ctx, e->w - e->a[0]->w, A(0));
                break;
            case K::SExt:
                r = Z3_mk_sign_ext(ctx, e->w - e->a[0]->w, A(0));
                break;
            case K::Ite:
                r = Z3_mk_ite(ctx, toZ3(e->a[0]), b1 ? toZ3(e->a[1]) : A(1), b1 ? toZ3(e->a[2]) : A(2));
                break;
            case K::Eq:
                r = Z3_mk_eq(ctx, A(0), A(1));
                break;
            case K::Ult:
                r = Z3_mk_bvult(ctx, A(0), A(1));
                break;
            case K::Slt:
                r = Z3_mk_bvslt(ctx, A(0), A(1));
                break;
        }
        e->z = keep(ctx, r);
        return r;
    }

    // side facts implied by the meaning of special terms (sums, ranges recorded on variables)
    void Solver::facts(E e, std::vector<Z3_ast>& out)
    {
        std::unordered_set<E> seen;
        collect(
            e,
            seen,
            [&](E x)
            {
                if (x->k == K::Sum)
                {
                    if (!factsDone.insert(x).second)
                    {
                        return;
                    }
                    auto& v = sumNodes[x->aux];
                    u128 h = sumDefs[x->aux].body->hi;
                    E n = x->a[0];
                    if (x->hi < mask(63))
                    {
                        // 0 <= S(n) <= h*n, S(n)=0 when n=0
                        out.push_back(asBool(mkUle(x, mkMulC(n, h))));
                        for (auto y : v)
                        {
                            // monotone and Lipschitz
                            E m = y->a[0];
                            E le = mkUle(n, m);
                            E c1 = mkAnd(mkUle(x, y), mkUle(mkSub(y, x), mkMulC(mkSub(m, n), h)));
                            E c2 = mkAnd(mkUle(y, x), mkUle(mkSub(x, y), mkMulC(mkSub(n, m), h)));
                            out.push_back(asBool(mkIte(le, c1, c2)));
                        }
                    }
                    else
                    {
                        out.push_back(asBool(mkOr(mkNot(mkEq(n, mkConst(0, 64))), mkEq(x, mkConst(0, 64)))));
                    }
                    v.push_back(x);
                }
                else if (x->k == K::Var && (x->lo > 0 || x->hi < mask(x->w)))
                {
                    if (factsDone.insert(x).second)
                    {
                        Z3_ast v = asBV(x);
                        if (x->lo > 0)
                        {
                            out.push_back(Z3_mk_bvuge(ctx, v, bvNum(ctx, x->lo, x->w)));
                        }
                        if (x->hi < mask(x->w))
                        {
                            out.push_back(Z3_mk_bvule(ctx, v, bvNum(ctx, x->hi, x->w)));
                        }
                    }
                }
            }
        );
    }

    void Solver::sync(const std::vector<E>& pc)
    {
        size_t common = 0;
        while (common < stack.size() && common < pc.size() && stack[common] == pc[common])
        {
            ++common;
        }
        if (common < stack.size())
        {
            Z3_solver_pop(ctx, inc, unsigned(stack.size() - common));
            stack.resize(common);
        }
        while (stack.size() < pc.size())
        {
            Z3_solver_push(ctx, inc);
            Z3_solver_assert(ctx, inc, asBool(pc[stack.size()]));
            stack.push_back(pc[stack.size()]);
        }
    }

    static Z3_ast inum(Z3_context c, u128 v)
    {
        return Z3_mk_numeral(c, u128str(v).c_str(), Z3_mk_int_sort(c));
    }

    static i128 sg(u128 v, unsigned w)
    {
        if (w < 128 && ((v >> (w - 1)) & 1))
        {
            return i128(v) - (i128(1) << w);
        }
        return i128(v);
    }

    static Z3_ast snum(Z3_context c, i128 v)
    {
        std::string s = v < 0 ? "-" + u128str(u128(-v)) : u128str(u128(v));
        return Z3_mk_numeral(c, s.c_str(), Z3_mk_int_sort(c));
    }

    Z3_ast Solver::toBool(E e)
    {
        auto it = iz.find(e);
        if (it != iz.end())
        {
            return it->second;
        }
        Z3_ast r = nullptr;
        switch (e->k)
        {
            case K::Const:
                r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
                break;
            case K::And:
            case K::Or:
            {
                Z3_ast t[2] = {toBool(e->a[0]), toBool(e->a[1])};
                r = e->k == K::And ? Z3_mk_and(ctx, 2, t) : Z3_mk_or(ctx, 2, t);
                break;
            }
            case K::Xor:
                r = isTrue(e->a[1]) ? Z3_mk_not(ctx, toBool(e->a[0])) : Z3_mk_xor(ctx, toBool(e->a[0]), toBool(e->a[1]));
                break;
            case K::Ite:
                r = Z3_mk_ite(ctx, toBool(e->a[0]), toBool(e->a[1]), toBool(e->a[2]));
                break;
            case K::Eq:
                r = e->a[0]->w == 1 ? Z3_mk_iff(ctx, toBool(e->a[0]), toBool(e->a[1])) : Z3_mk_eq(ctx, toInt(e->a[0]), toInt(e->a[1]));
                break;
            case K::Ult:
                if (e->a[0]->w == 1)
                {
                    Z3_ast t[2] = {Z3_mk_not(ctx, toBool(e->a[0])), toBool(e->a[1])};
                    r = Z3_mk_and(ctx, 2, t);
                }
                else
                {
                    r = Z3_mk_lt(ctx, toInt(e->a[0]), toInt(e->a[1]));
                }
                break;
            case K::Slt:
            {
                auto sgnd = [&](E x)
                {
                    Z3_ast v = toInt(x);
                    u128 half = u128(1) << (x->w - 1);
                    if (x->hi < half)
                    {
                        return v;
                    }
                    Z3_ast t[2] = {v, inum(ctx, half * 2)};
                    return Z3_mk_ite(ctx, Z3_mk_lt(ctx, v, inum(ctx, half)), v, Z3_mk_sub(ctx, 2, t));
                };
                if (e->a[0]->w > 64)
                {
                    break;
                }
                r = Z3_mk_lt(ctx, sgnd(e->a[0]), sgnd(e->a[1]));
                break;
            }
            case K::Extract:
                if (e->a[0]->w > 64)
                {
                    break;
                }
                {
                    // one bit: (x div 2^lo) mod 2 == 1
                    Z3_ast x = toInt(e->a[0]);
                    if (e->aux)
                    {
                        x = Z3_mk_div(ctx, x, inum(ctx, u128(1) << e->aux));
                    }
                    if (e->aux + 1 < e->a[0]->w)
                    {
                        x = Z3_mk_mod(ctx, x, inum(ctx, 2));
                    }
                    r = Z3_mk_eq(ctx, x, inum(ctx, 1));
                }
                break;
            default:
                break;
        }
        if (!r)
        {
            if (e->k == K::Var || e->a.empty())
            {
                r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("b!" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(ctx));
            }
            else
            {
                std::vector<Z3_sort> dom;
                std::vector<Z3_ast> args;
                std::string key = "bf" + std::to_string(int(e->k)) + "_" + std::to_string(e->aux);
                for (auto x : e->a)
                {
                    key += "_" + std::to_string(x->w);
                    args.push_back(x->w == 1 ? toBool(x) : toInt(x));
                    dom.push_back(x->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_int_sort(ctx));
                }
                auto& d = ufs[key];
                if (!d)
                {
                    d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, key.c_str()), dom.size(), dom.data(), Z3_mk_bool_sort(ctx));
                }
                r = Z3_mk_app(ctx, d, args.size(), args.data());
            }
        }
        iz[e] = r;
        return r;
    }

    Z3_ast Solver::toInt(E e)
    {
        auto it = iz.find(e);
        if (it != iz.end())
        {
            return it->second;
        }
        if (e->w == 1)
        {
            return Z3_mk_ite(ctx, toBool(e), inum(ctx, 1), inum(ctx, 0));
        }
        Z3_ast r = nullptr;
        std::vector<Z3_ast> facts;
        bool range = false;
        auto fresh = [&](const char* p)
        {
            return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (std::string(p) + std::to_string(e->id)).c_str()), Z3_mk_int_sort(ctx));
        };
        auto opaque = [&]()
        {
            range = true;
            if (e->a.empty())
            {
                return fresh("v!");
            }
            std::vector<Z3_sort> dom;
            std::vector<Z3_ast> args;
            std::string key = "if" + std::to_string(int(e->k)) + "_" + std::to_string(e->aux) + "_" + std::to_string(e->w);
            if (e->k == K::Lin)
            {
                key += "_" + u128str(e->c);
                for (auto& c : e->coef)
                {
                    key += "_" + u128str(c);
                }
            }
            for (auto x : e->a)
            {
                key += "_" + std::to_string(x->w);
                args.push_back(x->w == 1 ? toBool(x) : toInt(x));
                dom.push_back(x->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_int_sort(ctx));
            }
            auto& d = ufs[key];
            if (!d)
            {
                d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, key.c_str()), dom.size(), dom.data(), Z3_mk_int_sort(ctx));
            }
            return Z3_mk_app(ctx, d, args.size(), args.data());
        };
        switch (e->k)
        {
            case K::Const:
                r = inum(ctx, e->c);
                break;
            case K::Lin:
            {
                IntRange rg = linRange(e);
                if (!rg.ok)
                {
                    break;
                }
                std::vector<Z3_ast> t;
                if (e->c)
                {
                    t.push_back(snum(ctx, sg(e->c, e->w)));
                }
                for (size_t i = 0; i < e->a.size(); ++i)
                {
                    i128 m = sg(e->coef[i], e->w);
                    Z3_ast x = toInt(e->a[i]);
                    if (m != 1)
                    {
                        Z3_ast p[2] = {snum(ctx, m), x};
                        x = Z3_mk_mul(ctx, 2, p);
                    }
                    t.push_back(x);
                }
                Z3_ast sum = t.size() == 1 ? t[0] : Z3_mk_add(ctx, t.size(), t.data());
                i128 M = i128(1) << e->w;
                auto fdiv = [&](i128 v)
                {
                    return v >= 0 ? v / M : -((-v + M - 1) / M);
                };
                i128 ql = fdiv(rg.lo), qh = fdiv(rg.hi);
                if (ql == 0 && qh == 0)
                {
                    r = sum;
                }
                else
                {
                    Z3_ast q = fresh("q!");
                    Z3_ast p[2] = {snum(ctx, M), q};
                    Z3_ast m[2] = {sum, Z3_mk_mul(ctx, 2, p)};
                    r = Z3_mk_sub(ctx, 2, m);
                    facts.push_back(Z3_mk_le(ctx, inum(ctx, 0), r));
                    facts.push_back(Z3_mk_lt(ctx, r, snum(ctx, M)));
                    facts.push_back(Z3_mk_le(ctx, snum(ctx, ql), q));
                    facts.push_back(Z3_mk_le(ctx, q, snum(ctx, qh)));
                }
                break;
            }
            case K::ZExt:
                r = toInt(e->a[0]);
                break;
            case K::SExt:
                if (e->w <= 64)
                {
                    Z3_ast x = toInt(e->a[0]);
                    unsigned v = e->a[0]->w;
                    Z3_ast t[2] = {x, inum(ctx, mask(e->w) - mask(v))};
                    r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, inum(ctx, u128(1) << (v - 1))), x, Z3_mk_add(ctx, 2, t));
                }
                break;
            case K::Ite:
                r = Z3_mk_ite(ctx, toBool(e->a[0]), toInt(e->a[1]), toInt(e->a[2]));
                break;
            case K::UDiv:
                if (isC(e->a[1]) && e->a[1]->c)
                {
                    r = Z3_mk_div(ctx, toInt(e->a[0]), inum(ctx, e->a[1]->c));
                }
                break;
            case K::URem:
                if (isC(e->a[1]) && e->a[1]->c)
                {
                    r = Z3_mk_mod(ctx, toInt(e->a[0]), inum(ctx, e->a[1]->c));
                }
                break;
            case K::LShr:
                if (isC(e->a[1]) && e->a[1]->c < e->w && e->w <= 64)
                {
                    r = Z3_mk_div(ctx, toInt(e->a[0]), inum(ctx, u128(1) << unsigned(e->a[1]->c)));
                }
                break;
            case K::Extract:
                if (e->a[0]->w <= 64)
                {
                    Z3_ast x = toInt(e->a[0]);
                    if (e->aux)
                    {
                        x = Z3_mk_div(ctx, x, inum(ctx, u128(1) << e->aux));
                    }
                    u128 top = e->a[0]->hi >> e->aux;
                    if (top > mask(e->w))
                    {
                        x = Z3_mk_mod(ctx, x, inum(ctx, u128(1) << e->w));
                    }
                    r = x;
                }
                break;
            case K::Concat:
                if (e->w <= 64)
                {
                    Z3_ast p[2] = {toInt(e->a[0]), inum(ctx, u128(1) << e->a[1]->w)};
                    Z3_ast m[2] = {Z3_mk_mul(ctx, 2, p), toInt(e->a[1])};
                    r = Z3_mk_add(ctx, 2, m);
                }
                break;
            default:
                break;
        }
        if (!r)
        {
            r = opaque();
        }
        if (range)
        {
            facts.push_back(Z3_mk_le(ctx, inum(ctx, e->lo), r));
            facts.push_back(Z3_mk_le(ctx, r, inum(ctx, std::min(e->hi, mask(e->w)))));
        }
        iz[e] = r;
        if (!facts.empty())
        {
            ifacts[e] = facts;
        }
        return r;
    }

    void Solver::intFacts(E e, std::vector<Z3_ast>& out, std::vector<E>& terms)
    {
        // iterative walk over the terms not yet known in an enclosing scope
        std::vector<E> st{e};
        while (!st.empty())
        {
            E x = st.back();
            st.pop_back();
            if (!liaHave.insert(x).second)
            {
                continue;
            }
            terms.push_back(x);
            auto it = ifacts.find(x);
            if (it != ifacts.end())
            {
                out.insert(out.end(), it->second.begin(), it->second.end());
            }
            for (auto y : x->a)
            {
                st.push_back(y);
            }
        }
    }

    bool Solver::liaUnsat(const std::vector<E>& pc, const std::vector<E>& extra, unsigned ms)
    {
        ++nLia;
        size_t common = 0;
        while (common < liaStack.size() && common < pc.size() && liaStack[common] == pc[common])
        {
            ++common;
        }
        auto dropScope = [&]
        {
            for (auto x : liaScopeTerms.back())
            {
                liaHave.erase(x);
            }
            liaScopeTerms.pop_back();
        };
        if (common < liaStack.size())
        {
            Z3_solver_pop(ctx, lia, unsigned(liaStack.size() - common));
            while (liaStack.size() > common)
            {
                liaStack.pop_back();
                dropScope();
            }
        }
        auto assertIn = [&](E c)
        {
            Z3_ast a = toBool(c);
            std::vector<Z3_ast> fs;
            intFacts(c, fs, liaScopeTerms.back());
            Z3_solver_assert(ctx, lia, a);
            for (auto f : fs)
            {
                Z3_solver_assert(ctx, lia, f);
            }
            // sums
            for (auto x : std::vector<E>(liaScopeTerms.back()))
            {
                if (x->k == K::Sum && x->hi < mask(63))
                {
                    u128 h = sumDefs[x->aux].body->hi;
                    std::vector<E> ex{mkUle(x, mkMulC(x->a[0], h))};
                    for (auto y : sumNodes[x->aux])
                    {
                        if (y == x || !liaHave.count(y))
                        {
                            continue;
                        }
                        E n = x->a[0], m = y->a[0];
                        E c1 = mkAnd(mkUle(x, y), mkUle(mkSub(y, x), mkMulC(mkSub(m, n), h)));
                        E c2 = mkAnd(mkUle(y, x), mkUle(mkSub(x, y), mkMulC(mkSub(n, m), h)));
                        ex.push_back(mkIte(mkUle(n, m), c1, c2));
                    }
                    for (auto z : ex)
                    {
                        Z3_ast za = toBool(z);
                        std::vector<Z3_ast> f2;
                        intFacts(z, f2, liaScopeTerms.back());
                        Z3_solver_assert(ctx, lia, za);
                        for (auto f : f2)
                        {
                            Z3_solver_assert(ctx, lia, f);
                        }
                    }
                }
            }
        };
        while (liaStack.size() < pc.size())
        {
            Z3_solver_push(ctx, lia);
            liaScopeTerms.emplace_back();
            E c = pc[liaStack.size()];
            assertIn(c);
            liaStack.push_back(c);
        }
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
        Z3_solver_set_params(ctx, lia, p);
        Z3_params_dec_ref(ctx, p);
        Z3_solver_push(ctx, lia);
        liaScopeTerms.emplace_back();
        for (auto x : extra)
        {
            assertIn(x);
        }
        Z3_lbool r = Z3_solver_check(ctx, lia);
        Z3_solver_pop(ctx, lia, 1);
        dropScope();
        if (r == Z3_L_FALSE)
        {
            ++nLiaUnsat;
            return true;
        }
        return false;
    }

    static E findIte(E e)
    {
        std::unordered_set<E> seen;
        E best = nullptr;
        collect(
            e,
            seen,
            [&](E x)
            {
                if (x->k == K::Ite)
                {
                    E c = x->a[0];
                    if (!best || c->height < best->height)
                    {
                        best = c;
                    }
                }
            }
        );
        return best;
    }

    // case split on the conditions inside the goal
    Res Solver::splitCheck(const std::vector<E>& pc, E goal, int depth, int& budget)
    {
        if (isFalse(goal))
        {
            return Res::Unsat;
        }
        if (now() > deadline)
        {
            return Res::Unknown;
        }
        if (liaUnsat(pc, {goal}, 2000))
        {
            return Res::Unsat;
        }
        E c = findIte(goal);
        if (!c || depth == 0 || --budget < 0)
        {
            return checkCore(pc, {goal}, false, true);
        }
        // atoms of a conjunction first
        while (c->k == K::And || c->k == K::Or || (c->k == K::Xor && isTrue(c->a[1])))
        {
            c = c->a[0];
        }
        ++nSplit;
        bool unk = false;
        for (int side = 0; side < 2; ++side)
        {
            E cc = side ? mkNot(c) : c;
            if (liaUnsat(pc, {cc}, 1000))
            {
                continue;
            }
            std::vector<E> p2 = pc;
            p2.push_back(cc);
            Res r = splitCheck(p2, subst(goal, c, mkBool(side == 0)), depth - 1, budget);
            if (r == Res::Sat)
            {
                return r;
            }
            unk = unk || r == Res::Unknown;
        }
        return unk ? Res::Unknown : Res::Unsat;
    }

    Res Solver::checkAll(const std::vector<E>& pc, const std::vector<E>& extra)
    {
        static bool qlog = getenv("VF_QLOG") != nullptr;
        double q0 = now();
        struct Log
        {
            bool on;
            double t;
            const std::vector<E>&pc, &ex;
            const char* stage = "lia";
            ~Log()
            {
                if (on && now() - t > 0.3)
                {
                    std::cerr << "QUERY " << now() - t << "s " << stage << "\n";
                    for (auto x : ex)
                    {
                        std::cerr << "   ex " << str(x, 7) << "\n";
                    }
                    for (auto x : pc)
                    {
                        std::cerr << "   pc " << str(x, 5) << "\n";
                    }
                }
            }
        } lg{qlog, q0, pc, extra};
        double t0 = now();
        if (liaUnsat(pc, extra, 500))
        {
            ++nQueries;
            ++nUnsat;
            time += now() - t0;
            return Res::Unsat;
        }
        time += now() - t0;
        lg.stage = "core";
        Res r = checkCore(pc, extra, false, false);
        if (r != Res::Unknown)
        {
            return r;
        }
        lg.stage = "split";
        t0 = now();
        E goal = mkBool(true);
        for (auto x : extra)
        {
            goal = mkAnd(goal, x);
        }
        int budget = 40;
        double t1 = time;
        r = splitCheck(pc, goal, 12, budget);
        time = t1 + (now() - t0);
        return r;
    }

    // instances of 0 <= body(t) and S(n) <= h*(n-1) + body(t), S(n) >= body(t) for t < n, at the positions t
    // that the query itself reads from the arrays summed over
    void Solver::sumLemmas(const std::vector<E>& pc, std::vector<E>& extra)
    {
        if (sumDefs.empty())
        {
            return;
        }
        struct Occ
        {
            std::vector<E> sums, reads;
        };
        static std::unordered_map<E, Occ> memo;
        std::vector<E> sums, reads;
        std::unordered_set<E> have;
        auto take = [&](E e)
        {
            auto it = memo.find(e);
            if (it == memo.end())
            {
                Occ o;
                std::unordered_set<E> seen;
                collect(
                    e,
                    seen,
                    [&](E x)
                    {
                        if (x->k == K::Sum)
                        {
                            o.sums.push_back(x);
                        }
                        else if (x->k == K::UF && x->a.size() == 1)
                        {
                            o.reads.push_back(x);
                        }
                    }
                );
                it = memo.emplace(e, std::move(o)).first;
            }
            for (auto x : it->second.sums)
            {
                if (have.insert(x).second)
                {
                    sums.push_back(x);
                }
            }
            for (auto x : it->second.reads)
            {
                if (have.insert(x).second)
                {
                    reads.push_back(x);
                }
            }
        };
        for (auto x : pc)
        {
            take(x);
        }
        for (auto x : extra)
        {
            take(x);
        }
        // S(m + 1) = S(m) + body(m)
        for (auto x : sums)
        {
            for (auto y : sums)
            {
                E m = y->a[0];
                if (x != y && x->aux == y->aux && !isC(mkSub(x->a[0], m)))
                {
                    E n1 = mkEq(x->a[0], mkAdd(m, mkConst(1, 64)));
                    E l = mkOr(mkNot(n1), mkEq(x, mkAdd(y, subst(sumDefs[y->aux].body, sumDefs[y->aux].var, m))));
                    if (!isTrue(l) && extra.size() < 40)
                    {
                        extra.push_back(l);
                    }
                }
            }
        }
        if (sums.empty() || reads.empty())
        {
            return;
        }
        size_t made = 0;
        std::unordered_set<E> done;
        for (auto s : sums)
        {
            u128 h = sumDefs[s->aux].body->hi;
            if (s->hi >= mask(63))
            {
                continue;
            }
            E var = sumDefs[s->aux].var, body = sumDefs[s->aux].body;
            std::vector<E> pat;
            std::unordered_set<E> seen;
            collect(
                body,
                seen,
                [&](E x)
                {
                    if (x->k == K::UF && x->a.size() == 1 && contains(x->a[0], var))
                    {
                        pat.push_back(x);
                    }
                }
            );
            for (auto p : pat)
            {
                E off = mkSub(p->a[0], var);
                if (contains(off, var))
                {
                    continue;
                }
                for (auto r : reads)
                {
                    if (r->aux != p->aux || r->w != p->w || r->a[0]->w != 64 || contains(r->a[0], var))
                    {
                        continue;
                    }
                    E t = mkSub(r->a[0], off);
                    E b = subst(body, var, t);
                    E l = mkOr(
                        mkNot(mkUlt(t, s->a[0])),
                        mkAnd(mkUle(s, mkAdd(mkMulC(mkSub(s->a[0], mkConst(1, 64)), h), b)), mkUle(b, s))
                    );
                    if (!isTrue(l) && done.insert(l).second)
                    {
                        extra.push_back(l);
                        if (++made >= 48)
                        {
                            return;
                        }
                    }
                }
            }
        }
    }

    Res Solver::check(const std::vector<E>& pc, const std::vector<E>& extra0, bool wantModel)
    {
        std::vector<E> extra = extra0;
        sumLemmas(pc, extra);
        for (auto x : extra)
        {
            if (isFalse(x))
            {
                return Res::Unsat;
            }
        }
        if (!wantModel)
        {
            u64 h = 1469598103934665603ull;
            // order-insensitive over the path condition
            u64 s = 0, m = 0;
            for (auto x : pc)
            {
                u64 v = x->id * 0x9E3779B97F4A7C15ull;
                v ^= v >> 31;
                v *= 0xBF58476D1CE4E5B9ull;
                s += v;
                m ^= v * 31;
            }
            u64 t = 0;
            for (auto x : extra)
            {
                u64 v = x->id * 0xD6E8FEB86659FD93ull;
                v ^= v >> 32;
                t += v * 0xff51afd7ed558ccdull;
            }
            h = (h ^ s) * 1099511628211ull;
            h = (h ^ m) * 1099511628211ull;
            h = (h ^ t) * 1099511628211ull;
            auto it = cache.find(h);
            if (it != cache.end())
            {
                return Res(it->second);
            }
            Res r = checkAll(pc, extra);
            if (r != Res::Unknown)
            {
                cache[h] = int(r);
            }
            return r;
        }
        return checkCore(pc, extra, wantModel, true);
    }

    // may the path continue under c: Unsat only when refuted; anything else means "explore it"
    Res Solver::feasible(const std::vector<E>& pc, E c)
    {
        if (isFalse(c))
        {
            return Res::Unsat;
        }
        u64 h = 1469598103934665603ull;
        u64 s = 0, m = 0;
        for (auto x : pc)
        {
            u64 v = x->id * 0x9E3779B97F4A7C15ull;
            v ^= v >> 31;
            v *= 0xBF58476D1CE4E5B9ull;
            s += v;
            m ^= v * 31;
        }
        h = (h ^ s) * 1099511628211ull;
        h = (h ^ m) * 1099511628211ull;
        h = (h ^ (c->id * 0xD6E8FEB86659FD93ull)) * 1099511628211ull;
        h ^= 0x5555;
        auto it = cache.find(h);
        if (it != cache.end())
        {
            return Res(it->second);
        }
        double t0 = now();
        // a recent model may already be a witness
        auto holds = [&](Z3_model mo, E x)
        {
            Z3_ast r = nullptr;
            return Z3_model_eval(ctx, mo, asBool(x), true, &r) && Z3_get_bool_value(ctx, r) == Z3_L_TRUE;
        };
        for (size_t k = models.size(); k-- > 0;)
        {
            bool ok = holds(models[k], c);
            for (size_t j = pc.size(); ok && j-- > 0;)
            {
                ok = holds(models[k], pc[j]);
            }
            if (ok)
            {
                ++nModelHits;
                time += now() - t0;
                cache[h] = int(Res::Sat);
                return Res::Sat;
            }
        }
        std::vector<E> extra{c};
        if (liaUnsat(pc, extra, 300))
        {
            ++nQueries;
            ++nUnsat;
            time += now() - t0;
            cache[h] = int(Res::Unsat);
            return Res::Unsat;
        }
        sumLemmas(pc, extra);
        if (extra.size() > 1 && liaUnsat(pc, extra, 300))
        {
            ++nQueries;
            ++nUnsat;
            time += now() - t0;
            cache[h] = int(Res::Unsat);
            return Res::Unsat;
        }
        time += now() - t0;
        unsigned keepMs = softMs;
        softMs = feasMs;
        Res r = checkCore(pc, extra, true, false);
        softMs = keepMs;
        if (r == Res::Sat)
        {
            models.push_back(model);
            if (models.size() > 6)
            {
                Z3_model_dec_ref(ctx, models.front());
                models.erase(models.begin());
            }
        }
        cache[h] = int(r);
        return r;
    }

    Res Solver::checkCore(const std::vector<E>& pc, const std::vector<E>& extra, bool wantModel, bool hard)
    {
        double t0 = now();
        if (t0 > deadline)
        {
            return Res::Unknown;
        }
        ++nQueries;
        // global side facts live at the base level of both solvers
        std::vector<Z3_ast> f;
        for (size_t i = 0; i < pc.size(); ++i)
        {
            if (i >= stack.size() || stack[i] != pc[i])
            {
                facts(pc[i], f);
            }
        }
        for (auto x : extra)
        {
            facts(x, f);
        }
        if (!f.empty())
        {
            for (auto a : f)
            {
                sideFacts.push_back(keep(ctx, a));
            }
            if (!stack.empty())
            {
                Z3_solver_pop(ctx, inc, unsigned(stack.size()));
                stack.clear();
            }
            for (auto a : f)
            {
                Z3_solver_assert(ctx, inc, a);
            }
        }
        sync(pc);
        std::vector<Z3_ast> as;
        for (auto x : extra)
        {
            as.push_back(asBool(x));
        }
        auto setTimeout = [&](Z3_solver s, unsigned ms)
        {
            Z3_params p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            double left = (deadline - now()) * 1000;
            if (left < 1)
            {
                left = 1;
            }
            if (left < ms)
            {
                ms = unsigned(left);
            }
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
            Z3_solver_set_params(ctx, s, p);
            Z3_params_dec_ref(ctx, p);
        };
        setTimeout(inc, softMs);
        Z3_solver_push(ctx, inc);
        for (auto a : as)
        {
            Z3_solver_assert(ctx, inc, a);
        }
        Z3_lbool r = Z3_solver_check(ctx, inc);
        if (r == Z3_L_TRUE && wantModel)
        {
            model = Z3_solver_get_model(ctx, inc);
            Z3_model_inc_ref(ctx, model);
        }
        Z3_solver_pop(ctx, inc, 1);
        if (r == Z3_L_UNDEF && hard && now() < deadline)
        {
            Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFBV"));
            Z3_solver_inc_ref(ctx, s);
            setTimeout(s, hardMs);
            for (auto a : sideFacts)
            {
                Z3_solver_assert(ctx, s, a);
            }
            for (auto x : pc)
            {
                Z3_solver_assert(ctx, s, asBool(x));
            }
            for (auto a : as)
            {
                Z3_solver_assert(ctx, s, a);
            }
            r = Z3_solver_check(ctx, s);
            if (r == Z3_L_TRUE && wantModel)
            {
                model = Z3_solver_get_model(ctx, s);
                Z3_model_inc_ref(ctx, model);
            }
            Z3_solver_dec_ref(ctx, s);
        }
        time += now() - t0;
        if (r == Z3_L_TRUE)
        {
            ++nSat;
            return Res::Sat;
        }
        if (r == Z3_L_FALSE)
        {
            ++nUnsat;
            return Res::Unsat;
        }
        ++nUnknown;
        return Res::Unknown;
    }

    u128 Solver::eval(E e)
    {
        if (isC(e))
        {
            return e->c;
        }
        Z3_ast out = nullptr;
        if (!Z3_model_eval(ctx, model, toZ3(e), true, &out) || !out)
        {
            return 0;
        }
        if (e->w == 1)
        {
            return Z3_get_bool_value(ctx, out) == Z3_L_TRUE ? 1 : 0;
        }
        if (!Z3_is_numeral_ast(ctx, out))
        {
            return 0;
        }
        std::string s = Z3_get_numeral_string(ctx, out);
        u128 v = 0;
        for (char c : s)
        {
            v = v * 10 + u128(c - '0');
        }
        return v;
    }
}
