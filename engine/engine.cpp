// Contract verifier over LLVM IR: executes a harness function (requires -> call of the real code -> ensures)
// over symbolic inputs along every feasible path, and discharges each obligation with the solver.
#include "engine.hpp"

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cassert>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <regex>
#include <sstream>

using namespace llvm;

namespace vf
{
    static constexpr unsigned SH = 44;
    static constexpr u64 HALF = u64(1) << (SH - 1);
    static E c64(u128 v) { return mkConst(v, 64); }

    struct PathEnd { std::string why; };
    struct ForkOn { E cond; };          // re-execute the current instruction with cond decided
    struct Unsupported { std::string what; };

    struct Obl
    {
        u64 inst = 0, proved = 0, trivial = 0, failed = 0, unknown = 0;
    };
    struct Failure
    {
        std::string obl, loc, detail, inputs;
        bool abstracted = false;
    };

    struct Log
    {
        std::map<std::string, Obl> obl;
        std::vector<Failure> fails;
        std::map<std::string, u64> covers;
        std::set<std::string> bounded, unsupported, unknownWhere;
        u64 paths = 0;

        void merge(const Log& o)
        {
            for (auto& [k, v] : o.obl)
            {
                auto& d = obl[k];
                d.inst += v.inst;
                d.proved += v.proved;
                d.trivial += v.trivial;
                d.failed += v.failed;
                d.unknown += v.unknown;
            }
            for (auto& f : o.fails)
            {
                fails.push_back(f);
            }
            for (auto& [k, v] : o.covers)
            {
                covers[k] += v;
            }
            bounded.insert(o.bounded.begin(), o.bounded.end());
            unsupported.insert(o.unsupported.begin(), o.unsupported.end());
            unknownWhere.insert(o.unknownWhere.begin(), o.unknownWhere.end());
            paths += o.paths;
        }
    };

    struct Options
    {
        u32 unroll = 6;
        bool summarise = true;
        bool merge = false;
        std::vector<std::pair<std::string, std::string>> stubs;   // demangled callee -> contract used in its place
        bool strictLoops = false;
        double timeLimit = 300;
        u64 maxPaths = 20000;
        u32 maxFails = 3;
        bool verbose = false;
    };

    struct Engine
    {
        Module& M;
        const DataLayout& DL;
        Options opt;
        Solver sol;
        Log* log;
        Log mainLog;
        double t0 = now();
        bool trial = false;
        bool quiet = false;   // inside an attempted if-conversion: anything but a proved obligation aborts the attempt
        u64 nMerged = 0;
        std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fns;
        std::unordered_map<const Constant*, Val> constCache;
        std::unordered_map<const GlobalValue*, u32> gid;
        std::unordered_map<u32, const GlobalValue*> idg;
        std::unordered_map<const GlobalVariable*, ObjP> ginit;
        std::set<const Function*> executed;
        std::set<std::string> externals;
        std::set<std::string> loopsSummarised, loopsFailed;
        ObjP deadStack = std::make_shared<Obj>();
        u32 firstDyn = 0;
        u64 nSteps = 0;
        u32 freshCtr = 0;
        bool timedOut = false;
        std::vector<State> work;
        std::map<std::string, Function*> stubs;

        using Ext = std::function<bool(State&, CallBase&, std::vector<Val>&)>;
        std::unordered_map<std::string, Ext> ext;

        Engine(Module& m, Options o)
            : M(m)
            , DL(m.getDataLayout())
            , opt(o)
            , log(&mainLog)
        {
            deadStack->kind = ObjKind::Stack;
            deadStack->freed = true;
            deadStack->size = c64(0);
            deadStack->name = "dead stack slot";
            u32 id = 1;
            for (auto& g : M.globals())
            {
                gid[&g] = id;
                idg[id] = &g;
                ++id;
            }
            for (auto& f : M.functions())
            {
                gid[&f] = id;
                idg[id] = &f;
                ++id;
            }
            for (auto& a : M.aliases())
            {
                (void) a;
            }
            firstDyn = id;
            registerExternals();
            sol.deadline = t0 + opt.timeLimit;
        }

        // ---------------------------------------------------------------- values
        FnInfo* info(Function* f)
        {
            auto& p = fns[f];
            if (!p)
            {
                p = std::make_unique<FnInfo>();
                p->f = f;
                p->name = demangle(f->getName().str());
                for (auto& a : f->args())
                {
                    p->slot[&a] = p->n++;
                }
                for (auto& i : instructions(*f))
                {
                    if (!i.getType()->isVoidTy())
                    {
                        p->slot[&i] = p->n++;
                    }
                }
                p->dt = std::make_unique<DominatorTree>(*f);
                p->li = std::make_unique<LoopInfo>(*p->dt);
            }
            return p.get();
        }

        unsigned bits(Type* t)
        {
            if (t->isPointerTy())
            {
                return 64;
            }
            if (t->isIntegerTy())
            {
                return t->getIntegerBitWidth();
            }
            if (t->isFloatTy())
            {
                return 32;
            }
            if (t->isDoubleTy())
            {
                return 64;
            }
            if (t->isX86_FP80Ty())
            {
                return 80;
            }
            if (t->isHalfTy())
            {
                return 16;
            }
            if (t->isFP128Ty())
            {
                return 128;
            }
            std::string s;
            raw_string_ostream os(s);
            t->print(os);
            throw Unsupported{"type " + s};
        }

        bool isAgg(Type* t)
        {
            return t->isStructTy() || t->isArrayTy() || t->isVectorTy();
        }

        u64 aggCount(Type* t)
        {
            if (auto* s = dyn_cast<StructType>(t))
            {
                return s->getNumElements();
            }
            if (auto* a = dyn_cast<ArrayType>(t))
            {
                return a->getNumElements();
            }
            return cast<FixedVectorType>(t)->getNumElements();
        }

        Type* aggElem(Type* t, u64 i)
        {
            if (auto* s = dyn_cast<StructType>(t))
            {
                return s->getElementType(i);
            }
            if (auto* a = dyn_cast<ArrayType>(t))
            {
                return a->getElementType();
            }
            return cast<FixedVectorType>(t)->getElementType();
        }

        u64 aggOff(Type* t, u64 i)
        {
            if (auto* s = dyn_cast<StructType>(t))
            {
                return DL.getStructLayout(s)->getElementOffset(i);
            }
            return i * DL.getTypeAllocSize(aggElem(t, i)).getFixedValue();
        }

        Val zero(Type* t)
        {
            if (isAgg(t))
            {
                Val v;
                v.t = std::make_shared<std::vector<Val>>();
                for (u64 i = 0; i < aggCount(t); ++i)
                {
                    v.t->push_back(zero(aggElem(t, i)));
                }
                return v;
            }
            return Val{mkConst(0, bits(t)), nullptr};
        }

        E globalAddr(const GlobalValue* g)
        {
            if (auto* a = dyn_cast<GlobalAlias>(g))
            {
                return constVal(a->getAliasee()).e;
            }
            return c64(u128(gid.at(g)) << SH);
        }

        static u128 ap(const APInt& a)
        {
            u128 v = a.getRawData()[0];
            if (a.getBitWidth() > 64)
            {
                v |= u128(a.getRawData()[1]) << 64;
            }
            return v;
        }

        Val constVal(const Constant* c)
        {
            auto it = constCache.find(c);
            if (it != constCache.end())
            {
                return it->second;
            }
            Val v = constVal0(c);
            constCache[c] = v;
            return v;
        }

        Val constVal0(const Constant* c)
        {
            Type* t = c->getType();
            if (auto* i = dyn_cast<ConstantInt>(c))
            {
                return {mkConst(ap(i->getValue()), t->getIntegerBitWidth()), nullptr};
            }
            if (auto* f = dyn_cast<ConstantFP>(c))
            {
                return {mkConst(ap(f->getValueAPF().bitcastToAPInt()), bits(t)), nullptr};
            }
            if (isa<ConstantPointerNull>(c))
            {
                return {c64(0), nullptr};
            }
            if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
            {
                return zero(t);
            }
            if (auto* g = dyn_cast<GlobalValue>(c))
            {
                return {globalAddr(g), nullptr};
            }
            if (auto* cd = dyn_cast<ConstantDataSequential>(c))
            {
                Val v;
                v.t = std::make_shared<std::vector<Val>>();
                for (u64 i = 0; i < cd->getNumElements(); ++i)
                {
                    v.t->push_back(constVal(cd->getElementAsConstant(i)));
                }
                return v;
            }
            if (isa<ConstantAggregate>(c))
            {
                Val v;
                v.t = std::make_shared<std::vector<Val>>();
                for (auto& op : c->operands())
                {
                    v.t->push_back(constVal(cast<Constant>(op)));
                }
                return v;
            }
            if (auto* ce = dyn_cast<ConstantExpr>(c))
            {
                auto A = [&](unsigned i)
                {
                    return constVal(ce->getOperand(i)).e;
                };
                switch (ce->getOpcode())
                {
                    case Instruction::GetElementPtr:
                    {
                        APInt off(64, 0);
                        auto* gep = cast<GEPOperator>(ce);
                        if (!gep->accumulateConstantOffset(DL, off))
                        {
                            throw Unsupported{"const gep"};
                        }
                        return {mkAdd(A(0), c64(u64(off.getSExtValue()))), nullptr};
                    }
                    case Instruction::BitCast:
                    case Instruction::PtrToInt:
                    case Instruction::IntToPtr:
                    case Instruction::AddrSpaceCast:
                    {
                        E x = A(0);
                        unsigned w = bits(t);
                        return {w < x->w ? mkTrunc(x, w) : mkZExt(x, w), nullptr};
                    }
                    case Instruction::Add:
                        return {mkAdd(A(0), A(1)), nullptr};
                    case Instruction::Sub:
                        return {mkSub(A(0), A(1)), nullptr};
                    case Instruction::Trunc:
                        return {mkTrunc(A(0), bits(t)), nullptr};
                    case Instruction::ICmp:
                        return {icmp(CmpInst::Predicate(ce->getPredicate()), A(0), A(1)), nullptr};
                    default:
                        break;
                }
            }
            std::string s;
            raw_string_ostream os(s);
            c->print(os);
            throw Unsupported{"constant " + s.substr(0, 100)};
        }

        Val get(State& s, const Value* v)
        {
            if (auto* c = dyn_cast<Constant>(v))
            {
                return constVal(c);
            }
            Frame& f = s.fr.back();
            auto it = f.fi->slot.find(v);
            if (it == f.fi->slot.end())
            {
                throw Unsupported{"operand"};
            }
            Val& r = f.loc[it->second];
            if (!r.e && !r.t)
            {
                return zero(v->getType());
            }
            return r;
        }

        E getE(State& s, const Value* v)
        {
            return get(s, v).e;
        }

        void setLoc(State& s, const Instruction& i, Val v)
        {
            Frame& f = s.fr.back();
            f.loc[f.fi->slot.at(&i)] = std::move(v);
        }

        static E icmp(CmpInst::Predicate p, E a, E b)
        {
            switch (p)
            {
                case CmpInst::ICMP_EQ:
                    return mkEq(a, b);
                case CmpInst::ICMP_NE:
                    return mkNot(mkEq(a, b));
                case CmpInst::ICMP_ULT:
                    return mkUlt(a, b);
                case CmpInst::ICMP_ULE:
                    return mkUle(a, b);
                case CmpInst::ICMP_UGT:
                    return mkUlt(b, a);
                case CmpInst::ICMP_UGE:
                    return mkUle(b, a);
                case CmpInst::ICMP_SLT:
                    return mkSlt(a, b);
                case CmpInst::ICMP_SLE:
                    return mkSle(a, b);
                case CmpInst::ICMP_SGT:
                    return mkSlt(b, a);
                default:
                    return mkSle(b, a);
            }
        }

        // ---------------------------------------------------------------- locations
        std::string locOf(const State& s)
        {
            std::string r;
            int n = 0;
            for (auto it = s.fr.rbegin(); it != s.fr.rend() && n < 12; ++it, ++n)
            {
                std::string line;
                if (it->ip != it->bb->end())
                {
                    if (auto& dl = it->ip->getDebugLoc())
                    {
                        auto* sc = cast<DIScope>(dl.getScope());
                        std::string fn = sc->getFilename().str();
                        auto p = fn.rfind('/');
                        if (p != std::string::npos)
                        {
                            fn = fn.substr(p + 1);
                        }
                        line = fn + ":" + std::to_string(dl.getLine());
                        const DILocation* ia = dl->getInlinedAt();
                        int k = 0;
                        while (ia && k++ < 6)
                        {
                            std::string f2 = ia->getFilename().str();
                            auto q = f2.rfind('/');
                            if (q != std::string::npos)
                            {
                                f2 = f2.substr(q + 1);
                            }
                            line += " <- " + f2 + ":" + std::to_string(ia->getLine());
                            ia = ia->getInlinedAt();
                        }
                    }
                }
                if (!r.empty())
                {
                    r += " | ";
                }
                r += shortName(it->fi->name) + "@" + line;
            }
            return r;
        }

        static std::string shortName(const std::string& n)
        {
            return n.size() > 110 ? n.substr(0, 110) + "..." : n;
        }

        static bool repoFile(StringRef f)
        {
            return f.contains("include/sparrow/") || (f.contains("/src/") && !f.contains("/gcc"));
        }

        std::unordered_map<const DISubprogram*, std::string> spNames;

        // "file: function" of a subprogram of the code under verification, empty for any other
        const std::string& spName(const DISubprogram* sp)
        {
            auto it = spNames.find(sp);
            if (it == spNames.end())
            {
                std::string r;
                StringRef f = sp->getFilename();
                if (repoFile(f))
                {
                    auto q = f.rfind('/');
                    StringRef n = sp->getName();
                    r = (f.substr(q == StringRef::npos ? 0 : q + 1) + ": " + n.substr(0, n.find('<') == StringRef::npos || n.starts_with("operator") ? n.size() : n.find('<'))).str();
                }
                it = spNames.emplace(sp, r).first;
            }
            return it->second;
        }

        std::string userFn(const State& s)
        {
            for (auto it = s.fr.rbegin(); it != s.fr.rend(); ++it)
            {
                if (it->ip == it->bb->end())
                {
                    continue;
                }
                for (const DILocation* l = it->ip->getDebugLoc().get(); l; l = l->getInlinedAt())
                {
                    if (auto* sp = l->getScope()->getSubprogram())
                    {
                        const std::string& n = spName(sp);
                        if (!n.empty())
                        {
                            return n;
                        }
                    }
                }
                if (auto* sp = it->fi->f->getSubprogram())
                {
                    const std::string& n = spName(sp);
                    if (!n.empty())
                    {
                        return n;
                    }
                }
            }
            return s.fr.empty() ? "?" : shortName(s.fr.front().fi->name);
        }

        std::unordered_set<const void*> seenLoc;
        std::set<std::string> coveredFns;

        void noteLoc(const Instruction& i)
        {
            const DILocation* l = i.getDebugLoc().get();
            while (l && seenLoc.insert(l).second)
            {
                if (auto* sp = l->getScope()->getSubprogram())
                {
                    const std::string& n = spName(sp);
                    if (!n.empty())
                    {
                        coveredFns.insert(n);
                    }
                }
                l = l->getInlinedAt();
            }
        }

        // ---------------------------------------------------------------- path condition
        bool inPC(const State& s, E c)
        {
            for (auto x : s.pc)
            {
                if (x == c)
                {
                    return true;
                }
            }
            return false;
        }

        // 1 true, 0 false, -1 unknown (syntactic)
        int known(const State& s, E c)
        {
            if (isC(c))
            {
                return c->c ? 1 : 0;
            }
            if (inPC(s, c))
            {
                return 1;
            }
            if (inPC(s, mkNot(c)))
            {
                return 0;
            }
            return -1;
        }

        void addPC(State& s, E c)
        {
            if (isTrue(c) || inPC(s, c))
            {
                return;
            }
            if (c->k == K::And)
            {
                addPC(s, c->a[0]);
                addPC(s, c->a[1]);
                return;
            }
            s.pc.push_back(c);
        }

        void checkTime()
        {
            if (now() - t0 > opt.timeLimit)
            {
                timedOut = true;
                throw PathEnd{"timeout"};
            }
        }

        Res query(State& s, E c)
        {
            checkTime();
            return sol.check(s.pc, {c});
        }

        Res feasible(State& s, E c)
        {
            checkTime();
            return sol.feasible(s.pc, c);
        }

        // is c implied by the path condition
        bool implied(State& s, E c)
        {
            int k = known(s, c);
            if (k >= 0)
            {
                return k == 1;
            }
            if (s.proved.count(c))
            {
                return true;
            }
            if (query(s, mkNot(c)) == Res::Unsat)
            {
                s.proved.insert(c);
                return true;
            }
            return false;
        }

        std::string dumpInputs(State& s)
        {
            std::ostringstream os;
            for (auto& in : s.in)
            {
                if (!in.buffer)
                {
                    os << "s " << in.name << " " << u128str(sol.eval(in.v)) << "\n";
                }
                else
                {
                    u64 n = u64(sol.eval(in.v));
                    os << "b " << in.name << " " << n << " " << in.elem << " ";
                    u64 lim = std::min<u64>(n, 1 << 14);
                    static const char* hx = "0123456789abcdef";
                    std::string h;
                    u64 cnt = (lim + in.elem - 1) / in.elem;
                    for (u64 i = 0; i < cnt; ++i)
                    {
                        u128 v = sol.eval(mkUFs(in.sym, in.elem * 8, {c64(i)}));
                        for (u32 b = 0; b < in.elem && i * in.elem + b < lim; ++b)
                        {
                            unsigned x = unsigned(v >> (8 * b)) & 255;
                            h += hx[x >> 4];
                            h += hx[x & 15];
                        }
                    }
                    os << (h.empty() ? "-" : h) << "\n";
                }
            }
            return os.str();
        }

        // returns false when the path must stop (condition infeasible afterwards)
        bool oblige(State& s, E c, const std::string& name, const std::string& detail = "")
        {
            Obl& o = log->obl[name];
            ++o.inst;
            if (isTrue(c) || known(s, c) == 1 || s.proved.count(c))
            {
                ++o.proved;
                ++o.trivial;
                return true;
            }
            Res r = query(s, mkNot(c));
            if (r == Res::Unsat)
            {
                ++o.proved;
                s.proved.insert(c);
                return true;
            }
            if (quiet)
            {
                --o.inst;
                throw PathEnd{"obligation inside a merged region"};
            }
            if (r == Res::Unknown)
            {
                ++o.unknown;
                if (trial)
                {
                    return true;
                }
                log->unknownWhere.insert(name + " at " + locOf(s));
                addPC(s, c);
                return true;
            }
            ++o.failed;
            if (trial)
            {
                return !isFalse(c);   // exploratory run: do not learn from an obligation that does not hold yet
            }
            if (!trial && log->fails.size() < 64)
            {
                u64 same = 0;
                for (auto& f : log->fails)
                {
                    same += f.obl == name;
                }
                if (same < opt.maxFails)
                {
                    recordFailure(s, mkNot(c), name, detail);
                }
            }
            if (isFalse(c) || query(s, c) == Res::Unsat)
            {
                return false;
            }
            addPC(s, c);
            return true;
        }

        void recordFailure(State& s, E neg, const std::string& name, const std::string& detail)
        {
            Failure f;
            f.obl = name;
            f.loc = locOf(s);
            f.detail = detail;
            f.abstracted = s.abstracted;
            // look for a small countermodel first
            for (u64 b : {1, 2, 3, 4, 6, 8, 12, 17, 24, 40, 64, 130, 1024, 65536})
            {
                std::vector<E> ex{neg};
                for (auto& in : s.in)
                {
                    if (in.sizeLike && !isC(in.v))
                    {
                        u64 lim = std::max<u64>(b, u64(in.v->lo));
                        ex.push_back(mkUle(in.v, mkConst(lim, in.v->w)));
                    }
                }
                if (sol.check(s.pc, ex, true) == Res::Sat)
                {
                    f.inputs = dumpInputs(s);
                    break;
                }
            }
            if (f.inputs.empty() && sol.check(s.pc, {neg}, true) == Res::Sat)
            {
                f.inputs = dumpInputs(s);
            }
            if (opt.verbose)
            {
                std::cerr << "FAIL " << name << " at " << f.loc << "\n  " << detail << "\n  cond: " << str(neg, 8) << "\n" << f.inputs;
                for (auto x : s.pc) std::cerr << "   pc " << str(x, 5) << "\n";
            }
            log->fails.push_back(f);
        }

        void definiteFail(State& s, const std::string& name, const std::string& detail)
        {
            // the path reached a point that is an error by itself
            if (quiet)
            {
                throw PathEnd{"error inside a merged region"};
            }
            Obl& o = log->obl[name];
            ++o.inst;
            Res r = query(s, mkBool(true));
            if (r == Res::Unsat)
            {
                ++o.proved;
            }
            else if (r == Res::Unknown)
            {
                ++o.unknown;
                log->unknownWhere.insert(name + " at " + locOf(s));
            }
            else
            {
                ++o.failed;
                if (!trial)
                {
                    u64 same = 0;
                    for (auto& f : log->fails)
                    {
                        same += f.obl == name;
                    }
                    if (same < opt.maxFails)
                    {
                        recordFailure(s, mkBool(true), name, detail);
                    }
                }
            }
            throw PathEnd{name};
        }

        // decide a term to one value on this path, forking over the feasible ones
        u64 concretise(State& s, E e, const char* what)
        {
            if (isC(e))
            {
                return u64(e->c);
            }
            checkTime();
            if (sol.check(s.pc, {}, true) != Res::Sat)
            {
                throw PathEnd{"infeasible"};
            }
            u128 v = sol.eval(e);
            E eq = mkEq(e, mkConst(v, e->w));
            if (implied(s, eq))
            {
                return u64(v);
            }
            if (++s.concretised > 40)
            {
                s.bounded.insert(std::string("concretised ") + what + " in " + userFn(s));
                log->bounded.insert(std::string("concretised ") + what + " in " + userFn(s));
                throw PathEnd{"concretisation limit"};
            }
            throw ForkOn{eq};
        }

        // ---------------------------------------------------------------- memory
        const Obj* obj(State& s, u32 id)
        {
            const Obj* o = s.mem.get(id);
            if (o)
            {
                return o;
            }
            auto it = idg.find(id);
            if (it == idg.end())
            {
                return nullptr;
            }
            if (auto* gv = dyn_cast<GlobalVariable>(it->second))
            {
                auto& p = ginit[gv];
                if (!p)
                {
                    p = std::make_shared<Obj>();
                    p->kind = ObjKind::Global;
                    p->name = gv->getName().str();
                    p->size = c64(DL.getTypeAllocSize(gv->getValueType()).getFixedValue());
                    p->readonly = gv->isConstant();
                    p->c.init.k = Init::Zero;
                    if (gv->hasInitializer() && !isa<ConstantAggregateZero>(gv->getInitializer()))
                    {
                        p->c.cells = std::make_shared<CellMap>();
                        writeConst(*p->c.cells, 0, gv->getInitializer());
                    }
                    if (!gv->hasInitializer())
                    {
                        p->size = c64(4096);
                    }
                }
                s.mem.set(id, p);
                return p.get();
            }
            return nullptr;
        }

        void writeConst(CellMap& m, i64 off, const Constant* c)
        {
            Type* t = c->getType();
            if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
            {
                return;  // zero initialised
            }
            if (isAgg(t))
            {
                for (u64 i = 0; i < aggCount(t); ++i)
                {
                    writeConst(m, off + i64(aggOff(t, i)), c->getAggregateElement(i));
                }
                return;
            }
            E v = constVal(c).e;
            u64 n = DL.getTypeStoreSize(t).getFixedValue();
            if (v->w < n * 8)
            {
                v = mkZExt(v, n * 8);
            }
            m[off] = {v, u32(n)};
        }

        // Resolve address; returns object id, and offset. Checks [off, off+len) in bounds, object alive.
        struct Ptr { u32 id; E off; };

        E pickIte(State& s, E a)
        {
            for (int guard = 0; guard < 200; ++guard)
            {
                E ite = nullptr;
                if (a->k == K::Ite)
                {
                    ite = a;
                }
                else if (a->k == K::Lin)
                {
                    for (auto t : a->a)
                    {
                        if (t->k == K::Ite && (t->lo >= (u128(1) << SH) || t->hi >= (u128(1) << SH)))
                        {
                            ite = t;
                            break;
                        }
                    }
                }
                if (!ite)
                {
                    return a;
                }
                int k = known(s, ite->a[0]);
                if (k < 0)
                {
                    if (implied(s, ite->a[0]))
                    {
                        k = 1;
                    }
                    else if (implied(s, mkNot(ite->a[0])))
                    {
                        k = 0;
                    }
                    else
                    {
                        throw ForkOn{ite->a[0]};
                    }
                }
                a = a == ite ? (k ? ite->a[1] : ite->a[2]) : subst(a, ite, k ? ite->a[1] : ite->a[2]);
            }
            return a;
        }

        Ptr resolve(State& s, E addr, E len, bool write, const char* what)
        {
            addr = pickIte(s, addr);
            u64 base = 0;
            if (isC(addr))
            {
                base = u64(addr->c);
            }
            else if (addr->k == K::Lin)
            {
                base = u64(addr->c);
            }
            u32 id = u32((base + HALF) >> SH);
            const Obj* o = id ? obj(s, id) : nullptr;
            if (isC(len) && len->c == 0 && !o)
            {
                return {0, c64(0)};
            }
            if (!o)
            {
                if (id == 0 && !isC(len))
                {
                    // null pointer with symbolic length: legal only when the length is zero
                    if (!oblige(s, mkEq(len, c64(0)), "memory-safety: " + userFn(s), std::string("null/invalid pointer in ") + what))
                    {
                        throw PathEnd{"invalid pointer"};
                    }
                    return {0, c64(0)};
                }
                if (!isC(addr))
                {
                    // a pointer that is not syntactically based on an object: try to pin it down
                    u64 v = concretise(s, addr, "pointer");
                    return resolve(s, c64(v), len, write, what);
                }
                definiteFail(
                    s,
                    "memory-safety: " + userFn(s),
                    std::string(id == 0 ? "null pointer " : "invalid pointer ") + what + " addr=" + str(addr)
                );
            }
            if (o->freed)
            {
                if (isC(len) && len->c == 0)
                {
                    return {0, c64(0)};
                }
                if (!isC(len))
                {
                    if (!oblige(s, mkEq(len, c64(0)), "memory-safety: " + userFn(s), std::string("use of freed ") + o->name + " in " + what))
                    {
                        throw PathEnd{"freed"};
                    }
                    return {0, c64(0)};
                }
                definiteFail(s, "memory-safety: " + userFn(s), std::string("use after free/return of ") + o->name + " in " + what);
            }
            E off = mkSub(addr, c64(u128(id) << SH));
            E inb;
            if (isC(len) && isC(o->size))
            {
                inb = len->c <= o->size->c ? mkUle(off, c64(o->size->c - len->c)) : mkBool(false);
            }
            else
            {
                inb = mkAnd(mkUle(off, o->size), mkUle(len, mkSub(o->size, off)));
            }
            if (!isTrue(inb))
            {
                std::string d = what;
                d += write ? " (write)" : " (read)";
                if (!oblige(
                        s,
                        isC(len) ? inb : mkOr(mkEq(len, c64(0)), inb),
                        "memory-safety: " + userFn(s),
                        "out of bounds access to " + o->name + " size=" + str(o->size) + " offset=" + str(off) + " in " + d
                    ))
                {
                    throw PathEnd{"out of bounds"};
                }
            }
            if (write && o->readonly && o->kind == ObjKind::Global)
            {
                if (!(isC(len) && len->c == 0))
                {
                    definiteFail(s, "memory-safety: " + userFn(s), "write to constant " + o->name);
                }
            }
            return {id, off};
        }

        Val load(State& s, E addr, Type* t)
        {
            if (isAgg(t))
            {
                Val v;
                v.t = std::make_shared<std::vector<Val>>();
                for (u64 i = 0; i < aggCount(t); ++i)
                {
                    v.t->push_back(load(s, mkAdd(addr, c64(aggOff(t, i))), aggElem(t, i)));
                }
                return v;
            }
            unsigned b = bits(t);
            u32 n = u32(DL.getTypeStoreSize(t).getFixedValue());
            Ptr p = resolve(s, addr, c64(n), false, "load");
            E v = readContent(s.mem.get(p.id)->c, p.off, n);
            if (b < v->w)
            {
                v = mkTrunc(v, b);
            }
            if (v->k == K::Ite && t->isPointerTy())
            {
                v = pickIte(s, v);
            }
            return {v, nullptr};
        }

        void store(State& s, E addr, const Val& v, Type* t)
        {
            if (isAgg(t))
            {
                for (u64 i = 0; i < aggCount(t); ++i)
                {
                    store(s, mkAdd(addr, c64(aggOff(t, i))), (*v.t)[i], aggElem(t, i));
                }
                return;
            }
            u32 n = u32(DL.getTypeStoreSize(t).getFixedValue());
            Ptr p = resolve(s, addr, c64(n), true, "store");
            E x = v.e;
            if (x->w < n * 8)
            {
                x = mkZExt(x, n * 8);
            }
            writeContent(s.mem.mut(p.id)->c, p.off, x);
        }

        u32 newObj(State& s, ObjKind k, E size, const std::string& name, Init::Kind ik = Init::Undef, u32 elem = 1)
        {
            u32 id = s.nextId++;
            auto o = std::make_shared<Obj>();
            o->kind = k;
            o->size = size;
            o->name = name;
            o->c.init.k = ik;
            o->c.init.elem = elem;
            if (ik != Init::Zero)
            {
                o->c.init.sym = symId(name + "#" + std::to_string(id));
            }
            s.mem.set(id, o);
            return id;
        }

        static E addrOf(u32 id)
        {
            return c64(u128(id) << SH);
        }

        E allocate(State& s, E size, const char* what)
        {
            if (!oblige(
                    s,
                    mkUle(size, c64(u128(1) << 43)),
                    "allocation-size: " + userFn(s),
                    std::string(what) + " of an absurd size " + str(size)
                ))
            {
                throw PathEnd{"allocation size"};
            }
            u32 id = newObj(s, ObjKind::Heap, size, "heap");
            ++s.live;
            s.heapIds.push_back(id);
            return addrOf(id);
        }

        void deallocate(State& s, E p, E size = nullptr)
        {
            p = pickIte(s, p);
            if (isC(p) && p->c == 0)
            {
                return;
            }
            u64 base = isC(p) || p->k == K::Lin ? u64(p->c) : 0;
            u32 id = u32((base + HALF) >> SH);
            const Obj* o = id ? obj(s, id) : nullptr;
            std::string nm = "memory-safety: " + userFn(s);
            if (!o || o->kind != ObjKind::Heap)
            {
                definiteFail(s, nm, "free of a pointer that is not a live heap block: " + str(p) + (o ? " (" + o->name + ")" : ""));
            }
            if (o->freed)
            {
                definiteFail(s, nm, "double free of " + o->name);
            }
            if (!oblige(s, mkEq(p, addrOf(id)), nm, "free of an interior pointer " + str(p)))
            {
                throw PathEnd{"bad free"};
            }
            if (size && !isTrue(mkEq(size, o->size)))
            {
                (void) oblige(s, mkEq(size, o->size), "deallocation-size: " + userFn(s), "a block is returned with the size it was obtained with");
            }
            ++log->obl[nm].inst;
            ++log->obl[nm].proved;
            ++log->obl[nm].trivial;
            Obj* m = s.mem.mut(id);
            m->freed = true;
            m->c = Content{};
            --s.live;
        }

        // ---------------------------------------------------------------- calls
        void enter(State& s, Function* f, std::vector<Val> args, CallBase* site)
        {
            if (s.fr.size() > 400)
            {
                throw Unsupported{"recursion depth"};
            }
            FnInfo* fi = info(f);
            executed.insert(f);
            Frame fr;
            fr.fi = fi;
            fr.bb = &f->getEntryBlock();
            fr.ip = fr.bb->begin();
            fr.loc.resize(fi->n);
            u32 i = 0;
            for (auto& a : f->args())
            {
                if (site && a.hasByValAttr())
                {
                    Type* t = a.getParamByValType();
                    u64 n = DL.getTypeAllocSize(t).getFixedValue();
                    u32 id = newObj(s, ObjKind::Stack, c64(n), "byval argument of " + shortName(fi->name));
                    Ptr src = resolve(s, args[i].e, c64(n), false, "byval copy");
                    Content sc = s.mem.get(src.id)->c;
                    copyContent(s.mem.mut(id)->c, c64(0), sc, src.off, c64(n));
                    fr.allocas.push_back(id);
                    args[i].e = addrOf(id);
                }
                fr.loc[fi->slot.at(&a)] = args[i++];
            }
            s.fr.push_back(std::move(fr));
        }

        void popFrame(State& s)
        {
            for (u32 id : s.fr.back().allocas)
            {
                s.mem.set(id, deadStack);
            }
            s.fr.pop_back();
        }

        void advance(State& s)
        {
            // move past the call at the top frame
            Frame& f = s.fr.back();
            Instruction& i = *f.ip;
            if (auto* inv = dyn_cast<InvokeInst>(&i))
            {
                jump(s, inv->getNormalDest());
            }
            else
            {
                ++f.ip;
            }
        }

        void setResult(State& s, CallBase& cb, Val v)
        {
            if (!cb.getType()->isVoidTy())
            {
                setLoc(s, cb, std::move(v));
            }
        }

        void jump(State& s, BasicBlock* to)
        {
            Frame& f = s.fr.back();
            BasicBlock* from = f.bb;
            // simultaneous phi evaluation
            std::vector<std::pair<PHINode*, Val>> vals;
            for (auto& p : to->phis())
            {
                vals.emplace_back(&p, get(s, p.getIncomingValueForBlock(from)));
            }
            for (auto& [p, v] : vals)
            {
                f.loc[f.fi->slot.at(p)] = v;
            }
            f.prev = from;
            f.bb = to;
            f.ip = to->getFirstNonPHIIt();
            // loop bookkeeping
            while (!f.snaps.empty() && !f.snaps.back().first->contains(to))
            {
                f.snaps.pop_back();
            }
            Loop* l = f.fi->li->getLoopFor(to);
            if (l && l->getHeader() == to && !l->contains(from))
            {
                std::shared_ptr<LoopSnap> sn;
                if (opt.summarise)
                {
                    sn = std::make_shared<LoopSnap>();
                    sn->st = s;
                }
                // reset fork counters of this loop
                for (auto it = f.forks.begin(); it != f.forks.end();)
                {
                    if (l->contains(it->first->getParent()))
                    {
                        it = f.forks.erase(it);
                    }
                    else
                    {
                        ++it;
                    }
                }
                f.snaps.emplace_back(l, sn);
            }
        }

        void unwind(State& s)
        {
            // the exception is in s.cur; the current instruction of the top frame is the throwing call (or resume)
            while (!s.fr.empty())
            {
                Frame& f = s.fr.back();
                if (f.ip != f.bb->end())
                {
                    if (auto* inv = dyn_cast<InvokeInst>(&*f.ip))
                    {
                        jump(s, inv->getUnwindDest());
                        return;
                    }
                }
                if (s.fr.size() == 1)
                {
                    break;
                }
                popFrame(s);
            }
            definiteFail(s, "uncaught-exception", "exception " + s.cur.tiName + " leaves the harness");
        }

        static std::string tiOf(const Value* v)
        {
            auto* c = v->stripPointerCasts();
            if (auto* g = dyn_cast<GlobalValue>(c))
            {
                return g->getName().str();
            }
            return "";
        }

        bool tiDerives(const std::string& d, const std::string& b)
        {
            if (d == b)
            {
                return true;
            }
            static const std::map<std::string, std::string> std_ = {
                {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
                {"_ZTISt12length_error", "_ZTISt11logic_error"},
                {"_ZTISt12domain_error", "_ZTISt11logic_error"},
                {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
                {"_ZTISt11logic_error", "_ZTISt9exception"},
                {"_ZTISt13runtime_error", "_ZTISt9exception"},
                {"_ZTISt11range_error", "_ZTISt13runtime_error"},
                {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
                {"_ZTISt9bad_alloc", "_ZTISt9exception"},
                {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
                {"_ZTISt8bad_cast", "_ZTISt9exception"},
                {"_ZTISt17bad_function_call", "_ZTISt9exception"},
                {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
                {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
            };
            auto it = std_.find(d);
            if (it != std_.end())
            {
                return tiDerives(it->second, b);
            }
            if (auto* g = M.getNamedGlobal(d))
            {
                if (g->hasInitializer())
                {
                    for (unsigned i = 2; i < g->getInitializer()->getNumOperands(); ++i)
                    {
                        std::string x = tiOf(g->getInitializer()->getOperand(i));
                        if (x.compare(0, 4, "_ZTI") == 0 && tiDerives(x, b))
                        {
                            return true;
                        }
                    }
                }
            }
            return false;
        }

        std::map<std::string, u32> tiIds;

        u32 tiId(const std::string& n)
        {
            auto it = tiIds.find(n);
            if (it == tiIds.end())
            {
                it = tiIds.emplace(n, u32(tiIds.size() + 1)).first;
            }
            return it->second;
        }

        [[nodiscard]] bool doThrow(State& s, const std::string& ti, u64 ptr)
        {
            Exn x;
            x.ptr = ptr;
            x.tiName = ti;
            s.cur = x;
            s.hasCur = true;
            s.exns[ptr] = x;
            unwind(s);
            return true;
        }

        bool throwStd(State& s, const std::string& ti)
        {
            u32 id = newObj(s, ObjKind::Exn, c64(16), "exception object", Init::Zero);
            return doThrow(s, ti, u64(id) << SH);
        }

        // FP helpers -------------------------------------------------------
        enum FOps { FADD = 1, FSUB, FMUL, FDIV, FREM, FNEG, FTOUI, FTOSI, UITOF, SITOF, FEXT, FTRUNC, FCEIL, FFLOOR, FTRU, FROUND, FABS_, FMISC };

        static double asD(u128 v) { u64 x = u64(v); double d; memcpy(&d, &x, 8); return d; }
        static float asF(u128 v) { u32 x = u32(v); float d; memcpy(&d, &x, 4); return d; }
        static E fromD(double d) { u64 x; memcpy(&x, &d, 8); return mkConst(x, 64); }
        static E fromF(float d) { u32 x; memcpy(&x, &d, 4); return mkConst(x, 32); }

        // view a term as an exact integer multiple of a power of two
        static bool asFInt(E e, E& x, int& ex)
        {
            if (e->k == K::FInt)
            {
                x = e->a[0];
                ex = int(e->aux);
                return true;
            }
            if (isC(e) && e->w == 64)
            {
                double d = asD(e->c);
                if (d >= 0 && std::isfinite(d))
                {
                    if (d == 0)
                    {
                        x = c64(0);
                        ex = 0;
                        return true;
                    }
                    int k;
                    double m = std::frexp(d, &k);
                    u64 mi = u64(std::ldexp(m, 53));
                    k -= 53;
                    while (!(mi & 1))
                    {
                        mi >>= 1;
                        ++k;
                    }
                    x = c64(mi);
                    ex = k;
                    return true;
                }
            }
            return false;
        }

        E fbin(unsigned op, E a, E b)
        {
            if (isC(a) && isC(b))
            {
                if (a->w == 64)
                {
                    double x = asD(a->c), y = asD(b->c);
                    return fromD(op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : std::fmod(x, y));
                }
                if (a->w == 32)
                {
                    float x = asF(a->c), y = asF(b->c);
                    return fromF(op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : std::fmod(x, y));
                }
            }
            E x, y;
            int ex, ey;
            if (a->w == 64 && asFInt(a, x, ex) && asFInt(b, y, ey))
            {
                if ((op == FMUL || op == FDIV) && isC(y) && y->c == 1)
                {
                    return mkFInt(x, op == FMUL ? ex + ey : ex - ey);
                }
                if (op == FMUL && isC(x) && x->c == 1)
                {
                    return mkFInt(y, ex + ey);
                }
                if (op == FMUL && isC(y) && x->hi * y->c < (u128(1) << 53))
                {
                    return mkFInt(mkMulC(x, y->c), ex + ey);
                }
            }
            return mkFOp(op, a->w, {a, b});
        }

        E fround(unsigned op, E a)
        {
            if (isC(a) && a->w == 64)
            {
                double x = asD(a->c);
                return fromD(op == FCEIL ? std::ceil(x) : op == FFLOOR ? std::floor(x) : op == FTRU ? std::trunc(x) : std::round(x));
            }
            E x;
            int ex;
            if (a->w == 64 && asFInt(a, x, ex) && op != FROUND)
            {
                if (ex >= 0)
                {
                    return a;
                }
                unsigned k = unsigned(-ex);
                if (k < 60)
                {
                    E y = op == FCEIL ? mkLShr(mkAdd(x, c64((u128(1) << k) - 1)), c64(k)) : mkLShr(x, c64(k));
                    return mkFInt(y, 0);
                }
            }
            return mkFOp(op, a->w, {a});
        }

        E ftoi(E a, unsigned w, bool sign)
        {
            if (isC(a))
            {
                double d = a->w == 64 ? asD(a->c) : double(asF(a->c));
                if (sign)
                {
                    return mkConst(u128(i128(d)), w);
                }
                return mkConst(u128(d), w);
            }
            E x;
            int ex;
            if (a->w == 64 && asFInt(a, x, ex))
            {
                E r = ex >= 0 ? mkMulC(x, u128(1) << ex) : mkLShr(x, c64(unsigned(-ex)));
                return w < 64 ? mkTrunc(r, w) : r;
            }
            return mkFOp(sign ? FTOSI : FTOUI, w, {a});
        }

        E itof(E a, unsigned w, bool sign)
        {
            if (isC(a))
            {
                if (sign)
                {
                    i128 v = i128(a->c);
                    if ((a->c >> (a->w - 1)) & 1)
                    {
                        v -= i128(1) << a->w;
                    }
                    return w == 64 ? fromD(double(v)) : fromF(float(v));
                }
                return w == 64 ? fromD(double(a->c)) : fromF(float(a->c));
            }
            if (w == 64 && a->hi < (u128(1) << 53))
            {
                return mkFInt(a->w < 64 ? mkZExt(a, 64) : a, 0);
            }
            return mkFOp(sign ? SITOF : UITOF, w, {a});
        }

        E fcmp(CmpInst::Predicate p, E a, E b)
        {
            if (p == CmpInst::FCMP_TRUE)
            {
                return mkBool(true);
            }
            if (p == CmpInst::FCMP_FALSE)
            {
                return mkBool(false);
            }
            unsigned w = a->w;
            E x, y;
            int ex, ey;
            E eq, lt, uno;
            if (w == 64 && (a->k == K::FInt || b->k == K::FInt) && asFInt(a, x, ex) && asFInt(b, y, ey) && std::abs(ex - ey) < 10)
            {
                int m = std::min(ex, ey);
                E X = mkMulC(x, u128(1) << (ex - m)), Y = mkMulC(y, u128(1) << (ey - m));
                eq = mkEq(X, Y);
                lt = mkUlt(X, Y);
                uno = mkBool(false);
            }
            else
            {
                u128 inf = w == 64 ? u128(0x7ff0000000000000ull) : w == 32 ? u128(0x7f800000u) : 0;
                if (!inf)
                {
                    throw Unsupported{"fcmp width"};
                }
                u128 sm = mask(w - 1);
                E ma = mkAnd(a, mkConst(sm, w)), mb = mkAnd(b, mkConst(sm, w));
                uno = mkOr(mkUlt(mkConst(inf, w), ma), mkUlt(mkConst(inf, w), mb));
                E bothZero = mkAnd(mkEq(ma, mkConst(0, w)), mkEq(mb, mkConst(0, w)));
                eq = mkAnd(mkNot(uno), mkOr(mkEq(a, b), bothZero));
                E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
                // a<b: signs differ -> a negative and not both zero; both + -> a<b unsigned; both - -> b<a unsigned
                E l = mkIte(mkXor(sa, sb), mkAnd(sa, mkNot(bothZero)), mkIte(sa, mkUlt(b, a), mkUlt(a, b)));
                lt = mkAnd(mkNot(uno), l);
            }
            E gt = mkAnd(mkNot(uno), mkAnd(mkNot(lt), mkNot(eq)));
            switch (p)
            {
                case CmpInst::FCMP_OEQ:
                    return eq;
                case CmpInst::FCMP_OGT:
                    return gt;
                case CmpInst::FCMP_OGE:
                    return mkOr(gt, eq);
                case CmpInst::FCMP_OLT:
                    return lt;
                case CmpInst::FCMP_OLE:
                    return mkOr(lt, eq);
                case CmpInst::FCMP_ONE:
                    return mkOr(lt, gt);
                case CmpInst::FCMP_ORD:
                    return mkNot(uno);
                case CmpInst::FCMP_UNO:
                    return uno;
                case CmpInst::FCMP_UEQ:
                    return mkOr(uno, eq);
                case CmpInst::FCMP_UGT:
                    return mkOr(uno, gt);
                case CmpInst::FCMP_UGE:
                    return mkNot(lt);
                case CmpInst::FCMP_ULT:
                    return mkOr(uno, lt);
                case CmpInst::FCMP_ULE:
                    return mkNot(gt);
                default:
                    return mkNot(eq);  // UNE
            }
        }

        // ---------------------------------------------------------------- externals
        static E popcnt(E x)
        {
            E r = mkConst(0, x->w);
            for (unsigned i = 0; i < x->w; ++i)
            {
                r = mkAdd(r, x->w == 1 ? x : mkZExt(mkExtract(x, i, 1), x->w));
            }
            return r;
        }

        std::string cstr(State& s, E p)
        {
            std::string r;
            p = pickIte(s, p);
            if (!isC(p))
            {
                return "?";
            }
            for (u64 i = 0; i < 200; ++i)
            {
                u32 id = u32((u64(p->c) + i + HALF) >> SH);
                const Obj* o = obj(s, id);
                if (!o || o->freed)
                {
                    break;
                }
                E b = readContent(o->c, c64(u64(p->c) + i - (u64(id) << SH)), 1);
                if (!isC(b) || b->c == 0)
                {
                    break;
                }
                r += char(b->c);
            }
            return r;
        }

        E memcmpExpr(State& s, E a, E b, u64 n, bool eqOnly)
        {
            Ptr pa = resolve(s, a, c64(n), false, "memcmp"), pb = resolve(s, b, c64(n), false, "memcmp");
            if (n == 0)
            {
                return mkConst(0, 32);
            }
            const Content ca = s.mem.get(pa.id)->c, cb = s.mem.get(pb.id)->c;
            E r = mkConst(0, 32);
            E allEq = mkBool(true);
            for (u64 i = n; i-- > 0;)
            {
                E x = readContent(ca, mkAdd(pa.off, c64(i)), 1), y = readContent(cb, mkAdd(pb.off, c64(i)), 1);
                E eq = mkEq(x, y);
                if (eqOnly)
                {
                    allEq = mkAnd(allEq, eq);
                }
                else
                {
                    r = mkIte(eq, r, mkIte(mkUlt(x, y), mkConst(mask(32), 32), mkConst(1, 32)));
                }
            }
            if (eqOnly)
            {
                return mkIte(allEq, mkConst(0, 32), mkConst(1, 32));
            }
            return r;
        }

        void instantiate(State& s, const QFact& q, E at)
        {
            E c = mkOr(mkNot(mkUlt(at, q.bound)), subst(q.cond, q.var, at));
            addPC(s, c);
        }

        void addQFact(State& s, QFact q)
        {
            s.qfacts.push_back(q);
            for (auto t : s.skolems)
            {
                instantiate(s, q, t);
            }
        }

        // memcmp with symbolic length: case split on equality, with the first difference as witness
        // returns nullptr when it cannot be modelled
        bool memcmpSym(State& s, CallBase& cb, E a, E b, E n)
        {
            Ptr pa = resolve(s, a, n, false, "memcmp"), pb = resolve(s, b, n, false, "memcmp");
            if (pa.id == 0 || pb.id == 0)
            {
                setResult(s, cb, {mkConst(0, 32), nullptr});
                return true;
            }
            const Content ca = s.mem.get(pa.id)->c, cb2 = s.mem.get(pb.id)->c;
            E k = mkVar("memcmp_k" + std::to_string(freshCtr++), 64, 0, u128(1) << 43);
            E x = readContent(ca, mkAdd(pa.off, k), 1), y = readContent(cb2, mkAdd(pb.off, k), 1);
            E eq = mkEq(x, y);
            if (isTrue(eq))
            {
                setResult(s, cb, {mkConst(0, 32), nullptr});
                return true;
            }
            // equal case continues in a fork
            State t = s;
            addQFact(t, {k, n, eq});
            {
                // also instantiate at 0 and n-1 for feasibility
                instantiate(t, {k, n, eq}, c64(0));
                instantiate(t, {k, n, eq}, mkSub(n, c64(1)));
            }
            CallBase& cbt = cb;
            if (sol.check(t.pc, {}) != Res::Unsat)
            {
                setResult(t, cbt, {mkConst(0, 32), nullptr});
                advance(t);
                work.push_back(std::move(t));
            }
            // differing case
            E w = mkVar("memcmp_w" + std::to_string(freshCtr++), 64, 0, u128(1) << 43);
            addPC(s, mkUlt(w, n));
            addPC(s, mkNot(subst(eq, k, w)));
            addQFact(s, {k, w, eq});
            s.skolems.push_back(w);
            if (sol.check(s.pc, {}) == Res::Unsat)
            {
                throw PathEnd{"infeasible"};
            }
            E lt = mkUlt(subst(x, k, w), subst(y, k, w));
            setResult(s, cb, {mkIte(lt, mkConst(mask(32), 32), mkConst(1, 32)), nullptr});
            return true;
        }

        std::map<std::string, std::string> loopWhy;
        void registerExternals();
        bool callIntrinsic(State& s, CallBase& cb, Function* f, std::vector<Val>& a);
        void execCall(State& s, CallBase& cb);
        bool streamModel(State& s, CallBase& cb, Function* f, std::vector<Val>& a);
        void step(State& s);
        void branchOn(State& s, E c, BasicBlock* t, BasicBlock* f, Instruction& i);
        bool summarise(State& cur, Loop* l, std::shared_ptr<LoopSnap> sn);
        void explore(std::vector<State> init, const std::function<bool(State&)>& stop, u64 limit);
        void runEntry(Function* f);
        std::string json();
#include "loops_types.inc"
#include "merge.inc"
    };
#include "externals.inc"
#include "step.inc"
#include "loops.inc"
#include "main.inc"
}

int main(int argc, char** argv)
{
    return vf::mainEntry(argc, argv);
}
