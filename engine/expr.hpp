// Hash-consed bit-vector terms with simplification; the term language of the verifier.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vf
{
    using u128 = unsigned __int128;
    using i128 = __int128;
    using u64 = uint64_t;
    using u32 = uint32_t;

    enum class K : uint8_t
    {
        Const, Var, UF, Lin, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
        Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Slt, Sum, FInt, FOp
    };

    struct Expr
    {
        K k;
        uint16_t w = 0;
        u32 id = 0;
        u32 aux = 0;   // Var/UF: symbol; Extract: low bit; FInt: exponent (as int32); FOp: op code; Sum: fold id
        u128 c = 0;    // Const value / Lin constant
        std::vector<const Expr*> a;
        std::vector<u128> coef;
        u128 lo = 0, hi = 0;  // unsigned interval (conservative)
        u32 height = 0;
        mutable void* z = nullptr;  // cached Z3_ast
    };
    using E = const Expr*;

    inline u128 mask(unsigned w)
    {
        return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1);
    }

    struct SumDef
    {
        E var;   // bound index (64-bit var)
        E body;  // 64-bit body
    };

    extern std::vector<std::string> symNames;
    extern std::vector<SumDef> sumDefs;
    u32 symId(const std::string& s);

    E mkConst(u128 v, unsigned w);
    inline E mkBool(bool b) { return mkConst(b ? 1 : 0, 1); }
    E mkVar(const std::string& name, unsigned w, u128 lo = 0, u128 hi = ~u128(0));
    E mkUF(const std::string& name, unsigned w, const std::vector<E>& args);
    E mkUFs(u32 sym, unsigned w, const std::vector<E>& args);
    E mkAdd(E a, E b);
    E mkSub(E a, E b);
    E mkMulC(E a, u128 c);
    E mkMul(E a, E b);
    E mkUDiv(E a, E b);
    E mkURem(E a, E b);
    E mkSDiv(E a, E b);
    E mkSRem(E a, E b);
    E mkShl(E a, E b);
    E mkLShr(E a, E b);
    E mkAShr(E a, E b);
    E mkAnd(E a, E b);
    E mkOr(E a, E b);
    E mkXor(E a, E b);
    E mkNot(E a);  // bitwise not
    E mkConcat(E hi, E lo);
    E mkExtract(E a, unsigned lo, unsigned w);
    E mkZExt(E a, unsigned w);
    E mkSExt(E a, unsigned w);
    inline E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }
    E mkIte(E c, E t, E f);
    E mkEq(E a, E b);
    E mkUlt(E a, E b);
    E mkSlt(E a, E b);
    inline E mkUle(E a, E b) { return mkXor(mkUlt(b, a), mkBool(true)); }
    inline E mkSle(E a, E b) { return mkXor(mkSlt(b, a), mkBool(true)); }
    E mkSum(u32 def, E n);                 // sum_{0<=k<n} body(k), 64-bit
    u32 newSumDef(E var, E body);          // hash-consed on body
    E mkSumOf(E var, E body, E n);         // with normalisation
    E mkFInt(E x, int exp);                // double whose value is unsigned(x)*2^exp, exact (x < 2^53)
    E mkFOp(u32 op, unsigned w, const std::vector<E>& a);

    inline bool isC(E e) { return e->k == K::Const; }
    inline bool isTrue(E e) { return e->k == K::Const && e->c == 1; }
    inline bool isFalse(E e) { return e->k == K::Const && e->c == 0; }

    // integer interpretation of a term: value = c + sum coef*term as mathematical integer in [lo,hi]
    struct IntRange { bool ok; i128 lo, hi; };
    IntRange linRange(E e);     // range of the *integer* linear combination (coefs taken signed)
    unsigned knownZeros(E e);   // number of known-zero low bits
    bool multipleOf(E e, u128 m);
    E divExact(E e, u128 d);    // exact division of a signed exact linear form, or nullptr

    E subst(E e, E var, E repl);
    E substMany(E e, const std::unordered_map<E, E>& m);
    bool contains(E e, E var);
    void collect(E e, std::unordered_set<E>& seen, const std::function<void(E)>& f);
    std::string str(E e, int depth = 6);
    size_t exprCount();
    std::string u128str(u128 v);
}
