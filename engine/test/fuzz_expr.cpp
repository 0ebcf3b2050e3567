// Self test of the term simplifier: random terms built with the mk* constructors are evaluated by an independent
// evaluator and compared with the value computed along the construction.
#include "../expr.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
using namespace vf;
static std::map<E, u128> env;
static u128 sx(u128 v, unsigned w) { return (v >> (w - 1)) & 1 ? v | ~mask(w) : v; }
static u128 ufval(u32 sym, u128 x, unsigned w) { u64 h = u64(x) * 0x9E3779B97F4A7C15ull + sym * 77; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h & mask(w); }
static u128 ev(E e)
{
    auto A = [&](int i) { return ev(e->a[i]); };
    u128 m = mask(e->w);
    switch (e->k)
    {
        case K::Const: return e->c;
        case K::Var: return env.at(e);
        case K::UF: return ufval(e->aux, A(0), e->w);
        case K::Lin: { u128 r = e->c; for (size_t i = 0; i < e->a.size(); ++i) r += A(i) * e->coef[i]; return r & m; }
        case K::Mul: return (A(0) * A(1)) & m;
        case K::UDiv: return A(1) ? A(0) / A(1) : m;
        case K::URem: return A(1) ? A(0) % A(1) : A(0);
        case K::SDiv: { i128 a = i128(sx(A(0), e->w)), b = i128(sx(A(1), e->w)); return b ? u128(a / b) & m : 0; }
        case K::SRem: { i128 a = i128(sx(A(0), e->w)), b = i128(sx(A(1), e->w)); return b ? u128(a % b) & m : 0; }
        case K::Shl: return A(1) < e->w ? (A(0) << unsigned(A(1))) & m : 0;
        case K::LShr: return A(1) < e->w ? A(0) >> unsigned(A(1)) : 0;
        case K::AShr: { u128 s = A(1) < e->w ? A(1) : e->w - 1; return u128(i128(sx(A(0), e->w)) >> unsigned(s)) & m; }
        case K::And: return A(0) & A(1);
        case K::Or: return A(0) | A(1);
        case K::Xor: return A(0) ^ A(1);
        case K::Concat: return (A(0) << e->a[1]->w) | A(1);
        case K::Extract: return (A(0) >> e->aux) & m;
        case K::ZExt: return A(0);
        case K::SExt: return sx(A(0), e->a[0]->w) & m;
        case K::Ite: return A(0) ? A(1) : A(2);
        case K::Eq: return A(0) == A(1);
        case K::Ult: return A(0) < A(1);
        case K::Slt: return i128(sx(A(0), e->a[0]->w)) < i128(sx(A(1), e->a[0]->w));
        default: printf("kind?\n"); exit(2);
    }
}
int main(int c, char** v)
{
    std::mt19937_64 g(c > 1 ? atoi(v[1]) : 1);
    auto rnd = [&](u64 n) { return u64(g() % n); };
    long bad = 0, total = 0;
    for (int round = 0; round < (c > 2 ? atoi(v[2]) : 3000); ++round)
    {
        env.clear();
        std::vector<std::pair<E, u128>> pool;
        static const unsigned ws[] = {1, 8, 16, 32, 64};
        for (int i = 0; i < 6; ++i)
        {
            unsigned w = ws[1 + rnd(4)];
            u128 lo = 0, hi = mask(w);
            int sel = int(rnd(4));
            if (sel == 0) { hi = rnd(20) + 1; }
            if (sel == 1) { lo = rnd(5); hi = lo + rnd(100) ; hi = std::min(hi, mask(w)); lo = std::min(lo, hi);}
            if (sel == 2 && w == 64) { hi = u128(1) << 32; }
            E x = mkVar("x" + std::to_string(round) + "_" + std::to_string(i), w, lo, hi);
            u128 val = lo + (hi - lo == ~u128(0) ? 0 : (u128(g()) % (hi - lo + 1)));
            int r = int(rnd(4)); if (r == 0) val = lo; if (r == 1) val = hi;
            env[x] = val; pool.push_back({x, val});
            if (w < 64) { pool.push_back({mkZExt(x, 64), val}); }
        }
        for (int i = 0; i < 8; ++i) { unsigned w = ws[1 + rnd(4)]; u128 k = rnd(3) ? rnd(10) : (rnd(2) ? mask(w) - rnd(5) : u128(1) << rnd(w)); k &= mask(w); pool.push_back({mkConst(k, w), k}); }
        for (int i = 0; i < 60; ++i)
        {
            auto pick = [&](unsigned w) -> std::pair<E, u128> { std::vector<int> c2; for (size_t j = 0; j < pool.size(); ++j) if (!w || pool[j].first->w == w) c2.push_back(j); if (c2.empty()) { u128 k = rnd(4) & mask(w); return {mkConst(k, w), k}; } return pool[c2[rnd(c2.size())]]; };
            auto a = pick(rnd(3) ? 64 : 0); unsigned w = a.first->w; auto b = pick(w);
            if (w > 64) continue;
            u128 M = mask(w);
            E r = nullptr; u128 rv = 0;
            i128 sa = i128(sx(a.second, w)), sb = i128(sx(b.second, w));
            switch (rnd(27))
            {
                case 0: case 1: r = mkAdd(a.first, b.first); rv = (a.second + b.second) & M; break;
                case 2: case 3: r = mkSub(a.first, b.first); rv = (a.second - b.second) & M; break;
                case 4: { u64 k = rnd(2) ? rnd(9) : 1ull << rnd(6); r = mkMulC(a.first, k); rv = (a.second * k) & M; break; }
                case 5: r = mkMul(a.first, b.first); rv = (a.second * b.second) & M; break;
                case 6: if (b.second == 0) continue; r = mkUDiv(a.first, b.first); rv = a.second / b.second; break;
                case 7: if (b.second == 0) continue; r = mkURem(a.first, b.first); rv = a.second % b.second; break;
                case 8: if (b.second == 0 || (sb == -1)) continue; r = mkSDiv(a.first, b.first); rv = u128(sa / sb) & M; break;
                case 9: if (b.second == 0 || (sb == -1)) continue; r = mkSRem(a.first, b.first); rv = u128(sa % sb) & M; break;
                case 10: { u64 k = rnd(w); r = mkShl(a.first, mkConst(k, w)); rv = (a.second << k) & M; break; }
                case 11: { u64 k = rnd(w < 8 ? w : 8); r = mkLShr(a.first, mkConst(k, w)); rv = a.second >> k; break; }
                case 12: { u64 k = rnd(w < 8 ? w : 8); r = mkAShr(a.first, mkConst(k, w)); rv = u128(sa >> k) & M; break; }
                case 13: r = mkAnd(a.first, b.first); rv = a.second & b.second; break;
                case 14: r = mkOr(a.first, b.first); rv = a.second | b.second; break;
                case 15: r = mkXor(a.first, b.first); rv = a.second ^ b.second; break;
                case 16: if (w * 2 > 64) continue; r = mkConcat(a.first, b.first); rv = (a.second << w) | b.second; break;
                case 17: { if (w < 8) continue; unsigned nw = ws[rnd(4)]; if (nw > w) continue; unsigned lo = unsigned(rnd(w - nw + 1)); r = mkExtract(a.first, lo, nw); rv = (a.second >> lo) & mask(nw); break; }
                case 18: if (w >= 64) continue; r = mkZExt(a.first, 64); rv = a.second; break;
                case 19: if (w >= 64) continue; r = mkSExt(a.first, 64); rv = u128(sa) & mask(64); break;
                case 20: { auto q = pick(1); r = mkIte(q.first, a.first, b.first); rv = q.second ? a.second : b.second; break; }
                case 21: r = mkEq(a.first, b.first); rv = a.second == b.second; break;
                case 22: case 23: r = mkUlt(a.first, b.first); rv = a.second < b.second; break;
                case 24: r = mkSlt(a.first, b.first); rv = sa < sb; break;
                case 25: r = mkUF("f", w, {a.first->w < 64 ? mkZExt(a.first, 64) : a.first}); rv = ufval(symId("f"), a.second, w); break;
                case 26: { auto q = pick(1); E x = pool[rnd(6)].first; if (x->k != K::Var) continue; E cst = mkConst(env[x], x->w); r = subst(a.first, x, cst); rv = a.second; (void) q; break; }
            }
            if (!r) continue;
            ++total;
            if (r->w == 0 || ev(r) != rv || rv < r->lo || rv > r->hi)
            {
                if (++bad < 5) { printf("BAD: %s\n got %s want %s lo %s hi %s\n  a=%s\n  b=%s\n", str(r, 6).c_str(), u128str(ev(r)).c_str(), u128str(rv).c_str(), u128str(r->lo).c_str(), u128str(r->hi).c_str(), str(a.first, 5).c_str(), str(b.first, 5).c_str()); }
                continue;
            }
            if (r->height < 40) pool.push_back({r, rv});
        }
    }
    printf("terms %ld bad %ld\n", total, bad);
    return bad != 0;
}
