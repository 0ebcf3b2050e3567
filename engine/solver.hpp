// Back end: discharges verification conditions with z3 (QF_UFBV).
#pragma once
#include "expr.hpp"

#include <map>
#include <string>
#include <vector>
#include <z3.h>

namespace vf
{
    enum class Res { Unsat, Sat, Unknown };

    struct Solver
    {
        Z3_context ctx = nullptr;
        Z3_solver inc = nullptr;
        std::vector<E> stack;      // asserted, one scope each
        Z3_model model = nullptr;
        u64 nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0;
        double time = 0;
        double deadline = 1e18;
        unsigned softMs = 2000, hardMs = 15000, feasMs = 150;
        std::vector<Z3_model> models;
        u64 nModelHits = 0;
        Res feasible(const std::vector<E>& pc, E c);
        std::unordered_map<u32, std::vector<E>> sumNodes;
        std::vector<Z3_ast> sideFacts;  // pending global facts on sums
        std::unordered_map<u64, int> cache;
        std::unordered_set<E> factsDone;

        // linear-arithmetic encoding (exact integers; other operators uninterpreted): an over-approximation used for "unsat"
        Z3_solver lia = nullptr;
        std::vector<E> liaStack;
        std::vector<std::vector<E>> liaScopeTerms;   // terms whose defining facts were asserted in that scope
        std::unordered_set<E> liaHave;
        std::unordered_map<E, Z3_ast> iz;
        std::unordered_map<E, std::vector<Z3_ast>> ifacts;
        u64 nLia = 0, nLiaUnsat = 0, nSplit = 0;
        Z3_ast toInt(E e);
        Z3_ast toBool(E e);
        void intFacts(E e, std::vector<Z3_ast>& out, std::vector<E>& terms);
        bool liaUnsat(const std::vector<E>& pc, const std::vector<E>& extra, unsigned ms);
        Res splitCheck(const std::vector<E>& pc, E goal, int depth, int& budget);

        Solver();
        ~Solver();
        Res check(const std::vector<E>& pc, const std::vector<E>& extra, bool wantModel = false);
        u128 eval(E e);
        Z3_ast toZ3(E e);
        Z3_ast asBool(E e);
        Z3_ast asBV(E e);

    private:
        Res checkCore(const std::vector<E>& pc, const std::vector<E>& extra, bool wantModel, bool hard);
        void sumLemmas(const std::vector<E>& pc, std::vector<E>& extra);
        Res checkAll(const std::vector<E>& pc, const std::vector<E>& extra);
        Z3_func_decl uf(const std::string& name, unsigned w, const std::vector<E>& args);
        std::map<std::string, Z3_func_decl> ufs;
        void sync(const std::vector<E>& pc);
        void facts(E e, std::vector<Z3_ast>& out);
    };
    double now();
}
