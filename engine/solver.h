// vsx solver layer: z3 (in process, incremental with assumption literals) + a portfolio of external solvers for hard queries.
#pragma once
#include "expr.h"
#include <z3.h>

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, portfolio = 0; double time = 0, maxq = 0; };

struct Solver {
    Z3_context ctx; Z3_solver slv = nullptr;
    unsigned litsIn = 0;
    std::unordered_map<E, Z3_ast> lits;       // boolean expr -> literal implying it
    SolverStats st;
    double quickMs = 3000;                    // in-process limit before the portfolio
    double maxQuery = 300;                    // portfolio limit, seconds
    std::string tmpdir = "/tmp";
    bool fpUsed = false; bool directArith = false; bool fresh = false;
    bool direct(std::vector<E> const& cs);
    std::string portfolioLog;
    struct CKey { std::vector<uint32_t> ids; bool operator==(CKey const& o) const { return ids == o.ids; } };
    struct CHash { size_t operator()(CKey const& k) const { uint64_t h = 1469598103934665603ull; for (auto i : k.ids) { h ^= i; h *= 1099511628211ull; } return h; } };
    struct CVal { Res r; std::vector<std::pair<uint32_t, u128>> m; };
    std::unordered_map<CKey, CVal, CHash> cache;

    Solver();
    Z3_ast bv(E e); Z3_ast bo(E e);
    Z3_ast fp(E e);
    // is conjunction of cs satisfiable? fills assignment of the variables involved
    Res check(std::vector<E> const& cs, std::vector<std::pair<uint32_t, u128>>* out);
    Res portfolio(std::vector<E> const& cs, std::vector<uint32_t> const& vars, std::vector<std::pair<uint32_t, u128>>* out, double limit);
    std::string smt2(std::vector<E> const& cs, std::vector<uint32_t> const& vars);
    std::string intText(std::vector<E> const& cs, std::vector<uint32_t> const& vars, bool abstractDiv);
    void resetIncremental();
};
double now();
