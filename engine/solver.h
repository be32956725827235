// Z3 back end: decides satisfiability of conjunctions of Exprs and produces models.
#pragma once
#include "expr.h"
#include <memory>

namespace ms {
enum class R { SAT, UNSAT, UNKNOWN };

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, abstractUnsat = 0, intervalUnsat = 0, ufRefinements = 0, boxes = 0, byBoxes = 0;
    double seconds = 0, maxSeconds = 0;
};

class Solver {
public:
    struct Impl;
    std::unique_ptr<Impl> im;
public:
    SolverStats stats;
    double deadline = 0;     // seconds of steady_clock after which queries get a token budget only
    std::string dumpDir;
    Solver();
    ~Solver();
    // Decide the conjunction.  On SAT, *m (if not null) receives values for the variables that
    // occur in the constraints (other entries untouched) and *valid tells whether the model was
    // confirmed by native evaluation of every constraint (false only when libm functions occur and
    // refinement did not converge).
    R check(const std::vector<E>& cs, Model* m, bool* valid, unsigned timeoutMs);
};

// constraints of pc that (transitively) share variables with e
std::vector<E> slice(const std::vector<E>& pc, E e);
} // namespace ms
