#pragma once
#include <vector>
namespace ms {
struct FBound { double lo, hi; bool nan; };
bool intervalUnsat(const std::vector<E>& cs);
// bounds that hold for the given floating point terms under the constraints
void intervalBounds(const std::vector<E>& cs, const std::vector<E>& nodes, std::vector<FBound>& out);
// 1: satisfiable (model), 0: unsatisfiable, -1: not decided
int branchAndPrune(const std::vector<E>& cs, const std::vector<E>& varNodes, double seconds, Model& model, uint64_t& boxes);
}
