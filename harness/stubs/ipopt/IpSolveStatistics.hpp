#pragma once
#include "IpTNLP.hpp"
namespace Ipopt {
class SolveStatistics : public ReferencedObject { public: int iter = 0; Number d = 0, c = 0, b = 0, co = 0, k = 0, obj = 0;
    Index IterationCount() const { return iter; } Number FinalObjective() const { return obj; }
    void Infeasibilities(Number &dual_inf, Number &constr_viol, Number &varbounds_viol, Number &complementarity, Number &kkt_error) const { dual_inf = d; constr_viol = c; varbounds_viol = b; complementarity = co; kkt_error = k; } };
}
