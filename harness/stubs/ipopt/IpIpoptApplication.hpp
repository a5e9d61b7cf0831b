#pragma once
#include "IpTNLP.hpp"
#include "IpSolveStatistics.hpp"
#include <functional>
#include <map>
#include <string>
namespace Ipopt {
class OptionsList : public ReferencedObject { public: std::map<std::string, std::string> s; std::map<std::string, double> n; std::map<std::string, int> i;
    bool SetNumericValue(const std::string &k, Number v, bool = true, bool = false) { n[k] = v; return true; } bool SetIntegerValue(const std::string &k, Index v, bool = true, bool = false) { i[k] = v; return true; } bool SetStringValue(const std::string &k, const std::string &v, bool = true, bool = false) { s[k] = v; return true; } };
class IpoptApplication;
// what "Ipopt" does in OptimizeTNLP is the harness's business
struct StandIn { static std::function<ApplicationReturnStatus(IpoptApplication &, TNLP &)> &solve() { static std::function<ApplicationReturnStatus(IpoptApplication &, TNLP &)> f; return f; } };
class IpoptApplication : public ReferencedObject { public: SmartPtr<OptionsList> opt; SmartPtr<SolveStatistics> stat; int initialised = 0;
    IpoptApplication() : opt(new OptionsList), stat(new SolveStatistics) {}
    ApplicationReturnStatus Initialize(bool = false) { ++initialised; return Solve_Succeeded; }
    SmartPtr<OptionsList> Options() { return opt; } SmartPtr<const OptionsList> Options() const { return SmartPtr<const OptionsList>(opt.p); } SmartPtr<SolveStatistics> Statistics() { return stat; }
    ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP> &t) { return StandIn::solve()(*this, *t); } ApplicationReturnStatus ReOptimizeTNLP(const SmartPtr<TNLP> &t) { return StandIn::solve()(*this, *t); } };
}
inline Ipopt::IpoptApplication *IpoptApplicationFactory() { return new Ipopt::IpoptApplication; }
