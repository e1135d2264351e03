// Contract (trusted) that stands for NLopt: the result lies within the bounds,
// is not worse than the start, and the reported minimum is the objective there.
#pragma once
#include "dv.h"
namespace nlopt
{
enum algorithm { GN_ORIG_DIRECT_L, LN_COBYLA, LN_NELDERMEAD, GN_DIRECT_L, LN_SBPLX, LN_BOBYQA, NUM_ALGORITHMS };
enum result
{
  FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5,
  SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4,
  MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6
};
typedef dv::Real (*vfunc)(const std::vector<dv::Real> &, std::vector<dv::Real> &, void *);
class opt
{
public:
  algorithm alg;
  unsigned n;
  std::vector<dv::Real> lb, ub;
  vfunc f = nullptr;
  void *d = nullptr;
  opt(algorithm a, unsigned n_) : alg(a), n(n_) {}
  void set_lower_bounds(const std::vector<dv::Real> &v) { lb = v; }
  void set_upper_bounds(const std::vector<dv::Real> &v) { ub = v; }
  void set_min_objective(vfunc g, void *p) { f = g; d = p; }
  void set_xtol_rel(dv::Real) {}
  void set_ftol_rel(dv::Real) {}
  void set_xtol_abs(dv::Real) {}
  void set_maxeval(int) {}
  void set_maxtime(dv::Real) {}
  result optimize(std::vector<dv::Real> &x, dv::Real &minf)
  {
    dv::assumption("NLopt contract: result within the bounds, not above the start, minf = objective(result)");
    dv::ensure_true("nlopt: one start value per dimension", x.size() == n);
    for (std::size_t i = 0; i < lb.size() && i < ub.size(); i++)
      dv::ensure("nlopt: lower bound below upper bound", lb[i] <= ub[i]);
    std::vector<dv::Real> g;
    dv::Real f0 = f(x, g, d);
    for (std::size_t i = 0; i < x.size(); i++)
    {
      x[i] = dv::havoc("nlopt_x");
      if (i < lb.size()) dv::assume(lb[i] <= x[i]);
      if (i < ub.size()) dv::assume(x[i] <= ub[i]);
    }
    minf = f(x, g, d);
    dv::assume(minf <= f0);
    int k = dv::choose("nlopt_result", 4);
    return k == 0 ? SUCCESS : k == 1 ? FTOL_REACHED : k == 2 ? XTOL_REACHED : MAXEVAL_REACHED;
  }
};
} // namespace nlopt
