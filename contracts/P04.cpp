// The input point is a stationary point of the tree-level potential, its
// Goldstone directions are massless.
#include "gauge.h"
using namespace spec;
namespace
{
template <class M> void vacuum()
{
  auto c   = constants();
  auto par = Params<M>::make();
  // the dark-sector model takes m11^2 as an input; the minimum at the input VEV fixes it
  if (std::is_same<M, Class_Potential_CPintheDark>::value) par[0] = -par[5] * c.C_vev0 * c.C_vev0 / Real(2);
  auto m   = make_model<M>(c, par);
  Vec v    = m->vevTree;
  dv::ensure_true("vacuum-has-one-entry-per-field", v.size() == m->NHiggs && m->vevTreeMin.size() == m->nVEV);
  auto E = tree_expansion(*m, v);
  for (std::size_t i = 0; i < v.size(); i++)
  {
    dv::ensure_eq("tree-potential-stationary-at-the-vacuum", E.gradient[i], Real(0), Real(1e7));
    dv::ensure_eq("tree-potential-stationary-at-the-vacuum", m->VTree(v, (int)i + 1, true), Real(0), Real(1e7));
  }
  auto H = m->HiggsMassMatrix(v, 0, 0);
  for (int a = 0; a < 4; a++)
  {
    Vec d = gauge_variation<M>(a, v, c.C_g, c.C_gs);
    for (std::size_t i = 0; i < v.size(); i++)
    {
      Real s(0);
      for (std::size_t j = 0; j < v.size(); j++)
        s += H(i, j) * d[j];
      dv::ensure_eq("Goldstone-directions-are-massless", s, Real(0), Real(1e7));
    }
  }
}
}
#define X(N, C)                                                               \
  DV_CONTRACT(vacuum_##N) { vacuum<C>(); }
FOR_MODELS(X)
