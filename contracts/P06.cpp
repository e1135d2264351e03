// Gauge symmetry of the implemented Lagrangians.
#include "gauge.h"
using namespace spec;
namespace
{
template <class M> void invariance()
{
  auto c = constants();
  auto m = make_model<M>(c, Params<M>::make());
  Vec f  = fields(m->NHiggs);
  auto E = tree_expansion(*m, f);
  for (int a = 0; a < 4; a++)
  {
    Vec d = gauge_variation<M>(a, f, c.C_g, c.C_gs);
    dv::ensure_eq("tree-potential-is-gauge-invariant", dot(E.gradient, d), Real(0), E.value);
    for (int b = 0; b < 4; b++)
    {
      Vec e = gauge_variation<M>(b, f, c.C_g, c.C_gs);
      Real s(0);
      for (std::size_t i = 0; i < f.size(); i++)
        for (std::size_t j = 0; j < f.size(); j++)
          s += m->Curvature_Gauge_G2H2[a][b][i][j] * f[i] * f[j];
      dv::ensure_eq("gauge-couplings-are-the-covariant-derivative", s / Real(2), dot(d, e), dot(f, f));
    }
  }
}
}
#define X(N, C)                                                               \
  DV_CONTRACT(invariance_##N) { invariance<C>(); }
FOR_MODELS(X)
