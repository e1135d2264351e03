// Counterterm potential: explicit, simplified and differentiated forms are one
// polynomial, the published counterterm Lagrangian.
#include "lagrangian.h"
using namespace spec;
namespace
{
template <class M> std::shared_ptr<M> model(Vec &ct)
{
  auto m = make_model<M>(constants(), Params<M>::make());
  ct     = ct_params(m->nParCT);
  m->set_CT_Pot_Par(ct);
  return m;
}
template <class M> void ct()
{
  Vec p;
  auto m  = model<M>(p);
  Vec v   = field_pattern(*m);
  auto E  = ct_expansion(*m, v);
  Real V  = m->CounterTerm(v, 0, true);
  auto n  = m->NablaVCT(v);
  auto h  = m->HessianCT(v);
  dv::ensure_eq("counterterm-potential-is-the-Lagrangian", V, Lagrangian<M>::ct(p, v));
  dv::ensure_eq("counterterm-potential-is-the-tensor-expansion", V, E.value);
  for (std::size_t i = 0; i < m->NHiggs; i++)
  {
    dv::ensure_eq("counterterm-gradient", m->CounterTerm(v, (int)i + 1, true), E.gradient[i]);
    dv::ensure_eq("counterterm-gradient-default", m->CounterTerm(v, (int)i + 1), E.gradient[i]);
    dv::ensure_eq("counterterm-gradient-vector", n(i), E.gradient[i]);
    for (std::size_t j = 0; j < m->NHiggs; j++)
      dv::ensure_eq("counterterm-Hessian", h(i, j), E.hessian[i][j]);
  }
}
template <class M> void derivative()
{
  Vec p;
  auto m = model<M>(p);
  Vec v  = fields(m->NHiggs);
  auto h = m->HessianCT(v);
  for (std::size_t i = 0; i < m->NHiggs; i++)
  {
    Real d = dv::deriv([&](const Vec &x) { return m->CounterTerm(x, 0, true); }, v, i);
    dv::ensure_eq("counterterm-gradient-is-the-derivative", m->CounterTerm(v, (int)i + 1, true), d);
    for (std::size_t j = 0; j < m->NHiggs; j++)
    {
      Real dd = dv::deriv([&](const Vec &x) { return m->CounterTerm(x, (int)j + 1, true); }, v, i);
      dv::ensure_eq("counterterm-Hessian-is-the-second-derivative", h(i, j), dd);
    }
  }
}
template <class M> void vacuum()
{
  Vec p;
  auto m = model<M>(p);
  Vec v  = vacuum_point(*m);
  Real L = Lagrangian<M>::ct(p, v);
  dv::ensure_eq("default-counterterm-potential-in-vacuum-directions", m->CounterTerm(v), L);
  dv::ensure_eq("default-counterterm-potential-in-vacuum-directions", m->CounterTerm(v, 0), m->CounterTerm(v, 0, true));
  Real s = m->VCounterSimplified(v);
  if (m->UseVCounterSimplified) dv::ensure_eq("simplified-counterterm-potential", s, L);
}
} // namespace
#define X(N, C)                                                               \
  DV_CONTRACT(ct_##N) { ct<C>(); }                                            \
  DV_CONTRACT(derivative_##N) { derivative<C>(); }                            \
  DV_CONTRACT(vacuum_##N) { vacuum<C>(); }
FOR_MODELS(X)
