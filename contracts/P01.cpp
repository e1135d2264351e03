// Tree-level potential: explicit, simplified and differentiated forms are one
// polynomial, the published Lagrangian.
#include "lagrangian.h"
using namespace spec;
namespace
{
template <class M> void tree()
{
  auto c   = constants();
  auto par = Params<M>::make();
  auto m   = make_model<M>(c, par);
  Vec v    = field_pattern(*m);
  auto E   = tree_expansion(*m, v);
  Real V   = m->VTree(v, 0, true);
  dv::ensure_eq("tree-potential-is-the-Lagrangian", V, Lagrangian<M>::tree(*m, par, v));
  dv::ensure_eq("tree-potential-is-the-tensor-expansion", V, E.value);
  for (std::size_t i = 0; i < m->NHiggs; i++)
  {
    dv::ensure_eq("tree-gradient-is-the-tensor-expansion", m->VTree(v, (int)i + 1, true), E.gradient[i]);
    dv::ensure_eq("tree-gradient-default", m->VTree(v, (int)i + 1), E.gradient[i]);
  }
}
// the derivative argument really differentiates
template <class M> void derivative()
{
  auto c   = constants();
  auto par = Params<M>::make();
  auto m   = make_model<M>(c, par);
  Vec v    = fields(m->NHiggs);
  for (auto &x : v)
    dv::assume(x != Real(0));
  for (std::size_t i = 0; i < m->NHiggs; i++)
  {
    Real d = dv::deriv([&](const Vec &x) { return m->VTree(x, 0, true); }, v, i);
    dv::ensure_eq("tree-gradient-is-the-derivative", m->VTree(v, (int)i + 1, true), d);
  }
}
// in the vacuum directions the representation used by default is the same
template <class M> void vacuum()
{
  auto c   = constants();
  auto par = Params<M>::make();
  auto m   = make_model<M>(c, par);
  Vec v    = vacuum_point(*m);
  Real L   = Lagrangian<M>::tree(*m, par, v);
  dv::ensure_eq("default-tree-potential-in-vacuum-directions", m->VTree(v), L);
  dv::ensure_eq("default-tree-potential-in-vacuum-directions", m->VTree(v, 0), m->VTree(v, 0, true));
  Real s = m->VTreeSimplified(v);
  if (m->UseVTreeSimplified) dv::ensure_eq("simplified-tree-potential", s, L);
}
} // namespace
#define X(N, C)                                                               \
  DV_CONTRACT(tree_##N) { tree<C>(); }                                        \
  DV_CONTRACT(derivative_##N) { derivative<C>(); }                            \
  DV_CONTRACT(vacuum_##N) { vacuum<C>(); }
FOR_MODELS(X)
DV_CONTRACT(simplified_SM)
{
  auto c = constants();
  auto m = make_model<Class_SM>(c, {});
  Vec v  = vacuum_point(*m);
  dv::ensure_eq("simplified-tree-potential", m->VTreeSimplified(v), Lagrangian<Class_SM>::tree(*m, {}, v));
}
