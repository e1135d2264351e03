// Leading thermal ("Debye") masses.
#include "gauge.h"
using namespace spec;
namespace
{
Real cut(Real x)
{
  // the code reports entries not above 1e-5 as zero
  return (dv::m::abs(x) <= Real(1e-5)) ? Real(0) : x;
}
template <class M> std::vector<Vec> leading(const M &m)
{
  std::size_t n = m.NHiggs;
  std::vector<Vec> r(n, Vec(n, Real(0)));
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
    {
      // d^2/dphi_i dphi_j of  (Tr m_S^2 + 3 Tr m_V^2 + 3 Tr mq^+mq + Tr ml^+ml)/24
      Real s(0), g(0), q(0), l(0);
      for (std::size_t k = 0; k < n; k++)
        s += m.Curvature_Higgs_L4[k][k][i][j];
      for (std::size_t a = 0; a < m.NGauge; a++)
        g += m.Curvature_Gauge_G2H2[a][a][i][j];
      auto re = [](const Cx &x, const Cx &y) { return x.real() * y.real() + x.imag() * y.imag(); };
      for (std::size_t a = 0; a < m.NQuarks; a++)
        for (std::size_t b = 0; b < m.NQuarks; b++)
          q += Real(2) * re(m.Curvature_Quark_F2H1[a][b][i], m.Curvature_Quark_F2H1[a][b][j]);
      for (std::size_t a = 0; a < m.NLepton; a++)
        for (std::size_t b = 0; b < m.NLepton; b++)
          l += Real(2) * re(m.Curvature_Lepton_F2H1[a][b][i], m.Curvature_Lepton_F2H1[a][b][j]);
      r[i][j] = s / Real(24) + Real(3) * g / Real(24) + Real(3) * q / Real(24) + l / Real(24);
    }
  return r;
}
// a generic point: no entry sits within the reporting threshold
template <class M> void generic(const M &m, const std::vector<Vec> &r)
{
  for (std::size_t i = 0; i < m.NHiggs; i++)
    for (std::size_t j = i; j < m.NHiggs; j++)
      if (!dv::is_const(r[i][j]) && !dv::identical(r[i][j], Real(0))) dv::assume(r[i][j] > Real(1e-5));
}
template <class M> void general()
{
  auto m = make_model<M>(constants(), Params<M>::make());
  auto r = leading(*m);
  generic(*m, r);
  m->CalculateDebye(true);
  for (std::size_t i = 0; i < m->NHiggs; i++)
    for (std::size_t j = 0; j < m->NHiggs; j++)
      dv::ensure_eq("scalar-thermal-mass-from-couplings", m->DebyeHiggs[i][j], i <= j ? cut(r[i][j]) : m->DebyeHiggs[j][i]);
}
// the closed formulas keep the top and bottom quark only
template <class M> void closed()
{
  auto c = constants();
  for (auto *x : {&c.C_MassUp, &c.C_MassDown, &c.C_MassStrange, &c.C_MassCharm, &c.C_MassElectron, &c.C_MassMu, &c.C_MassTau})
    *x = Real(0);
#ifndef DV_NATIVE
  // |V| of the third row and column
  Real t = dv::in("Vtb", 0, 1), a = dv::var("Vtd"), b = dv::var("Vub");
  Real x = Real(1) - t * t - a * a, y = Real(1) - t * t - b * b;
  dv::assume(x >= Real(0));
  dv::assume(y >= Real(0));
  c.C_Vtb = Cx(t), c.C_Vtd = Cx(a), c.C_Vub = Cx(b), c.C_Vts = Cx(dv::m::sqrt(x)), c.C_Vcb = Cx(dv::m::sqrt(y));
#endif
  auto m = make_model<M>(c, Params<M>::make());
  auto r = leading(*m);
  generic(*m, r);
  m->CalculateDebye();
  for (std::size_t i = 0; i < m->NHiggs; i++)
    for (std::size_t j = 0; j < m->NHiggs; j++)
    {
#ifndef DV_NATIVE
      if (m->CalculateDebyeSimplified())
        dv::ensure_eq("scalar-thermal-mass", m->DebyeHiggs[i][j], r[i][j]);
      else
        dv::ensure_eq("scalar-thermal-mass", m->DebyeHiggs[i][j], i <= j ? cut(r[i][j]) : m->DebyeHiggs[j][i]);
#else
      dv::ensure("scalar-thermal-mass", std::abs(m->DebyeHiggs[i][j] - r[i][j]) <= 2e-3 * (1 + std::abs(r[i][j])));
#endif
    }
}
template <class M> void gauge()
{
  auto c = constants();
  auto m = make_model<M>(c, Params<M>::make());
  dv::assume(c.C_g > Real(0.1));
  dv::assume(c.C_gs > Real(0.1));
  m->CalculateDebyeGauge();
  Real nd((int)Doublets<M>::get().size());
  Real k = nd / Real(6) + Real(5) / Real(3);
  for (std::size_t a = 0; a < 4; a++)
    for (std::size_t b = 0; b < 4; b++)
    {
      Real want = a != b ? Real(0) : (a < 3 ? c.C_g * c.C_g : c.C_gs * c.C_gs) * k;
      dv::ensure_eq("gauge-thermal-mass", m->DebyeGauge[a][b], want);
    }
}
} // namespace
#define X(N, C)                                                               \
  DV_CONTRACT(general_##N) { general<C>(); }                                  \
  DV_CONTRACT(closed_##N) { closed<C>(); }                                    \
  DV_CONTRACT(gauge_##N) { gauge<C>(); }
FOR_MODELS(X)
