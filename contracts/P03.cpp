// Coupling tensors have the symmetry of the derivatives they stand for.
#include "models.h"
using namespace spec;
namespace
{
template <class T> void sym2(const char *n, const T &t)
{
  for (std::size_t i = 0; i < t.size(); i++)
    for (std::size_t j = 0; j < i; j++)
      dv::ensure_eq(n, t[i][j], t[j][i]);
}
template <class T> void sym3(const char *n, const T &t)
{
  for (std::size_t i = 0; i < t.size(); i++)
    for (std::size_t j = 0; j < t.size(); j++)
      for (std::size_t k = 0; k < t.size(); k++)
      {
        dv::ensure_eq(n, t[i][j][k], t[j][i][k]);
        dv::ensure_eq(n, t[i][j][k], t[i][k][j]);
      }
}
template <class T> void sym4(const char *n, const T &t)
{
  for (std::size_t i = 0; i < t.size(); i++)
    for (std::size_t j = 0; j < t.size(); j++)
      for (std::size_t k = 0; k < t.size(); k++)
        for (std::size_t l = 0; l < t.size(); l++)
        {
          dv::ensure_eq(n, t[i][j][k][l], t[j][i][k][l]);
          dv::ensure_eq(n, t[i][j][k][l], t[i][k][j][l]);
          dv::ensure_eq(n, t[i][j][k][l], t[i][j][l][k]);
        }
}
template <class M> void run()
{
  auto m = make_model<M>(constants(), Params<M>::make());
  m->set_CT_Pot_Par(ct_params(m->nParCT));
  std::size_t n = m->NHiggs, ng = m->NGauge, nq = m->NQuarks, nl = m->NLepton;
  bool shape = m->Curvature_Higgs_L1.size() == n && m->Curvature_Higgs_L2.size() == n && m->Curvature_Higgs_L3.size() == n &&
               m->Curvature_Higgs_L4.size() == n && m->Curvature_Higgs_CT_L1.size() == n && m->Curvature_Higgs_CT_L4.size() == n &&
               m->Curvature_Gauge_G2H2.size() == ng && m->Curvature_Quark_F2H1.size() == nq && m->Curvature_Lepton_F2H1.size() == nl;
  dv::ensure_true("tensor-dimensions", shape);
  if (!shape) return;
  sym2("scalar-quadratic-symmetric", m->Curvature_Higgs_L2);
  sym3("scalar-cubic-symmetric", m->Curvature_Higgs_L3);
  sym4("scalar-quartic-symmetric", m->Curvature_Higgs_L4);
  sym2("counterterm-quadratic-symmetric", m->Curvature_Higgs_CT_L2);
  sym3("counterterm-cubic-symmetric", m->Curvature_Higgs_CT_L3);
  sym4("counterterm-quartic-symmetric", m->Curvature_Higgs_CT_L4);
  for (std::size_t a = 0; a < ng; a++)
    for (std::size_t b = 0; b < ng; b++)
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < n; j++)
        {
          dv::ensure_eq("gauge-symmetric-in-gauge-indices", m->Curvature_Gauge_G2H2[a][b][i][j], m->Curvature_Gauge_G2H2[b][a][i][j]);
          dv::ensure_eq("gauge-symmetric-in-scalar-indices", m->Curvature_Gauge_G2H2[a][b][i][j], m->Curvature_Gauge_G2H2[a][b][j][i]);
        }
  for (std::size_t k = 0; k < n; k++)
  {
    for (std::size_t a = 0; a < nq; a++)
      for (std::size_t b = 0; b < a; b++)
        dv::ensure_eq("quark-Yukawa-symmetric", m->Curvature_Quark_F2H1[a][b][k], m->Curvature_Quark_F2H1[b][a][k]);
    for (std::size_t a = 0; a < nl; a++)
      for (std::size_t b = 0; b < a; b++)
        dv::ensure_eq("lepton-Yukawa-symmetric", m->Curvature_Lepton_F2H1[a][b][k], m->Curvature_Lepton_F2H1[b][a][k]);
  }
}
} // namespace
#define X(N, C) DV_CONTRACT(tensors_##N) { run<C>(); }
FOR_MODELS(X)
