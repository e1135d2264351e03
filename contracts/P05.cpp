// Masses of the Standard Model particles and the CKM matrix at the vacuum.
#include "spectrum.h"
#include "yukawa.h"
using namespace spec;
namespace
{
template <class M> void yukawa()
{
  auto c   = constants();
  auto par = Params<M>::make();
  auto m   = make_model<M>(c, par);
  Yukawa y(*m, c, par);
  for (std::size_t a = 0; a < 12; a++)
    for (std::size_t b = 0; b < 12; b++)
    {
      dv::ensure_eq("no-bare-quark-mass", m->Curvature_Quark_F2[a][b], Cx(Real(0), Real(0)));
      for (std::size_t k = 0; k < m->NHiggs; k++)
        dv::ensure_eq("quark-Yukawa-couplings", m->Curvature_Quark_F2H1[a][b][k], y.q[a][b][k]);
    }
  for (std::size_t a = 0; a < 9; a++)
    for (std::size_t b = 0; b < 9; b++)
    {
      dv::ensure_eq("no-bare-lepton-mass", m->Curvature_Lepton_F2[a][b], Cx(Real(0), Real(0)));
      for (std::size_t k = 0; k < m->NHiggs; k++)
        dv::ensure_eq("lepton-Yukawa-couplings", m->Curvature_Lepton_F2H1[a][b][k], y.l[a][b][k]);
    }
}
void above(Real x, double t) { dv::assume(x * x >= Real(t)); }
template <class M> void masses()
{
  auto c   = constants();
  auto par = Params<M>::make();
  auto m   = make_model<M>(c, par);
  // masses below the code's zero threshold are reported as zero
  for (auto x : {c.C_MassUp, c.C_MassDown, c.C_MassStrange, c.C_MassCharm, c.C_MassBottom, c.C_MassTop, c.C_MassElectron,
                 c.C_MassMu, c.C_MassTau})
    above(x, 1e-10);
  Vec v = m->vevTree;
  Vec q, l, g;
  for (auto x : {c.C_MassUp, c.C_MassDown, c.C_MassStrange, c.C_MassCharm, c.C_MassBottom, c.C_MassTop})
  {
    q.push_back(x * x);
    q.push_back(x * x);
  }
  for (auto x : {c.C_MassElectron, c.C_MassMu, c.C_MassTau})
  {
    l.push_back(x * x);
    l.push_back(x * x);
    l.push_back(Real(0));
  }
  claim_spectrum("quark-masses", q);
  ensure_same_set("quark-masses", m->QuarkMassesSquared(v), q);
  claim_spectrum("lepton-masses", l);
  ensure_same_set("lepton-masses", m->LeptonMassesSquared(v), l);
  // the vacuum expectation value that breaks the gauge symmetry
  Real v2(0);
  for (auto d : Doublets<M>::get())
    v2 += v[d.c] * v[d.c];
  Real MW2 = c.C_g * c.C_g * v2 / Real(4), MZ2 = (c.C_g * c.C_g + c.C_gs * c.C_gs) * v2 / Real(4);
  dv::assume(MW2 >= Real(1e-5));
  dv::assume(MZ2 >= Real(1e-5));
  g = {Real(0), MW2, MW2, MZ2};
  Real vv = v2;
  if (!std::is_same<M, Class_CxSM>::value) vv = c.C_vev0 * c.C_vev0;
  Real k = vv / Real(4), z(0);
  MW2 = c.C_g * c.C_g * k, MZ2 = (c.C_g * c.C_g + c.C_gs * c.C_gs) * k;
  g = {z, MW2, MW2, MZ2};
  claim_spectrum("gauge-boson-masses",
                 g,
                 {{MW2, z, z, z}, {z, MW2, z, z}, {z, z, MW2, -c.C_g * c.C_gs * k}, {z, z, -c.C_g * c.C_gs * k, c.C_gs * c.C_gs * k}});
  ensure_same_set("gauge-boson-masses", m->GaugeMassesSquared(v), g);
  if (!std::is_same<M, Class_CxSM>::value) // there the doublet VEV is an input
  {
    dv::ensure_eq("electroweak-vev", v2, c.C_vev0 * c.C_vev0);
    dv::ensure_eq("W-mass", MW2, c.C_MassW * c.C_MassW);
    dv::ensure_eq("Z-mass", MZ2, c.C_MassZ * c.C_MassZ);
  }
}
} // namespace
#define X(N, C)                                                               \
  DV_CONTRACT(yukawa_##N) { yukawa<C>(); }                                    \
  DV_CONTRACT(masses_##N) { masses<C>(); }
FOR_MODELS(X)
// the shipped constants
DV_CONTRACT(constants)
{
  auto c  = GetSMConstants();
  Cx V[9] = {c.C_Vud, c.C_Vus, c.C_Vub, c.C_Vcd, c.C_Vcs, c.C_Vcb, c.C_Vtd, c.C_Vts, c.C_Vtb};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
    {
      Cx r(Real(0), Real(0)), s(Real(0), Real(0));
      for (int k = 0; k < 3; k++)
      {
        r += V[3 * i + k] * dv::m::conj(V[3 * j + k]);
        s += V[3 * k + i] * dv::m::conj(V[3 * k + j]);
      }
      dv::ensure_eq("CKM-matrix-unitary", r, Cx(Real(i == j), Real(0)), Real(1));
      dv::ensure_eq("CKM-matrix-unitary", s, Cx(Real(i == j), Real(0)), Real(1));
    }
  Real v2 = c.C_vev0 * c.C_vev0;
  dv::ensure_eq("weak-coupling", c.C_g * c.C_g * v2, Real(4) * c.C_MassW * c.C_MassW);
  dv::ensure_eq("hypercharge-coupling", c.C_gs * c.C_gs * v2, Real(4) * (c.C_MassZ * c.C_MassZ - c.C_MassW * c.C_MassW));
  dv::ensure_eq("weak-mixing-angle", c.C_sinsquaredWeinberg, c.C_gs * c.C_gs / (c.C_g * c.C_g + c.C_gs * c.C_gs));
  dv::ensure_eq("SM-triple-Higgs-coupling", c.C_SMTriHiggs, Real(3) * c.C_MassSMHiggs * c.C_MassSMHiggs / c.C_vev0);
}
