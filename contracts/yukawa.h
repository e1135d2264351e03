// Specification: the documented Yukawa Lagrangian
//   -L = U_L^bar V y_d D_R phi_d^+ + D_L^bar y_d D_R phi_d^0
//      + U_L^bar y_u U_R phi_u^0*  - D_L^bar V^+ y_u U_R phi_u^-
//      + E_L^bar y_l E_R phi_l^0   + nu_L^bar y_l E_R phi_l^+  + h.c.
// as the symmetric tensors F^{IJk} in the basis
//   quarks  (u_R c_R t_R d_R s_R b_R | u_L c_L t_L d_L s_L b_L)
//   leptons (e_L e_R mu_L mu_R tau_L tau_R nu_e nu_mu nu_tau)
#pragma once
#include "gauge.h"
namespace spec
{
struct YukawaRoles
{
  int up, down, lepton; // which doublet
};
inline YukawaRoles thdm_type(int type)
{
  switch (type)
  {
  case 1: return {1, 1, 1};
  case 2: return {1, 0, 0};
  case 3: return {1, 1, 0};
  default: return {1, 0, 1};
  }
}
template <class M> struct Roles
{
  static YukawaRoles get(const M &, const Vec &) { return {0, 0, 0}; }
};
template <> struct Roles<Class_Potential_R2HDM>
{
  static YukawaRoles get(const Class_Potential_R2HDM &, const Vec &p) { return thdm_type((int)p[7]); }
};
template <> struct Roles<Class_Potential_C2HDM>
{
  static YukawaRoles get(const Class_Potential_C2HDM &, const Vec &p) { return thdm_type((int)p[8]); }
};
template <> struct Roles<Class_Potential_N2HDM>
{
  static YukawaRoles get(const Class_Potential_N2HDM &, const Vec &p) { return thdm_type((int)p[11]); }
};
// position of each quark of the documented basis in the model's basis
template <class M> struct QuarkBasis
{
  static int at(int i) { return i; }
};
template <> struct QuarkBasis<Class_Potential_CPintheDark>
{
  static int at(int i) // u_L u_R d_L d_R per generation
  {
    int g = i % 3, kind = i / 3; // 0 u_R, 1 d_R, 2 u_L, 3 d_L
    static const int off[4] = {1, 3, 0, 2};
    return 4 * g + off[kind];
  }
};
using CT3 = std::vector<std::vector<std::vector<Cx>>>;
struct Yukawa
{
  CT3 q, l;
  template <class M> Yukawa(const M &m, const ISMConstants &c, const Vec &par)
  {
    std::size_t n = m.NHiggs;
    q.assign(12, std::vector<std::vector<Cx>>(12, std::vector<Cx>(n, Cx(Real(0), Real(0)))));
    l.assign(9, std::vector<std::vector<Cx>>(9, std::vector<Cx>(n, Cx(Real(0), Real(0)))));
    auto D = Doublets<M>::get();
    auto r = Roles<M>::get(m, par);
    // VEV of the real neutral component of each doublet
    auto vev = [&](int d) { return m.vevTree[D[d].c]; };
    Cx I(Real(0), Real(1));
    Cx V[3][3] = {{c.C_Vud, c.C_Vus, c.C_Vub}, {c.C_Vcd, c.C_Vcs, c.C_Vcb}, {c.C_Vtd, c.C_Vts, c.C_Vtb}};
    Real mu[3] = {c.C_MassUp, c.C_MassCharm, c.C_MassTop};
    Real md[3] = {c.C_MassDown, c.C_MassStrange, c.C_MassBottom};
    Real ml[3] = {c.C_MassElectron, c.C_MassMu, c.C_MassTau};
    auto put = [&](CT3 &t, int a, int b, int k, Cx y)
    {
      t[a][b][k] += y;
      if (a != b) t[b][a][k] += y;
    };
    // y * phi with phi = f[re] + i s f[im], divided by the VEV
    auto couple = [&](CT3 &t, int a, int b, int re, int im, int s, Cx y)
    {
      put(t, a, b, re, y);
      put(t, a, b, im, y * I * Real(s));
    };
    auto qb = [&](int a) { return QuarkBasis<M>::at(a); };
    auto U = D[r.up], B = D[r.down], L = D[r.lepton];
    for (int i = 0; i < 3; i++)
    {
      couple(q, qb(i), qb(6 + i), U.c, U.d, -U.sd, Cx(mu[i] / vev(r.up), Real(0)));
      couple(q, qb(3 + i), qb(9 + i), B.c, B.d, B.sd, Cx(md[i] / vev(r.down), Real(0)));
      for (int j = 0; j < 3; j++)
      {
        couple(q, qb(3 + i), qb(6 + j), B.a, B.b, 1, V[j][i] * (md[i] / vev(r.down)));
        Cx vc(V[i][j].real(), -V[i][j].imag());
        couple(q, qb(i), qb(9 + j), U.a, U.b, -1, vc * (-mu[i] / vev(r.up)));
      }
      couple(l, 2 * i, 2 * i + 1, L.c, L.d, L.sd, Cx(ml[i] / vev(r.lepton), Real(0)));
      couple(l, 2 * i + 1, 6 + i, L.a, L.b, 1, Cx(ml[i] / vev(r.lepton), Real(0)));
    }
  }
};
} // namespace spec
