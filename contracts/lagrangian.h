// Specification: the published scalar potentials, written in the gauge
// invariant field combinations, and the multilinear expansion of a set of
// coupling tensors.
#pragma once
#include "models.h"
namespace spec
{
using T1 = std::vector<Real>;
using T2 = std::vector<T1>;
using T3 = std::vector<T2>;
using T4 = std::vector<T3>;

// value, gradient and Hessian of L1.f + L2.ff/2 + L3.fff/6 + L4.ffff/24.
// Cost n^4 for everything.
struct Expansion
{
  Real value;
  Vec gradient;
  std::vector<Vec> hessian;
  Expansion(const T1 &L1, const T2 &L2, const T3 &L3, const T4 &L4, const Vec &f)
  {
    std::size_t n = f.size();
    gradient.assign(n, Real(0));
    hessian.assign(n, Vec(n, Real(0)));
    Real v1(0), v2(0), v3(0), v4(0);
    for (std::size_t i = 0; i < n; i++)
    {
      Real g2(0), g3(0), g4(0);
      for (std::size_t j = 0; j < n; j++)
      {
        Real h3(0), h4(0);
        for (std::size_t k = 0; k < n; k++)
        {
          h3 += L3[i][j][k] * f[k];
          for (std::size_t l = 0; l < n; l++)
            h4 += L4[i][j][k][l] * f[k] * f[l];
        }
        hessian[i][j] = L2[i][j] + h3 + h4 / Real(2);
        g2 += L2[i][j] * f[j];
        g3 += h3 * f[j];
        g4 += h4 * f[j];
      }
      gradient[i] = L1[i] + g2 + g3 / Real(2) + g4 / Real(6);
      v1 += L1[i] * f[i];
      v2 += g2 * f[i];
      v3 += g3 * f[i];
      v4 += g4 * f[i];
    }
    value = v1 + v2 / Real(2) + v3 / Real(6) + v4 / Real(24);
  }
};
template <class M> Expansion tree_expansion(const M &m, const Vec &f)
{
  return Expansion(m.Curvature_Higgs_L1, m.Curvature_Higgs_L2, m.Curvature_Higgs_L3, m.Curvature_Higgs_L4, f);
}
template <class M> Expansion ct_expansion(const M &m, const Vec &f)
{
  return Expansion(m.Curvature_Higgs_CT_L1, m.Curvature_Higgs_CT_L2, m.Curvature_Higgs_CT_L3, m.Curvature_Higgs_CT_L4, f);
}

// ---- two doublets (and a real singlet s)
struct TwoDoublet
{
  Real m11 = Real(0), m22 = Real(0), rem12 = Real(0), imm12 = Real(0); // - m12^2 P1^+ P2 + h.c.
  Real L1 = Real(0), L2 = Real(0), L3 = Real(0), L4 = Real(0), ReL5 = Real(0), ImL5 = Real(0);
  Real ImL6 = Real(0); // ImL6: 1/2 convention, see below
  Real mS = Real(0), ReA = Real(0), ImA = Real(0), s4 = Real(0); // s4: coefficient of S^4
  Real L7 = Real(0), L8 = Real(0);
  // p1 = (a1 + i b1, c1 + i d1)/sqrt2, p2 likewise
  Real operator()(Real a1, Real b1, Real c1, Real d1, Real a2, Real b2, Real c2, Real d2, Real s) const
  {
    Real h(Real(1) / Real(2));
    Real A  = (a1 * a1 + b1 * b1 + c1 * c1 + d1 * d1) * h;
    Real B  = (a2 * a2 + b2 * b2 + c2 * c2 + d2 * d2) * h;
    Real re = (a1 * a2 + b1 * b2 + c1 * c2 + d1 * d2) * h;
    Real im = (a1 * b2 - b1 * a2 + c1 * d2 - d1 * c2) * h;
    Real v  = m11 * A + m22 * B - Real(2) * (rem12 * re - imm12 * im);
    v += L1 * h * A * A + L2 * h * B * B + L3 * A * B + L4 * (re * re + im * im);
    // Re[ l5 (re + i im)^2 ]
    v += ReL5 * (re * re - im * im) - ImL5 * Real(2) * re * im;
    v += -Real(2) * ImL6 * A * im;
    v += mS * h * s * s + s4 * s * s * s * s + L7 * h * A * s * s + L8 * h * B * s * s;
    v += Real(2) * (ReA * re - ImA * im) * s;
    return v;
  }
};
// order of the eight doublet fields
inline Real eval(const TwoDoublet &p, const Vec &f, bool n2hdm)
{
  Real s = f.size() > 8 ? f[8] : Real(0);
  if (n2hdm) // rho1 rho2 eta1 eta2 psi1 psi2 zeta1 zeta2 S
    return p(f[0], f[2], f[6], f[4], f[1], f[3], f[7], f[5], s);
  return p(f[0], f[1], f[4], f[5], f[2], f[3], f[6], f[7], s);
}

// Lagrangian<M>::tree(par, masses, f): masses are those tadpole-fixed
// coefficients that are not inputs, read off the model's own quadratic tensor.
template <class M> struct Lagrangian;
template <> struct Lagrangian<Class_SM>
{
  static Real pot(Real mu, Real l, const Vec &f)
  {
    Real h = (f[0] * f[0] + f[1] * f[1] + f[2] * f[2] + f[3] * f[3]) / Real(2);
    return mu * h + l * h * h;
  }
  static Real tree(const Class_SM &m, const Vec &, const Vec &f)
  {
    Real MH = m.SMConstants.C_MassSMHiggs, v = m.SMConstants.C_vev0;
    return pot(-MH * MH / Real(2), MH * MH / (Real(2) * v * v), f);
  }
  static Real ct(const Vec &p, const Vec &f)
  {
    return pot(p[0], p[1], f) + p[2] * f[0] + p[3] * f[1] + p[4] * f[2] + p[5] * f[3];
  }
};
template <> struct Lagrangian<Class_Potential_R2HDM>
{
  static Real tree(const Class_Potential_R2HDM &m, const Vec &p, const Vec &f)
  {
    TwoDoublet t;
    t.L1 = p[0], t.L2 = p[1], t.L3 = p[2], t.L4 = p[3], t.ReL5 = p[4], t.rem12 = p[5];
    t.m11 = m.Curvature_Higgs_L2[0][0], t.m22 = m.Curvature_Higgs_L2[2][2];
    return eval(t, f, false);
  }
  static Real ct(const Vec &p, const Vec &f)
  {
    TwoDoublet t;
    t.m11 = p[0], t.m22 = p[1], t.rem12 = p[2], t.L1 = p[3], t.L2 = p[4], t.L3 = p[5], t.L4 = p[6], t.ReL5 = p[7];
    return eval(t, f, false) + p[8] * f[4] + p[9] * f[6] + p[10] * f[7];
  }
};
template <> struct Lagrangian<Class_Potential_C2HDM>
{
  static Real tree(const Class_Potential_C2HDM &m, const Vec &p, const Vec &f)
  {
    TwoDoublet t;
    t.L1 = p[0], t.L2 = p[1], t.L3 = p[2], t.L4 = p[3], t.ReL5 = p[4], t.ImL5 = p[5], t.rem12 = p[6];
    t.m11 = m.Curvature_Higgs_L2[0][0], t.m22 = m.Curvature_Higgs_L2[2][2];
    t.imm12 = m.Curvature_Higgs_L2[0][3];
    return eval(t, f, false);
  }
  static Real ct(const Vec &p, const Vec &f)
  {
    TwoDoublet t;
    t.m11 = p[0], t.m22 = p[1], t.imm12 = p[2], t.rem12 = p[3], t.L1 = p[4], t.L2 = p[5], t.L3 = p[6], t.L4 = p[7];
    t.ReL5 = p[8], t.ImL5 = p[9], t.ImL6 = p[14];
    return eval(t, f, false) + p[10] * f[2] + p[11] * f[4] + p[12] * f[6] + p[13] * f[7];
  }
};
template <> struct Lagrangian<Class_Potential_N2HDM>
{
  static Real tree(const Class_Potential_N2HDM &m, const Vec &p, const Vec &f)
  {
    TwoDoublet t;
    t.L1 = p[0], t.L2 = p[1], t.L3 = p[2], t.L4 = p[3], t.ReL5 = p[4];
    t.s4 = p[5] / Real(8), t.L7 = p[6], t.L8 = p[7], t.rem12 = p[10];
    t.m11 = m.Curvature_Higgs_L2[0][0], t.m22 = m.Curvature_Higgs_L2[1][1], t.mS = m.Curvature_Higgs_L2[8][8];
    return eval(t, f, true);
  }
  static Real ct(const Vec &p, const Vec &f)
  {
    TwoDoublet t;
    t.m11 = p[0], t.m22 = p[1], t.rem12 = p[2], t.L1 = p[3], t.L2 = p[4], t.L3 = p[5], t.L4 = p[6], t.ReL5 = p[7];
    t.mS = p[8], t.s4 = p[9] / Real(8), t.L7 = p[10], t.L8 = p[11];
    return eval(t, f, true) + p[12] * f[6] + p[13] * f[7] + p[14] * f[8];
  }
};
template <> struct Lagrangian<Class_CxSM>
{
  // m^2/2 |H|^2 + l/4 |H|^4 + d2/2 |H|^2|S|^2 + b2/2 |S|^2 + d/4 |S|^4
  // + [ b1/4 S^2 + a1 S + c.c. ],  S = (s + i a)/sqrt2
  static Real pot(Real msq, Real l, Real delta2, Real b2, Real d2, Real Reb1, Real Imb1, Real Rea1, Real Ima1, const Vec &f)
  {
    Real h  = (f[0] * f[0] + f[1] * f[1] + f[2] * f[2] + f[3] * f[3]) / Real(2);
    Real ss = (f[4] * f[4] + f[5] * f[5]) / Real(2);
    Real r2 = (f[4] * f[4] - f[5] * f[5]) / Real(2), i2 = f[4] * f[5];
    Real rt2 = dv::m::sqrt(Real(2));
    return msq / Real(2) * h + l / Real(4) * h * h + delta2 / Real(2) * h * ss + b2 / Real(2) * ss +
           d2 / Real(4) * ss * ss + (Reb1 * r2 - Imb1 * i2) / Real(2) + rt2 * (Rea1 * f[4] - Ima1 * f[5]);
  }
  static Real tree(const Class_CxSM &m, const Vec &p, const Vec &f)
  {
    // the tadpole conditions replace m^2, b2 and a1 or b1 (property P04)
    Real Reb1 = m.Curvature_Higgs_L2[4][4] - m.Curvature_Higgs_L2[5][5];
    Real b2   = m.Curvature_Higgs_L2[4][4] + m.Curvature_Higgs_L2[5][5];
    Real Imb1 = Real(-2) * m.Curvature_Higgs_L2[4][5];
    Real rt2  = dv::m::sqrt(Real(2));
    return pot(Real(2) * m.Curvature_Higgs_L2[0][0], p[4], p[5], b2, p[7], Reb1, Imb1,
               m.Curvature_Higgs_L1[4] / rt2, -m.Curvature_Higgs_L1[5] / rt2, f);
  }
  static Real ct(const Vec &p, const Vec &f)
  {
    Real t(0);
    for (int i = 0; i < 6; i++)
      t += p[9 + i] * f[i];
    return pot(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], f) + t;
  }
};
template <> struct Lagrangian<Class_Potential_CPintheDark>
{
  static Real tree(const Class_Potential_CPintheDark &, const Vec &p, const Vec &f)
  {
    TwoDoublet t;
    t.m11 = p[0], t.m22 = p[1], t.mS = p[2], t.ReA = p[3], t.ImA = p[4];
    t.L1 = p[5], t.L2 = p[6], t.L3 = p[7], t.L4 = p[8], t.ReL5 = p[9];
    t.s4 = p[10] / Real(4), t.L7 = p[11], t.L8 = p[12];
    return eval(t, f, false);
  }
  static Real ct(const Vec &p, const Vec &f)
  {
    TwoDoublet t;
    t.m11 = p[0], t.m22 = p[1], t.mS = p[2], t.ReA = p[3], t.ImA = p[4];
    t.L1 = p[5], t.L2 = p[6], t.L3 = p[7], t.L4 = p[8], t.ReL5 = p[9];
    t.s4 = p[10] / Real(4), t.L7 = p[11], t.L8 = p[12], t.ImL5 = p[18];
    return eval(t, f, false) + p[13] * f[2] + p[14] * f[4] + p[15] * f[6] + p[16] * f[7] + p[17] * f[8];
  }
};

// field points with some components exactly zero (the tree potential skips
// those): every field non-zero, a single zero, a single non-zero, all zero,
// and every subset of the vacuum directions
template <class M> Vec field_pattern(const M &m)
{
  std::size_t n = m.NHiggs, nv = m.nVEV;
  int subsets   = 1 << nv;
  int k         = dv::choose("field_pattern", (int)(1 + 2 * n) + subsets);
  Vec f(n, Real(0));
  auto set = [&](std::size_t i)
  {
    f[i] = dv::var("phi" + std::to_string(i), -300, 300);
    dv::assume(f[i] != Real(0));
  };
  if (k == 0)
    for (std::size_t i = 0; i < n; i++)
      set(i);
  else if (k <= (int)n)
    for (std::size_t i = 0; i < n; i++)
    {
      if ((int)i != k - 1) set(i);
    }
  else if (k <= (int)(2 * n))
    set(k - n - 1);
  else
    for (std::size_t i = 0; i < nv; i++)
      if ((k - (int)(2 * n) - 1) >> i & 1) set(m.VevOrder[i]);
  return f;
}
// a point of the vacuum subspace
template <class M> Vec vacuum_point(const M &m)
{
  Vec f(m.NHiggs, Real(0));
  int mask = dv::choose("vacuum_pattern", 1 << m.nVEV);
  for (std::size_t i = 0; i < m.nVEV; i++)
    if (mask >> i & 1)
    {
      f[m.VevOrder[i]] = dv::var("omega" + std::to_string(i), -300, 300);
      dv::assume(f[m.VevOrder[i]] != Real(0));
    }
  return f;
}
} // namespace spec
