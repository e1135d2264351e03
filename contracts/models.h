// Model instances with arbitrary parameters.
#pragma once
#include "common.h"
#include <BSMPT/models/ClassPotentialC2HDM.h>
#include <BSMPT/models/ClassPotentialCPintheDark.h>
#include <BSMPT/models/ClassPotentialCxSM.h>
#include <BSMPT/models/ClassPotentialN2HDM.h>
#include <BSMPT/models/ClassPotentialOrigin.h>
#include <BSMPT/models/ClassPotentialR2HDM.h>
#include <BSMPT/models/ClassPotentialSM.h>
#include <BSMPT/models/SMparam.h>
#include <BSMPT/utility/Logger.h>
#include <BSMPT/utility/utility.h>

namespace spec
{
using namespace BSMPT;
using namespace BSMPT::Models;

// Standard Model constants: symbolic in the proof
inline ISMConstants constants(bool ckm_unit = true)
{
  Logger::Disable();
#ifdef DV_NATIVE
  (void)ckm_unit;
  return GetSMConstants();
#else
  ISMConstants c;
  c.C_MassW = dv::pos("MW", 80, 81);
  c.C_vev0  = dv::pos("vev0", 246, 247);
  // MZ > MW, written through the couplings (g, g') as GetSMConstants defines
  // them: g = 2 MW / v, g'^2 = 4 (MZ^2 - MW^2) / v^2
  c.C_gs          = dv::pos("gs", 0.3, 0.4);
  c.C_g           = 2 * c.C_MassW / c.C_vev0;
  c.C_MassZ       = c.C_vev0 / 2 * dv::m::sqrt(c.C_g * c.C_g + c.C_gs * c.C_gs);
  c.C_sinsquaredWeinberg = 1 - (c.C_MassW * c.C_MassW) / (c.C_MassZ * c.C_MassZ);
  c.C_MassSMHiggs = dv::pos("MH", 125, 126);
  c.C_MassUp      = dv::pos("mu", 0.1, 0.2);
  c.C_MassDown    = dv::pos("md", 0.1, 0.2);
  c.C_MassStrange = dv::pos("ms", 0.1, 0.2);
  c.C_MassCharm   = dv::pos("mc", 1, 2);
  c.C_MassBottom  = dv::pos("mb", 4, 5);
  c.C_MassTop     = dv::pos("mt", 170, 175);
  c.C_MassElectron = dv::pos("me", 0.0005, 0.0006);
  c.C_MassMu       = dv::pos("mmu", 0.1, 0.11);
  c.C_MassTau      = dv::pos("mtau", 1.7, 1.8);
  c.C_SMTriHiggs   = 3 * c.C_MassSMHiggs * c.C_MassSMHiggs / c.C_vev0;
  auto cx = [&](const char *n)
  { return Cx(dv::var(std::string(n) + "r"), dv::var(std::string(n) + "i")); };
  c.C_Vud = cx("Vud");
  c.C_Vus = cx("Vus");
  c.C_Vub = cx("Vub");
  c.C_Vcd = cx("Vcd");
  c.C_Vcs = cx("Vcs");
  c.C_Vcb = cx("Vcb");
  c.C_Vtd = cx("Vtd");
  c.C_Vts = cx("Vts");
  c.C_Vtb = cx("Vtb");
  (void)ckm_unit;
  return c;
#endif
}

// tan(beta) through the half angle, so that cos and sin are rational
inline Real tanbeta()
{
  int quadrant = 0;
  (void)quadrant;
  Real u = dv::in("u_beta", 0, 1);
  Real t = 2 * u / (1 - u * u);
#ifndef DV_NATIVE
  dv::sqrt_hint((1 - u * u) / (1 + u * u));
  dv::sqrt_hint(2 * u / (1 + u * u));
#endif
  return t;
}

template <class M> struct Params;
template <> struct Params<Class_SM>
{
  static Vec make() { return {dv::var("muSq"), dv::var("lambda")}; }
};
template <> struct Params<Class_Potential_R2HDM>
{
  static Vec make()
  {
    Vec p;
    for (auto n : {"L1", "L2", "L3", "L4", "L5"})
      p.push_back(dv::var(n, -1, 3));
    p.push_back(dv::var("m12sq", 100, 9000));
    p.push_back(tanbeta());
    p.push_back(Real(1 + dv::choose("type", 4)));
    return p;
  }
};
template <> struct Params<Class_Potential_C2HDM>
{
  static Vec make()
  {
    Vec p;
    for (auto n : {"L1", "L2", "L3", "L4", "ReL5", "ImL5"})
      p.push_back(dv::var(n, -1, 3));
    p.push_back(dv::var("m12sq", 100, 9000));
    p.push_back(tanbeta());
    p.push_back(Real(1 + dv::choose("type", 4)));
    return p;
  }
};
template <> struct Params<Class_Potential_N2HDM>
{
  static Vec make()
  {
    Vec p;
    for (auto n : {"L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8"})
      p.push_back(dv::var(n, -1, 3));
    p.push_back(tanbeta());
    p.push_back(dv::var("vs", 10, 900));
    p.push_back(dv::var("m12sq", 100, 9000));
    p.push_back(Real(1 + dv::choose("type", 4)));
    return p;
  }
};
template <> struct Params<Class_CxSM>
{
  static Vec make()
  {
    Vec p;
    // v, vs, va, msq, lambda, delta2, b2, d2, Reb1, Imb1, Rea1, Ima1
    p.push_back(dv::pos("vh", 240, 250));
    int k = dv::choose("singlet_vevs", 4);
    Real vs(0), va(0);
    if (k & 1)
    {
      vs = dv::var("vs", 10, 900);
      dv::assume(vs != Real(0));
    }
    if (k & 2)
    {
      va = dv::var("va", 10, 900);
      dv::assume(va != Real(0));
    }
    p.push_back(vs);
    p.push_back(va);
    p.push_back(dv::var("msq", -9000, 9000));
    p.push_back(dv::var("lambda", 0, 3));
    p.push_back(dv::var("delta2", -1, 3));
    p.push_back(dv::var("b2", -9000, 9000));
    p.push_back(dv::var("d2", 0, 3));
    for (auto n : {"Reb1", "Imb1"})
      p.push_back(dv::var(n, -9000, 9000));
    for (auto n : {"Rea1", "Ima1"})
      p.push_back(dv::var(n, -90000, 90000));
    return p;
  }
};
template <> struct Params<Class_Potential_CPintheDark>
{
  static Vec make()
  {
    Vec p;
    for (auto n : {"m11s", "m22s", "mSs"})
      p.push_back(dv::var(n, -9000, 9000));
    for (auto n : {"ReA", "ImA"})
      p.push_back(dv::var(n, -300, 300));
    for (auto n : {"L1", "L2", "L3", "L4", "L5", "L6", "L7", "L8"})
      p.push_back(dv::var(n, -1, 3));
    return p;
  }
};

// the model after set_gen and SetCurvatureArrays
template <class M> std::shared_ptr<M> make_model(const ISMConstants &c, const Vec &par)
{
  auto m = std::make_shared<M>(c);
  m->set_gen(par);
  if (!m->SetCurvatureDone) m->SetCurvatureArrays();
  return m;
}
inline Vec ct_params(std::size_t n)
{
  Vec r;
  for (std::size_t i = 0; i < n; i++)
    r.push_back(dv::var("ct" + std::to_string(i), -2, 2));
  return r;
}
inline Vec fields(std::size_t n, const std::string &nm = "phi")
{
  Vec r;
  for (std::size_t i = 0; i < n; i++)
    r.push_back(dv::var(nm + std::to_string(i), -300, 300));
  return r;
}
} // namespace spec

#define FOR_MODELS(X)                                                         \
  X(SM, Class_SM)                                                             \
  X(R2HDM, Class_Potential_R2HDM)                                             \
  X(C2HDM, Class_Potential_C2HDM)                                             \
  X(N2HDM, Class_Potential_N2HDM)                                             \
  X(CxSM, Class_CxSM)                                                         \
  X(CPintheDark, Class_Potential_CPintheDark)
