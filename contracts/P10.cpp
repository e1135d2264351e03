// Effective potential: composition, multiplicities, resummation schemes and
// derivatives.
#include "models.h"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#ifndef DV_NATIVE
// contracts of the thermal functions (their own property) in place of the bodies
namespace BSMPT::ThermalFunctions
{
using dv::Real;
Real JbosonInterpolated(const Real &x, int diff) { return dv::uf("JB" + std::to_string(diff), {x}); }
Real JfermionInterpolated(const Real &x, int diff) { return dv::uf("JF" + std::to_string(diff), {x}); }
Real JbosonNumericalIntegration(const Real &x, int diff) { return dv::uf("IB" + std::to_string(diff), {x}); }
Real JfermionNumericalIntegration(const Real &x, int diff) { return dv::uf("IF" + std::to_string(diff), {x}); }
} // namespace BSMPT::ThermalFunctions
#endif
using namespace spec;
namespace
{
enum Species
{
  H,
  G,
  Q,
  L
};
#ifndef DV_NATIVE
// The callees of the one-loop sum are replaced by their contracts: squared
// masses are arbitrary, the one-particle functions uninterpreted.
struct Stub : public Class_SM
{
  Vec point;
  Real temp;
  int der = 0;
  mutable bool good = true;
  struct Mass
  {
    Real zero, thermal, dzero, dthermal, dT; // value at T=0 / T, field derivatives, T-derivative
  };
  std::vector<Mass> mass[4];
  Stub(const ISMConstants &c) : Class_SM(c) {}
  std::size_t count(int s) const { return s == H ? NHiggs : s == G ? NGauge : s == Q ? NQuarks : NLepton; }
  Vec masses(int s, const Vec &v, bool hot, int diff) const
  {
    if (v.size() != NHiggs) good = false;
    for (std::size_t i = 0; i < v.size() && i < point.size(); i++)
      if (!dv::identical(v[i], point[i])) good = false;
    Vec r;
    for (auto &m : mass[s])
      r.push_back(hot ? m.thermal : m.zero);
    if (diff > 0)
    {
      if (diff != der) good = false;
      for (auto &m : mass[s])
        r.push_back(hot ? m.dthermal : m.dzero);
    }
    else if (diff == -1 && (s == H || s == G))
      for (auto &m : mass[s])
        r.push_back(hot ? m.dT : Real(0));
    return r;
  }
  bool hot(const Real &T) const
  {
    if (dv::is_const(T) && dv::identical(T, Real(0))) return false;
    if (!dv::identical(T, temp)) good = false;
    return true;
  }
  Vec HiggsMassesSquared(const Vec &v, const Real &T, const int &diff) const override { return masses(H, v, hot(T), diff); }
  Vec GaugeMassesSquared(const Vec &v, const Real &T, const int &diff) const override { return masses(G, v, hot(T), diff); }
  Vec QuarkMassesSquared(const Vec &v, const int &diff) const override { return masses(Q, v, false, diff); }
  Vec LeptonMassesSquared(const Vec &v, const int &diff) const override { return masses(L, v, false, diff); }
  Real part(const std::string &n, const Real &m, const Real &T, const Real &cb, int diff) const
  {
    if (!dv::identical(T, temp)) good = false;
    std::string f = diff == 0 ? n : diff > 0 ? n + "_m" : n + "_T";
    return dv::uf(f, {m, T, cb});
  }
  Real boson(Real m, Real T, Real cb, int diff) const override { return part("B", m, T, cb, diff); }
  Real fermion(Real m, Real T, int diff) const override { return part("F", m, T, Real(0), diff); }
};
Real term(const char *n, Real m, const Stub &s, Real cb) { return dv::uf(n, {m, s.temp, cb}); }
Real power(Real x) // x^{3/2}, cut at zero
{
  if (!(x > Real(0))) return Real(0);
  return dv::m::pow(x, Real(1.5));
}
Real dpower(Real x, Real dx)
{
  if (!(x > Real(0))) return Real(0);
  return Real(1.5) * dx * dv::m::sqrt(x);
}
// one species and index has masses of either sign, the others are all positive
// or all negative
void loop(bool parwani, int mode)
{
  Stub m(constants());
  BSMPT::C_UseParwani = parwani;
  struct Reset
  {
    ~Reset() { BSMPT::C_UseParwani = false; }
  } reset;
  int sizes[4][4] = {{4, 4, 12, 9}, {8, 4, 12, 9}, {9, 4, 12, 9}, {6, 4, 12, 9}};
  int k           = dv::choose("sizes", 4);
  m.NHiggs = sizes[k][0], m.NGauge = sizes[k][1], m.NQuarks = sizes[k][2], m.NLepton = sizes[k][3];
  m.temp      = dv::pos("T", 10, 200);
  bool up     = dv::choose("sign", 2) == 0;
  int special = dv::choose("special", 6);
  m.point     = fields(m.NHiggs);
  for (int s = 0; s < 4; s++)
    for (std::size_t i = 0; i < m.count(s); i++)
    {
      std::string n = std::string(1, "hgql"[s]) + std::to_string(i);
      Stub::Mass x{dv::var(n + "0"), dv::var(n + "T"), dv::var(n + "d0"), dv::var(n + "dT"), dv::var(n + "t")};
      bool free = (special / 3 == 0 ? s == H : s == G) && (i == 0 ? special % 3 == 0 : i + 1 == m.count(s) ? special % 3 == 2 : i == 1 && special % 3 == 1);
      if (!free)
        for (Real *y : {&x.zero, &x.thermal})
          dv::assume(up ? *y > Real(0) : *y < Real(0));
      m.mass[s].push_back(x);
    }
  int diff = mode == 0 ? 0 : mode == 2 ? -1 : 1 + dv::choose("field", 2) * (int)(m.NHiggs - 1);
  m.der    = diff;
  Real V   = m.V1Loop(m.point, m.temp, diff);
  dv::ensure_true("masses-and-functions-are-evaluated-at-the-requested-point", m.good);
  Real ch(dv::lit("1.5")), cg = Real(5) / Real(6), none(0), sum(0), ring(0);
  auto B = [&](Real mm, Real dm, Real cb)
  {
    if (mode == 0) return term("B", mm, m, cb);
    if (mode == 1) return dm * term("B_m", mm, m, cb);
    return dm * term("B_m", mm, m, cb) + term("B_T", mm, m, cb);
  };
  auto F = [&](const Stub::Mass &x)
  {
    if (mode == 0) return term("F", x.zero, m, none);
    if (mode == 1) return x.dzero * term("F_m", x.zero, m, none);
    return term("F_T", x.zero, m, none);
  };
  for (int s : {H, G})
  {
    Real cb = s == H ? ch : cg;
    for (auto &x : m.mass[s])
    {
      // with respect to the temperature only thermal masses move
      Real d0 = mode == 2 ? Real(0) : x.dzero, dT = mode == 2 ? x.dT : x.dthermal;
      if (parwani)
      {
        sum += B(x.thermal, dT, cb);
        if (s == G) sum += Real(2) * B(x.zero, d0, cb);
      }
      else
      {
        sum += Real(s == H ? 1 : 3) * B(x.zero, d0, cb);
        Real pre = -m.temp / (Real(12) * dv::PI());
        if (mode != 1)
        {
          Real y = power(x.thermal) - power(x.zero);
          ring += mode == 0 ? pre * y : y * Real(-1) / (Real(12) * dv::PI());
        }
        if (mode == 1) ring += pre * (dpower(x.thermal, dT) - dpower(x.zero, d0));
        if (mode == 2) ring += pre * dpower(x.thermal, dT);
      }
    }
  }
  for (auto &x : m.mass[Q])
    sum += Real(-6) * F(x);
  for (auto &x : m.mass[L])
    sum += Real(-2) * F(x);
  dv::ensure_eq(mode == 0 ? "one-loop-potential-is-the-sum-over-particles-and-ring-terms"
                : mode == 1 ? "one-loop-field-derivative"
                            : "one-loop-temperature-derivative",
                V, sum + ring);
}
// total
struct Sum : public Class_SM
{
  Sum(const ISMConstants &c) : Class_SM(c) {}
  mutable bool good = true;
  Vec point;
  void seen(const Vec &v) const
  {
    if (v.size() != point.size()) good = false;
    for (std::size_t i = 0; i < v.size() && i < point.size(); i++)
      if (!dv::identical(v[i], point[i])) good = false;
  }
  Real VTree(const Vec &v, int diff, bool) const override
  {
    seen(v);
    return dv::uf("tree" + std::to_string(diff), {});
  }
  Real CounterTerm(const Vec &v, int diff, bool) const override
  {
    seen(v);
    return dv::uf("ct" + std::to_string(diff), {});
  }
  Real V1Loop(const Vec &v, Real T, int diff) const override
  {
    seen(v);
    return dv::uf("loop" + std::to_string(diff), {T});
  }
};
#endif
template <class M> void total()
{
  auto m = make_model<M>(constants(), Params<M>::make());
  m->set_CT_Pot_Par(ct_params(m->nParCT));
  Real T = dv::pos("T", 10, 200);
  // arbitrary vacuum directions, embedded
  Vec w = fields(m->nVEV, "w");
  bool rejected = true;
  for (std::size_t n = 0; n < m->NHiggs + 3; n++)
    if (n != m->NHiggs && n != m->nVEV)
    {
      Vec x(n, Real(1));
      rejected = rejected && dv::throws([&] { m->VEff(x, T); });
    }
  dv::ensure_true("wrong-number-of-entries-is-rejected", rejected);
  Vec v = m->MinimizeOrderVEV(w);
  for (int diff : {0, 1})
  {
    dv::ensure_eq("vacuum-directions-embedded", m->VEff(w, T, diff, 0), m->VTree(v, diff));
    dv::ensure_eq("tree-level-order", m->VEff(v, T, diff, 0), m->VTree(v, diff));
  }
}
#ifndef DV_NATIVE
void composition()
{
  Sum m(constants());
  Real T  = dv::var("T", 10, 200);
  m.point = fields(m.NHiggs);
  for (int diff : {0, 1, 3, -1})
  {
    std::string d = std::to_string(diff);
    Real t = dv::uf("tree" + d, {}), c = dv::uf("ct" + d, {}), l = dv::uf("loop" + d, {T});
    m.UseTreeLevel = false;
    dv::ensure_eq("one-loop-order-adds-counterterms-and-loop", m.VEff(m.point, T, diff, 1), t + c + l);
    dv::ensure_eq("one-loop-is-the-default", m.VEff(m.point, T, diff), t + c + l);
    dv::ensure_eq("tree-level-order", m.VEff(m.point, T, diff, 0), t);
    m.UseTreeLevel = true;
    dv::ensure_eq("tree-level-switch", m.VEff(m.point, T, diff, 1), t);
  }
  m.UseTreeLevel = false;
  dv::ensure_eq("value-at-zero-temperature-is-the-default", m.VEff(m.point), dv::uf("tree0", {}) + dv::uf("ct0", {}) + dv::uf("loop0", {Real(0)}));
  // vacuum directions
  Vec w;
  Vec p(m.NHiggs, Real(0));
  for (std::size_t i = 0; i < m.nVEV; i++)
  {
    w.push_back(dv::var("w" + std::to_string(i), -300, 300));
    p[m.VevOrder[i]] = w[i];
  }
  m.point = p;
  dv::ensure_eq("vacuum-directions-keep-order-and-derivative", m.VEff(w, T, 1, 1), dv::uf("tree1", {}) + dv::uf("ct1", {}) + dv::uf("loop1", {T}));
  dv::ensure_eq("vacuum-directions-keep-order-and-derivative", m.VEff(w, T, 0, 0), dv::uf("tree0", {}));
  dv::ensure_true("all-parts-at-the-requested-point", m.good);
}
DV_CONTRACT(composition) { composition(); }
DV_CONTRACT(loop_value) { loop(false, 0); }
DV_CONTRACT(loop_field_derivative) { loop(false, 1); }
DV_CONTRACT(loop_temperature_derivative) { loop(false, 2); }
DV_CONTRACT(loop_value_parwani) { loop(true, 0); }
DV_CONTRACT(loop_field_derivative_parwani) { loop(true, 1); }
DV_CONTRACT(loop_temperature_derivative_parwani) { loop(true, 2); }
#else
// the same statements on the real objects, at sampled points
// The derivative of a bosonic term is a principal value for a negative squared
// mass: no quadrature of the native build computes it, so skip such points.
void positive(const std::shared_ptr<Class_Potential_Origin> &m, const Vec &v, Real T)
{
  for (Real t : {0., T})
  {
    for (Real x : m->HiggsMassesSquared(v, t))
      dv::assume(x > 0);
    for (Real x : m->GaugeMassesSquared(v, t))
      dv::assume(x >= 0);
  }
}
// extreme tan(beta): rounding turns the light fermions' squared masses negative
void moderate(const std::shared_ptr<Class_Potential_Origin> &m, const Vec &v)
{
  for (const Vec &w : {m->QuarkMassesSquared(v), m->LeptonMassesSquared(v)})
    for (Real x : w)
      dv::assume(x >= 0 && x < 1e6);
}
void sampled(int mode)
{
  int which = dv::choose("model", 2);
  std::shared_ptr<Class_Potential_Origin> m;
  Vec par;
  if (which == 0)
    m = make_model<Class_Potential_R2HDM>(constants(), Params<Class_Potential_R2HDM>::make());
  else
    m = make_model<Class_Potential_N2HDM>(constants(), Params<Class_Potential_N2HDM>::make());
  m->set_CT_Pot_Par(ct_params(m->nParCT));
  m->CalculateDebye();
  m->CalculateDebyeGauge();
  Vec v  = fields(m->NHiggs);
  Real T = dv::pos("T", 50, 200);
  moderate(m, v);
  if (mode != 0) positive(m, v, T);
  if (mode == 0)
  {
    Real s(0);
    auto h0 = m->HiggsMassesSquared(v, 0), hT = m->HiggsMassesSquared(v, T), g0 = m->GaugeMassesSquared(v, 0), gT = m->GaugeMassesSquared(v, T);
    auto pw = [](Real x) { return x > 0 ? std::pow(x, 1.5) : 0.; };
    for (std::size_t i = 0; i < m->NHiggs; i++)
      s += m->boson(h0[i], T, 1.5) - T / (12 * M_PI) * (pw(hT[i]) - pw(h0[i]));
    for (std::size_t i = 0; i < m->NGauge; i++)
      s += 3 * m->boson(g0[i], T, 5. / 6) - T / (12 * M_PI) * (pw(gT[i]) - pw(g0[i]));
    for (Real x : m->QuarkMassesSquared(v))
      s += -6 * m->fermion(x, T);
    for (Real x : m->LeptonMassesSquared(v))
      s += -2 * m->fermion(x, T);
    dv::ensure_eq("one-loop-potential-is-the-sum-over-particles-and-ring-terms", m->V1Loop(v, T, 0), s);
    return;
  }
  Real d, e;
  if (mode == 1)
  {
    int k = dv::choose("field", (int)m->NHiggs);
    d     = m->V1Loop(v, T, k + 1);
    e     = dv::deriv([&](const Vec &x) { return m->V1Loop(x, T, 0); }, v, k);
  }
  else
  {
    d = m->V1Loop(v, T, -1);
    e = dv::deriv1([&](Real t) { return m->V1Loop(v, t, 0); }, T);
  }
  dv::assume(!std::isnan(e)); // light fermions again
  // the value uses expansions of the thermal functions, the derivative integrals
  Real f = mode == 1 ? std::abs(m->V1Loop(v, T, 0)) / 200 : std::abs(m->V1Loop(v, T, 0)) / T;
  dv::ensure("one-loop-derivative", std::abs(d - e) <= 0.05 * (std::abs(d) + std::abs(e)) + 0.1 * f);
}
DV_CONTRACT(loop_value) { sampled(0); }
DV_CONTRACT(loop_field_derivative) { sampled(1); }
DV_CONTRACT(loop_temperature_derivative) { sampled(2); }
DV_CONTRACT(composition)
{
  auto m = make_model<Class_Potential_R2HDM>(constants(), Params<Class_Potential_R2HDM>::make());
  m->set_CT_Pot_Par(ct_params(m->nParCT));
  m->CalculateDebye();
  m->CalculateDebyeGauge();
  Vec v  = fields(m->NHiggs), w = fields(m->nVEV, "w");
  Real T = dv::pos("T", 50, 200);
  moderate(m, v);
  positive(m, v, T);
  positive(m, m->MinimizeOrderVEV(w), T);
  for (int diff : {0, 1, 3, -1})
  {
    Real t = m->VTree(v, diff), c = m->CounterTerm(v, diff), l = m->V1Loop(v, T, diff);
    dv::ensure_eq("one-loop-order-adds-counterterms-and-loop", m->VEff(v, T, diff, 1), t + c + l, std::abs(l));
    dv::ensure_eq("tree-level-order", m->VEff(v, T, diff, 0), t, std::abs(l));
  }
  auto p = m->MinimizeOrderVEV(w);
  dv::ensure_eq("vacuum-directions-keep-order-and-derivative", m->VEff(w, T, 1, 0), m->VEff(p, T, 1, 0));
  dv::ensure_eq("vacuum-directions-keep-order-and-derivative", m->VEff(w, T, 0, 1), m->VEff(p, T, 0, 1));
}
#endif
// one particle
void particle(bool fermion, int mode)
{
  auto m   = make_model<Class_SM>(constants(), {dv::var("muSq"), dv::var("lambda")});
  m->scale = dv::pos("scale", 100, 400);
  Real x   = dv::var("msq", -3000, 9000), T = dv::nonneg("T", 50, 200), c = fermion ? Real(1.5) : dv::var("c", 0.5, 2);
#ifdef DV_NATIVE
  if (mode != 0 && !fermion) dv::assume(x > 0);
#endif
  bool cold = T == Real(0);
  auto J    = [&](Real r) { return fermion ? ThermalFunctions::JfermionInterpolated(r) : ThermalFunctions::JbosonInterpolated(r); };
  auto N    = [&](Real r, int d) { return fermion ? ThermalFunctions::JfermionNumericalIntegration(r, d) : ThermalFunctions::JbosonNumericalIntegration(r, d); };
  Real pre  = Real(1) / (Real(2) * dv::PI() * dv::PI()), T2 = T * T;
  auto f    = [&](int d) { return fermion ? m->fermion(x, T, d) : m->boson(x, T, c, d); };
  if (mode == 0)
  {
    Real e = m->CWTerm(x, c, 0);
    if (!cold) e += T2 * T2 * pre * J(x / T2);
    dv::ensure_eq("vacuum-part-plus-thermal-part", f(0), e);
  }
  else if (mode == 1)
  {
    int k  = 1 + dv::choose("field", 3);
    Real e = m->CWTerm(x, c, k);
    if (!cold) e += T2 * pre * N(x / T2, 1);
    dv::ensure_eq("derivative-with-respect-to-the-squared-mass", f(k), e);
  }
  else
  {
    Real e(0);
    if (!cold) e = pre * (Real(4) * T2 * T * N(x / T2, 0) - Real(2) * T * x * N(x / T2, 1));
    dv::ensure_eq("derivative-with-respect-to-the-temperature", f(-1), e);
  }
}
} // namespace
DV_CONTRACT(boson_value) { particle(false, 0); }
DV_CONTRACT(boson_mass_derivative) { particle(false, 1); }
DV_CONTRACT(boson_temperature_derivative) { particle(false, 2); }
DV_CONTRACT(fermion_value) { particle(true, 0); }
DV_CONTRACT(fermion_mass_derivative) { particle(true, 1); }
DV_CONTRACT(fermion_temperature_derivative) { particle(true, 2); }
#define X(N, C)                                                               \
  DV_CONTRACT(total_##N) { total<C>(); }
FOR_MODELS(X)
