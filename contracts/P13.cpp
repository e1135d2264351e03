// Thermal functions: defining integrals, expansions, joins, derivatives.
#include "models.h"
#include <BSMPT/ThermalFunctions/NegativeBosonSpline.h>
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#ifndef DV_NATIVE
// the contract of the spline (its own property) in place of its body: an
// interpolation of the points it was given, with the boundary slopes given
namespace
{
struct Table
{
  std::vector<dv::Real> x, y;
  dv::Real left, right;
};
std::map<const void *, Table> &table()
{
  static std::map<const void *, Table> t;
  return t;
}
} // namespace
namespace tk
{
using dv::Real;
void spline::set_points(const std::vector<Real> &x, const std::vector<Real> &y, spline_type)
{
  table()[this] = {x, y, m_left == first_deriv ? m_left_value : dv::undef(), m_right == first_deriv ? m_right_value : dv::undef()};
}
bool spline::make_monotonic() { throw dv::Unsupported{"monotonic spline"}; }
Real spline::operator()(Real x) const { return dv::uf("spline", {x}); }
Real spline::deriv(int n, Real x) const { return dv::uf("spline_d" + std::to_string(n), {x}); }
} // namespace tk
#endif
using namespace spec;
using namespace BSMPT::ThermalFunctions;
namespace
{
Real sgn(bool fermion) { return fermion ? Real(1) : Real(-1); }
Real J(bool fermion, Real x, Real k, int d) { return fermion ? JfermionIntegrand(x, k, d) : JbosonIntegrand(x, k, d); }
// k^2 log(1 -+ exp(-sqrt(k^2+x))), real part
void integrand(bool fermion)
{
  bool above = dv::choose("energy", 2) == 0;
  Real k     = dv::pos("k", 0.5, 5);
  Real s     = dv::pos("s", 0.5, 3);
  Real one(1), sg = sgn(fermion);
  Real x = above ? s * s - k * k : -s * s - k * k;
  dv::sqrt_hint(s);
  Real v = J(fermion, x, k, 0), d = J(fermion, x, k, 1);
  if (above)
  {
    Real e = dv::m::exp(-s);
    dv::ensure_eq("integrand", v, k * k * dv::m::log(one + sg * e));
    // ds/dx = 1/(2 s)
    dv::ensure_eq("derivative-of-the-integrand", d, -k * k * sg * e / (one + sg * e) / (Real(2) * s));
  }
  else
  {
    Real c = dv::m::cos(s), sn = dv::m::sin(s);
    dv::assume(sn != Real(0));
    Real n = Real(2) + Real(2) * sg * c; // |1 +- exp(-i s)|^2, ds/dx = -1/(2 s)
    dv::ensure_eq("integrand-at-negative-argument", v, k * k * dv::m::log(dv::m::sqrt(n)));
    dv::ensure_eq("derivative-of-the-integrand-at-negative-argument", d, k * k / Real(2) * (-Real(2) * sg * sn / n) * (-one / (Real(2) * s)));
  }
}
void numeric(bool fermion, int d)
{
  Real x = dv::nonneg("x", 0.1, 20);
  Real v = fermion ? JfermionNumericalIntegration(x, d) : JbosonNumericalIntegration(x, d);
  Real s = dv::integral([&](Real k) { return J(fermion, x, k, d); }, Real(0), Real(30));
  dv::ensure_eq("numerical-thermal-function-is-the-integral", v, s);
  if (d == 0) dv::ensure_eq("numerical-thermal-function-is-the-integral", fermion ? JfermionNumericalIntegration(x) : JbosonNumericalIntegration(x), s);
}
Real doublefact(int n)
{
  Real r(1);
  for (int i = n; i > 1; i -= 2)
    r *= Real(i);
  return r;
}
// high-temperature expansion of order n, and its derivative
Real high_T(bool fermion, Real x, int n, int d)
{
  Real pi2 = dv::PI() * dv::PI(), g(dv::lit("0.5772156649015328606065"));
  Real lg  = dv::m::log(x);
  Real c   = Real(1.5) - Real(2) * g + Real(2) * dv::m::log(dv::PI()) + (fermion ? Real(0) : Real(2) * dv::m::log(Real(4)));
  Real sum(0);
  for (int l = 2; l <= n; l++)
  {
    Real k = doublefact(2 * l - 3) * dv::m::zeta(2 * l - 1) / (doublefact(2 * l) * Real(l + 1));
    if (fermion) k = k * (dv::pown(Real(2), 2 * l - 1) - Real(1));
    Real q = dv::pown(Real(-1) / (Real(4) * pi2), l);
    sum += k * q * (d == 0 ? dv::pown(x, l + 1) : Real(l + 1) * dv::pown(x, l));
  }
  Real r = fermion ? Real(-7) * pi2 * pi2 / Real(360) : -pi2 * pi2 / Real(45);
  Real a = pi2 / Real(fermion ? 24 : 12), b = Real(fermion ? 1 : -1) / Real(32);
  if (d == 0)
  {
    r += a * x + b * x * x * (lg - c) + Real(fermion ? -1 : 1) * pi2 * sum;
    if (!fermion) r -= dv::PI() / Real(6) * x * dv::m::sqrt(x);
    return r;
  }
  r = a + b * (Real(2) * x * (lg - c) + x) + Real(fermion ? -1 : 1) * pi2 * sum;
  if (!fermion) r -= dv::PI() / Real(4) * dv::m::sqrt(x);
  return r;
}
// low-temperature expansion: asymptotic series of the Bessel function
Real low_T(Real x, int n, int d)
{
  Real s = dv::m::sqrt(x), e = dv::m::exp(-s), q = dv::m::sqrt(s), r(0);
  Real pre = dv::m::sqrt(dv::PI() / Real(2));
  for (int l = 0; l <= n; l++)
  {
    // Gamma(5/2+l)/Gamma(5/2-l) = prod_{j=-l+1/2 .. } of half integers
    Real k(1);
    for (int j = 0; j < 2 * l; j++)
      k *= Real(5) / Real(2) - Real(l) + Real(j);
    for (int j = 1; j <= l; j++)
      k = k / (Real(2) * Real(j));
    // -e^{-s} s^{3/2 - l}
    Real p(1);
    for (int j = 0; j < l; j++)
      p = p / s;
    if (d == 0)
      r += -pre * k * e * q * s * p;
    else // d/dx = 1/(2s) d/ds
      r += -pre * k * e * p * (-q * s + (Real(1.5) - Real(l)) * q) / (Real(2) * s);
  }
  return r;
}
void expansion_high_T(bool fermion)
{
  int n  = dv::choose("order", 8), d = dv::choose("derivative", 2);
  Real x = dv::pos("x", 0.01, 3);
  Real v = fermion ? JfermionInterpolatedLow(x, n, d) : JbosonInterpolatedLow(x, n, d);
  dv::ensure_eq(d ? "derivative-of-the-high-temperature-expansion" : "high-temperature-expansion", v, high_T(fermion, x, n, d));
  Real z = fermion ? JfermionInterpolatedLow(Real(0), n, d) : JbosonInterpolatedLow(Real(0), n, d);
  Real p = dv::PI() * dv::PI();
  dv::ensure_eq("massless-limit", z, d == 1 ? p / Real(fermion ? 24 : 12) : (fermion ? Real(-7) * p * p / Real(360) : -p * p / Real(45)));
}
void expansion_low_T()
{
  int n  = dv::choose("order", 8), d = dv::choose("derivative", 2);
  Real t = dv::pos("t", 1, 2.5), x = dv::pown(t, 4);
  dv::sqrt_hint(t);
  dv::sqrt_hint(t * t);
  dv::ensure_eq(d ? "derivative-of-the-low-temperature-expansion" : "low-temperature-expansion", JInterpolatedHigh(x, n, d), low_T(x, n, d));
}
#ifndef DV_NATIVE
Real spline_value(int d, Real y) { return dv::uf("Jneg" + std::to_string(d), {y}); }
#endif
void used(bool fermion)
{
  int d = dv::choose("derivative", 2);
  int r = dv::choose("region", 2);
  Real theta(fermion ? dv::lit("2.216079120") : dv::lit("9.469230596")), shift(fermion ? dv::lit("-0.01560316619") : dv::lit("0.0063108787"));
  Real t = dv::pos("t", 0.5, 2), x = dv::pown(t, 4);
  dv::sqrt_hint(t);
  dv::sqrt_hint(t * t);
  dv::assume(r ? x >= theta : x < theta);
  Real v = fermion ? JfermionInterpolated(x, d) : JbosonInterpolated(x, d), e;
  if (r)
  {
    e = low_T(x, 3, d) * (fermion ? Real(-1) : Real(1));
    if (!fermion && d == 0) e -= shift;
  }
  else
  {
    e = high_T(fermion, x, fermion ? 4 : 3, d) * (fermion ? Real(-1) : Real(1));
    if (fermion && d == 0) e -= shift;
  }
  dv::ensure_eq("thermal-function-used-by-the-potential", v, e);
  if (d == 0) dv::ensure_eq("value-is-the-default", fermion ? JfermionInterpolated(x) : JbosonInterpolated(x), v);
}
void join(bool fermion)
{
  // just below and at the threshold: the expansions there differ by rounding of
  // the published constants only
  Real theta(fermion ? C_FermionTheta : C_BosonTheta);
  int d   = dv::choose("derivative", 2);
  Real hi = fermion ? JfermionInterpolated(theta, d) : JbosonInterpolated(theta, d);
  Real lo = fermion ? -JfermionInterpolatedLow(theta, 4, d) : JbosonInterpolatedLow(theta, 3, d);
  if (d == 0 && fermion) lo -= Real(C_FermionShift);
  Real g = hi - lo, t(d ? 1e-4 : 1e-6);
  dv::ensure("no-jump-at-the-join", dv::And(g < t, g > -t));
}
// tabulated integral at negative arguments, joined to the expansion at zero
void negative()
{
  Real x = -dv::pos("y", 0.1, 2500);
  Real v = JbosonInterpolated(x), d = JbosonInterpolated(x, 1);
#ifndef DV_NATIVE
  auto &t = table();
  dv::ensure_true("one-table", t.size() == 1);
  auto &f = t.begin()->second;
  // the interpolation and its derivative, mirrored
  dv::ensure_eq("derivative-at-negative-argument", d, dv::uf("spline_d1", {-x}) * Real(-1));
  Real off = v - dv::uf("spline", {-x}), e(1e-5);
  dv::ensure("negative-argument-uses-the-table", dv::And(off < e, off > -e));
  bool same = f.x.size() == NegLinearIntTransposed[0].size();
  for (std::size_t i = 0; same && i < f.x.size(); i++)
    same = dv::identical(f.x[i], Real((int)i)) && dv::identical(f.y[i], Real(NegLinearIntTransposed[1][i]));
  dv::ensure_true("table-values-are-interpolated", same);
  // at zero: value and slope of the expansion
  Real g = f.y[0] + off - JbosonInterpolated(Real(0)), s = -f.left - JbosonInterpolated(Real(0), 1);
  dv::ensure("no-jump-at-zero", dv::And(g < e, g > -e));
  dv::ensure("no-kink-at-zero", dv::And(s < e, s > -e));
#else
  dv::ensure_eq("derivative-at-negative-argument", d, (JbosonInterpolated(x + 1e-4) - JbosonInterpolated(x - 1e-4)) / 2e-4, 1);
  for (int k = 0; k < 3000; k += 100)
    dv::ensure("table-values-are-interpolated", std::abs(JbosonInterpolatedNegative(-k - 1e-9) - NegLinearIntTransposed[1][k]) < 1e-4);
  dv::ensure("no-jump-at-zero", std::abs(JbosonInterpolated(-1e-9) - JbosonInterpolated(0)) < 1e-5);
  dv::ensure("no-kink-at-zero", std::abs(JbosonInterpolated(-1e-9, 1) - JbosonInterpolated(0, 1)) < 1e-5);
#endif
}
} // namespace
DV_CONTRACT(boson_negative) { negative(); }
DV_CONTRACT(boson_integrand) { integrand(false); }
DV_CONTRACT(fermion_integrand) { integrand(true); }
DV_CONTRACT(boson_integral) { numeric(false, 0); }
DV_CONTRACT(boson_integral_derivative) { numeric(false, 1); }
DV_CONTRACT(fermion_integral) { numeric(true, 0); }
DV_CONTRACT(fermion_integral_derivative) { numeric(true, 1); }
DV_CONTRACT(boson_high_temperature) { expansion_high_T(false); }
DV_CONTRACT(fermion_high_temperature) { expansion_high_T(true); }
DV_CONTRACT(low_temperature) { expansion_low_T(); }
DV_CONTRACT(boson_used) { used(false); }
DV_CONTRACT(fermion_used) { used(true); }
DV_CONTRACT(boson_join) { join(false); }
DV_CONTRACT(fermion_join) { join(true); }
