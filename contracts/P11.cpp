// One-loop functions: the Coleman-Weinberg term with its derivative, the loop
// functions of the physical couplings as divided differences of x log x.
#include "models.h"
using namespace spec;
namespace
{
std::shared_ptr<Class_SM> model()
{
  auto m   = make_model<Class_SM>(constants(), {});
  m->scale = dv::pos("scale", 100, 400);
  return m;
}
Real LOG(const Class_SM &m, Real x) { return dv::m::log(x) - Real(2) * dv::m::log(m.scale); }

// divided difference of x (log x/scale^2) over nodes; equal nodes adjacent,
// massless nodes: the infrared logarithm is dropped
Real divided(const Class_SM &m, const Vec &x, const std::vector<int> &cls, std::size_t i, std::size_t j)
{
  if (cls[i] == cls[j])
  {
    std::size_t k = j - i;
    if (cls[i] == 0) return k == 1 ? Real(1) : Real(0);
    if (k == 0) return x[i] * LOG(m, x[i]);
    if (k == 1) return LOG(m, x[i]) + Real(1);
    // g^(k)/k!,  g^(k) = (-1)^k (k-2)! x^(1-k)
    Real p(1);
    for (std::size_t q = 1; q < k; q++)
      p = p / x[i];
    long f = 1;
    for (std::size_t q = k - 1; q <= k; q++)
      f *= (long)q;
    return (k % 2 ? Real(-1) : Real(1)) * p / Real((int)f);
  }
  return (divided(m, x, cls, i + 1, j) - divided(m, x, cls, i, j - 1)) / (x[j] - x[i]);
}
// one obligation per pattern of coincident and vanishing arguments
void pattern(int n, std::vector<int> &cls)
{
  int mx = 0;
  for (int i = 0; i < n; i++)
  {
    int c = dv::choose("class" + std::to_string(i), mx + 2);
    cls.push_back(c);
    mx = std::max(mx, c);
  }
}
void loop(int n)
{
  auto m = model();
  std::vector<int> cls;
  pattern(n, cls);
  Vec val(n + 1, Real(0));
  int mx = *std::max_element(cls.begin(), cls.end());
  for (int c = 1; c <= mx; c++)
  {
    val[c] = dv::pos("m" + std::to_string(c), 100, 90000);
    dv::assume(val[c] > Real(1));
    for (int d = 1; d < c; d++)
      dv::assume(dv::Or(val[c] - val[d] > Real(1), val[d] - val[c] > Real(1)));
  }
  Vec x;
  std::vector<int> k;
  for (int c = 0; c <= mx; c++)
    for (int i = 0; i < n; i++)
      if (cls[i] == c)
      {
        x.push_back(val[c]);
        k.push_back(c);
      }
  int zeros = (int)std::count(cls.begin(), cls.end(), 0);
  if (zeros >= 3 && zeros < n) return; // power-like infrared divergence: no convention in the literature
  Real want = divided(*m, x, k, 0, n - 1), got;
  if (n == 2) got = m->fbase(val[cls[0]], val[cls[1]]);
  if (n == 3) got = m->fbaseTri(val[cls[0]], val[cls[1]], val[cls[2]]);
  if (n == 4) got = m->fbaseFour(val[cls[0]], val[cls[1]], val[cls[2]], val[cls[3]]);
  static const char *names[] = {"", "", "two-point-loop-function", "three-point-loop-function", "four-point-loop-function"};
#ifndef DV_NATIVE
  dv::ensure_eq(names[n], got, want);
#else
  // well separated masses only: the closed formulas cancel otherwise
  dv::ensure(names[n], std::abs(got - want) <= 1e-6 * std::abs(want));
#endif
}
} // namespace
DV_CONTRACT(coleman_weinberg)
{
  auto m  = model();
  Real c  = dv::in("c", 0.1, 3);
  Real x  = dv::var("msq", -90000, 90000);
  dv::assume(dv::Or(x > Real(1e-4), x < Real(-1e-4)));
  Real pi = dv::PI();
  Real a  = x > Real(0) ? x : -x;
  Real V  = m->CWTerm(x, c, 0);
  dv::ensure_eq("Coleman-Weinberg-potential", V, x * x * (LOG(*m, a) - c) / (Real(64) * pi * pi));
  Real d = dv::deriv1([&](Real y) { return m->CWTerm(y, c, 0); }, x);
  dv::ensure_eq("Coleman-Weinberg-derivative", m->CWTerm(x, c, 1 + dv::choose("field", 3)), d);
}
// a mass below the threshold does not contribute; the cut is small
DV_CONTRACT(coleman_weinberg_threshold)
{
  auto m = model();
  Real x = dv::in("msq", -1e-4, 1e-4);
  int d  = dv::choose("derivative", 2);
  dv::ensure_eq("massless-contribution", m->CWTerm(x, Real(1.5), d), Real(0), Real(1));
}
DV_CONTRACT(loop_two) { loop(2); }
DV_CONTRACT(loop_three) { loop(3); }
DV_CONTRACT(loop_four) { loop(4); }
