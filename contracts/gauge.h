// Specification: the SU(2)xU(1) action on the real scalar fields.
#pragma once
#include "lagrangian.h"
namespace spec
{
// a complex doublet (f[a] + i f[b], f[c] + i f[d])/sqrt2; *s flips the sign of
// the real field with respect to the imaginary part
struct DoubletFields
{
  int a, b, c, d;
  int sd = 1;
};
template <class M> struct Doublets;
template <> struct Doublets<Class_SM>
{
  static std::vector<DoubletFields> get() { return {{0, 1, 2, 3}}; }
};
template <> struct Doublets<Class_Potential_R2HDM>
{
  static std::vector<DoubletFields> get() { return {{0, 1, 4, 5}, {2, 3, 6, 7}}; }
};
template <> struct Doublets<Class_Potential_C2HDM>
{
  static std::vector<DoubletFields> get() { return {{0, 1, 4, 5}, {2, 3, 6, 7}}; }
};
template <> struct Doublets<Class_Potential_N2HDM>
{
  static std::vector<DoubletFields> get() { return {{0, 2, 6, 4}, {1, 3, 7, 5}}; }
};
template <> struct Doublets<Class_CxSM>
{
  static std::vector<DoubletFields> get() { return {{0, 1, 3, 2}}; }
};
template <> struct Doublets<Class_Potential_CPintheDark>
{
  static std::vector<DoubletFields> get() { return {{0, 1, 4, 5}, {2, 3, 6, 7}}; }
};
// coupling * (i sigma_k / 2) phi for k = 0,1,2, and the hypercharge for k = 3
template <class M> Vec gauge_variation(int k, const Vec &f, Real g, Real gs)
{
  Vec r(f.size(), Real(0));
  Real h = (k < 3 ? g : gs) / Real(2);
  for (auto q : Doublets<M>::get())
  {
    Real a = f[q.a], b = f[q.b], c = f[q.c], d = Real(q.sd) * f[q.d];
    Real A, B, C, D;
    if (k == 0)
      A = -d, B = c, C = -b, D = a;
    else if (k == 1)
      A = c, B = d, C = -a, D = -b;
    else if (k == 2)
      A = -b, B = a, C = d, D = -c;
    else
      A = -b, B = a, C = -d, D = c;
    r[q.a] = h * A, r[q.b] = h * B, r[q.c] = h * C, r[q.d] = h * D * Real(q.sd);
  }
  return r;
}
inline Real dot(const Vec &a, const Vec &b)
{
  Real s(0);
  for (std::size_t i = 0; i < a.size(); i++)
    s += a[i] * b[i];
  return s;
}
} // namespace spec
