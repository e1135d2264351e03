// The Hermitian eigensolver is an external function. Where a contract knows
// the spectrum, it supplies it and *proves* it: either the matrix is diagonal,
// or its characteristic polynomial is the product over the claimed eigenvalues.
#pragma once
#include "gauge.h"
namespace spec
{
// coefficients of det(x - M), real symmetric, by Faddeev-LeVerrier
inline Vec charpoly(int n, const std::vector<Vec> &A)
{
  Vec c(n + 1, Real(0));
  c[n] = Real(1);
  std::vector<Vec> Mk(n, Vec(n, Real(0)));
  for (int k = 1; k <= n; k++)
  {
    // Mk = A Mk + c_{n-k+1} I
    std::vector<Vec> T(n, Vec(n, Real(0)));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
      {
        for (int l = 0; l < n; l++)
          T[i][j] += A[i][l] * Mk[l][j];
        if (i == j) T[i][j] += c[n - k + 1];
      }
    Mk = T;
    Real tr(0);
    for (int i = 0; i < n; i++)
      for (int l = 0; l < n; l++)
        tr += A[i][l] * Mk[l][i];
    c[n - k] = -tr / Real(k);
  }
  return c;
}
inline Vec charpoly_roots(const Vec &r)
{
  Vec p{Real(1)};
  for (auto &x : r)
  {
    Vec q(p.size() + 1, Real(0));
    for (std::size_t i = 0; i < p.size(); i++)
    {
      q[i + 1] += p[i];
      q[i] -= x * p[i];
    }
    p = q;
  }
  return p;
}
// from here on the eigensolver returns `ev` for an n x n matrix, with the
// obligation that this is its spectrum
// (if `expect` is given, the matrix is first proved to be `expect`)
inline void claim_spectrum(const std::string &name, const Vec &ev_, const std::vector<Vec> &expect = {})
{
#ifndef DV_NATIVE
  dv::EigControl::hook = [=](int n, const std::vector<Cx> &m, Vec &ev, std::vector<Cx> &)
  {
    if (n != (int)ev_.size()) return false;
    bool diag = true;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (i != j && !(dv::identical(m[i * n + j].real(), Real(0)) && dv::identical(m[i * n + j].imag(), Real(0))))
          diag = false;
    if (diag)
    {
      // the simplest equal term where the claim has one
      std::vector<bool> used(n);
      for (int i = 0; i < n; i++)
      {
        ev[i] = m[i * n + i].real();
        for (int j = 0; j < n; j++)
          if (!used[j] && dv::identical(ev[i], ev_[j]))
          {
            ev[i]   = ev_[j];
            used[j] = true;
            break;
          }
      }
      return true;
    }
    std::vector<Vec> A(n, Vec(n));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        A[i][j] = m[i * n + j].real();
    if ((int)expect.size() == n)
    {
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          dv::ensure_eq(name + "-matrix", A[i][j], expect[i][j]);
      A = expect;
    }
    Vec p = charpoly(n, A), q = charpoly_roots(ev_);
    for (int i = 0; i <= n; i++)
      dv::ensure_eq(name, p[i], q[i]);
    ev = ev_;
    return true;
  };
#else
  (void)name;
  (void)ev_;
  (void)expect;
#endif
}
// as multisets
inline void ensure_same_set(const std::string &name, Vec a, Vec b)
{
  dv::ensure_true(name + "-count", a.size() == b.size());
  if (a.size() != b.size()) return;
#ifdef DV_NATIVE
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  for (std::size_t i = 0; i < a.size(); i++)
    dv::ensure(name, std::abs(a[i] - b[i]) <= 1e-6 * (1 + std::abs(b.back())));
#else
  std::vector<bool> used(b.size());
  for (auto &x : a)
  {
    bool ok = false;
    for (std::size_t j = 0; j < b.size() && !ok; j++)
      if (!used[j] && dv::identical(x, b[j])) used[j] = ok = true;
    if (!ok)
    {
      // name the entry that has no partner
      for (std::size_t j = 0; j < b.size(); j++)
        if (!used[j])
        {
          dv::ensure_eq(name, x, b[j]);
          break;
        }
    }
    else
      dv::ensure_eq(name, x, x);
  }
#endif
}
} // namespace spec
