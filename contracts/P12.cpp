// Field-dependent mass matrices are the Hessians / tensor contractions of the
// couplings, also in their field- and temperature-derivatives.
#include "gauge.h"
using namespace spec;
namespace
{
using CMat = Eigen::Matrix<Cx, Eigen::Dynamic, Eigen::Dynamic>;
}
namespace
{
// give the thermal masses arbitrary values
template <class M> void thermal(M &m)
{
  for (std::size_t i = 0; i < m.NHiggs; i++)
    for (std::size_t j = 0; j <= i; j++)
      m.DebyeHiggs[i][j] = m.DebyeHiggs[j][i] = dv::var("Pi" + std::to_string(j) + std::to_string(i), -1, 1);
  for (std::size_t i = 0; i < m.NGauge; i++)
    for (std::size_t j = 0; j <= i; j++)
      m.DebyeGauge[i][j] = m.DebyeGauge[j][i] = dv::var("PiG" + std::to_string(j) + std::to_string(i), -1, 1);
}
template <class M> void scalar()
{
  auto m        = make_model<M>(constants(), Params<M>::make());
  std::size_t n = m->NHiggs;
  thermal(*m);
  Vec v  = fields(n);
  Real T = dv::pos("T", 10, 200);
  auto E = tree_expansion(*m, v);
  auto Z = m->HiggsMassMatrix(v, Real(0), 0), H = m->HiggsMassMatrix(v, T, 0), HT = m->HiggsMassMatrix(v, T, -1);
  dv::ensure_true("scalar-mass-matrix-size", (std::size_t)Z.rows() == n && (std::size_t)H.cols() == n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++)
    {
      dv::ensure_eq("scalar-mass-matrix-is-the-Hessian", Z(i, j), E.hessian[i][j]);
      dv::ensure_eq("scalar-mass-matrix-symmetric", H(i, j), H(j, i));
      dv::ensure_eq("scalar-thermal-mass-matrix", H(i, j), E.hessian[i][j] + T * T * m->DebyeHiggs[i][j]);
      dv::ensure_eq("scalar-mass-matrix-temperature-derivative", HT(i, j), Real(2) * T * m->DebyeHiggs[i][j]);
    }
  for (std::size_t k = 0; k < n; k++)
  {
    auto D = m->HiggsMassMatrix(v, T, (int)k + 1);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
      {
        Real d = m->Curvature_Higgs_L3[i][j][k];
        for (std::size_t l = 0; l < n; l++)
          d += m->Curvature_Higgs_L4[i][j][k][l] * v[l];
        dv::ensure_eq("scalar-mass-matrix-field-derivative", D(i, j), d);
      }
  }
}
#ifndef DV_NATIVE
// what the eigensolver was asked to diagonalise
struct Captured
{
  std::vector<std::vector<Cx>> matrices;
  std::vector<Vec> values;
  int fresh = 0;
};
inline std::shared_ptr<Captured> capture()
{
  auto c = std::make_shared<Captured>();
  dv::EigControl::hook = [c](int n, const std::vector<Cx> &m, Vec &ev, std::vector<Cx> &vec)
  {
    c->matrices.push_back(m);
    int id = c->fresh++;
    for (int i = 0; i < n; i++)
    {
      ev[i] = dv::havoc("ev" + std::to_string(id) + "_" + std::to_string(i));
      // away from the threshold below which masses are reported as zero
      if (i > 0) dv::assume(ev[i] > ev[i - 1] + Real(1e-3));
      if (i == 0) dv::assume(ev[0] > Real(1e-3));
      for (int j = 0; j < n; j++)
        vec[i * n + j] = Cx(dv::havoc("vec"), dv::havoc("vec"));
    }
    c->values.push_back(ev);
    return true;
  };
  return c;
}
template <class M> void same_values(const char *name, const Vec &res, const Vec &ev, std::size_t n)
{
  dv::ensure_true(name, res.size() >= n && ev.size() == n);
  for (std::size_t i = 0; i < n && i < res.size(); i++)
    dv::ensure_eq(name, res[i], ev[i]);
}
template <class M> void gauge_fermion()
{
  auto m        = make_model<M>(constants(), Params<M>::make());
  std::size_t n = m->NHiggs, ng = m->NGauge;
  thermal(*m);
  Vec v   = fields(n);
  Real T  = dv::pos("T", 10, 200);
  auto c  = capture();
  auto G  = [&](std::size_t a, std::size_t b)
  {
    Real s(0);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
        s += m->Curvature_Gauge_G2H2[a][b][i][j] * v[i] * v[j];
    return s / Real(2);
  };
  {
    auto r = m->GaugeMassesSquared(v, T, 0);
    auto z = m->GaugeMassesSquared(v, 0, 0);
    dv::ensure_true("gauge-mass-matrix-size", c->matrices.size() == 2 && c->matrices[0].size() == ng * ng);
    if (c->matrices.size() != 2) return;
    for (std::size_t a = 0; a < ng; a++)
      for (std::size_t b = 0; b < ng; b++)
      {
        dv::ensure_eq("gauge-mass-matrix", c->matrices[1][a * ng + b].real(), G(a, b));
        dv::ensure_eq("gauge-thermal-mass-matrix", c->matrices[0][a * ng + b].real(), G(a, b) + T * T * m->DebyeGauge[a][b]);
      }
    same_values<M>("gauge-masses-are-the-eigenvalues", r, c->values[0], ng);
    same_values<M>("gauge-masses-are-the-eigenvalues", z, c->values[1], ng);
  }
  c->matrices.clear();
  c->values.clear();
  {
    auto r = m->HiggsMassesSquared(v, T, 0);
    auto H = m->HiggsMassMatrix(v, T, 0);
    dv::ensure_true("scalar-mass-matrix-size", c->matrices.size() == 1 && c->matrices[0].size() == n * n);
    if (c->matrices.size() != 1) return;
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
        dv::ensure_eq("scalar-masses-diagonalise-the-mass-matrix", c->matrices[0][i * n + j].real(), H(i, j));
    same_values<M>("scalar-masses-are-the-eigenvalues", r, c->values[0], n);
  }
  // fermions: m^+ m with m = Y.phi
  auto fermion = [&](const char *name, std::size_t nf, const std::vector<std::vector<std::vector<Cx>>> &Y, bool quark)
  {
    c->matrices.clear();
    c->values.clear();
    auto r = quark ? m->QuarkMassesSquared(v, 0) : m->LeptonMassesSquared(v, 0);
    dv::ensure_true(name, c->matrices.size() == 1 && c->matrices[0].size() == nf * nf);
    if (c->matrices.size() != 1) return;
    auto mass = [&](std::size_t a, std::size_t b)
    {
      Cx s(Real(0), Real(0));
      for (std::size_t k = 0; k < n; k++)
        s += Y[a][b][k] * v[k];
      return s;
    };
    std::vector<std::vector<Cx>> mm(nf, std::vector<Cx>(nf));
    for (std::size_t a = 0; a < nf; a++)
      for (std::size_t b = 0; b < nf; b++)
        mm[a][b] = mass(a, b);
    for (std::size_t a = 0; a < nf; a++)
      for (std::size_t b = 0; b <= a; b++)
      {
        Cx s(Real(0), Real(0));
        for (std::size_t k = 0; k < nf; k++)
          s += dv::m::conj(mm[k][a]) * mm[k][b];
        dv::ensure_eq(name, c->matrices[0][a * nf + b], s);
      }
    same_values<M>(name, r, c->values[0], nf);
  };
  fermion("quark-mass-matrix-squared", m->NQuarks, m->Curvature_Quark_F2H1, true);
  fermion("lepton-mass-matrix-squared", m->NLepton, m->Curvature_Lepton_F2H1, false);
}
// derivatives of the masses: the derivative routine is given the mass matrix
// and its derivative; what that routine returns has its own contract below
template <class M> struct Probe : public M
{
  struct Call
  {
    int rows;
    std::vector<Cx> mass, dmass;
    Vec result;
  };
  mutable std::vector<Call> calls;
  Probe(const ISMConstants &c) : M(c) {}
  Vec FirstDerivativeOfEigenvalues(const Eigen::Ref<CMat> A, const Eigen::Ref<CMat> B) const override
  {
    Call c;
    c.rows = (int)A.rows();
    for (int i = 0; i < A.rows(); i++)
      for (int j = 0; j < A.cols(); j++)
        c.mass.push_back(A(i, j));
    for (int i = 0; i < B.rows(); i++)
      for (int j = 0; j < B.cols(); j++)
        c.dmass.push_back(B(i, j));
    for (int i = 0; i < 2 * c.rows; i++)
      c.result.push_back(dv::havoc("r" + std::to_string(i)));
    calls.push_back(c);
    return c.result;
  }
};
struct Stub0 : public Class_SM
{
  Stub0(const ISMConstants &c) : Class_SM(c) {}
};
template <class M> void eigen_derivatives()
{
  auto m        = make_model<Probe<M>>(constants(), Params<M>::make());
  std::size_t n = m->NHiggs, ng = m->NGauge;
  thermal(*m);
  Vec v  = fields(n);
  Real T = dv::pos("T", 10, 200);
  int k  = dv::choose("derivative", (int)n + 1) - 1; // -1: temperature
  int d  = k < 0 ? -1 : k + 1;
  using Entry = std::function<Cx(std::size_t, std::size_t)>;
  auto check  = [&](const char *name, const std::function<Vec()> &call, const Entry &mass, const Entry &dmass, std::size_t N)
  {
    m->calls.clear();
    Vec r = call();
    dv::ensure_true(name, m->calls.size() == 1 && r.size() == 2 * N);
    if (m->calls.size() != 1 || r.size() != 2 * N) return;
    auto &c = m->calls[0];
    dv::ensure_true(name, c.mass.size() == N * N && c.dmass.size() == N * N);
    if (c.mass.size() != N * N || c.dmass.size() != N * N) return;
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t j = 0; j < N; j++)
      {
        dv::ensure_eq(name, c.mass[i * N + j], mass(i, j));
        dv::ensure_eq(name, c.dmass[i * N + j], dmass(i, j));
      }
    for (std::size_t i = 0; i < 2 * N; i++)
      dv::ensure_eq(name, r[i], c.result[i]);
  };
  {
    auto H = m->HiggsMassMatrix(v, T, 0), D = m->HiggsMassMatrix(v, T, d);
    check("scalar-mass-derivatives", [&]() { return m->HiggsMassesSquared(v, T, d); }, [&](std::size_t i, std::size_t j) { return Cx(H(i, j)); },
          [&](std::size_t i, std::size_t j) { return Cx(D(i, j)); }, n);
  }
  {
    auto G = [&](std::size_t a, std::size_t b)
    {
      Real s(0);
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < n; j++)
          s += m->Curvature_Gauge_G2H2[a][b][i][j] * v[i] * v[j];
      return Cx(s / Real(2) + T * T * m->DebyeGauge[a][b]);
    };
    auto dG = [&](std::size_t a, std::size_t b)
    {
      if (k < 0) return Cx(Real(2) * T * m->DebyeGauge[a][b]);
      Real s(0);
      for (std::size_t j = 0; j < n; j++)
        s += m->Curvature_Gauge_G2H2[a][b][k][j] * v[j];
      return Cx(s);
    };
    check("gauge-mass-derivatives", [&]() { return m->GaugeMassesSquared(v, T, d); }, G, dG, ng);
  }
  if (k < 0) return;
  auto fermion = [&](const char *name, bool quark)
  {
    auto &Y        = quark ? m->Curvature_Quark_F2H1 : m->Curvature_Lepton_F2H1;
    std::size_t nf = quark ? m->NQuarks : m->NLepton;
    std::vector<std::vector<Cx>> F(nf, std::vector<Cx>(nf, Cx(Real(0), Real(0)))), A = F, D = F;
    for (std::size_t a = 0; a < nf; a++)
      for (std::size_t b = 0; b < nf; b++)
        for (std::size_t l = 0; l < n; l++)
          F[a][b] += Y[a][b][l] * v[l];
    for (std::size_t a = 0; a < nf; a++)
      for (std::size_t b = 0; b < nf; b++)
        for (std::size_t c = 0; c < nf; c++)
        {
          A[a][b] += dv::m::conj(F[c][a]) * F[c][b];
          D[a][b] += dv::m::conj(F[c][a]) * Y[c][b][k] + dv::m::conj(Y[c][a][k]) * F[c][b];
        }
    check(name, [&]() { return quark ? m->QuarkMassesSquared(v, d) : m->LeptonMassesSquared(v, d); }, [&](std::size_t i, std::size_t j) { return A[i][j]; },
          [&](std::size_t i, std::size_t j) { return D[i][j]; }, nf);
  };
  fermion("quark-mass-derivatives", true);
  fermion("lepton-mass-derivatives", false);
}
#endif
} // namespace
#ifdef DV_NATIVE
namespace
{
// on the running code: the sums of powers of the reported masses (and of their
// derivatives) against the traces of the contracted couplings
using Entry = std::function<Cx(std::size_t, std::size_t)>;
void power_sums(const char *name, const Vec &r, std::size_t N, const Entry &A, const Entry *D)
{
  dv::ensure_true(name, r.size() == (D ? 2 * N : N));
  if (r.size() < N) return;
  Cx t1(0), t2(0), d1(0), d2(0);
  Real s1 = 0, s2 = 0, e1 = 0, e2 = 0, n1 = 0, n2 = 0, nd = 0;
  for (std::size_t i = 0; i < N; i++)
  {
    t1 += A(i, i);
    n1 += std::abs(A(i, i));
    s1 += r[i], s2 += r[i] * r[i];
    if (D)
    {
      d1 += (*D)(i, i);
      nd += std::abs((*D)(i, i));
      e1 += r[N + i], e2 += 2 * r[i] * r[N + i];
    }
    for (std::size_t j = 0; j < N; j++)
    {
      t2 += A(i, j) * A(j, i);
      n2 += std::abs(A(i, j) * A(j, i));
      if (D) d2 += Real(2) * A(i, j) * (*D)(j, i);
    }
  }
  dv::ensure_eq(name, s1, t1.real(), n1 + 1);
  dv::ensure_eq(name, s2, t2.real(), n2 + 1);
  if (D)
  {
    dv::ensure_eq(name, e1, d1.real(), nd + 10);
    dv::ensure_eq(name, e2, d2.real(), nd * n1 + 10);
  }
}
template <class M> void native_masses(bool derivative)
{
  auto m        = make_model<M>(constants(), Params<M>::make());
  std::size_t n = m->NHiggs, ng = m->NGauge;
  thermal(*m);
  Vec v  = fields(n);
  Real T = dv::pos("T", 10, 200);
  int k  = derivative ? dv::choose("derivative", (int)n + 1) - 1 : 0;
  int d  = !derivative ? 0 : k < 0 ? -1 : k + 1;
  auto H = m->HiggsMassMatrix(v, T, 0), DH = m->HiggsMassMatrix(v, T, d);
  Entry h = [&](std::size_t i, std::size_t j) { return Cx(H(i, j)); }, dh = [&](std::size_t i, std::size_t j) { return Cx(DH(i, j)); };
  power_sums(derivative ? "scalar-mass-derivatives" : "scalar-masses-are-the-eigenvalues", m->HiggsMassesSquared(v, T, d), n, h, derivative ? &dh : nullptr);
  Entry g = [&](std::size_t a, std::size_t b)
  {
    Real s(0);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
        s += m->Curvature_Gauge_G2H2[a][b][i][j] * v[i] * v[j];
    return Cx(s / Real(2) + T * T * m->DebyeGauge[a][b]);
  };
  Entry dg = [&](std::size_t a, std::size_t b)
  {
    if (k < 0) return Cx(Real(2) * T * m->DebyeGauge[a][b]);
    Real s(0);
    for (std::size_t j = 0; j < n; j++)
      s += m->Curvature_Gauge_G2H2[a][b][k][j] * v[j];
    return Cx(s);
  };
  power_sums(derivative ? "gauge-mass-derivatives" : "gauge-masses-are-the-eigenvalues", m->GaugeMassesSquared(v, T, d), ng, g, derivative ? &dg : nullptr);
  if (k < 0) return;
  for (int q = 0; q < 2; q++)
  {
    auto &Y        = q ? m->Curvature_Quark_F2H1 : m->Curvature_Lepton_F2H1;
    std::size_t nf = q ? m->NQuarks : m->NLepton;
    std::vector<std::vector<Cx>> F(nf, std::vector<Cx>(nf, Cx(0))), A = F, D = F;
    for (std::size_t a = 0; a < nf; a++)
      for (std::size_t b = 0; b < nf; b++)
        for (std::size_t l = 0; l < n; l++)
          F[a][b] += Y[a][b][l] * v[l];
    for (std::size_t a = 0; a < nf; a++)
      for (std::size_t b = 0; b < nf; b++)
        for (std::size_t c = 0; c < nf; c++)
        {
          A[a][b] += std::conj(F[c][a]) * F[c][b];
          D[a][b] += std::conj(F[c][a]) * Y[c][b][k] + std::conj(Y[c][a][k]) * F[c][b];
        }
    Entry ea = [&](std::size_t i, std::size_t j) { return A[i][j]; }, ed = [&](std::size_t i, std::size_t j) { return D[i][j]; };
    const char *name = q ? (derivative ? "quark-mass-derivatives" : "quark-mass-matrix-squared") : (derivative ? "lepton-mass-derivatives" : "lepton-mass-matrix-squared");
    power_sums(name, q ? m->QuarkMassesSquared(v, d) : m->LeptonMassesSquared(v, d), nf, ea, derivative ? &ed : nullptr);
  }
}
} // namespace
#define Y(N, C)                                                               \
  DV_CONTRACT(matrices_##N) { native_masses<C>(false); }                      \
  DV_CONTRACT(derivatives_##N) { native_masses<C>(true); }
DV_CONTRACT(derivative_of_eigenvalues)
{
  Class_SM m(constants());
  const int n = 3;
  Eigen::MatrixXcd A(n, n), D(n, n);
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++)
    {
      std::string s = std::to_string(i) + std::to_string(j);
      Cx a(dv::var("a" + s), i == j ? Real(0) : dv::var("ai" + s)), d(dv::var("d" + s), i == j ? Real(0) : dv::var("di" + s));
      A(i, j) = a, D(i, j) = d;
      A(j, i) = std::conj(a), D(j, i) = std::conj(d);
    }
  // degenerate patterns: shift two or three eigenvalues together
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(A);
  Eigen::VectorXd e = es.eigenvalues();
  int pattern       = dv::choose("pattern", 4);
  e(0) = 1, e(1) = pattern == 1 || pattern == 3 ? 1 : 2.25, e(2) = pattern >= 2 ? e(1) : 3.5;
  A = es.eigenvectors() * e.asDiagonal() * es.eigenvectors().adjoint();
  Vec r    = m.FirstDerivativeOfEigenvalues(A, D);
  double h = 1e-6;
  Eigen::MatrixXcd U = A + h * D, L = A - h * D;
  Eigen::VectorXd up = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd>(U).eigenvalues(), lo = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd>(L).eigenvalues();
  dv::ensure_true("derivative-of-eigenvalues-size", r.size() == 6);
  if (r.size() != 6) return;
  for (int i = 0; i < n; i++)
    dv::ensure_eq("eigenvalue-in-order", r[i], e(i), 1);
  // degenerate levels split upwards in order on one side and downwards on the other
  Vec got(r.begin() + 3, r.end()), want;
  for (int i = 0; i < n; i++)
    want.push_back((up(i) - e(i)) / h);
  (void)lo;
  for (int i = 0; i < n; i++)
    dv::ensure("derivative-is-an-eigenvalue-of-the-block", std::abs(got[i] - want[i]) < 1e-3 * (1 + std::abs(want[i])));
}
#else
#define Y(N, C)                                                               \
  DV_CONTRACT(matrices_##N) { gauge_fermion<C>(); }                           \
  DV_CONTRACT(derivatives_##N) { eigen_derivatives<C>(); }
#endif
#define X(N, C)                                                               \
  DV_CONTRACT(scalar_##N) { scalar<C>(); }                                    \
  Y(N, C)
FOR_MODELS(X)
#ifndef DV_NATIVE
// The derivatives of the eigenvalues are the expectation values of the derivative
// of the matrix in the eigenvectors; within a degenerate eigenspace they are the
// eigenvalues of its restriction to that space. Eigenvalues that are equal up to
// the code's threshold count as degenerate, values below it as zero.
DV_CONTRACT(derivative_of_eigenvalues)
{
  Stub0 m(constants());
  const int n = 3;
  int pattern = dv::choose("pattern", 4); // all distinct, 01 equal, 12 equal, all equal
  int shape   = dv::choose("vectors", 2); // unit vectors, or real ones mixing two directions
  CMat A(n, n), D(n, n);
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++)
    {
      std::string s = std::to_string(i) + std::to_string(j);
      Cx a(dv::var("a" + s), i == j ? Real(0) : dv::var("ai" + s)), d(dv::var("d" + s), i == j ? Real(0) : dv::var("di" + s));
      A(i, j) = a, D(i, j) = d;
      A(j, i) = dv::m::conj(a), D(j, i) = dv::m::conj(d);
    }
  Vec ev{dv::var("e0", 1, 2), dv::var("e1", 2, 3), dv::var("e2", 3, 4)};
  auto apart = [&](int i) { dv::assume(ev[i + 1] - ev[i] > Real(1e-3)); };
  auto equal = [&](int i) { dv::assume(ev[i + 1] >= ev[i]), dv::assume(ev[i + 1] - ev[i] < Real(1e-7)); };
  dv::assume(ev[0] > Real(1e-3));
  bool same[2] = {pattern == 1 || pattern == 3, pattern == 2 || pattern == 3};
  for (int i = 0; i < 2; i++)
    if (same[i])
      equal(i);
    else
      apart(i);
  std::vector<std::vector<Real>> vec(n, std::vector<Real>(n, Real(0)));
  Real c = dv::var("c"), s = dv::var("s");
  for (int i = 0; i < n; i++)
    vec[i][i] = Real(1);
  if (shape == 1) // columns 0 and 2 rotated into each other
  {
    vec[0][0] = c, vec[0][2] = s;
    vec[2][0] = Real(0) - s, vec[2][2] = c;
  }
  auto expect = [&](int a, int b) // <a|D|b>
  {
    Cx r(Real(0), Real(0));
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        r += Cx(vec[a][i] * vec[b][j]) * D(i, j);
    return r;
  };
  struct Seen
  {
    int n;
    std::vector<Cx> m;
    Vec ev;
  };
  std::vector<Seen> seen;
  dv::EigControl::hook = [&](int N, const std::vector<Cx> &M, Vec &e, std::vector<Cx> &V)
  {
    Seen q{N, M, {}};
    for (int i = 0; i < N; i++)
    {
      if (seen.empty()) // eigenvectors are columns: V[row * N + col]
      {
        e[i] = ev[i];
        for (int j = 0; j < N; j++)
          V[j * N + i] = Cx(vec[i][j]);
      }
      else
      {
        e[i] = dv::var("w" + std::to_string(seen.size()) + std::to_string(i), 1, 3);
        dv::assume(e[i] > Real(1e-3));
        for (int j = 0; j < N; j++)
          V[i * N + j] = Cx(Real(i == j));
      }
      q.ev.push_back(e[i]);
    }
    seen.push_back(q);
    return true;
  };
  for (int i = 0; i < n; i++)
    dv::assume(expect(i, i).real() > Real(1e-3));
  Vec r = m.FirstDerivativeOfEigenvalues(A, D);
  dv::ensure_true("derivative-of-eigenvalues-size", r.size() == 2 * (std::size_t)n && !seen.empty());
  if (r.size() != 2 * (std::size_t)n || seen.empty()) return;
  for (int i = 0; i < n; i++)
  {
    dv::ensure_eq("eigenvalue-in-order", r[i], ev[i]);
    for (int j = 0; j < n; j++)
      dv::ensure_eq("eigenvalues-of-the-given-matrix", seen[0].m[i * n + j], A(i, j));
  }
  std::size_t block = 1;
  for (int i = 0; i < n;)
  {
    int last = i;
    while (last < n - 1 && same[last])
      last++;
    if (last == i)
      dv::ensure_eq("derivative-is-the-expectation-value", r[n + i], expect(i, i).real());
    else
    {
      int N = last - i + 1;
      dv::ensure_true("degenerate-block-diagonalised", block < seen.size() && seen[block].n == N);
      if (block >= seen.size() || seen[block].n != N) return;
      for (int a = 0; a < N; a++)
      {
        for (int b = 0; b < N; b++)
          dv::ensure_eq("degenerate-block-is-the-restriction", seen[block].m[a * N + b], expect(i + a, i + b));
        dv::ensure_eq("derivative-is-an-eigenvalue-of-the-block", r[n + i + a], seen[block].ev[a]);
      }
      block++;
    }
    i = last + 1;
  }
}
#endif
