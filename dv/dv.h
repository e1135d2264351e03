// dv: symbolic back end of the contract verifier.
//
// The extractor (tools/extract.py) rewrites the real sources of /repo token by
// token so that `double` is dv::Real; compiling the result with g++ makes the
// program text itself compute first-order terms over the reals. Every
// comparison of Reals is a decision: feasible outcomes are enumerated by
// re-executing the contract (dv.cpp), so an obligation recorded with
// dv::ensure* is generated once per feasible path and discharged by the
// polynomial/rational normal form or by SMT.
#pragma once
#ifndef DV_SYMBOLIC
#define DV_SYMBOLIC 1
#endif
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace dv
{
using Id = int32_t;

struct PathEnd // the current path is infeasible / finished: not an std::exception
{
};
struct Unsupported
{
  std::string what;
};

// a formula. Converting it to bool is a decision of the program under proof.
struct Bool
{
  Id id;
  Bool() : id(-1) {}
  explicit Bool(Id i) : id(i) {}
  explicit Bool(bool b);
  operator bool() const;
};

Id mk_int(long long v);
Id mk_double(double v);
Id mk_lit(const char *s);
long long to_integer(Id id); // truncation towards zero

struct Real
{
  Id id;
  Real() : id(0) {} // node 0 is the constant 0
  template <class I,
            typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
  Real(I v) : id(mk_int((long long)v))
  {
  }
  template <class F,
            typename std::enable_if<std::is_floating_point<F>::value,
                                    int>::type = 0,
            int                                = 0>
  Real(F v) : id(mk_double((double)v))
  {
  }
  // a comparison stored in a double: 0 or 1
  template <class B,
            typename std::enable_if<std::is_same<B, Bool>::value, int>::type = 0>
  Real &operator=(const B &b)
  {
    id = (bool)b ? mk_int(1) : 0;
    return *this;
  }
  static Real raw(Id i)
  {
    Real r;
    r.id = i;
    return r;
  }
  template <class I,
            typename std::enable_if<std::is_integral<I>::value &&
                                        !std::is_same<I, bool>::value,
                                    int>::type = 0>
  operator I() const
  {
    return (I)to_integer(id);
  }
  explicit operator bool() const;
  Real &operator+=(const Real &o);
  Real &operator-=(const Real &o);
  Real &operator*=(const Real &o);
  Real &operator/=(const Real &o);
  Real operator-() const;
  Real operator+() const { return *this; }
  Real &operator++();
  Real &operator--();
  Real operator++(int);
  Real operator--(int);
};

inline Real lit(const char *s) { return Real::raw(mk_lit(s)); }
Real undef(); // an uninitialised variable: an arbitrary value

Real add(Real a, Real b);
Real sub(Real a, Real b);
Real mul(Real a, Real b);
Real div(Real a, Real b);
Bool lt(Real a, Real b);
Bool le(Real a, Real b);
Bool eq(Real a, Real b);

#define DV_ARITH                                                              \
  template <class A,                                                          \
            typename std::enable_if<std::is_arithmetic<A>::value, int>::type  \
            = 0>
#define DV_BIN(R, op, expr)                                                   \
  inline R operator op(const Real &a, const Real &b) { return expr; }         \
  DV_ARITH inline R operator op(const Real &a, const A &b_)                   \
  {                                                                           \
    Real b(b_);                                                               \
    return expr;                                                              \
  }                                                                           \
  DV_ARITH inline R operator op(const A &a_, const Real &b)                   \
  {                                                                           \
    Real a(a_);                                                               \
    return expr;                                                              \
  }
Bool Not(Bool a);
DV_BIN(Real, +, add(a, b))
DV_BIN(Real, -, sub(a, b))
DV_BIN(Real, *, mul(a, b))
DV_BIN(Real, /, div(a, b))
DV_BIN(Bool, <, lt(a, b))
DV_BIN(Bool, <=, le(a, b))
DV_BIN(Bool, >, lt(b, a))
DV_BIN(Bool, >=, le(b, a))
DV_BIN(Bool, ==, eq(a, b))
DV_BIN(Bool, !=, Not(eq(a, b)))

// formula connectives for specifications (never fork)
Bool And(Bool a, Bool b);
Bool Or(Bool a, Bool b);
inline Bool Implies(Bool a, Bool b) { return Or(Not(a), b); }
Bool Iff(Bool a, Bool b);
Real Ite(Bool c, Real a, Real b);
inline Bool And(Bool a, Bool b, Bool c) { return And(And(a, b), c); }
inline Bool And(Bool a, Bool b, Bool c, Bool d)
{
  return And(And(a, b), And(c, d));
}
inline Bool Or(Bool a, Bool b, Bool c) { return Or(Or(a, b), c); }

std::string str(Real a);
std::ostream &operator<<(std::ostream &os, const Real &r);
std::istream &operator>>(std::istream &is, Real &r);
std::ostream &operator<<(std::ostream &os, const Bool &r);

Real parse(const std::string &s, std::size_t *pos = nullptr);

// uninterpreted application (congruent in its arguments)
Real uf(const std::string &name, const std::vector<Real> &args);
bool is_const(Real r);
Real PI();

Real pown(Real a, long long n);
} // namespace dv

// std::complex of terms: the generic library operators, with the implicit
// conversions std::complex<double> has
namespace std
{
template <> class complex<dv::Real>
{
public:
  using value_type = dv::Real;
  dv::Real re, im;
  complex() {}
  complex(const dv::Real &r) : re(r) {}
  complex(const dv::Real &r, const dv::Real &i) : re(r), im(i) {}
  template <class A,
            typename std::enable_if<std::is_arithmetic<A>::value, int>::type = 0>
  complex(A r) : re(r)
  {
  }
  template <class A>
  complex(const std::complex<A> &o) : re(dv::Real(o.real())), im(dv::Real(o.imag()))
  {
  }
  complex(const complex &) = default;
  complex &operator=(const complex &) = default;
  dv::Real real() const { return re; }
  dv::Real imag() const { return im; }
  void real(const dv::Real &r) { re = r; }
  void imag(const dv::Real &r) { im = r; }
  complex &operator+=(const dv::Real &r)
  {
    re = re + r;
    return *this;
  }
  complex &operator-=(const dv::Real &r)
  {
    re = re - r;
    return *this;
  }
  complex &operator*=(const dv::Real &r)
  {
    re = re * r;
    im = im * r;
    return *this;
  }
  complex &operator/=(const dv::Real &r)
  {
    re = re / r;
    im = im / r;
    return *this;
  }
  complex &operator+=(const complex &o)
  {
    re = re + o.re;
    im = im + o.im;
    return *this;
  }
  complex &operator-=(const complex &o)
  {
    re = re - o.re;
    im = im - o.im;
    return *this;
  }
  complex &operator*=(const complex &o)
  {
    dv::Real a = re * o.re - im * o.im, b = re * o.im + im * o.re;
    re = a;
    im = b;
    return *this;
  }
  complex &operator/=(const complex &o)
  {
    if (dv::is_const(o.im) && o.im.id == 0) return *this /= o.re;
    dv::Real n = o.re * o.re + o.im * o.im;
    dv::Real a = (re * o.re + im * o.im) / n, b = (im * o.re - re * o.im) / n;
    re = a;
    im = b;
    return *this;
  }
};
} // namespace std
namespace dv
{
namespace m
{
#define DV_FN1(f)                                                             \
  Real f(const Real &a);                                                      \
  DV_ARITH inline Real f(const A &a) { return f(Real(a)); }
DV_FN1(sqrt)
DV_FN1(cbrt)
DV_FN1(exp)
DV_FN1(log)
DV_FN1(log10)
DV_FN1(log2)
DV_FN1(sin)
DV_FN1(cos)
DV_FN1(tan)
DV_FN1(asin)
DV_FN1(acos)
DV_FN1(atan)
DV_FN1(sinh)
DV_FN1(cosh)
DV_FN1(tanh)
DV_FN1(fabs)
DV_FN1(floor)
DV_FN1(ceil)
DV_FN1(round)
DV_FN1(tgamma)
Real zeta(int n);
Real abs(const Real &a);
inline int abs(int a) { return std::abs(a); }
inline long abs(long a) { return std::labs(a); }
inline Real abs(double a) { return abs(Real(a)); }
Real pow(const Real &a, const Real &b);
DV_ARITH inline Real pow(const Real &a, const A &b) { return pow(a, Real(b)); }
DV_ARITH inline Real pow(const A &a, const Real &b) { return pow(Real(a), b); }
template <class A,
          class B,
          typename std::enable_if<std::is_arithmetic<A>::value &&
                                      std::is_arithmetic<B>::value,
                                  int>::type = 0>
inline Real pow(const A &a, const B &b)
{
  return pow(Real(a), Real(b));
}
Real atan2(const Real &a, const Real &b);
Real hypot(const Real &a, const Real &b);
Real fmod(const Real &a, const Real &b);
inline bool isnan(const Real &) { return false; }
inline bool isinf(const Real &) { return false; }
inline bool isfinite(const Real &) { return true; }
inline Real fmax(const Real &a, const Real &b) { return a < b ? b : a; }
inline Real fmin(const Real &a, const Real &b) { return b < a ? b : a; }
inline long lround(const Real &a) { return (long)round(a); }
Real random01(); // an arbitrary value in [0,1)
template <class R, std::size_t N, class G> inline R generate_canonical(G &)
{
  return random01();
}

using Cx = std::complex<Real>;
inline Real abs(const Cx &z) { return sqrt(z.real() * z.real() + z.imag() * z.imag()); }
inline Real norm(const Cx &z) { return z.real() * z.real() + z.imag() * z.imag(); }
inline Real real(const Cx &z) { return z.real(); }
inline Real imag(const Cx &z) { return z.imag(); }
inline Real real(const Real &z) { return z; }
inline Real imag(const Real &) { return Real(0); }
inline Real arg(const Cx &z) { return atan2(z.imag(), z.real()); }
inline Cx conj(const Cx &z) { return Cx(z.real(), -z.imag()); }
Cx exp(const Cx &z);
Cx sqrt(const Cx &z);
Cx pow(const Cx &z, int n);
Cx log(const Cx &z);

template <class T> inline std::string to_string(const T &t)
{
  return std::to_string(t);
}
inline std::string to_string(const Real &r) { return dv::str(r); }
inline Real stod(const std::string &s, std::size_t *p = nullptr)
{
  return dv::parse(s, p);
}
} // namespace m
// found by ADL from unqualified calls in code we do not rewrite (Eigen)
using m::abs;
using m::acos;
using m::asin;
using m::atan;
using m::ceil;
using m::cos;
using m::exp;
using m::floor;
using m::isfinite;
using m::isinf;
using m::isnan;
using m::log;
using m::pow;
using m::round;
using m::sin;
using m::sqrt;
using m::tan;
inline Real abs2(const Real &x) { return x * x; }
inline Real conj(const Real &x) { return x; }
inline Real real(const Real &x) { return x; }
inline Real imag(const Real &) { return Real(0); }

// ---------------------------------------------------------------- contracts
struct Contract
{
  const char *name;
  void (*fn)();
  Contract(const char *n, void (*f)());
};
#define DV_CONTRACT(name)                                                     \
  static void dv_contract_##name();                                           \
  static dv::Contract dv_reg_##name(#name, dv_contract_##name);               \
  static void dv_contract_##name()

// inputs. The range is only where the native replay samples; it is assumed in
// the proof only by the pos/nonneg/in variants.
Real var(const std::string &name, double lo = -3, double hi = 3);
Real pos(const std::string &name, double lo = 0.1, double hi = 3);
Real nonneg(const std::string &name, double lo = 0.1, double hi = 3);
Real in(const std::string &name, double lo, double hi); // lo < x < hi assumed
int choose(const std::string &name, int n);             // enumerates 0..n-1
Real havoc(const std::string &name); // internal nondeterminism, not an input
void assume(Bool b);                 // a precondition / callee postcondition
inline void assume(bool b) { assume(Bool(b)); }
void assumption(const std::string &text); // recorded in the evidence
void ensure(const std::string &name, Bool b);
inline void ensure(const std::string &name, bool b) { ensure(name, Bool(b)); }
// a == b; `size` is the magnitude the native replay compares the error with
void ensure_eq(const std::string &name, Real a, Real b, Real size = Real(0));
void ensure_eq(const std::string &name,
               const std::complex<Real> &a,
               const std::complex<Real> &b,
               Real size = Real(0));
void ensure_true(const std::string &name, bool b); // concrete facts
void cover(const std::string &name);
Real diff(Real e, Real x); // symbolic derivative
bool feasible(Bool b);     // b consistent with the path (no fork)
bool valid(Bool b);        // b entailed by the path (no obligation)
// hint: sqrt() returns c whenever c>=0 and c^2==argument are proved
void sqrt_hint(Real c);
// d/dx_i f(xs)
Real deriv(const std::function<Real(const std::vector<Real> &)> &f,
           const std::vector<Real> &xs,
           std::size_t i);
Real deriv1(const std::function<Real(Real)> &f, Real x);
// the definite integral of f over [a,b] (same term for the same integrand)
Real integral(const std::function<Real(Real)> &f, Real a, Real b);
// coefficient normal form printed, for debugging
std::string nf(Real e);
bool identical(Real a, Real b); // equal by normal form
void note(const std::string &s);
Real approx_native(double x); // symbolic: exact rational of a double
bool is_native();
// number of paths explored so far for this contract
// obligation "f() does not throw"; returns true when it completed
bool no_throw(const std::string &name, const std::function<void()> &f);
bool throws(const std::function<void()> &f); // did it throw a std::exception?
int run(int argc, char **argv);

// a thread body runs when the thread is created
struct InlineThread
{
  struct id
  {
  };
  InlineThread() {}
  template <class F, class... A> explicit InlineThread(F &&f, A &&...a)
  {
    std::invoke(std::forward<F>(f), std::forward<A>(a)...);
  }
  void join() {}
  bool joinable() const { return false; }
  void detach() {}
  static unsigned hardware_concurrency() { return 1; }
};

// loop cut: see tools/extract.py
struct CutVar
{
  const char *name;
  std::function<void()> havoc;
  std::function<std::vector<Real>()> reals;
  void *addr;
  char kind;
};
} // namespace dv

namespace std
{
template <> struct numeric_limits<dv::Real>
{
  static constexpr bool is_specialized    = true;
  static constexpr bool is_signed         = true;
  static constexpr bool is_integer        = false;
  static constexpr bool is_exact          = true;
  static constexpr bool has_infinity      = false;
  static constexpr bool has_quiet_NaN     = false;
  static constexpr bool has_signaling_NaN = false;
  static constexpr int digits             = 53;
  static constexpr int digits10           = 15;
  static constexpr int max_digits10       = 17;
  static dv::Real epsilon() { return dv::lit("2.220446049250313e-16"); }
  static dv::Real min() { return dv::lit("2.2250738585072014e-308"); }
  static dv::Real max() { return dv::lit("1.7976931348623157e308"); }
  static dv::Real lowest() { return dv::lit("-1.7976931348623157e308"); }
  static dv::Real infinity() { return dv::lit("1e400"); }
  static dv::Real quiet_NaN() { return dv::undef(); }
};
template <> struct hash<dv::Real>
{
  size_t operator()(const dv::Real &r) const { return r.id; }
};
} // namespace std

#include <Eigen/Core>
namespace Eigen
{
template <> struct NumTraits<dv::Real> : GenericNumTraits<dv::Real>
{
  typedef dv::Real Real;
  typedef dv::Real NonInteger;
  typedef dv::Real Nested;
  typedef dv::Real Literal;
  enum
  {
    IsComplex             = 0,
    IsInteger             = 0,
    IsSigned              = 1,
    RequireInitialization = 1,
    ReadCost              = 1,
    AddCost               = 3,
    MulCost               = 3
  };
  static Real epsilon() { return std::numeric_limits<Real>::epsilon(); }
  static Real dummy_precision() { return dv::lit("1e-12"); }
  static Real highest() { return std::numeric_limits<Real>::max(); }
  static Real lowest() { return std::numeric_limits<Real>::lowest(); }
  static int digits10() { return 15; }
};
} // namespace Eigen
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
namespace Eigen
{
typedef Matrix<dv::Real, Dynamic, Dynamic> MatrixXr;
typedef Matrix<dv::Real, Dynamic, 1> VectorXr;
typedef Matrix<dv::Real, 1, Dynamic> RowVectorXr;
typedef Matrix<std::complex<dv::Real>, Dynamic, Dynamic> MatrixXcr;
typedef Matrix<std::complex<dv::Real>, Dynamic, 1> VectorXcr;
typedef Matrix<dv::Real, 3, 3> Matrix3r;
typedef Matrix<dv::Real, 2, 2> Matrix2r;
typedef Matrix<dv::Real, 3, 1> Vector3r;
typedef Matrix<dv::Real, 2, 1> Vector2r;
} // namespace Eigen

namespace dv
{
// Trusted contract of the Eigen eigensolvers on Hermitian input. `Mode` is set
// by the contract that uses it.
//   ascending eigenvalues; sum = trace; sum of squares = ||M||_F^2;
//   eigenvectors: orthonormal and M v_i = lambda_i v_i (assumed on demand).
struct EigControl
{
  // optional override: given the matrix (row major, real parts then imaginary
  // parts if complex) return the eigenvalues
  static std::function<bool(int n,
                            const std::vector<std::complex<Real>> &m,
                            std::vector<Real> &ev,
                            std::vector<std::complex<Real>> &vec)>
      hook;
  static void solve(int n,
                    const std::vector<std::complex<Real>> &m,
                    std::vector<Real> &ev,
                    std::vector<std::complex<Real>> &vec);
};
template <class M> class SelfAdjointEigenSolver
{
public:
  using Scalar = typename M::Scalar;
  Eigen::VectorXr vals;
  M vecs;
  SelfAdjointEigenSolver() {}
  template <class D>
  SelfAdjointEigenSolver(const Eigen::MatrixBase<D> &x, int = 0)
  {
    compute(x);
  }
  template <class D>
  SelfAdjointEigenSolver &compute(const Eigen::MatrixBase<D> &x_, int = 0)
  {
    M x   = x_;
    int n = (int)x.rows();
    std::vector<std::complex<Real>> in(n * n), vc(n * n);
    std::vector<Real> ev(n);
    // only the lower triangular part is referenced by the real solver
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        in[i * n + j] = (j <= i) ? std::complex<Real>(x(i, j))
                                 : m::conj(std::complex<Real>(x(j, i)));
    EigControl::solve(n, in, ev, vc);
    vals.resize(n);
    vecs.resize(n, n);
    for (int i = 0; i < n; i++)
    {
      vals(i) = ev[i];
      for (int j = 0; j < n; j++)
        set(vecs(i, j), vc[i * n + j]);
    }
    return *this;
  }
  const Eigen::VectorXr &eigenvalues() const { return vals; }
  const M &eigenvectors() const { return vecs; }
  int info() const { return 0; }

private:
  static void set(Real &a, const std::complex<Real> &b) { a = b.real(); }
  static void set(std::complex<Real> &a, const std::complex<Real> &b) { a = b; }
};
template <class M> class ComplexEigenSolver
{
public:
  Eigen::VectorXcr vals;
  ComplexEigenSolver() {}
  template <class D>
  ComplexEigenSolver(const Eigen::MatrixBase<D> &x_, bool = true)
  {
    M x   = x_;
    int n = (int)x.rows();
    std::vector<std::complex<Real>> in(n * n), vc(n * n);
    std::vector<Real> ev(n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        in[i * n + j] = x(i, j);
    EigControl::solve(n, in, ev, vc);
    vals.resize(n);
    for (int i = 0; i < n; i++)
      vals(i) = std::complex<Real>(ev[i]);
  }
  const Eigen::VectorXcr &eigenvalues() const { return vals; }
};
} // namespace dv
