// dv, native side: the same contract source compiled against the unmodified
// sources of /repo, with dv::Real = double, to replay a counterexample.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
#define private public
#define protected public
namespace Eigen
{
typedef MatrixXd MatrixXr;
typedef VectorXd VectorXr;
typedef MatrixXcd MatrixXcr;
typedef VectorXcd VectorXcr;
} // namespace Eigen
namespace dv
{
using Real = double;
using Bool = bool;
struct PathEnd
{
};
struct Skip
{
};
inline bool And(bool a, bool b) { return a && b; }
inline bool Or(bool a, bool b) { return a || b; }
inline bool And(bool a, bool b, bool c) { return a && b && c; }
inline bool Or(bool a, bool b, bool c) { return a || b || c; }
inline bool And(bool a, bool b, bool c, bool d) { return a && b && c && d; }
inline bool Not(bool a) { return !a; }
inline bool Implies(bool a, bool b) { return !a || b; }
inline bool Iff(bool a, bool b) { return a == b; }
inline Real Ite(bool c, Real a, Real b) { return c ? a : b; }
inline Real lit(const char *s) { return strtod(s, nullptr); }
inline Real PI() { return M_PI; }
inline Real pown(Real a, long long n) { return std::pow(a, (double)n); }
inline std::string str(Real a)
{
  std::ostringstream o;
  o.precision(17);
  o << a;
  return o.str();
}
namespace m
{
using std::abs;
using std::acos;
using std::asin;
using std::atan;
using std::cbrt;
using std::ceil;
using std::conj;
using std::cos;
using std::cosh;
using std::exp;
using std::floor;
using std::log;
using std::log10;
using std::norm;
using std::pow;
using std::sin;
using std::sinh;
using std::sqrt;
using std::tan;
using std::tanh;
using std::tgamma;
double zeta(int n);
} // namespace m
struct Contract
{
  const char *name;
  void (*fn)();
  Contract(const char *n, void (*f)());
};
#define DV_CONTRACT(name)                                                     \
  static void dv_contract_##name();                                           \
  static dv::Contract dv_reg_##name(#name, dv_contract_##name);               \
  static void dv_contract_##name()
Real var(const std::string &name, double lo = -3, double hi = 3);
Real pos(const std::string &name, double lo = 0.1, double hi = 3);
Real nonneg(const std::string &name, double lo = 0.1, double hi = 3);
Real in(const std::string &name, double lo, double hi);
int choose(const std::string &name, int n);
Real havoc(const std::string &name);
inline Real undef() { return havoc("undef"); }
void assume(bool b);
inline void assumption(const std::string &) {}
void ensure(const std::string &name, bool b);
void ensure_eq(const std::string &name, Real a, Real b, Real size = 0);
void ensure_eq(const std::string &name,
               const std::complex<Real> &a,
               const std::complex<Real> &b,
               Real size = 0);
inline void ensure_true(const std::string &name, bool b) { ensure(name, b); }
inline void cover(const std::string &) {}
inline bool feasible(bool b) { return b; }
inline bool valid(bool b) { return b; }
inline void sqrt_hint(Real) {}
Real deriv(const std::function<Real(const std::vector<Real> &)> &f,
           const std::vector<Real> &xs,
           std::size_t i);
Real deriv1(const std::function<Real(Real)> &f, Real x);
Real integral(const std::function<Real(Real)> &f, Real a, Real b);
inline bool identical(Real a, Real b)
{
  return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b));
}
inline bool is_const(Real) { return true; }
inline std::string nf(Real a) { return str(a); }
inline void note(const std::string &) {}
inline bool is_native() { return true; }
bool no_throw(const std::string &name, const std::function<void()> &f);
bool throws(const std::function<void()> &f);
} // namespace dv
