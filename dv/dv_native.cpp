// Replay driver: runs one contract against the real, unmodified code with
// concrete inputs (the solver's model first, then seeded samples).
#include "dv_native.h"
#undef private
#undef protected
#include <gsl/gsl_errno.h>
#include <signal.h>
#include <unistd.h>
namespace dv
{
static std::vector<Contract *> &reg()
{
  static std::vector<Contract *> r;
  return r;
}
Contract::Contract(const char *n, void (*f)()) : name(n), fn(f) { reg().push_back(this); }
static std::map<std::string, double> MODEL;
static bool use_model = false;
static std::mt19937_64 RNG;
static std::vector<std::pair<std::string, double>> INPUTS;
static std::map<std::string, int> CNT;
struct Fail
{
  std::string name, detail;
};
static std::vector<Fail> FAILS;
static long checks = 0;
static bool derived = false; // a numerical derivative entered this run

static Real get(const std::string &n0, double lo, double hi)
{
  std::string n = n0;
  int k         = CNT[n]++;
  if (k) n += "#" + std::to_string(k);
  double v;
  auto it = MODEL.find(n);
  if (use_model && it != MODEL.end())
    v = it->second;
  else
    v = lo + (hi - lo) * std::generate_canonical<double, 53>(RNG);
  INPUTS.push_back({n, v});
  return v;
}
Real var(const std::string &n, double lo, double hi) { return get(n, lo, hi); }
Real pos(const std::string &n, double lo, double hi)
{
  Real r = get(n, lo, hi);
  if (!(r > 0)) throw Skip();
  return r;
}
Real nonneg(const std::string &n, double lo, double hi)
{
  Real r = get(n, lo, hi);
  if (!(r >= 0)) throw Skip();
  return r;
}
Real in(const std::string &n, double lo, double hi)
{
  Real r = get(n, lo, hi);
  if (!(r > lo && r < hi)) throw Skip();
  return r;
}
int choose(const std::string &n, int k)
{
  auto it = MODEL.find(n);
  int v;
  if (use_model && it != MODEL.end())
    v = (int)it->second;
  else
    v = (int)(RNG() % k);
  INPUTS.push_back({n, (double)v});
  return v;
}
Real havoc(const std::string &n)
{
  // an intermediate the contract leaves open has no concrete counterpart
  (void)n;
  throw Skip();
}
void assume(bool b)
{
  if (!b) throw Skip();
}
void ensure(const std::string &name, bool b)
{
  checks++;
  if (!b) FAILS.push_back({name, "false"});
}
void ensure_eq(const std::string &name, Real a, Real b, Real size)
{
  checks++;
  double s = std::max({std::abs(a), std::abs(b), std::abs(size)});
  bool ok  = std::abs(a - b) <= (derived ? 2e-5 : 1e-6) * s + (derived ? 1e-9 : 1e-13);
  if (std::isnan(a) && std::isnan(b)) ok = true;
  if (!ok)
  {
    std::ostringstream o;
    o.precision(12);
    o << a << " != " << b;
    FAILS.push_back({name, o.str()});
  }
}
void ensure_eq(const std::string &name,
               const std::complex<Real> &a,
               const std::complex<Real> &b,
               Real size)
{
  double s = std::max({std::abs(a), std::abs(b), std::abs(size)});
  ensure_eq(name, a.real(), b.real(), s);
  ensure_eq(name, a.imag(), b.imag(), s);
}
Real deriv(const std::function<Real(const std::vector<Real> &)> &f,
           const std::vector<Real> &xs,
           std::size_t i)
{
  // seven-point central stencil: truncation (h/x)^6, rounding 1e-16/(h/x)
  derived  = true;
  double h = 4e-3 * std::max(1.0, std::abs(xs[i]));
  auto at  = [&](double d)
  {
    auto y = xs;
    y[i] += d;
    return f(y);
  };
  double d1 = at(h) - at(-h), d2 = at(2 * h) - at(-2 * h), d3 = at(3 * h) - at(-3 * h);
  return (45 * d1 - 9 * d2 + d3) / (60 * h);
}
Real deriv1(const std::function<Real(Real)> &f, Real x)
{
  return deriv([&](const std::vector<Real> &v) { return f(v[0]); }, {x}, 0);
}
Real integral(const std::function<Real(Real)> &f, Real a, Real b)
{
  int n    = 2000;
  double h = (b - a) / n, s = 0;
  for (int i = 0; i < n; i++)
  {
    // 3-point Gauss-Legendre per panel
    double c = a + (i + 0.5) * h, r = std::sqrt(0.6) * h / 2;
    s += h / 18 * (5 * f(c - r) + 8 * f(c) + 5 * f(c + r));
  }
  return s;
}
namespace m
{
double zeta(int n)
{
  double s = 0;
  int K    = 20000;
  for (int k = K; k >= 1; k--)
    s += std::pow((double)k, -n);
  return s + std::pow((double)K, 1 - n) / (n - 1) - 0.5 * std::pow((double)K, -n);
}
} // namespace m
bool no_throw(const std::string &name, const std::function<void()> &f)
{
  try
  {
    f();
  }
  catch (std::exception &e)
  {
    FAILS.push_back({name, std::string("exception: ") + e.what()});
    return false;
  }
  catch (Skip &)
  {
    throw;
  }
  catch (...)
  {
    FAILS.push_back({name, "exception of a foreign type"});
    return false;
  }
  return true;
}
bool throws(const std::function<void()> &f)
{
  try
  {
    f();
  }
  catch (std::exception &)
  {
    return true;
  }
  return false;
}
static FILE *out;
static void report(const char *cname, const char *how)
{
  fprintf(out, "contract %s\nsource %s\n", cname, how);
  for (auto &i : INPUTS)
    fprintf(out, "input %s %.17g\n", i.first.c_str(), i.second);
  for (auto &f : FAILS)
    fprintf(out, "violated %s : %s\n", f.name.c_str(), f.detail.c_str());
  fflush(out);
}
static std::string g_c, g_how;
static void on_signal(int s)
{
  FAILS.push_back({"no-undefined-behaviour", "signal " + std::to_string(s)});
  report(g_c.c_str(), g_how.c_str());
  _exit(1);
}
static int run(int argc, char **argv)
{
  std::string contract, model, only;
  long trials = 200, seed = 1;
  out = stdout;
  double budget = 60;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--model")
      model = argv[++i];
    else if (a == "--trials")
      trials = atol(argv[++i]);
    else if (a == "--seed")
      seed = atol(argv[++i]);
    else if (a == "--budget")
      budget = atof(argv[++i]);
    else if (a == "--out")
      out = fopen(argv[++i], "w");
    else if (a == "--list")
    {
      for (auto *c : reg())
        puts(c->name);
      return 0;
    }
    else
      contract = a;
  }
  // as the library's own drivers do: a quadrature that misses its tolerance
  // must not end the process
  gsl_set_error_handler_off();
  for (int s : {SIGSEGV, SIGABRT, SIGFPE})
    signal(s, on_signal);
  if (!model.empty())
  {
    std::ifstream f(model);
    std::string n;
    double v;
    while (f >> n >> v)
      MODEL[n] = v;
  }
  auto t0 = std::chrono::steady_clock::now();
  for (auto *c : reg())
  {
    if (c->name != contract) continue;
    long done = 0, tried = 0;
    for (long t = 0; done < trials && tried < 20 * trials; t++, tried++)
    {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
      use_model = t == 0 && !MODEL.empty();
      RNG.seed(seed * 1000003 + t);
      INPUTS.clear();
      CNT.clear();
      derived = false;
      FAILS.clear();
      g_c   = c->name;
      g_how = use_model ? "solver model" : "sample " + std::to_string(t);
      try
      {
        c->fn();
      }
      catch (Skip &)
      {
        if (FAILS.empty()) continue;
      }
      catch (std::exception &e)
      {
        FAILS.push_back({"no-unexpected-exception", e.what()});
      }
      catch (...)
      {
        FAILS.push_back({"no-unexpected-exception", "foreign exception"});
      }
      done++;
      if (!FAILS.empty())
      {
        report(c->name, g_how.c_str());
        return 1;
      }
    }
    fprintf(out, "none after %ld trials, %ld checks\n", done, checks);
    fflush(out);
  }
  return 0;
}
} // namespace dv
int main(int argc, char **argv)
{
  int r = dv::run(argc, argv);
  fflush(stdout);
  _exit(r);
}
