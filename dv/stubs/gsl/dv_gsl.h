// Contracts (trusted) that stand for the GSL functions BSMPT calls.
#pragma once
#include "dv.h"
#ifndef GSL_SUCCESS
enum { GSL_SUCCESS = 0, GSL_FAILURE = -1, GSL_CONTINUE = -2 };
#endif
typedef void gsl_error_handler_t(const char *, const char *, int, int);
inline gsl_error_handler_t *gsl_set_error_handler_off() { return nullptr; }
inline gsl_error_handler_t *gsl_set_error_handler(gsl_error_handler_t *h) { return h; }
struct gsl_function
{
  dv::Real (*function)(dv::Real, void *);
  void *params;
};
struct gsl_integration_workspace { int n; };
inline gsl_integration_workspace *gsl_integration_workspace_alloc(std::size_t)
{
  return new gsl_integration_workspace{0};
}
inline void gsl_integration_workspace_free(gsl_integration_workspace *w) { delete w; }
// result = the integral
inline int gsl_integration_qags(const gsl_function *F, dv::Real a, dv::Real b,
                                dv::Real, dv::Real, std::size_t,
                                gsl_integration_workspace *, dv::Real *res,
                                dv::Real *err)
{
  dv::assumption("GSL contract: gsl_integration_qags returns the integral");
  auto f = F->function;
  auto p = F->params;
  *res   = dv::integral([=](dv::Real x) { return f(x, p); }, a, b);
  *err   = dv::havoc("qags_err");
  return GSL_SUCCESS;
}
// result = the derivative
inline int gsl_deriv_central(const gsl_function *F, dv::Real x, dv::Real,
                             dv::Real *res, dv::Real *err)
{
  dv::assumption("GSL contract: gsl_deriv_central returns the derivative");
  auto f = F->function;
  auto p = F->params;
  *res   = dv::deriv([=](const std::vector<dv::Real> &v) { return f(v[0], p); }, {x}, 0);
  *err   = dv::havoc("deriv_err");
  return GSL_SUCCESS;
}
inline dv::Real gsl_sf_gamma(dv::Real x) { return dv::m::tgamma(x); }
inline dv::Real gsl_sf_fact(unsigned n)
{
  dv::Real r(1);
  for (unsigned i = 2; i <= n; i++) r *= dv::Real((long)i);
  return r;
}
inline dv::Real gsl_sf_doublefact(unsigned n)
{
  dv::Real r(1);
  for (unsigned i = n; i > 1; i -= 2) r *= dv::Real((long)i);
  return r;
}
inline dv::Real gsl_sf_zeta(dv::Real n) { return dv::m::zeta((int)n); }
inline dv::Real gsl_sf_dilog(dv::Real x) { return dv::uf("Li2", {x}); }

struct gsl_vector
{
  std::size_t size;
  std::vector<dv::Real> d;
};
inline gsl_vector *gsl_vector_alloc(std::size_t n) { return new gsl_vector{n, std::vector<dv::Real>(n)}; }
inline void gsl_vector_free(gsl_vector *v) { delete v; }
inline dv::Real gsl_vector_get(const gsl_vector *v, std::size_t i) { return v->d.at(i); }
inline void gsl_vector_set(gsl_vector *v, std::size_t i, dv::Real x) { v->d.at(i) = x; }
inline void gsl_vector_set_all(gsl_vector *v, dv::Real x)
{
  for (auto &e : v->d) e = x;
}
struct gsl_multimin_function
{
  dv::Real (*f)(const gsl_vector *, void *);
  std::size_t n;
  void *params;
};
struct gsl_multimin_fminimizer_type { int t; };
static const gsl_multimin_fminimizer_type *gsl_multimin_fminimizer_nmsimplex2 = nullptr;
struct gsl_multimin_fminimizer
{
  gsl_vector *x;
  dv::Real fval;
  gsl_multimin_function *F;
  int mode, its;
};
inline gsl_multimin_fminimizer *
gsl_multimin_fminimizer_alloc(const gsl_multimin_fminimizer_type *, std::size_t n)
{
  auto *s = new gsl_multimin_fminimizer();
  s->x    = gsl_vector_alloc(n);
  s->mode = dv::choose("simplex_outcome", 3); // converged / error / no convergence
  s->its  = 0;
  return s;
}
inline int gsl_multimin_fminimizer_set(gsl_multimin_fminimizer *s,
                                       gsl_multimin_function *F,
                                       const gsl_vector *x, const gsl_vector *)
{
  s->F    = F;
  s->x->d = x->d;
  s->fval = F->f(s->x, F->params);
  return GSL_SUCCESS;
}
// any number of simplex steps: the best vertex never gets worse
inline int gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer *s)
{
  dv::assumption("GSL contract: the simplex minimiser never worsens its best vertex");
  if (s->mode == 1) return GSL_FAILURE;
  if (s->its++ > 0) return GSL_SUCCESS; // the first call stands for all of them
  for (auto &e : s->x->d) e = dv::havoc("simplex_x");
  dv::Real f = s->F->f(s->x, s->F->params);
  dv::assume(f <= s->fval);
  s->fval = f;
  return GSL_SUCCESS;
}
// the size carries the outcome chosen at allocation
inline dv::Real gsl_multimin_fminimizer_size(const gsl_multimin_fminimizer *s) { return s->mode == 0 ? dv::Real(0) : dv::Real(1000000); }
inline int gsl_multimin_test_size(dv::Real size, dv::Real tol)
{
  return size < tol ? GSL_SUCCESS : GSL_CONTINUE;
}
inline gsl_vector *gsl_multimin_fminimizer_x(const gsl_multimin_fminimizer *s) { return s->x; }
inline dv::Real gsl_multimin_fminimizer_minimum(const gsl_multimin_fminimizer *s) { return s->fval; }
inline void gsl_multimin_fminimizer_free(gsl_multimin_fminimizer *s)
{
  gsl_vector_free(s->x);
  delete s;
}
