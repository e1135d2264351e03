// dv engine: term graph, normal forms, path exploration, SMT back ends.
#include "dv.h"
#include <setjmp.h>

#include <gmpxx.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3++.h>

#include <cstdio>
#include <cstdlib>

namespace dv
{
std::function<bool(int,
                   const std::vector<std::complex<Real>> &,
                   std::vector<Real> &,
                   std::vector<std::complex<Real>> &)>
    EigControl::hook;

namespace
{
enum Op : uint8_t
{
  CONST,
  VAR,
  ADD,
  MUL,
  DIV,
  POWI,
  APP,
  ITE,
  // booleans
  TRUE_,
  FALSE_,
  LT,
  LE,
  EQ,
  AND,
  OR,
  NOT
};
struct Node
{
  Op op;
  Id a, b, c;
  int aux;
};
struct AppInfo
{
  std::string name;
  std::vector<Id> args;
};

struct KeyHash
{
  size_t operator()(const std::array<int64_t, 4> &k) const
  {
    uint64_t h = 1469598103934665603ull;
    for (auto x : k)
    {
      h ^= (uint64_t)x;
      h *= 1099511628211ull;
      h ^= h >> 29;
    }
    return h;
  }
};

std::vector<Node> N;
std::unordered_map<std::array<int64_t, 4>, Id, KeyHash> HC;
std::vector<mpq_class> CV;
std::unordered_map<std::string, Id> CIDX;
std::vector<std::string> VN;
std::unordered_map<std::string, Id> VIDX;
std::vector<AppInfo> APPS;
std::map<std::pair<std::string, std::vector<Id>>, Id> APPIDX;
std::unordered_map<std::string, Id> LITIDX;
std::unordered_map<long long, Id> INTIDX;

Id hc(Op op, Id a, Id b, Id c = 0, int aux = 0)
{
  std::array<int64_t, 4> k{(int64_t)op,
                           ((int64_t)a << 32) ^ (uint32_t)b,
                           (int64_t)c,
                           (int64_t)aux};
  auto it = HC.find(k);
  if (it != HC.end()) return it->second;
  Id id = (Id)N.size();
  N.push_back({op, a, b, c, aux});
  HC.emplace(k, id);
  return id;
}

Id mk_q(const mpq_class &q)
{
  std::string s = q.get_str();
  auto it       = CIDX.find(s);
  if (it != CIDX.end()) return it->second;
  CV.push_back(q);
  Id id = (Id)N.size();
  N.push_back({CONST, 0, 0, 0, (int)CV.size() - 1});
  CIDX[s] = id;
  return id;
}
inline bool isc(Id i)
{
  if (i < 0 || i >= (Id)N.size())
    throw Unsupported{"invalid term (uninitialised memory read)"};
  return N[i].op == CONST;
}
inline const mpq_class &cval(Id i) { return CV[N[i].aux]; }
Id ID_TRUE, ID_FALSE;

mpq_class parse_q(const char *s0)
{
  std::string s;
  for (const char *p = s0; *p; ++p)
    if (*p != '\'' && *p != 'f' && *p != 'F' && *p != 'l' && *p != 'L')
      s += *p;
  bool neg = false;
  size_t i = 0;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  std::string digits;
  long exp10 = 0;
  bool dot   = false;
  for (; i < s.size(); ++i)
  {
    if (isdigit((unsigned char)s[i]))
    {
      digits += s[i];
      if (dot) exp10--;
    }
    else if (s[i] == '.')
      dot = true;
    else
      break;
  }
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    exp10 += strtol(s.c_str() + i + 1, nullptr, 10);
  mpz_class z(digits.empty() ? "0" : digits, 10);
  mpz_class p;
  mpz_ui_pow_ui(p.get_mpz_t(), 10, labs(exp10));
  mpq_class q = exp10 >= 0 ? mpq_class(z * p) : mpq_class(z, p);
  q.canonicalize();
  return neg ? mpq_class(-q) : q;
}

// ------------------------------------------------------------- normal forms
using Mono = std::vector<std::pair<int, int>>; // (atom, exponent>0), sorted
struct MonoHash
{
  size_t operator()(const Mono &m) const
  {
    uint64_t h = 88172645463325252ull;
    for (auto &p : m)
    {
      h ^= ((uint64_t)p.first << 20) ^ (uint64_t)p.second;
      h *= 0x9E3779B97F4A7C15ull;
      h ^= h >> 31;
    }
    return h;
  }
};
std::vector<Mono> MONOS;
std::unordered_map<Mono, int, MonoHash> MONOIDX;
std::unordered_map<uint64_t, int> MONOMUL;
int mono(const Mono &m)
{
  auto it = MONOIDX.find(m);
  if (it != MONOIDX.end()) return it->second;
  MONOS.push_back(m);
  MONOIDX[m] = (int)MONOS.size() - 1;
  return (int)MONOS.size() - 1;
}
int mono_mul(int a, int b)
{
  if (a == 0) return b;
  if (b == 0) return a;
  if (a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | (uint32_t)b;
  auto it    = MONOMUL.find(k);
  if (it != MONOMUL.end()) return it->second;
  Mono r;
  {
    const Mono &x = MONOS[a], &y = MONOS[b];
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size())
    {
      if (j == y.size() || (i < x.size() && x[i].first < y[j].first))
        r.push_back(x[i++]);
      else if (i == x.size() || y[j].first < x[i].first)
        r.push_back(y[j++]);
      else
      {
        r.push_back({x[i].first, x[i].second + y[j].second});
        i++;
        j++;
      }
    }
  }
  int id     = mono(r);
  MONOMUL[k] = id;
  return id;
}

using Poly = std::vector<std::pair<int, mpq_class>>; // sorted by mono id
struct Acc
{
  std::unordered_map<int, mpq_class> m;
  void add(int mo, const mpq_class &c)
  {
    auto r = m.emplace(mo, c);
    if (!r.second) r.first->second += c;
  }
  void add(const Poly &p, const mpq_class &c)
  {
    for (auto &t : p)
      add(t.first, t.second * c);
  }
  Poly get() const
  {
    Poly p;
    for (auto &t : m)
      if (t.second != 0) p.push_back(t);
    std::sort(p.begin(),
              p.end(),
              [](auto &a, auto &b) { return a.first < b.first; });
    return p;
  }
};
Poly pconst(const mpq_class &c)
{
  if (c == 0) return {};
  return {{0, c}};
}
Poly padd(const Poly &a, const Poly &b, const mpq_class &cb = 1)
{
  Poly r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size())
  {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
      r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first)
    {
      r.push_back({b[j].first, b[j].second * cb});
      j++;
    }
    else
    {
      mpq_class c = a[i].second + b[j].second * cb;
      if (c != 0) r.push_back({a[i].first, c});
      i++;
      j++;
    }
  }
  return r;
}
size_t g_max_terms = 4000000;
Poly pmul(const Poly &a, const Poly &b)
{
  if (a.empty() || b.empty()) return {};
  if (a.size() == 1 && a[0].first == 0)
  {
    Poly r = b;
    for (auto &t : r)
      t.second *= a[0].second;
    return r;
  }
  if (b.size() == 1 && b[0].first == 0) return pmul(b, a);
  if (a.size() * b.size() > g_max_terms * 10)
    throw Unsupported{"normal form too large"};
  Acc acc;
  for (auto &x : a)
    for (auto &y : b)
      acc.add(mono_mul(x.first, y.first), x.second * y.second);
  return acc.get();
}
bool pis_const(const Poly &p, mpq_class *c = nullptr)
{
  if (p.empty())
  {
    if (c) *c = 0;
    return true;
  }
  if (p.size() == 1 && p[0].first == 0)
  {
    if (c) *c = p[0].second;
    return true;
  }
  return false;
}
// interned polys for denominators
std::vector<Poly> POLYS;
std::map<std::string, int> POLYIDX;
std::string pkey(const Poly &p)
{
  std::string s;
  for (auto &t : p)
  {
    s += std::to_string(t.first);
    s += ':';
    s += t.second.get_str();
    s += ';';
  }
  return s;
}
int poly_intern(const Poly &p)
{
  std::string k = pkey(p);
  auto it       = POLYIDX.find(k);
  if (it != POLYIDX.end()) return it->second;
  POLYS.push_back(p);
  POLYIDX[k] = (int)POLYS.size() - 1;
  return (int)POLYS.size() - 1;
}

struct Frac
{
  Poly num;
  std::map<int, int> den; // interned poly -> exponent
};
struct Atom
{
  std::string name; // "" for a plain node
  Id node;          // representative node
  int rootq;        // root degree, else 0
  std::vector<std::string> argkeys;
  std::shared_ptr<Frac> radicand;
};
std::vector<Atom> ATOMS;
std::unordered_map<std::string, int> ATOMIDX;
std::unordered_map<Id, std::shared_ptr<Frac>> NFM;

std::string fkey(const Frac &f)
{
  std::string s = pkey(f.num) + "/";
  for (auto &d : f.den)
    s += std::to_string(d.first) + "^" + std::to_string(d.second) + ",";
  return s;
}
Poly patom(int at) { return {{mono({{at, 1}}), mpq_class(1)}}; }

Poly ppow(const Poly &p, int n)
{
  Poly r = pconst(1), b = p;
  while (n)
  {
    if (n & 1) r = pmul(r, b);
    n >>= 1;
    if (n) b = pmul(b, b);
  }
  return r;
}
// exact multivariate division a / b (lexicographic on monomial vectors)
bool mono_less(int a, int b)
{
  // compare as exponent vectors: degree-lex
  auto deg = [](const Mono &m)
  {
    int d = 0;
    for (auto &p : m)
      d += p.second;
    return d;
  };
  const Mono &x = MONOS[a], &y = MONOS[b];
  int dx = deg(x), dy = deg(y);
  if (dx != dy) return dx < dy;
  size_t i = 0;
  for (; i < x.size() && i < y.size(); i++)
  {
    if (x[i].first != y[i].first) return x[i].first > y[i].first;
    if (x[i].second != y[i].second) return x[i].second < y[i].second;
  }
  return x.size() < y.size();
}
bool mono_divide(int a, int b, int &q)
{
  const Mono &x = MONOS[a], &y = MONOS[b];
  Mono r;
  size_t i = 0, j = 0;
  while (i < x.size() || j < y.size())
  {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first))
      r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first)
      return false;
    else
    {
      int e = x[i].second - y[j].second;
      if (e < 0) return false;
      if (e > 0) r.push_back({x[i].first, e});
      i++;
      j++;
    }
  }
  q = mono(r);
  return true;
}
bool pdivide(const Poly &a, const Poly &b, Poly &quot)
{
  if (b.empty()) return false;
  auto lead = [](const Poly &p)
  {
    size_t k = 0;
    for (size_t i = 1; i < p.size(); i++)
      if (mono_less(p[k].first, p[i].first)) k = i;
    return k;
  };
  size_t lb  = lead(b);
  Poly r     = a;
  Acc q;
  int steps = 0;
  while (!r.empty())
  {
    if (++steps > 20000) return false;
    size_t lr = lead(r);
    int qm;
    if (!mono_divide(r[lr].first, b[lb].first, qm)) return false;
    mpq_class c = r[lr].second / b[lb].second;
    q.add(qm, c);
    Poly t = pmul(b, Poly{{qm, c}});
    r      = padd(r, t, -1);
  }
  quot = q.get();
  return true;
}
void cancel(Frac &f)
{
  if (f.num.empty())
  {
    f.den.clear();
    return;
  }
  for (auto it = f.den.begin(); it != f.den.end();)
  {
    const Poly &d = POLYS[it->first];
    if (d.size() == 1)
    {
      int at = MONOS[d[0].first][0].first;
      int mn = it->second;
      for (auto &t : f.num)
      {
        int e = 0;
        for (auto &p : MONOS[t.first])
          if (p.first == at) e = p.second;
        mn = std::min(mn, e);
        if (!mn) break;
      }
      if (mn)
      {
        Poly n;
        for (auto &t : f.num)
        {
          Mono m2;
          for (auto &p : MONOS[t.first])
          {
            int e = p.second - (p.first == at ? mn : 0);
            if (e) m2.push_back({p.first, e});
          }
          n.push_back({mono(m2), t.second});
        }
        std::sort(n.begin(),
                  n.end(),
                  [](auto &a, auto &b) { return a.first < b.first; });
        f.num = n;
        it->second -= mn;
      }
    }
    else
    {
      while (it->second > 0 && f.num.size() >= d.size() && f.num.size() < 400)
      {
        Poly q;
        if (!pdivide(f.num, d, q)) break;
        f.num = q;
        it->second--;
      }
    }
    if (it->second == 0)
      it = f.den.erase(it);
    else
      ++it;
  }
}
Frac fmul(const Frac &a, const Frac &b)
{
  Frac r;
  r.num = pmul(a.num, b.num);
  r.den = a.den;
  for (auto &d : b.den)
    r.den[d.first] += d.second;
  if (!r.den.empty()) cancel(r);
  return r;
}
Frac finv(const Frac &a)
{
  if (a.num.empty()) throw Unsupported{"division by the constant zero"};
  Frac r;
  // new numerator: product of denominators
  Poly n = pconst(1);
  for (auto &d : a.den)
    n = pmul(n, ppow(POLYS[d.first], d.second));
  // denominators: a.num, made monic; single monomials split into atoms
  if (a.num.size() == 1)
  {
    mpq_class c = a.num[0].second;
    for (auto &p : MONOS[a.num[0].first])
      r.den[poly_intern(patom(p.first))] += p.second;
    r.num = pmul(n, pconst(1 / c));
  }
  else
  {
    // pull out the common monomial
    Mono common = MONOS[a.num[0].first];
    for (auto &t : a.num)
    {
      Mono nc;
      const Mono &m2 = MONOS[t.first];
      for (auto &p : common)
        for (auto &q : m2)
          if (q.first == p.first)
            nc.push_back({p.first, std::min(p.second, q.second)});
      common = nc;
      if (common.empty()) break;
    }
    Poly rest   = a.num;
    int cm      = mono(common);
    mpq_class c = a.num[0].second;
    for (auto &t : rest)
    {
      int q = t.first;
      if (cm) mono_divide(t.first, cm, q);
      t.first = q;
      t.second /= c;
    }
    std::sort(rest.begin(),
              rest.end(),
              [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &p : common)
      r.den[poly_intern(patom(p.first))] += p.second;
    r.den[poly_intern(rest)] += 1;
    r.num = pmul(n, pconst(1 / c));
  }
  cancel(r);
  return r;
}
// sum of fractions with coefficients
Frac fsum(const std::vector<std::pair<std::shared_ptr<Frac>, mpq_class>> &v)
{
  std::map<int, int> lcm;
  for (auto &x : v)
    for (auto &d : x.first->den)
      lcm[d.first] = std::max(lcm[d.first], d.second);
  Acc acc;
  std::map<std::string, Poly> cache;
  for (auto &x : v)
  {
    if (lcm.empty())
    {
      acc.add(x.first->num, x.second);
      continue;
    }
    std::string key;
    std::map<int, int> miss;
    for (auto &d : lcm)
    {
      auto it = x.first->den.find(d.first);
      int e   = d.second - (it == x.first->den.end() ? 0 : it->second);
      if (e)
      {
        miss[d.first] = e;
        key += std::to_string(d.first) + "^" + std::to_string(e) + ",";
      }
    }
    auto it = cache.find(key);
    if (it == cache.end())
    {
      Poly p = pconst(1);
      for (auto &d : miss)
        p = pmul(p, ppow(POLYS[d.first], d.second));
      it = cache.emplace(key, p).first;
    }
    acc.add(pmul(x.first->num, it->second), x.second);
  }
  Frac r;
  r.num = acc.get();
  r.den = lcm;
  if (!r.den.empty()) cancel(r);
  return r;
}

int get_atom(const std::string &key, const Atom &a)
{
  auto it = ATOMIDX.find(key);
  if (it != ATOMIDX.end()) return it->second;
  ATOMS.push_back(a);
  ATOMIDX[key] = (int)ATOMS.size() - 1;
  return (int)ATOMS.size() - 1;
}

// replace root atoms raised to their degree by the radicand
Frac reduce_roots(Frac f)
{
  for (int guard = 0; guard < 60; guard++)
  {
    int at = -1;
    for (auto &t : f.num)
    {
      for (auto &p : MONOS[t.first])
        if (ATOMS[p.first].rootq && p.second >= ATOMS[p.first].rootq &&
            p.first > at)
          at = p.first;
    }
    if (at < 0) return f;
    int q = ATOMS[at].rootq;
    // split by power of radicand
    std::map<int, Acc> parts;
    for (auto &t : f.num)
    {
      int k = 0;
      Mono m2;
      for (auto &p : MONOS[t.first])
      {
        if (p.first == at)
        {
          k     = p.second / q;
          int e = p.second % q;
          if (e) m2.push_back({p.first, e});
        }
        else
          m2.push_back(p);
      }
      parts[k].add(mono(m2), t.second);
    }
    std::vector<std::pair<std::shared_ptr<Frac>, mpq_class>> sum;
    Frac rk;
    rk.num   = pconst(1);
    int have = 0;
    for (auto &p : parts)
    {
      while (have < p.first)
      {
        rk = fmul(rk, *ATOMS[at].radicand);
        have++;
      }
      Frac x;
      x.num = p.second.get();
      sum.push_back({std::make_shared<Frac>(fmul(x, rk)), mpq_class(1)});
    }
    Frac s = fsum(sum);
    for (auto &d : f.den)
      s.den[d.first] += d.second;
    cancel(s);
    f = s;
  }
  return f;
}

std::shared_ptr<Frac> normal(Id id);

std::shared_ptr<Frac> normal_app(Id id)
{
  const AppInfo &ai = APPS[N[id].aux];
  Atom a;
  a.name          = ai.name;
  a.node          = id;
  a.rootq         = 0;
  std::string key = ai.name + "(";
  for (size_t i = 0; i < ai.args.size(); i++)
  {
    auto f = std::make_shared<Frac>(reduce_roots(*normal(ai.args[i])));
    a.argkeys.push_back(fkey(*f));
    key += a.argkeys.back() + "|";
    if (i == 0 && ai.name.rfind("root", 0) == 0)
    {
      a.rootq    = atoi(ai.name.c_str() + 4);
      a.radicand = f;
    }
  }
  if (ai.name == "sin")
  {
    // sin^2 = 1 - cos^2
    a.rootq    = 2;
    a.radicand = normal(sub(Real(1), mul(uf("cos", {Real::raw(ai.args[0])}), uf("cos", {Real::raw(ai.args[0])}))).id);
  }
  auto r = std::make_shared<Frac>();
  r->num = patom(get_atom(key, a));
  return r;
}

std::shared_ptr<Frac> normal(Id id)
{
  auto it = NFM.find(id);
  if (it != NFM.end()) return it->second;
  std::shared_ptr<Frac> r;
  const Node n = N[id];
  switch (n.op)
  {
  case CONST:
    r      = std::make_shared<Frac>();
    r->num = pconst(cval(id));
    break;
  case VAR:
  {
    Atom a;
    a.node  = id;
    a.rootq = 0;
    r       = std::make_shared<Frac>();
    r->num  = patom(get_atom("v" + std::to_string(id), a));
    break;
  }
  case ITE:
  {
    Atom a;
    a.node  = id;
    a.rootq = 0;
    r       = std::make_shared<Frac>();
    r->num  = patom(get_atom("i" + std::to_string(id), a));
    break;
  }
  case ADD:
  {
    // flatten iteratively
    std::unordered_map<Id, mpq_class> leaf;
    std::vector<Id> order;
    std::vector<std::pair<Id, mpq_class>> st{{id, mpq_class(1)}};
    while (!st.empty())
    {
      auto cur = st.back();
      st.pop_back();
      Node c = N[cur.first];
      if (c.op == ADD && (cur.first == id || !NFM.count(cur.first)))
      {
        st.push_back({c.a, cur.second});
        st.push_back({c.b, cur.second});
      }
      else if (c.op == MUL && isc(c.a))
        st.push_back({c.b, cur.second * cval(c.a)});
      else if (c.op == MUL && isc(c.b))
        st.push_back({c.a, cur.second * cval(c.b)});
      else
      {
        auto e = leaf.emplace(cur.first, cur.second);
        if (!e.second)
          e.first->second += cur.second;
        else
          order.push_back(cur.first);
      }
    }
    std::vector<std::pair<std::shared_ptr<Frac>, mpq_class>> v;
    for (Id l : order)
      if (leaf[l] != 0) v.push_back({normal(l), leaf[l]});
    r = std::make_shared<Frac>(fsum(v));
    break;
  }
  case MUL: r = std::make_shared<Frac>(fmul(*normal(n.a), *normal(n.b))); break;
  case DIV:
    r = std::make_shared<Frac>(fmul(*normal(n.a), finv(reduce_roots(*normal(n.b)))));
    break;
  case POWI:
  {
    auto b = normal(n.a);
    r      = std::make_shared<Frac>();
    r->num = ppow(b->num, n.aux);
    for (auto &d : b->den)
      r->den[d.first] = d.second * n.aux;
    break;
  }
  case APP: r = normal_app(id); break;
  default: throw Unsupported{"normal form of a formula"};
  }
  NFM[id] = r;
  return r;
}

// ------------------------------------------------------------------ explorer
struct Obl
{
  std::string name;
  int paths = 0, proved = 0, failed = 0, unknown = 0;
  std::map<std::string, int> backend;
  double ms = 0;
  std::string detail;
  std::map<std::string, double> model;
};
struct ContractResult
{
  std::map<std::string, Obl> obl;
  std::vector<std::string> order;
  std::set<std::string> assumptions;
  std::map<std::string, long> covers;
  std::vector<std::string> notes;
  long paths = 0, infeasible = 0, forks = 0, queries = 0;
  double solver_ms = 0;
  std::string error;
} R;

struct Input
{
  std::string name;
  Id id;
};
std::vector<Input> INPUTS;
std::unordered_map<std::string, int> FRESH;

std::vector<char> PREFIX, DECS; // decisions: value
std::vector<std::vector<char>> WORK;
std::vector<Id> PC;
std::unordered_map<Id, bool> KNOWN;
std::unordered_map<Id, int> SIGN; // var node -> 1 (>0), 2 (>=0)
std::vector<std::pair<std::string, std::string>> TRACE;
std::vector<Real> HINTS;

int g_timeout_ms   = 8000;
int g_fork_timeout = 3000;
long g_max_paths   = 20000;
int g_max_fail     = 12;
bool g_verbose     = false;
FILE *g_out        = stdout;
bool g_native_cex  = true;

z3::context *ZC = nullptr;
z3::solver *ZS  = nullptr; // incremental solver with the path condition
std::unordered_map<Id, z3::expr> *ZM = nullptr;
std::vector<Id> ZAPPS;           // apps translated so far on this path
std::unordered_set<Id> ZAPPSEEN;
std::vector<z3::expr> ZAX; // pending axioms

z3::expr zreal(const mpq_class &q)
{
  return ZC->real_val(q.get_str().c_str());
}
void zaxioms(Id id, const z3::expr &e);
z3::expr tr(Id id)
{
  auto it = ZM->find(id);
  if (it != ZM->end()) return it->second;
  // iterative post-order to survive long chains
  std::vector<Id> st{id};
  while (!st.empty())
  {
    Id cur = st.back();
    if (ZM->count(cur))
    {
      st.pop_back();
      continue;
    }
    Node n = N[cur];
    std::vector<Id> ch;
    switch (n.op)
    {
    case ADD:
    case MUL:
    case DIV:
    case LT:
    case LE:
    case EQ:
    case AND:
    case OR: ch = {n.a, n.b}; break;
    case POWI:
    case NOT: ch = {n.a}; break;
    case ITE: ch = {n.a, n.b, n.c}; break;
    case APP: ch = APPS[n.aux].args; break;
    default: break;
    }
    bool ready = true;
    for (Id c : ch)
      if (!ZM->count(c))
      {
        st.push_back(c);
        ready = false;
      }
    if (!ready) continue;
    st.pop_back();
    auto g = [&](Id c) -> z3::expr & { return ZM->find(c)->second; };
    z3::expr e(*ZC);
    bool isapp = false;
    switch (n.op)
    {
    case CONST: e = zreal(cval(cur)); break;
    case VAR:
      e = ZC->real_const((VN[n.aux] + "!" + std::to_string(cur)).c_str());
      if (SIGN.count(cur)) ZAX.push_back(SIGN[cur] == 1 ? e > 0 : e >= 0);
      break;
    case ADD: e = g(n.a) + g(n.b); break;
    case MUL: e = g(n.a) * g(n.b); break;
    case DIV:
    {
      if (isc(n.b))
        e = g(n.a) / g(n.b);
      else
      {
        // q with q*b = a  (definedness assumption b != 0)
        e = ZC->real_const(("div!" + std::to_string(cur)).c_str());
        ZAX.push_back(g(n.b) * e == g(n.a));
        ZAX.push_back(g(n.b) != 0);
      }
      break;
    }
    case POWI:
    {
      e = g(n.a);
      for (int i = 1; i < n.aux; i++)
        e = e * g(n.a);
      break;
    }
    case APP:
      e     = ZC->real_const((APPS[n.aux].name + "!" + std::to_string(cur)).c_str());
      isapp = true;
      break;
    case ITE: e = z3::ite(g(n.a), g(n.b), g(n.c)); break;
    case TRUE_: e = ZC->bool_val(true); break;
    case FALSE_: e = ZC->bool_val(false); break;
    case LT: e = g(n.a) < g(n.b); break;
    case LE: e = g(n.a) <= g(n.b); break;
    case EQ: e = g(n.a) == g(n.b); break;
    case AND: e = g(n.a) && g(n.b); break;
    case OR: e = g(n.a) || g(n.b); break;
    case NOT: e = !g(n.a); break;
    }
    ZM->emplace(cur, e);
    if (isapp) zaxioms(cur, e);
  }
  return ZM->find(id)->second;
}

void zaxioms(Id id, const z3::expr &e)
{
  const AppInfo &a = APPS[N[id].aux];
  auto arg         = [&](size_t i) { return ZM->find(a.args[i])->second; };
  const auto &nm   = a.name;
  if (nm.rfind("root", 0) == 0)
  {
    int q      = atoi(nm.c_str() + 4);
    z3::expr p = e;
    for (int i = 1; i < q; i++)
      p = p * e;
    ZAX.push_back(e >= 0);
    ZAX.push_back(p == arg(0));
  }
  else if (nm == "exp")
  {
    ZAX.push_back(e > 0);
    ZAX.push_back(e >= 1 + arg(0));
    ZAX.push_back(z3::implies(arg(0) < 0, e < 1));
    ZAX.push_back(z3::implies(arg(0) > 0, e > 1));
  }
  else if (nm == "log")
  {
    ZAX.push_back(arg(0) > 0);
    ZAX.push_back(e <= arg(0) - 1);
    ZAX.push_back(z3::implies(arg(0) > 1, e > 0));
    ZAX.push_back(z3::implies(arg(0) < 1, e < 0));
    ZAX.push_back(z3::implies(arg(0) == 1, e == 0));
  }
  else if (nm == "sin" || nm == "cos" || nm == "tanh")
  {
    ZAX.push_back(e <= 1);
    ZAX.push_back(e >= -1);
  }
  else if (nm == "pow")
  {
    ZAX.push_back(z3::implies(arg(0) > 0, e > 0));
  }
  else if (nm == "atan")
  {
    ZAX.push_back(z3::implies(arg(0) > 0, e > 0));
    ZAX.push_back(z3::implies(arg(0) < 0, e < 0));
    ZAX.push_back(z3::implies(arg(0) == 0, e == 0));
  }
  bool mono = nm == "exp" || nm == "log" || nm == "atan" || nm == "tanh";
  if (nm.rfind("root", 0) != 0)
    for (Id o : ZAPPS)
    {
      const AppInfo &b = APPS[N[o].aux];
      if (b.name != nm || b.args.size() != a.args.size()) continue;
      z3::expr same = ZC->bool_val(true);
      for (size_t i = 0; i < a.args.size(); i++)
        if (a.args[i] != b.args[i])
          same = same && (arg(i) == ZM->find(b.args[i])->second);
      z3::expr f = ZM->find(o)->second;
      ZAX.push_back(z3::implies(same, e == f));
      if (mono)
      {
        z3::expr y = ZM->find(b.args[0])->second;
        ZAX.push_back(z3::implies(arg(0) < y, e < f));
        ZAX.push_back(z3::implies(y < arg(0), f < e));
      }
      if (nm == "exp")
        ; // homomorphism handled at construction
    }
  if ((nm == "sin" || nm == "cos"))
  {
    const char *other = nm == "sin" ? "cos" : "sin";
    for (Id o : ZAPPS)
      if (APPS[N[o].aux].name == other && APPS[N[o].aux].args == a.args)
      {
        z3::expr f = ZM->find(o)->second;
        ZAX.push_back(e * e + f * f == 1);
      }
  }
  ZAPPS.push_back(id);
}

void solver_reset()
{
  delete ZM;
  delete ZS;
  ZM = new std::unordered_map<Id, z3::expr>();
  ZS = new z3::solver(*ZC);
  ZAPPS.clear();
  ZAPPSEEN.clear();
  ZAX.clear();
}
void flush_axioms()
{
  for (auto &a : ZAX)
    ZS->add(a);
  ZAX.clear();
}
struct Timer
{
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double ms() const
  {
    return std::chrono::duration<double, std::milli>(
               std::chrono::steady_clock::now() - t0)
        .count();
  }
};

// 1 sat, 0 unsat, -1 unknown
int check_with(Id b, int timeout, z3::model *mod = nullptr)
{
  Timer t;
  R.queries++;
  z3::expr e = tr(b);
  flush_axioms();
  z3::params p(*ZC);
  p.set("timeout", (unsigned)timeout);
  ZS->set(p);
  ZS->push();
  ZS->add(e);
  int r = -1;
  try
  {
    auto c = ZS->check();
    r      = c == z3::sat ? 1 : c == z3::unsat ? 0 : -1;
    if (r == 1 && mod) *mod = ZS->get_model();
  }
  catch (z3::exception &ex)
  {
    r = -1;
  }
  ZS->pop();
  R.solver_ms += t.ms();
  return r;
}
int check_nra(Id b, int timeout, z3::model *mod)
{
  Timer t;
  R.queries++;
  int r = -1;
  try
  {
    z3::solver s(*ZC, "QF_NRA");
    z3::params p(*ZC);
    p.set("timeout", (unsigned)timeout);
    s.set(p);
    z3::expr e = tr(b);
    flush_axioms();
    for (auto a : ZS->assertions())
      s.add(a);
    s.add(e);
    auto c = s.check();
    r      = c == z3::sat ? 1 : c == z3::unsat ? 0 : -1;
    if (r == 1 && mod) *mod = s.get_model();
  }
  catch (z3::exception &ex)
  {
    r = -1;
  }
  R.solver_ms += t.ms();
  return r;
}
// external solvers on an SMT-LIB file: only "unsat" is used
int check_external(Id b, int timeout, std::string &which)
{
  Timer t;
  z3::expr e = tr(b);
  flush_axioms();
  z3::solver s(*ZC);
  for (auto a : ZS->assertions())
    s.add(a);
  s.add(e);
  char fn[] = "/tmp/dvqXXXXXX";
  int fd    = mkstemp(fn);
  if (fd < 0) return -1;
  std::string txt = "(set-logic QF_NRA)\n" + s.to_smt2();
  if (write(fd, txt.data(), txt.size()) < 0)
  {
  }
  close(fd);
  int res = -1;
  for (std::string cmd : {std::string("z3-new -T:"), std::string("cvc5 --tlimit=")})
  {
    std::string c = cmd +
                    (cmd[0] == 'z' ? std::to_string(timeout / 1000 + 1)
                                   : std::to_string(timeout)) +
                    " " + fn + " 2>/dev/null";
    FILE *p = popen(c.c_str(), "r");
    if (!p) continue;
    char buf[256] = {0};
    std::string out;
    while (fgets(buf, sizeof buf, p))
      out += buf;
    pclose(p);
    R.queries++;
    if (out.rfind("unsat", 0) == 0)
    {
      res   = 0;
      which = cmd.substr(0, cmd.find(' '));
      break;
    }
    if (out.rfind("sat", 0) == 0)
    {
      res   = 1;
      which = cmd.substr(0, cmd.find(' '));
      break;
    }
  }
  unlink(fn);
  R.solver_ms += t.ms();
  return res;
}

Id mk_not(Id b);
} // namespace
Real root_of(Real a, int q);
namespace
{
// quick sign: 1 pos, -1 neg, 0 zero, 2 nonneg, -2 nonpos, 9 unknown
int atom_sign(int at)
{
  const Atom &a = ATOMS[at];
  auto it       = SIGN.find(a.node);
  if (it != SIGN.end()) return it->second;
  if (a.rootq && a.name != "sin") return 2;
  if (a.name == "exp") return 1;
  return 9;
}
int poly_sign(const Poly &p)
{
  if (p.empty()) return 0;
  bool strict = false;
  int sg      = 0;
  for (auto &t : p)
  {
    int s     = sgn(t.second);
    bool zero = false; // can the monomial vanish?
    for (auto &q : MONOS[t.first])
    {
      int as = atom_sign(q.first);
      if (as == 1) continue;
      if (as == 2)
      {
        zero = true;
        continue;
      }
      if (q.second % 2 == 0)
      {
        zero = true;
        continue;
      }
      return 9;
    }
    if (sg == 0)
      sg = s;
    else if (sg != s)
      return 9;
    if (!zero) strict = true;
  }
  return strict ? sg : 2 * sg;
}
// Linear facts learnt on the path: a term u in normal form (leading coefficient
// one, no constant part) and the interval it is known to lie in.
struct Fact
{
  bool hl = false, hu = false, sl = false, su = false;
  mpq_class lo, hi;
};
std::unordered_map<std::string, Fact> FACTS;
// f = c + lead * u
bool fact_canon(const Frac &f, std::string &key, mpq_class &lead, mpq_class &c)
{
  Poly den = pconst(1);
  for (auto &d : f.den)
  {
    const Poly dp = POLYS[d.first];
    for (int i = 0; i < d.second; i++)
    {
      if (den.size() * dp.size() > 20000) return false;
      den = pmul(den, dp);
    }
  }
  if (den.empty()) return false;
  c = 0;
  for (auto &t : f.num)
    if (t.first == den[0].first) c = t.second / den[0].second;
  Poly q = c == 0 ? f.num : padd(f.num, den, -c);
  if (q.empty()) return false;
  lead = q[0].second;
  for (auto &t : q)
    t.second /= lead;
  key = pkey(q);
  for (auto &d : f.den)
    key += "/" + std::to_string(d.first) + "^" + std::to_string(d.second);
  return true;
}
// 0 < d (strict) or 0 <= d is known
void fact_learn(Id d, bool strict)
{
  if (isc(d)) return;
  try
  {
    auto f = normal(d);
    std::string key;
    mpq_class lead, c;
    if (f->num.size() > 5000 || !fact_canon(*f, key, lead, c)) return;
    // u > -c/lead  or  u < -c/lead
    mpq_class b = -c / lead;
    Fact &x     = FACTS[key];
    if (lead > 0)
    {
      if (!x.hl || b > x.lo || (b == x.lo && strict))
      {
        x.sl = strict;
        x.lo = b;
      }
      x.hl = true;
    }
    else
    {
      if (!x.hu || b < x.hi || (b == x.hi && strict))
      {
        x.su = strict;
        x.hi = b;
      }
      x.hu = true;
    }
  }
  catch (Unsupported &)
  {
  }
}
int fact_sign(const Frac &f)
{
  if (FACTS.empty()) return 9;
  std::string key;
  mpq_class lead, c;
  if (f.num.size() > 5000 || !fact_canon(f, key, lead, c)) return 9;
  auto it = FACTS.find(key);
  if (it == FACTS.end()) return 9;
  const Fact &x = it->second;
  // range of c + lead * u
  bool hl = lead > 0 ? x.hl : x.hu, hu = lead > 0 ? x.hu : x.hl;
  bool sl = lead > 0 ? x.sl : x.su, su = lead > 0 ? x.su : x.sl;
  mpq_class lo = c + lead * (lead > 0 ? x.lo : x.hi), hi = c + lead * (lead > 0 ? x.hi : x.lo);
  if (hl && (lo > 0 || (lo == 0 && sl))) return 1;
  if (hu && (hi < 0 || (hi == 0 && su))) return -1;
  if (hl && lo == 0 && hu && hi == 0) return 0;
  if (hl && lo == 0) return 2;
  if (hu && hi == 0) return -2;
  return 9;
}

// ---- intervals: a term over constants, pi and bounded nodes, evaluated with
// outward rounding (long double, elementary functions widened by 1e-16)
struct Bound
{
  long double lo = -INFINITY, hi = INFINITY;
  bool sl = false, sh = false; // strict
};
std::unordered_map<Id, Bound> VB;
using LD = long double;
struct IV
{
  LD lo = -INFINITY, hi = INFINITY;
};
LD dn(LD x, LD r = 4e-19L) { return std::isfinite(x) ? x - fabsl(x) * r - 1e-4000L : x; }
LD up(LD x, LD r = 4e-19L) { return std::isfinite(x) ? x + fabsl(x) * r + 1e-4000L : x; }
IV ivq(const mpq_class &q)
{
  // numerator and denominator scaled to 80 bits
  IV r;
  mpz_class n = q.get_num(), d = q.get_den();
  long ln = mpz_sizeinbase(n.get_mpz_t(), 2), ld = mpz_sizeinbase(d.get_mpz_t(), 2);
  long sh = 80 - (ln - ld);
  mpz_class x;
  if (sh >= 0)
    x = n << sh;
  else
  {
    x = n;
    d <<= -sh;
  }
  mpz_class t;
  mpz_fdiv_q(t.get_mpz_t(), x.get_mpz_t(), d.get_mpz_t());
  // t has about 80 bits: split
  bool neg     = t < 0;
  mpz_class at = ::abs(t);
  mpz_class hi = at >> 40, lo = at & ((mpz_class(1) << 40) - 1);
  LD v = ldexpl((LD)hi.get_d(), 40) + (LD)lo.get_d();
  if (neg) v = -v;
  v    = ldexpl(v, (int)-sh);
  r.lo = dn(v, 1e-18L);
  r.hi = up(v, 1e-18L);
  if (q == 0) r.lo = r.hi = 0;
  return r;
}
IV ivmul(IV a, IV b)
{
  auto m = [](LD x, LD y) { return x == 0 || y == 0 ? (LD)0 : x * y; };
  LD p[4] = {m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi)};
  IV r;
  r.lo = r.hi = p[0];
  for (int i = 1; i < 4; i++)
  {
    r.lo = std::min(r.lo, p[i]);
    r.hi = std::max(r.hi, p[i]);
  }
  r.lo = dn(r.lo);
  r.hi = up(r.hi);
  return r;
}
IV ivinv(IV a)
{
  IV r;
  if (a.lo > 0 || a.hi < 0)
  {
    r.lo = dn(1 / a.hi);
    r.hi = up(1 / a.lo);
  }
  else if (a.lo == 0 && a.hi > 0)
    r.lo = dn(1 / a.hi);
  else if (a.hi == 0 && a.lo < 0)
    r.hi = up(1 / a.lo);
  return r;
}
IV ivpow(IV a, int n)
{
  if (n < 0) return ivinv(ivpow(a, -n));
  IV r;
  if (n % 2 == 1)
  {
    r.lo = dn(powl(a.lo, n), 1e-17L);
    r.hi = up(powl(a.hi, n), 1e-17L);
  }
  else
  {
    LD x = powl(a.lo, n), y = powl(a.hi, n);
    r.hi = up(std::max(x, y), 1e-17L);
    r.lo = a.lo <= 0 && a.hi >= 0 ? 0 : dn(std::min(x, y), 1e-17L);
  }
  return r;
}
std::unordered_map<Id, IV> IVMEMO;
int iv_budget = 0;
IV iveval(Id id)
{
  if (isc(id)) return ivq(cval(id));
  auto it = IVMEMO.find(id);
  if (it != IVMEMO.end()) return it->second;
  if (--iv_budget < 0) return IV();
  Node n = N[id];
  IV r;
  const LD W = 1e-16L;
  switch (n.op)
  {
  case VAR:
  {
    auto pi = VIDX.find("pi");
    if (pi != VIDX.end() && pi->second == id)
    {
      r.lo = 3.14159265358979323844L;
      r.hi = 3.14159265358979323848L;
    }
    break;
  }
  case ADD:
  {
    IV a = iveval(n.a), b = iveval(n.b);
    r.lo = dn(a.lo + b.lo);
    r.hi = up(a.hi + b.hi);
    break;
  }
  case MUL: r = n.a == n.b ? ivpow(iveval(n.a), 2) : ivmul(iveval(n.a), iveval(n.b)); break;
  case DIV: r = ivmul(iveval(n.a), ivinv(iveval(n.b))); break;
  case POWI: r = ivpow(iveval(n.a), n.aux); break;
  case ITE:
  {
    IV a = iveval(n.b), b = iveval(n.c);
    r.lo = std::min(a.lo, b.lo);
    r.hi = std::max(a.hi, b.hi);
    break;
  }
  case APP:
  {
    const std::string nm     = APPS[n.aux].name;
    const std::vector<Id> as = APPS[n.aux].args;
    auto mono1 = [&](LD (*f)(LD), IV a)
    {
      r.lo = dn(f(a.lo), W);
      r.hi = up(f(a.hi), W);
    };
    if (nm.rfind("root", 0) == 0)
    {
      IV a = iveval(as[0]);
      int q = atoi(nm.c_str() + 4);
      r.lo  = 0;
      if (a.lo > 0) r.lo = dn(powl(a.lo, 1.0L / q), W);
      if (a.hi >= 0) r.hi = up(powl(a.hi, 1.0L / q), W);
    }
    else if (nm == "zeta" && isc(as[0]) && cval(as[0]) >= 2)
    {
      // partial sum and integral test
      int z = (int)cval(as[0]).get_d();
      LD sum = 0;
      int K  = 2000;
      for (int k = K; k >= 1; k--)
        sum += powl((LD)k, -z);
      r.lo = sum + powl((LD)K + 1, 1 - z) / (z - 1) - 1e-15L;
      r.hi = sum + powl((LD)K, 1 - z) / (z - 1) + 1e-15L;
    }
    else if (nm == "exp")
    {
      mono1(expl, iveval(as[0]));
      if (r.lo < 0 || std::isnan(r.lo)) r.lo = 0;
    }
    else if (nm == "log")
    {
      IV a = iveval(as[0]);
      if (a.lo > 0)
      {
        r.lo = logl(a.lo);
        r.hi = logl(a.hi);
        r.lo -= fabsl(r.lo) * W + 1e-18L;
        r.hi += fabsl(r.hi) * W + 1e-18L;
      }
    }
    else if (nm == "sin" || nm == "cos")
    {
      IV a = iveval(as[0]);
      r.lo = -1;
      r.hi = 1;
      LD w = a.hi - a.lo;
      if (std::isfinite(w) && w < 1e-3L && fabsl(a.lo) < 1e6L)
      {
        LD v = nm == "sin" ? sinl(a.lo) : cosl(a.lo);
        r.lo = std::max(r.lo, v - w - 1e-16L);
        r.hi = std::min(r.hi, v + w + 1e-16L);
      }
    }
    else if (nm == "atan")
      mono1(atanl, iveval(as[0]));
    else if (nm == "tanh")
      mono1(tanhl, iveval(as[0]));
    else if (nm == "log10" || nm == "log2")
    {
      IV a = iveval(as[0]);
      if (a.lo > 0) mono1(nm == "log10" ? (LD(*)(LD))log10l : (LD(*)(LD))log2l, a);
    }
    else if (nm == "pow")
    {
      IV a = iveval(as[0]), b = iveval(as[1]);
      if (a.lo > 0)
      {
        IV l;
        l.lo = logl(a.lo);
        l.hi = logl(a.hi);
        l.lo -= fabsl(l.lo) * W + 1e-18L;
        l.hi += fabsl(l.hi) * W + 1e-18L;
        IV p = ivmul(l, b);
        r.lo = dn(expl(p.lo), 1e-15L);
        r.hi = up(expl(p.hi), 1e-15L);
      }
    }
    break;
  }
  default: break;
  }
  if (std::isnan(r.lo)) r.lo = -INFINITY;
  if (std::isnan(r.hi)) r.hi = INFINITY;
  auto b = VB.find(id);
  if (b != VB.end())
  {
    r.lo = std::max(r.lo, b->second.lo);
    r.hi = std::min(r.hi, b->second.hi);
  }
  IVMEMO[id] = r;
  return r;
}
size_t IV_UNKNOWN = 0;
int iv_sign(Id d)
{
  iv_budget = 20000;
  IV r      = iveval(d);
  if (r.lo > 0) return 1;
  if (r.hi < 0) return -1;
  if (r.lo == 0 && r.hi == 0) return 0;
  if (r.lo == 0) return 2;
  if (r.hi == 0) return -2;
  return 9;
}
void iv_learn(Id a, Id b, bool strict)
{
  // a < b or a <= b
  (void)strict;
  if (isc(b) && !isc(a))
  {
    Bound &x = VB[a];
    x.hi     = std::min(x.hi, ivq(cval(b)).hi);
  }
  if (isc(a) && !isc(b))
  {
    Bound &x = VB[b];
    x.lo     = std::max(x.lo, ivq(cval(a)).lo);
  }
  IVMEMO.clear();
}
int quick_sign0(Id d);
int quick_sign(Id d)
{
  int s = quick_sign0(d);
  if (s == 9 || s == 2 || s == -2)
  {
    int t = iv_sign(d);
    if (s == 9 || t == 1 || t == -1 || t == 0) return t == 9 ? s : t;
  }
  return s;
}
int quick_sign0(Id d)
{
  if (isc(d)) return sgn(cval(d));
  std::shared_ptr<Frac> f;
  try
  {
    f = normal(d);
  }
  catch (Unsupported &)
  {
    return 9;
  }
  int s = poly_sign(f->num);
  if (s == 0) return s;
  if (s == 9) return fact_sign(*f);
  for (auto &x : f->den)
  {
    if (x.second % 2 == 0) continue;
    int ds = poly_sign(POLYS[x.first]);
    if (ds == 9) return fact_sign(*f);
    if (ds < 0) s = -s;
  }
  if (s == 2 || s == -2)
  {
    int t = fact_sign(*f);
    if (t == 1 || t == -1 || t == 0) return t;
    if (t == -s) return 0;
  }
  return s;
}

// try to decide an atom without SMT: 1 true, 0 false, -1 unknown
int quick(Id b)
{
  Node n = N[b];
  switch (n.op)
  {
  case TRUE_: return 1;
  case FALSE_: return 0;
  case NOT:
  {
    int r = quick(n.a);
    return r < 0 ? r : 1 - r;
  }
  case LT:
  case LE:
  case EQ:
  {
    int s = quick_sign(sub(Real::raw(n.a), Real::raw(n.b)).id);
    if (s == 9) return -1;
    if (n.op == LT)
      return s == -1 ? 1 : (s == 0 || s == 1 || s == 2) ? 0 : -1;
    if (n.op == LE)
      return (s == -1 || s == 0 || s == -2) ? 1 : s == 1 ? 0 : -1;
    return s == 0 ? 1 : (s == 1 || s == -1) ? 0 : -1;
  }
  case AND:
  {
    int x = quick(n.a), y = quick(n.b);
    if (x == 0 || y == 0) return 0;
    if (x == 1 && y == 1) return 1;
    return -1;
  }
  case OR:
  {
    int x = quick(n.a), y = quick(n.b);
    if (x == 1 || y == 1) return 1;
    if (x == 0 && y == 0) return 0;
    return -1;
  }
  default: return -1;
  }
}

// Substitution: equalities x = t learnt on the path (x a variable) and ITEs
// whose condition is decided.
std::unordered_map<Id, Id> PSUB, SUBM;
bool any_ite = false;
bool occurs(Id x, Id in, std::unordered_set<Id> &seen)
{
  if (x == in) return true;
  if (!seen.insert(in).second) return false;
  Node n = N[in];
  switch (n.op)
  {
  case CONST:
  case VAR:
  case TRUE_:
  case FALSE_: return false;
  case APP:
  {
    auto args = APPS[n.aux].args;
    for (Id a : args)
      if (occurs(x, a, seen)) return true;
    return false;
  }
  case ITE: return occurs(x, n.a, seen) || occurs(x, n.b, seen) || occurs(x, n.c, seen);
  case POWI:
  case NOT: return occurs(x, n.a, seen);
  default: return occurs(x, n.a, seen) || occurs(x, n.b, seen);
  }
}
Id simp(Id id)
{
  auto it = SUBM.find(id);
  if (it != SUBM.end()) return it->second;
  Node n = N[id];
  Id r   = id;
  auto R_ = [](Id i) { return Real::raw(i); };
  switch (n.op)
  {
  case CONST:
  case TRUE_:
  case FALSE_: break;
  case VAR:
  {
    auto s = PSUB.find(id);
    if (s != PSUB.end()) r = s->second;
    break;
  }
  case APP:
  {
    auto s = PSUB.find(id);
    if (s != PSUB.end())
    {
      r = s->second;
      break;
    }
    std::vector<Id> args = APPS[n.aux].args;
    std::string name     = APPS[n.aux].name;
    bool ch              = false;
    std::vector<Real> na;
    for (Id a : args)
    {
      Id b = simp(a);
      ch   = ch || b != a;
      na.push_back(R_(b));
    }
    if (ch)
    {
      if (name.rfind("root", 0) == 0)
        r = root_of(na[0], atoi(name.c_str() + 4)).id;
      else if (name == "exp")
        r = m::exp(na[0]).id;
      else if (name == "log")
        r = m::log(na[0]).id;
      else if (name == "sin")
        r = m::sin(na[0]).id;
      else if (name == "cos")
        r = m::cos(na[0]).id;
      else if (name == "atan")
        r = m::atan(na[0]).id;
      else if (name == "tanh")
        r = m::tanh(na[0]).id;
      else if (name == "pow")
        r = m::pow(na[0], na[1]).id;
      else
        r = uf(name, na).id;
    }
    break;
  }
  case ITE:
  {
    Id c   = simp(n.a);
    auto k = KNOWN.find(n.a);
    auto l = KNOWN.find(c);
    if (k != KNOWN.end())
      r = simp(k->second ? n.b : n.c);
    else if (l != KNOWN.end())
      r = simp(l->second ? n.b : n.c);
    else
    {
      int q = quick(c);
      if (q >= 0)
        r = simp(q ? n.b : n.c);
      else
        r = Ite(Bool(c), R_(simp(n.b)), R_(simp(n.c))).id;
    }
    break;
  }
  case POWI: r = pown(R_(simp(n.a)), n.aux).id; break;
  case ADD: r = add(R_(simp(n.a)), R_(simp(n.b))).id; break;
  case MUL: r = mul(R_(simp(n.a)), R_(simp(n.b))).id; break;
  case DIV:
  {
    Real d = R_(simp(n.b));
    if (d.id == 0)
      r = id; // outside the domain on this path: leave it alone
    else
      r = div(R_(simp(n.a)), d).id;
    break;
  }
  case LT: r = lt(R_(simp(n.a)), R_(simp(n.b))).id; break;
  case LE: r = le(R_(simp(n.a)), R_(simp(n.b))).id; break;
  case EQ: r = eq(R_(simp(n.a)), R_(simp(n.b))).id; break;
  case NOT: r = mk_not(simp(n.a)); break;
  case AND: r = And(Bool(simp(n.a)), Bool(simp(n.b))).id; break;
  case OR: r = Or(Bool(simp(n.a)), Bool(simp(n.b))).id; break;
  default: break;
  }
  SUBM[id] = r;
  return r;
}
void learn_eq(Id a, Id b)
{
  a = simp(a);
  b = simp(b);
  for (int k = 0; k < 2; k++, std::swap(a, b))
  {
    if (N[a].op != VAR || a == b) continue;
    auto pi = VIDX.find("pi");
    if (pi != VIDX.end() && pi->second == a) continue;
    std::unordered_set<Id> seen;
    if (occurs(a, b, seen)) continue;
    SUBM.clear();
    auto old = PSUB;
    PSUB.clear();
    PSUB[a] = b;
    for (auto &o : old)
      o.second = simp(o.second);
    old[a] = b;
    PSUB   = old;
    SUBM.clear();
    return;
  }
}
void learn(Id b, bool v)
{
  KNOWN[b] = v;
  if (any_ite) SUBM.clear();
  Node n   = N[b];
  if (n.op == EQ && v) learn_eq(n.a, n.b);
  if (n.op == NOT) learn(n.a, !v);
  if (n.op == AND && v)
  {
    learn(n.a, true);
    learn(n.b, true);
  }
  if (n.op == OR && !v)
  {
    learn(n.a, false);
    learn(n.b, false);
  }
  if (n.op == LT || n.op == LE)
  {
    if (v)
      iv_learn(n.a, n.b, n.op == LT);
    else
      iv_learn(n.b, n.a, n.op == LE);
    if (v)
      fact_learn(sub(Real::raw(n.b), Real::raw(n.a)).id, n.op == LT);
    else
      fact_learn(sub(Real::raw(n.a), Real::raw(n.b)).id, n.op == LE);
  }
  // sign facts on variables
  auto setsign = [&](Id x, int s)
  {
    if (N[x].op != VAR && N[x].op != APP) return;
    auto it = SIGN.find(x);
    if (it == SIGN.end() || it->second == 2) SIGN[x] = s;
  };
  auto zero = [&](Id x) { return isc(x) && cval(x) == 0; };
  if (n.op == LT && v && zero(n.a)) setsign(n.b, 1);
  if (n.op == LE && v && zero(n.a)) setsign(n.b, 2);
  if (n.op == LT && !v && zero(n.b)) setsign(n.a, 2);
  if (n.op == LE && !v && zero(n.b)) setsign(n.a, 1);
  if (n.op == LT && v && isc(n.a) && cval(n.a) >= 0) setsign(n.b, 1);
  if (n.op == LE && v && isc(n.a) && cval(n.a) > 0) setsign(n.b, 1);
}

void push_pc(Id b)
{
  if (N[b].op == TRUE_) return;
  PC.push_back(b);
  z3::expr e = tr(b);
  flush_axioms();
  ZS->add(e);
  learn(b, true);
}
Id mk_not(Id b)
{
  Node n = N[b];
  if (n.op == TRUE_) return ID_FALSE;
  if (n.op == FALSE_) return ID_TRUE;
  if (n.op == NOT) return n.a;
  return hc(NOT, b, 0);
}

bool decide(Id b)
{
  if (b < 0) throw Unsupported{"uninitialised condition"};
  if (N[b].op == TRUE_) return true;
  if (N[b].op == FALSE_) return false;
  auto k = KNOWN.find(b);
  if (k != KNOWN.end()) return k->second;
  if (!PSUB.empty() || any_ite)
  {
    Id b2 = simp(b);
    if (b2 != b)
    {
      bool r   = decide(b2);
      KNOWN[b] = r;
      return r;
    }
  }
  int q = quick(b);
  if (q >= 0)
  {
    KNOWN[b] = q;
    return q;
  }
  // a real decision; replay or decide
  size_t idx = DECS.size();
  bool val;
  if (idx < PREFIX.size())
  {
    val = PREFIX[idx] & 1;
    DECS.push_back(PREFIX[idx]);
    if (!(PREFIX[idx] & 2))
      push_pc(val ? b : mk_not(b));
    else
      learn(b, val);
    return val;
  }
  int ct = check_with(b, g_fork_timeout);
  if (ct < 0) ct = check_nra(b, g_fork_timeout, nullptr);
  if (ct == 0)
  {
    DECS.push_back(0 | 2);
    learn(b, false);
    return false;
  }
  int cf = check_with(mk_not(b), g_fork_timeout);
  if (cf < 0) cf = check_nra(mk_not(b), g_fork_timeout, nullptr);
  if (cf == 0)
  {
    DECS.push_back(1 | 2);
    learn(b, true);
    return true;
  }
  // both possible
  R.forks++;
  std::vector<char> other = DECS;
  other.push_back(0);
  WORK.push_back(other);
  DECS.push_back(1);
  push_pc(b);
  return true;
}

int choose_dec(int n)
{
  // decision stored as value<<2 | 4.. keep separate encoding: raw value+8
  size_t idx = DECS.size();
  if (idx < PREFIX.size())
  {
    DECS.push_back(PREFIX[idx]);
    return PREFIX[idx] - 8;
  }
  for (int i = n - 1; i >= 1; i--)
  {
    std::vector<char> o = DECS;
    o.push_back((char)(8 + i));
    WORK.push_back(o);
  }
  DECS.push_back(8);
  return 0;
}

// Terms are never invalidated: static objects of the program under proof may
// hold them across paths. Only what belongs to one path is cleared.
struct InitTables
{
  InitTables()
  {
    mono({});
    mk_q(0);
    ID_TRUE  = hc(TRUE_, 0, 0);
    ID_FALSE = hc(FALSE_, 0, 0);
  }
} init_tables;
void pi_bounds();
void reset_path()
{
  INPUTS.clear();
  FRESH.clear();
  DECS.clear();
  PC.clear();
  KNOWN.clear();
  SIGN.clear();
  FACTS.clear();
  VB.clear();
  IVMEMO.clear();
  TRACE.clear();
  HINTS.clear();
  PSUB.clear();
  SUBM.clear();
  any_ite = false;
  solver_reset();
  EigControl::hook = nullptr;
  if (VIDX.count("pi")) pi_bounds();
}

Id mk_var(const std::string &name)
{
  auto it = VIDX.find(name);
  if (it != VIDX.end()) return it->second;
  VN.push_back(name);
  Id id = (Id)N.size();
  N.push_back({VAR, 0, 0, 0, (int)VN.size() - 1});
  VIDX[name] = id;
  return id;
}
void pi_bounds()
{
  Id id      = VIDX.at("pi");
  SIGN[id]   = 1;
  z3::expr e = tr(id);
  flush_axioms();
  ZS->add(e > zreal(parse_q("3.14159265358979")));
  ZS->add(e < zreal(parse_q("3.1415926535898")));
}

Obl &obl(const std::string &name)
{
  auto it = R.obl.find(name);
  if (it == R.obl.end())
  {
    Obl o;
    o.name = name;
    it     = R.obl.emplace(name, o).first;
    R.order.push_back(name);
  }
  return it->second;
}
double zval(z3::model &m, const z3::expr &e)
{
  z3::expr v = m.eval(e, true);
  if (v.is_algebraic()) v = v.algebraic_lower(30);
  std::string s;
  if (v.is_numeral())
  {
    s = v.get_decimal_string(30);
    if (!s.empty() && s.back() == '?') s.pop_back();
    return atof(s.c_str());
  }
  return 0;
}
void record_model(Obl &o, z3::model &m)
{
  if (!o.model.empty()) return;
  for (auto &i : INPUTS)
    o.model[i.name] = zval(m, tr(i.id));
}
int total_failed()
{
  int n = 0;
  for (auto &x : R.obl)
    n += x.second.failed + x.second.unknown;
  return n;
}
struct TooManyFailures
{
};

std::string short_str(const std::string &s, size_t n = 1200)
{
  return s.size() <= n ? s : s.substr(0, n) + "...";
}
std::string pc_str()
{
  std::string s;
  for (Id p : PC)
  {
    std::ostringstream os;
    os << Bool(p);
    s += short_str(os.str(), 200) + " & ";
    if (s.size() > 1500) break;
  }
  return s;
}

void discharge(const std::string &name, Id b)
{
  Obl &o = obl(name);
  o.paths++;
  Timer t;
  auto ok = [&](const char *be)
  {
    o.proved++;
    o.backend[be]++;
    o.ms += t.ms();
  };
  if (N[b].op == TRUE_) return ok("constant");
  auto k = KNOWN.find(b);
  if (k != KNOWN.end() && k->second) return ok("path-condition");
  if (!PSUB.empty() || any_ite)
  {
    Id b2 = simp(b);
    if (b2 != b)
    {
      b = b2;
      if (N[b].op == TRUE_) return ok("substitution");
      k = KNOWN.find(b);
      if (k != KNOWN.end() && k->second) return ok("path-condition");
    }
  }
  bool isfalse = N[b].op == FALSE_;
  bool nf_nonzero = false;
  if (!isfalse && N[b].op == EQ)
  {
    try
    {
      Frac f = reduce_roots(*normal(sub(Real::raw(N[b].a), Real::raw(N[b].b)).id));
      if (f.num.empty()) return ok("normal-form");
      nf_nonzero = true;
    }
    catch (Unsupported &)
    {
    }
  }
  if (!isfalse)
  {
    int q = quick(b);
    if (q == 1) return ok("sign");
  }
  if (getenv("DV_NOSMT"))
  {
    o.failed++;
    if (N[b].op == EQ) o.detail = "residual: " + short_str(dv::nf(sub(Real::raw(N[b].a), Real::raw(N[b].b))));
    return;
  }
  z3::model m(*ZC);
  Id nb = mk_not(b);
  int r = check_with(nb, isfalse ? 2000 : g_timeout_ms / 4, &m);
  if (r == 0) return ok("z3");
  std::string which = "z3";
  if (r < 0)
  {
    r = check_nra(nb, g_timeout_ms, &m);
    if (r == 0) return ok("z3-nlsat");
  }
  bool havemodel = r == 1;
  if (r < 0)
  {
    r = check_external(nb, g_timeout_ms, which);
    if (r == 0) return ok(which.c_str());
  }
  o.ms += t.ms();
  std::ostringstream os;
  os << Bool(b);
  if (r == 1 || nf_nonzero || isfalse)
  {
    o.failed++;
    o.detail = std::string(r == 1 ? "counterexample (" + which + ")"
                                  : "normal form does not vanish") +
               "; path: " + pc_str() + " goal: " + short_str(os.str());
    if (N[b].op == EQ)
    {
      try
      {
        o.detail += " residual: " +
                    short_str(dv::nf(sub(Real::raw(N[b].a), Real::raw(N[b].b))));
      }
      catch (Unsupported &)
      {
      }
    }
    if (havemodel) record_model(o, m);
  }
  else
  {
    o.unknown++;
    o.detail = "undecided by z3, z3-nlsat, z3-new, cvc5; path: " + pc_str() +
               " goal: " + short_str(os.str());
  }
  if (g_verbose) fprintf(stderr, "FAIL %s: %s\n", name.c_str(), o.detail.c_str());
  if (total_failed() >= g_max_fail) throw TooManyFailures();
}

std::vector<Contract *> &registry()
{
  static std::vector<Contract *> r;
  return r;
}
std::string jesc(const std::string &s)
{
  std::string o;
  for (char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}
void emit(const char *name, double wall)
{
  std::ostringstream o;
  o.precision(17);
  o << "{\"contract\":\"" << name << "\",\"paths\":" << R.paths
    << ",\"infeasible\":" << R.infeasible << ",\"forks\":" << R.forks
    << ",\"queries\":" << R.queries << ",\"solver_ms\":" << R.solver_ms
    << ",\"wall_ms\":" << wall << ",\"error\":\"" << jesc(R.error)
    << "\",\"assumptions\":[";
  bool f = true;
  for (auto &a : R.assumptions)
  {
    o << (f ? "" : ",") << '"' << jesc(a) << '"';
    f = false;
  }
  o << "],\"covers\":{";
  f = true;
  for (auto &c : R.covers)
  {
    o << (f ? "" : ",") << '"' << jesc(c.first) << "\":" << c.second;
    f = false;
  }
  o << "},\"notes\":[";
  f = true;
  for (auto &c : R.notes)
  {
    o << (f ? "" : ",") << '"' << jesc(c) << '"';
    f = false;
  }
  o << "],\"obligations\":[";
  f = true;
  for (auto &nm : R.order)
  {
    Obl &b = R.obl[nm];
    o << (f ? "" : ",") << "{\"name\":\"" << jesc(nm) << "\",\"paths\":" << b.paths
      << ",\"proved\":" << b.proved << ",\"failed\":" << b.failed
      << ",\"unknown\":" << b.unknown << ",\"ms\":" << b.ms << ",\"backend\":{";
    bool g = true;
    for (auto &x : b.backend)
    {
      o << (g ? "" : ",") << '"' << x.first << "\":" << x.second;
      g = false;
    }
    o << "},\"detail\":\"" << jesc(b.detail) << "\",\"model\":{";
    g = true;
    for (auto &x : b.model)
    {
      o << (g ? "" : ",") << '"' << jesc(x.first) << "\":" << x.second;
      g = false;
    }
    o << "}}";
    f = false;
  }
  o << "]}";
  fprintf(g_out, "%s\n", o.str().c_str());
  fflush(g_out);
}

jmp_buf g_jmp;
bool g_jmp_set = false;
std::string g_assert_msg;

void run_contract(Contract *c)
{
  R = ContractResult();
  Timer wall;
  WORK.clear();
  WORK.push_back({});
  bool stop = false;
  while (!WORK.empty() && !stop)
  {
    PREFIX = WORK.back();
    WORK.pop_back();
    reset_path();
    volatile bool completed = false;
    try
    {
      g_jmp_set = true;
      if (setjmp(g_jmp) == 0)
      {
        c->fn();
        completed = true;
      }
      else
      {
        // library precondition (index within bounds) violated
        Obl &o = obl("no-undefined-behaviour");
        o.paths++;
        z3::model m(*ZC);
        int r = check_with(ID_TRUE, 4000, &m);
        if (r == 0)
          o.proved++;
        else
        {
          o.failed++;
          o.detail = g_assert_msg + "; path: " + pc_str();
          if (r == 1) record_model(o, m);
        }
        completed = true;
      }
    }
    catch (PathEnd &)
    {
      R.infeasible++;
    }
    catch (TooManyFailures &)
    {
      stop = true;
    }
    catch (Unsupported &u)
    {
      R.error = "unsupported: " + u.what;
      stop    = true;
    }
    catch (z3::exception &e)
    {
      R.error = std::string("z3: ") + e.msg();
      stop    = true;
    }
    catch (std::exception &e)
    {
      // the code under proof threw where the contract does not allow it
      Obl &o = obl("no-unexpected-exception");
      o.paths++;
      z3::model m(*ZC);
      int r = check_with(ID_TRUE, 4000, &m);
      if (r == 0)
        o.proved++;
      else
      {
        o.failed++;
        o.detail = std::string("exception: ") + e.what() + "; path: " + pc_str();
        if (r == 1) record_model(o, m);
      }
      completed = true;
    }
    if (completed) R.paths++;
    if (R.paths + R.infeasible > g_max_paths)
    {
      R.error = "path limit exceeded";
      stop    = true;
    }
  }
  emit(c->name, wall.ms());
}
} // namespace

// ----------------------------------------------------------------- public API
Contract::Contract(const char *n, void (*f)()) : name(n), fn(f)
{
  registry().push_back(this);
}
Bool::Bool(bool b) : id(b ? ID_TRUE : ID_FALSE) {}
Bool::operator bool() const { return decide(id); }
Real::operator bool() const { return decide(Not(eq(*this, Real(0))).id); }

Id mk_int(long long v)
{
  if (v == 0) return 0;
  auto it = INTIDX.find(v);
  if (it != INTIDX.end()) return it->second;
  Id id     = mk_q(mpq_class(mpz_class((long)v)));
  INTIDX[v] = id;
  return id;
}
Id mk_double(double v)
{
  if (std::isnan(v) || std::isinf(v)) throw Unsupported{"nan/inf constant"};
  return mk_q(mpq_class(v));
}
Id mk_lit(const char *s)
{
  auto it = LITIDX.find(s);
  if (it != LITIDX.end()) return it->second;
  Id id     = mk_q(parse_q(s));
  LITIDX[s] = id;
  return id;
}
long long to_integer(Id id)
{
  if (isc(id))
  {
    mpz_class z = cval(id).get_num() / cval(id).get_den(); // truncation
    return z.get_si();
  }
  auto f = normal(id);
  mpq_class c;
  if (f->den.empty() && pis_const(f->num, &c))
  {
    mpz_class z = c.get_num() / c.get_den();
    return z.get_si();
  }
  throw Unsupported{"conversion of a symbolic real to an integer: " +
                    short_str(str(Real::raw(id)), 200)};
}
Real &Real::operator+=(const Real &o) { return *this = add(*this, o); }
Real &Real::operator-=(const Real &o) { return *this = sub(*this, o); }
Real &Real::operator*=(const Real &o) { return *this = mul(*this, o); }
Real &Real::operator/=(const Real &o) { return *this = div(*this, o); }
Real Real::operator-() const { return mul(Real(-1), *this); }
Real &Real::operator++() { return *this = add(*this, Real(1)); }
Real &Real::operator--() { return *this = sub(*this, Real(1)); }
Real Real::operator++(int)
{
  Real r = *this;
  ++*this;
  return r;
}
Real Real::operator--(int)
{
  Real r = *this;
  --*this;
  return r;
}
Real undef() { return havoc("undef"); }

Real add(Real a, Real b)
{
  if (isc(a.id) && isc(b.id)) return Real::raw(mk_q(cval(a.id) + cval(b.id)));
  if (a.id == 0) return b;
  if (b.id == 0) return a;
  return Real::raw(hc(ADD, a.id, b.id));
}
Real sub(Real a, Real b)
{
  if (a.id == b.id) return Real(0);
  return add(a, mul(Real(-1), b));
}
Real mul(Real a, Real b)
{
  if (isc(a.id) && isc(b.id)) return Real::raw(mk_q(cval(a.id) * cval(b.id)));
  if (a.id == 0 || b.id == 0) return Real(0);
  if (isc(b.id)) std::swap(a, b);
  if (isc(a.id))
  {
    if (cval(a.id) == 1) return b;
    Node n = N[b.id];
    if (n.op == MUL && isc(n.a))
      return mul(Real::raw(mk_q(cval(a.id) * cval(n.a))), Real::raw(n.b));
  }
  return Real::raw(hc(MUL, a.id, b.id));
}
Real div(Real a, Real b)
{
  if (isc(b.id))
  {
    if (cval(b.id) == 0)
      throw std::domain_error("dv: division by zero");
    return mul(a, Real::raw(mk_q(1 / cval(b.id))));
  }
  if (a.id == 0) return a;
  if (a.id == b.id) return Real(1);
  return Real::raw(hc(DIV, a.id, b.id));
}
Bool lt(Real a, Real b)
{
  if (a.id == b.id) return Bool(false);
  if (isc(a.id) && isc(b.id)) return Bool(cval(a.id) < cval(b.id));
  return Bool(hc(LT, a.id, b.id));
}
Bool le(Real a, Real b)
{
  if (a.id == b.id) return Bool(true);
  if (isc(a.id) && isc(b.id)) return Bool(cval(a.id) <= cval(b.id));
  return Bool(mk_not(lt(b, a).id));
}
Bool eq(Real a, Real b)
{
  if (a.id == b.id) return Bool(true);
  if (isc(a.id) && isc(b.id)) return Bool(cval(a.id) == cval(b.id));
  if (a.id > b.id) std::swap(a, b);
  return Bool(hc(EQ, a.id, b.id));
}
Bool Not(Bool a) { return Bool(mk_not(a.id)); }
Bool And(Bool a, Bool b)
{
  if (a.id == ID_FALSE || b.id == ID_FALSE) return Bool(ID_FALSE);
  if (a.id == ID_TRUE) return b;
  if (b.id == ID_TRUE) return a;
  return Bool(hc(AND, a.id, b.id));
}
Bool Or(Bool a, Bool b)
{
  if (a.id == ID_TRUE || b.id == ID_TRUE) return Bool(ID_TRUE);
  if (a.id == ID_FALSE) return b;
  if (b.id == ID_FALSE) return a;
  return Bool(hc(OR, a.id, b.id));
}
Bool Iff(Bool a, Bool b) { return And(Implies(a, b), Implies(b, a)); }
Real Ite(Bool c, Real a, Real b)
{
  if (c.id == ID_TRUE) return a;
  if (c.id == ID_FALSE) return b;
  if (a.id == b.id) return a;
  any_ite = true;
  return Real::raw(hc(ITE, c.id, a.id, b.id));
}
bool is_const(Real r) { return isc(r.id); }
Real uf(const std::string &name, const std::vector<Real> &args)
{
  std::vector<Id> a;
  for (auto &x : args)
    a.push_back(x.id);
  auto k  = std::make_pair(name, a);
  auto it = APPIDX.find(k);
  if (it != APPIDX.end()) return Real::raw(it->second);
  APPS.push_back({name, a});
  Id id = (Id)N.size();
  N.push_back({APP, 0, 0, 0, (int)APPS.size() - 1});
  APPIDX[k] = id;
  return Real::raw(id);
}
Real PI()
{
  auto it = VIDX.find("pi");
  if (it != VIDX.end()) return Real::raw(it->second);
  Id id = mk_var("pi");
  if (ZS) pi_bounds();
  return Real::raw(id);
}
Real pown(Real a, long long n)
{
  if (n == 0) return Real(1);
  if (n < 0) return Real(1) / pown(a, -n);
  if (n == 1) return a;
  if (isc(a.id))
  {
    mpq_class r = 1;
    for (long long i = 0; i < n; i++)
      r *= cval(a.id);
    return Real::raw(mk_q(r));
  }
  if (N[a.id].op == POWI) return pown(Real::raw(N[a.id].a), n * N[a.id].aux);
  return Real::raw(hc(POWI, a.id, 0, 0, (int)n));
}
Real root_of(Real a, int q);
namespace
{
// factors of a product of positive terms, with exponents
bool positive_factors(Id id, long e, std::map<Id, long> &f, mpq_class &c)
{
  Node n = N[id];
  if (isc(id))
  {
    mpq_class v = cval(id);
    if (v <= 0) return false;
    for (long i = 0; i < std::abs(e); i++)
      c = e > 0 ? mpq_class(c * v) : mpq_class(c / v);
    return true;
  }
  if (quick_sign(id) != 1) return false;
  if (n.op == MUL)
  {
    auto g = f;
    auto d = c;
    if (positive_factors(n.a, e, g, d) && positive_factors(n.b, e, g, d))
    {
      f = g;
      c = d;
      return true;
    }
  }
  else if (n.op == DIV)
  {
    auto g = f;
    auto d = c;
    if (positive_factors(n.a, e, g, d) && positive_factors(n.b, -e, g, d))
    {
      f = g;
      c = d;
      return true;
    }
  }
  else if (n.op == POWI)
  {
    auto g = f;
    auto d = c;
    if (positive_factors(n.a, e * n.aux, g, d))
    {
      f = g;
      c = d;
      return true;
    }
  }
  f[id] += e;
  return true;
}
Real root(Real a, int q)
{
  if (q > 2 && q % 2 == 0) return root(root(a, 2), q / 2);
  if (isc(a.id))
  {
    mpq_class v = cval(a.id);
    if (v < 0) throw std::domain_error("dv: root of a negative number");
    mpz_class nn, dd;
    if (mpz_root(nn.get_mpz_t(), v.get_num().get_mpz_t(), q) &&
        mpz_root(dd.get_mpz_t(), v.get_den().get_mpz_t(), q))
      return Real::raw(mk_q(mpq_class(nn, dd)));
    // rational part and the roots of primes
    mpz_class m = v.get_num();
    for (int i = 1; i < q; i++)
      m *= v.get_den();
    mpq_class out(1, v.get_den());
    out.canonicalize();
    Real r(1);
    bool split = false;
    for (int p = 2; p < 100 && m > 1; p++)
    {
      int e = 0;
      while (mpz_divisible_ui_p(m.get_mpz_t(), p))
      {
        m /= p;
        e++;
      }
      if (!e) continue;
      for (int i = 0; i < e / q; i++)
        out *= p;
      if (e % q)
      {
        if (r.id != Real(1).id || m > 1) split = true;
        r = r * dv::pown(uf("root" + std::to_string(q), {Real(p)}), e % q);
      }
    }
    if (m > 1)
    {
      mpz_class t;
      Real x = Real::raw(mk_q(mpq_class(m)));
      if (mpz_root(t.get_mpz_t(), m.get_mpz_t(), q))
        r = r * Real::raw(mk_q(mpq_class(t)));
      else
        r = r * uf("root" + std::to_string(q), {x});
    }
    (void)split;
    return Real::raw(mk_q(out)) * r;
  }
  auto hint = [q](Real x, Real &h0)
  {
    if (q == 2)
      for (auto &h : HINTS)
        if (identical(h * h, x) && valid(le(Real(0), h)))
        {
          h0 = h;
          return true;
        }
    return false;
  };
  Real h;
  if (hint(a, h)) return h;
  std::map<Id, long> f;
  mpq_class c = 1;
  Node n      = N[a.id];
  if ((n.op == MUL || n.op == DIV || n.op == POWI) && positive_factors(a.id, 1, f, c) &&
      !(f.size() == 1 && f.begin()->second == 1 && c == 1))
  {
    Real r = root(Real::raw(mk_q(c)), q);
    for (auto &x : f)
    {
      Real b  = Real::raw(x.first);
      long e  = x.second, k = e >= 0 ? e / q : -((-e + q - 1) / q);
      r       = r * dv::pown(b, k);
      if (e - k * q) r = r * dv::pown(hint(b, h) ? h : uf("root" + std::to_string(q), {b}), e - k * q);
    }
    return r;
  }
  return uf("root" + std::to_string(q), {a});
}
} // namespace
Real root_of(Real a, int q) { return root(a, q); }
namespace m
{
Real sqrt(const Real &a) { return root(a, 2); }
Real cbrt(const Real &a) { return uf("cbrt", {a}); }
Real tgamma(const Real &a)
{
  if (isc(a.id))
  {
    mpq_class v = cval(a.id);
    mpq_class h = v;
    if (v.get_den() == 1 && v > 0)
    {
      mpq_class r = 1;
      for (long i = 2; i < v.get_num().get_si(); i++)
        r *= i;
      return Real::raw(mk_q(r));
    }
    if (v.get_den() == 2)
    {
      // Gamma(1/2) = sqrt(pi), Gamma(x+1) = x Gamma(x)
      mpq_class r = 1;
      mpq_class x = v, half(1, 2);
      while (x > half)
      {
        x -= 1;
        r *= x;
      }
      while (x < half)
      {
        r /= x;
        x += 1;
      }
      return Real::raw(mk_q(r)) * sqrt(PI());
    }
    if (v.get_den() == 1) throw std::domain_error("dv: pole of Gamma");
  }
  return uf("Gamma", {a});
}
Real zeta(int n)
{
  // enclosures good to 1e-9 from the partial sum and the integral test
  Real z = uf("zeta", {Real(n)});
  if (n >= 2 && ZS)
  {
    static std::map<int, std::pair<mpq_class, mpq_class>> memo;
    if (!memo.count(n))
    {
      double s = 0;
      int K    = 20000;
      for (int k = K; k >= 1; k--)
        s += std::pow((double)k, -n);
      double lo = s + std::pow((double)K + 1, 1 - n) / (n - 1) - 1e-10;
      double hi = s + std::pow((double)K, 1 - n) / (n - 1) + 1e-10;
      memo[n]   = {mpq_class(lo), mpq_class(hi)};
    }
    assume(And(lt(Real::raw(mk_q(memo[n].first)), z),
               lt(z, Real::raw(mk_q(memo[n].second)))));
  }
  return z;
}
Real random01()
{
  Real r = havoc("random");
  assume(And(le(Real(0), r), lt(r, Real(1))));
  return r;
}
Real exp(const Real &a)
{
  if (a.id == 0) return Real(1);
  return uf("exp", {a});
}
Real log(const Real &a)
{
  if (isc(a.id) && cval(a.id) == 1) return Real(0);
  if (isc(a.id) && cval(a.id) <= 0)
    throw std::domain_error("dv: log of a non-positive number");
  // of products of positive terms
  Node n     = N[a.id];
  auto pos   = [](Id i) { return quick_sign(i) == 1; };
  auto R     = [](Id i) { return Real::raw(i); };
  if (n.op == MUL && pos(n.a) && pos(n.b)) return log(R(n.a)) + log(R(n.b));
  if (n.op == DIV && pos(n.a) && pos(n.b)) return log(R(n.a)) - log(R(n.b));
  if (n.op == POWI && pos(n.a)) return Real((int)n.aux) * log(R(n.a));
  if (n.op == APP && APPS[n.aux].name.rfind("root", 0) == 0 && pos(APPS[n.aux].args[0]))
    return log(R(APPS[n.aux].args[0])) / Real(atoi(APPS[n.aux].name.c_str() + 4));
  if (n.op == APP && APPS[n.aux].name == "exp") return R(APPS[n.aux].args[0]);
  return uf("log", {a});
}
Real log10(const Real &a) { return uf("log10", {a}); }
Real log2(const Real &a) { return uf("log2", {a}); }
// sine and cosine of an inverse function are algebraic
static bool trig(const Real &a, Real &s, Real &c)
{
  Node n = N[a.id];
  if (n.op == MUL && isc(n.a) && cval(n.a) == -1)
  {
    if (!trig(Real::raw(n.b), s, c)) return false;
    s = -s;
    return true;
  }
  if (n.op != APP) return false;
  auto ai = APPS[n.aux];
  std::vector<Real> x;
  for (auto i : ai.args)
    x.push_back(Real::raw(i));
  if (ai.name == "asin")
  {
    s = x[0];
    c = sqrt(1 - x[0] * x[0]);
  }
  else if (ai.name == "acos")
  {
    c = x[0];
    s = sqrt(1 - x[0] * x[0]);
  }
  else if (ai.name == "atan")
  {
    c = 1 / sqrt(1 + x[0] * x[0]);
    s = x[0] * c;
  }
  else if (ai.name == "atan2" && valid(Not(And(eq(x[0], Real(0)), eq(x[1], Real(0))))))
  {
    Real r = sqrt(x[0] * x[0] + x[1] * x[1]);
    s      = x[0] / r;
    c      = x[1] / r;
  }
  else
    return false;
  return true;
}
static bool negated(const Real &a, Real &b)
{
  Node n = N[a.id];
  if (n.op == MUL && isc(n.a) && cval(n.a) < 0)
  {
    b = Real::raw(mk_q(-cval(n.a))) * Real::raw(n.b);
    return true;
  }
  return false;
}
Real sin(const Real &a)
{
  if (a.id == 0) return a;
  Real s, c;
  if (trig(a, s, c)) return s;
  if (negated(a, s)) return -uf("sin", {s});
  return uf("sin", {a});
}
Real cos(const Real &a)
{
  if (a.id == 0) return Real(1);
  Real s, c;
  if (trig(a, s, c)) return c;
  if (negated(a, s)) return uf("cos", {s});
  return uf("cos", {a});
}
Real tan(const Real &a) { return uf("tan", {a}); }
Real asin(const Real &a) { return uf("asin", {a}); }
Real acos(const Real &a) { return uf("acos", {a}); }
Real atan(const Real &a)
{
  if (a.id == 0) return a;
  return uf("atan", {a});
}
Real sinh(const Real &a) { return uf("sinh", {a}); }
Real cosh(const Real &a) { return uf("cosh", {a}); }
Real tanh(const Real &a)
{
  if (a.id == 0) return a;
  return uf("tanh", {a});
}
Real abs(const Real &a)
{
  if (isc(a.id)) return Real::raw(mk_q(::abs(cval(a.id))));
  int s = quick_sign(a.id);
  if (s == 1 || s == 2) return a;
  if (s == -1 || s == -2) return -a;
  if (s == 0) return Real(0);
  return Ite(le(Real(0), a), a, -a);
}
Real fabs(const Real &a) { return abs(a); }
Real floor(const Real &a)
{
  if (isc(a.id))
  {
    mpz_class z;
    mpz_fdiv_q(z.get_mpz_t(),
               cval(a.id).get_num().get_mpz_t(),
               cval(a.id).get_den().get_mpz_t());
    return Real::raw(mk_q(mpq_class(z)));
  }
  return uf("floor", {a});
}
Real ceil(const Real &a)
{
  if (isc(a.id))
  {
    mpz_class z;
    mpz_cdiv_q(z.get_mpz_t(),
               cval(a.id).get_num().get_mpz_t(),
               cval(a.id).get_den().get_mpz_t());
    return Real::raw(mk_q(mpq_class(z)));
  }
  return uf("ceil", {a});
}
Real round(const Real &a) { return floor(a + lit("0.5")); }
Real pow(const Real &a, const Real &b)
{
  if (isc(b.id))
  {
    const mpq_class e = cval(b.id);
    if (e.get_den() == 1 && ::abs(e.get_num()) <= 64)
      return pown(a, e.get_num().get_si());
    if (e.get_den() <= 12 && ::abs(e.get_num()) <= 64)
    {
      int q  = (int)e.get_den().get_si();
      long p = e.get_num().get_si();
      return pown(root(a, q), p);
    }
  }
  if (isc(a.id) && cval(a.id) == 1) return Real(1);
  return uf("pow", {a, b});
}
Real atan2(const Real &a, const Real &b) { return uf("atan2", {a, b}); }
Real hypot(const Real &a, const Real &b) { return sqrt(a * a + b * b); }
Real fmod(const Real &a, const Real &b) { return uf("fmod", {a, b}); }
Cx exp(const Cx &z)
{
  Real e = exp(z.real());
  return Cx(e * cos(z.imag()), e * sin(z.imag()));
}
Cx sqrt(const Cx &z)
{
  if (identical(z.imag(), Real(0)))
  {
    if (valid(le(Real(0), z.real()))) return Cx(sqrt(z.real()), Real(0));
    if (valid(le(z.real(), Real(0)))) return Cx(Real(0), sqrt(-z.real()));
  }
  Real r = abs(z);
  return Cx(uf("csqrt_re", {z.real(), z.imag()}), uf("csqrt_im", {z.real(), z.imag(), r}));
}
Cx log(const Cx &z)
{
  if (identical(z.imag(), Real(0)) && valid(lt(Real(0), z.real()))) return Cx(log(z.real()), Real(0));
  return Cx(log(abs(z)), arg(z));
}
Cx pow(const Cx &z, int n)
{
  Cx r(Real(1));
  for (int i = 0; i < n; i++)
    r *= z;
  return r;
}
} // namespace m

static void print(std::string &o, Id id, int depth, size_t lim)
{
  if (o.size() > lim)
  {
    return;
  }
  Node n = N[id];
  auto bin = [&](const char *s)
  {
    o += "(";
    print(o, n.a, depth + 1, lim);
    o += s;
    print(o, n.b, depth + 1, lim);
    o += ")";
  };
  switch (n.op)
  {
  case CONST: o += cval(id).get_str(); break;
  case VAR: o += VN[n.aux]; break;
  case ADD: bin(" + "); break;
  case MUL: bin("*"); break;
  case DIV: bin("/"); break;
  case LT: bin(" < "); break;
  case LE: bin(" <= "); break;
  case EQ: bin(" == "); break;
  case AND: bin(" && "); break;
  case OR: bin(" || "); break;
  case NOT:
    o += "!";
    print(o, n.a, depth + 1, lim);
    break;
  case POWI:
    print(o, n.a, depth + 1, lim);
    o += "^" + std::to_string(n.aux);
    break;
  case ITE:
    o += "ite(";
    print(o, n.a, depth + 1, lim);
    o += ",";
    print(o, n.b, depth + 1, lim);
    o += ",";
    print(o, n.c, depth + 1, lim);
    o += ")";
    break;
  case APP:
  {
    o += APPS[n.aux].name + "(";
    auto args = APPS[n.aux].args;
    for (size_t i = 0; i < args.size(); i++)
    {
      if (i) o += ",";
      print(o, args[i], depth + 1, lim);
    }
    o += ")";
    break;
  }
  case TRUE_: o += "true"; break;
  case FALSE_: o += "false"; break;
  }
}
// streams carry symbolic values as "@<node>" so that text written and read
// back denotes the same real
std::string str(Real a)
{
  if (isc(a.id))
  {
    const mpq_class &q = cval(a.id);
    if (q.get_den() == 1) return q.get_num().get_str();
    return "#" + q.get_str();
  }
  return "@" + std::to_string(a.id);
}
std::ostream &operator<<(std::ostream &os, const Real &r) { return os << str(r); }
std::ostream &operator<<(std::ostream &os, const Bool &r)
{
  std::string o;
  print(o, r.id, 0, 1500);
  return os << o;
}
Real parse(const std::string &s, std::size_t *pos)
{
  size_t i = 0;
  while (i < s.size() && isspace((unsigned char)s[i]))
    i++;
  size_t j = i;
  Real r;
  if (j < s.size() && s[j] == '@')
  {
    j++;
    size_t k = j;
    while (j < s.size() && isdigit((unsigned char)s[j]))
      j++;
    if (k == j) throw std::invalid_argument("stod");
    r = Real::raw(atoi(s.substr(k, j - k).c_str()));
  }
  else if (j < s.size() && s[j] == '#')
  {
    j++;
    size_t k = j;
    while (j < s.size() &&
           (isdigit((unsigned char)s[j]) || s[j] == '/' || s[j] == '-'))
      j++;
    mpq_class q(s.substr(k, j - k));
    q.canonicalize();
    r = Real::raw(mk_q(q));
  }
  else
  {
    size_t k    = j;
    bool digits = false;
    if (j < s.size() && (s[j] == '-' || s[j] == '+')) j++;
    while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == '.'))
    {
      digits = digits || isdigit((unsigned char)s[j]);
      j++;
    }
    if (!digits) throw std::invalid_argument("stod");
    if (j < s.size() && (s[j] == 'e' || s[j] == 'E'))
    {
      size_t e = j + 1;
      if (e < s.size() && (s[e] == '-' || s[e] == '+')) e++;
      if (e < s.size() && isdigit((unsigned char)s[e]))
      {
        while (e < s.size() && isdigit((unsigned char)s[e]))
          e++;
        j = e;
      }
    }
    r = Real::raw(mk_q(parse_q(s.substr(k, j - k).c_str())));
  }
  if (pos) *pos = j;
  return r;
}
std::istream &operator>>(std::istream &is, Real &r)
{
  std::string w;
  is >> std::ws;
  while (is.good())
  {
    int c = is.peek();
    if (c == EOF) break;
    if (isdigit(c) || c == '@' || c == '#' || c == '/' || c == '.' || c == '-' ||
        c == '+' || c == 'e' || c == 'E')
    {
      w += (char)c;
      is.get();
    }
    else
      break;
  }
  if (w.empty())
  {
    is.setstate(std::ios::failbit);
    r = Real(0);
    return is;
  }
  try
  {
    r = parse(w);
  }
  catch (std::invalid_argument &)
  {
    is.setstate(std::ios::failbit);
    r = Real(0);
  }
  return is;
}

static Real input(const std::string &name0)
{
  std::string name = name0;
  int k            = FRESH[name]++;
  if (k) name += "#" + std::to_string(k);
  Id id = mk_var(name);
  INPUTS.push_back({name, id});
  return Real::raw(id);
}
Real var(const std::string &name, double, double) { return input(name); }
Real pos(const std::string &name, double, double)
{
  Real r      = input(name);
  SIGN[r.id]  = 1;
  push_pc(lt(Real(0), r).id);
  return r;
}
Real nonneg(const std::string &name, double, double)
{
  Real r     = input(name);
  SIGN[r.id] = 2;
  push_pc(le(Real(0), r).id);
  return r;
}
Real in(const std::string &name, double lo, double hi)
{
  Real r = input(name);
  if (lo >= 0) SIGN[r.id] = 1;
  // decimal reading of the bounds
  char b[64];
  snprintf(b, sizeof b, "%.12g", lo);
  push_pc(lt(lit(b), r).id);
  snprintf(b, sizeof b, "%.12g", hi);
  push_pc(lt(r, lit(b)).id);
  return r;
}
Real havoc(const std::string &name)
{
  int k = FRESH["~" + name]++;
  return Real::raw(mk_var(name + "~" + std::to_string(k)));
}
int choose(const std::string &name, int n)
{
  int v = choose_dec(n);
  TRACE.push_back({name, std::to_string(v)});
  // reported to the replay as an input
  Id id = mk_int(v);
  INPUTS.push_back({name, id});
  return v;
}
void assume(Bool b)
{
  if (b.id == ID_TRUE) return;
  auto k = KNOWN.find(b.id);
  if (k != KNOWN.end() && k->second) return;
  int q = quick(b.id);
  if (q == 1) return;
  if (q == 0) throw PathEnd();
  push_pc(b.id);
  int r = check_with(ID_TRUE, g_fork_timeout);
  if (r == 0) throw PathEnd();
}
void assumption(const std::string &t) { R.assumptions.insert(t); }
void note(const std::string &s)
{
  if (R.notes.size() < 50) R.notes.push_back(s);
}
void ensure(const std::string &name, Bool b)
{
  // split conjunctions so that each conjunct is its own obligation instance
  std::vector<Id> st{b.id};
  while (!st.empty())
  {
    Id x = st.back();
    st.pop_back();
    if (N[x].op == AND)
    {
      st.push_back(N[x].b);
      st.push_back(N[x].a);
    }
    else
      discharge(name, x);
  }
}
void ensure_eq(const std::string &name, Real a, Real b, Real)
{
  discharge(name, eq(a, b).id);
}
void ensure_eq(const std::string &name,
               const std::complex<Real> &a,
               const std::complex<Real> &b,
               Real s)
{
  ensure_eq(name, a.real(), b.real(), s);
  ensure_eq(name, a.imag(), b.imag(), s);
}
void ensure_true(const std::string &name, bool b)
{
  discharge(name, b ? ID_TRUE : ID_FALSE);
}
void cover(const std::string &name)
{
  // reachable: the path condition is satisfiable (not just not refuted)
  if (R.covers[name] > 0) return;
  int r = check_with(ID_TRUE, g_fork_timeout);
  if (r < 0) r = check_nra(ID_TRUE, g_fork_timeout, nullptr);
  if (r == 1)
    R.covers[name]++;
  else
    R.covers[name] += 0;
}
bool feasible(Bool b)
{
  int q = quick(b.id);
  if (q >= 0) return q;
  int r = check_with(b.id, g_fork_timeout);
  return r != 0;
}
bool valid(Bool b)
{
  auto k = KNOWN.find(b.id);
  if (k != KNOWN.end()) return k->second;
  int q = quick(b.id);
  if (q >= 0) return q;
  int r = check_with(mk_not(b.id), g_fork_timeout);
  if (r < 0) r = check_nra(mk_not(b.id), g_fork_timeout, nullptr);
  return r == 0;
}
void sqrt_hint(Real c) { HINTS.push_back(c); }
bool identical(Real a, Real b)
{
  if (a.id == b.id) return true;
  try
  {
    Frac f = reduce_roots(*normal(sub(a, b).id));
    return f.num.empty();
  }
  catch (Unsupported &)
  {
    return false;
  }
}
std::string nf(Real e)
{
  Frac f = reduce_roots(*normal(e.id));
  auto ps = [&](const Poly &p)
  {
    std::string s;
    int cnt = 0;
    for (auto &t : p)
    {
      if (++cnt > 40)
      {
        s += "+...";
        break;
      }
      s += (s.empty() ? "" : " + ") + t.second.get_str();
      for (auto &q : MONOS[t.first])
      {
        std::string o;
        print(o, ATOMS[q.first].node, 0, 200);
        s += "*" + o + (q.second > 1 ? "^" + std::to_string(q.second) : "");
      }
    }
    return s.empty() ? std::string("0") : s;
  };
  std::string s = "[" + ps(f.num) + "]";
  for (auto &d : f.den)
    s += " / (" + ps(POLYS[d.first]) + ")^" + std::to_string(d.second);
  return s;
}

static Real diff_rec(Id e, Id x, std::unordered_map<Id, Id> &memo)
{
  auto it = memo.find(e);
  if (it != memo.end()) return Real::raw(it->second);
  // iterative: long ADD chains
  std::vector<Id> st{e};
  auto D = [&](Id k) { return Real::raw(memo.at(k)); };
  while (!st.empty())
  {
    Id cur = st.back();
    if (memo.count(cur))
    {
      st.pop_back();
      continue;
    }
    Node n = N[cur];
    std::vector<Id> ch;
    switch (n.op)
    {
    case ADD:
    case MUL:
    case DIV: ch = {n.a, n.b}; break;
    case POWI: ch = {n.a}; break;
    case ITE: ch = {n.b, n.c}; break;
    case APP: ch = APPS[n.aux].args; break;
    default: break;
    }
    bool ready = true;
    for (Id c : ch)
      if (!memo.count(c))
      {
        st.push_back(c);
        ready = false;
      }
    if (!ready) continue;
    st.pop_back();
    Real r(0);
    Real A = Real::raw(n.a), B = Real::raw(n.b), S = Real::raw(cur);
    switch (n.op)
    {
    case CONST: break;
    case VAR: r = cur == x ? Real(1) : Real(0); break;
    case ADD: r = D(n.a) + D(n.b); break;
    case MUL: r = D(n.a) * B + A * D(n.b); break;
    case DIV:
    {
      Real db = D(n.b);
      r       = db.id == 0 ? D(n.a) / B : (D(n.a) * B - A * db) / (B * B);
      break;
    }
    case POWI: r = Real(n.aux) * pown(A, n.aux - 1) * D(n.a); break;
    case ITE: r = Ite(Bool(n.a), D(n.b), D(n.c)); break;
    case APP:
    {
      AppInfo ai = APPS[n.aux];
      std::vector<Real> da;
      bool all0 = true;
      for (Id q : ai.args)
      {
        da.push_back(D(q));
        if (da.back().id != 0) all0 = false;
      }
      if (all0) break;
      Real u = Real::raw(ai.args[0]);
      if (ai.name.rfind("root", 0) == 0)
      {
        int q = atoi(ai.name.c_str() + 4);
        r     = da[0] / (Real(q) * pown(S, q - 1));
      }
      else if (ai.name == "exp")
        r = S * da[0];
      else if (ai.name == "log")
        r = da[0] / u;
      else if (ai.name == "sin")
        r = m::cos(u) * da[0];
      else if (ai.name == "cos")
        r = -m::sin(u) * da[0];
      else if (ai.name == "atan")
        r = da[0] / (Real(1) + u * u);
      else if (ai.name == "tanh")
        r = (Real(1) - S * S) * da[0];
      else if (ai.name == "pow" && da[1].id == 0)
        r = Real::raw(ai.args[1]) * S / u * da[0];
      else
      {
        // chain rule with uninterpreted partial derivatives
        for (size_t i = 0; i < ai.args.size(); i++)
          if (da[i].id != 0)
          {
            std::vector<Real> as;
            for (Id q : ai.args)
              as.push_back(Real::raw(q));
            r += uf("d" + std::to_string(i) + "." + ai.name, as) * da[i];
          }
      }
      break;
    }
    default: throw Unsupported{"derivative of a formula"};
    }
    memo[cur] = r.id;
  }
  return Real::raw(memo.at(e));
}
Real diff(Real e, Real x)
{
  std::unordered_map<Id, Id> memo;
  return diff_rec(e.id, x.id, memo);
}
Real deriv(const std::function<Real(const std::vector<Real> &)> &f,
           const std::vector<Real> &xs,
           std::size_t i)
{
  // differentiate with respect to a fresh variable, then evaluate at xs[i]
  if (N[xs.at(i).id].op == VAR) return diff(f(xs), xs[i]);
  throw Unsupported{"deriv at a non-variable point"};
}
Real deriv1(const std::function<Real(Real)> &f, Real x)
{
  if (N[x.id].op == VAR) return diff(f(x), x);
  throw Unsupported{"deriv at a non-variable point"};
}
Real integral(const std::function<Real(Real)> &f, Real a, Real b)
{
  Real x = Real::raw(mk_var("~bound"));
  Real g = f(x);
  // identical integrands (by normal form) give the same functional
  static std::map<std::string, int> names;
  std::string key;
  try
  {
    key = fkey(reduce_roots(*normal(g.id)));
  }
  catch (Unsupported &)
  {
    key = "t" + std::to_string(g.id);
  }
  int k = names.emplace(key, (int)names.size()).first->second;
  if (a.id == b.id) return Real(0);
  return uf("integral" + std::to_string(k), {a, b});
}
Real approx_native(double x) { return Real(x); }
bool is_native() { return false; }
bool no_throw(const std::string &name, const std::function<void()> &f)
{
  try
  {
    f();
  }
  catch (std::exception &e)
  {
    note(std::string("exception in ") + name + ": " + e.what());
    discharge(name, ID_FALSE);
    return false;
  }
  discharge(name, ID_TRUE);
  return true;
}
bool throws(const std::function<void()> &f)
{
  try
  {
    f();
  }
  catch (std::exception &e)
  {
    return true;
  }
  return false;
}

void EigControl::solve(int n,
                       const std::vector<std::complex<Real>> &mm,
                       std::vector<Real> &ev,
                       std::vector<std::complex<Real>> &vec)
{
  if (hook && hook(n, mm, ev, vec)) return;
  assumption("Eigen eigensolver contract: eigenvalues ascending, sum = trace");
  Real tr_(0), s(0);
  for (int i = 0; i < n; i++)
  {
    ev[i] = havoc("eig");
    s += ev[i];
    tr_ += mm[i * n + i].real();
    for (int j = 0; j < n; j++)
      vec[i * n + j] = std::complex<Real>(havoc("vec"));
  }
  for (int i = 0; i + 1 < n; i++)
    push_pc(le(ev[i], ev[i + 1]).id);
  push_pc(eq(s, tr_).id);
}

int run(int argc, char **argv)
{
  std::vector<std::string> names;
  int jobs = 1;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--list")
    {
      for (auto *c : registry())
        printf("%s\n", c->name);
      return 0;
    }
    else if (a == "-v")
      g_verbose = true;
    else if (a == "--out")
      g_out = fopen(argv[++i], "w");
    else if (a == "--timeout")
      g_timeout_ms = atoi(argv[++i]);
    else if (a == "-j")
      jobs = atoi(argv[++i]);
    else
      names.push_back(a);
  }
  (void)jobs;
  z3::context ctx;
  ZC = &ctx;
  // big stack for deep recursion
  for (auto *c : registry())
  {
    if (!names.empty() &&
        std::find(names.begin(), names.end(), c->name) == names.end())
      continue;
    std::thread th;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 2048ull << 20);
    pthread_t t;
    pthread_create(
        &t,
        &at,
        [](void *p) -> void *
        {
          run_contract((Contract *)p);
          return nullptr;
        },
        c);
    pthread_join(t, nullptr);
  }
  delete ZS;
  delete ZM;
  ZS = nullptr;
  ZM = nullptr;
  fflush(stdout);
  _exit(0);
}
} // namespace dv

namespace std
{
void __glibcxx_assert_fail(const char *f, int l, const char *fn, const char *c) noexcept
{
  dv::g_assert_msg = std::string(c ? c : "?") + " in " + (fn ? fn : "?") + " at " + (f ? f : "?") + ":" + std::to_string(l);
  if (dv::g_jmp_set) longjmp(dv::g_jmp, 1);
  abort();
}
} // namespace std

int main(int argc, char **argv) { return dv::run(argc, argv); }
