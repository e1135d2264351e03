#!/usr/bin/env python3
"""Mechanical extraction of the real BSMPT sources for the dv verifier.

Every token of the .h/.cpp files of /repo is kept except for this rewriting:
  double, float, long double   -> dv::Real           (exact real arithmetic)
  floating point literals      -> dv::lit("...")     (the decimal value)
  MatrixXd, VectorXcd, ...     -> MatrixXr, VectorXcr, ...
  SelfAdjoint/ComplexEigenSolver -> dv:: stub with a trusted contract
  std::sqrt, pow(, M_PI, ...   -> dv::m::sqrt, ...
  private:, protected:         -> public:            (contracts see the state)
  double a, b;                 -> ... = dv::undef()  (uninitialised = arbitrary)
  std::thread                  -> dv::InlineThread   (runs at construction)
  functions listed as weak: their definition may be replaced by their contract
  const bool X = ...; listed as switch -> inline bool X = ...;  (a contract sets it)
  method declarations listed in --virtual get `virtual`, so that a contract can
  put the callee's contract in the place of the callee.
Line numbers are kept.
"""
import os, re, sys, hashlib, json

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<raw>R"(?P<d>[^()\s\\]{0,16})\(.*?\)(?P=d)")
 |(?P<str>"(?:\\.|[^"\\\n])*")
 |(?P<chr>'(?:\\.|[^'\\\n])*')
 |(?P<num>(?:0[xX][0-9a-fA-F']+[uUlL]*)|(?:(?:\d[\d']*\.?[\d']*|\.\d[\d']*)(?:[eE][+-]?\d+)?[uUlLfF]*))
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op>::|->\*|->|\+\+|--|<<=|>>=|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|\.\.\.|[-+*/%^&|~!=<>?:;,.(){}\[\]\#\\])
''', re.X | re.S)

MATH = set('sqrt cbrt exp log log10 log2 sin cos tan asin acos atan atan2 sinh cosh tanh '
           'fabs abs floor ceil round pow hypot fmod isnan isinf isfinite norm arg '
           'conj fmax fmin lround tgamma'.split())
STDMATH = MATH | set('to_string stod real imag generate_canonical min max'.split()) - set(['min', 'max'])
EIGEN = {}
for a in ('Matrix', 'Vector', 'RowVector', 'Array'):
    for n in ('X', '2', '3', '4'):
        EIGEN[f'{a}{n}d'] = f'{a}{n}r'
        EIGEN[f'{a}{n}cd'] = f'{a}{n}cr'
CONST = {'M_PI': 'dv::PI()', 'M_E': 'dv::m::exp(1)', 'M_SQRT2': 'dv::m::sqrt(2)',
         'M_PIl': 'dv::PI()', 'NAN': 'dv::undef()', 'INFINITY': 'dv::lit("1e400")'}


def tokenize(src, path):
    toks = []
    i = 0
    line_start = True
    while i < len(src):
        # preprocessor directive
        if line_start:
            m = re.compile(r'[ \t]*#(?:[^\n\\]|\\\n|\\.)*').match(src, i)
            if m:
                toks.append(['pp', m.group(0)])
                i = m.end()
                line_start = False
                continue
        m = TOK.match(src, i)
        if not m:
            raise SystemExit(f'{path}: cannot tokenize at {src[i:i+40]!r}')
        k = m.lastgroup
        if k == 'd':
            k = 'raw'
        t = m.group(0)
        if k == 'num' and not t:
            raise SystemExit('empty')
        toks.append([k, t])
        i = m.end()
        if '\n' in t and k in ('ws', 'bc'):
            line_start = t.rsplit('\n', 1)[1].strip() == '' or k == 'bc'
        elif k == 'ws':
            pass
        else:
            line_start = False
    return toks


def is_float(t):
    if t[:2] in ('0x', '0X'):
        return False
    return '.' in t or 'e' in t or 'E' in t or (t[-1] in 'fF')


SKIP = ('ws', 'lc', 'bc')


def significant(toks):
    return [i for i, (k, t) in enumerate(toks) if k not in SKIP]


def rewrite(src, path, opts):
    toks = tokenize(src, path)
    sig = significant(toks)
    pos = {ix: n for n, ix in enumerate(sig)}

    def T(n):
        return toks[sig[n]][1] if 0 <= n < len(sig) else ''

    def K(n):
        return toks[sig[n]][0] if 0 <= n < len(sig) else ''

    out = [t for _, t in toks]
    virt = opts.get('virtual', {})

    # --- class scopes, for `virtual`, and member/parameter context
    depth = 0
    stack = []  # (depth, classname or None)
    pending = None
    paren = 0
    n = 0
    N = len(sig)
    for n in range(N):
        ix = sig[n]
        k, t = toks[ix]
        if k == 'pp':
            # the BSMPT headers resolve to the generated tree by include path
            continue
        if k == 'num':
            if is_float(t):
                out[ix] = f'dv::lit("{t.rstrip("fFlL").replace(chr(39), "")}")'
            continue
        if k == 'op':
            if t == '(':
                paren += 1
            elif t == ')':
                paren -= 1
            elif t == '{':
                stack.append((pending, paren))
                pending = None
                paren = 0
            elif t == '}':
                if stack:
                    _, paren = stack.pop()
            elif t == ';':
                pending = None
            continue
        if k != 'id':
            continue
        p, nx = T(n - 1), T(n + 1)
        if t in opts.get('switch', ()) and p == 'bool' and T(n - 2) in ('const', 'constexpr') and nx == '=':
            # a compile-time choice: both values are put under contract
            out[sig[n - 2]] = 'inline'
            continue
        if t in ('class', 'struct') and p != 'enum' and K(n + 1) == 'id' and p not in ('<', ','):
            pending = nx
            continue
        if t == 'namespace':
            pending = None
            continue
        if t in ('private', 'protected') and nx == ':':
            out[ix] = 'public'
            continue
        if t in ('double', 'float'):
            out[ix] = 'dv::Real'
            if p == 'long':
                out[sig[n - 1]] = ''
            if n >= 1 and p == 'constexpr':
                out[sig[n - 1]] = 'const'
            # uninitialised declarations
            if p in (';', '{', '}', ':', ')', 'mutable') and K(n + 1) == 'id' and paren == 0:
                j = n + 1
                ok = True
                names = []
                while True:
                    if K(j) != 'id':
                        ok = False
                        break
                    if T(j + 1) in (',', ';'):
                        names.append(j)
                        if T(j + 1) == ';':
                            break
                        j += 2
                        continue
                    if T(j + 1) == '=':
                        # skip the initialiser
                        d = 0
                        q = j + 2
                        while q < N:
                            s = T(q)
                            if s in '([{' and s:
                                d += 1
                            elif s in ')]}' and s:
                                d -= 1
                            elif d == 0 and s in (',', ';'):
                                break
                            q += 1
                        if T(q) == ';':
                            break
                        j = q + 1
                        continue
                    ok = False
                    break
                if ok:
                    for j in names:
                        out[sig[j]] = T(j) + ' = dv::undef()'
            continue
        if t in EIGEN and p not in ('.', '->'):
            out[ix] = EIGEN[t]
            continue
        if t in ('SelfAdjointEigenSolver', 'ComplexEigenSolver'):
            if p == '::' and T(n - 2) == 'Eigen':
                out[sig[n - 2]] = 'dv'
            elif p != '::':
                out[ix] = 'dv::' + t
            continue
        if t in CONST and p not in ('.', '->', '::'):
            out[ix] = CONST[t]
            continue
        if t == 'thread' and p == '::' and T(n - 2) == 'std' and nx != '::':
            out[sig[n - 2]] = 'dv'
            out[ix] = 'InlineThread'
            continue
        if t in STDMATH and p == '::' and T(n - 2) == 'std':
            out[sig[n - 2]] = 'dv::m'
            continue
        if t in MATH and nx == '(' and p not in ('.', '->', '::'):
            # a declaration/definition of a function of that name?
            if K(n - 1) == 'id' and p not in ('return', 'else', 'case', 'throw', 'and', 'or', 'not', 'in'):
                continue
            out[ix] = 'dv::m::' + t
            continue
        # free function whose body a contract replaces by the function's own contract
        wk = t
        k0 = n + 1
        if t == 'operator' and nx == '(' and T(n + 2) == ')' and T(n + 3) == '(':
            wk, k0 = 'operator()', n + 3
        if p == '::':
            wk = T(n - 2) + '::' + wk
        if (wk in opts.get('weak', ()) or t in opts.get('weak', ())) and T(k0) == '(' and path.endswith('.cpp') and p not in ('.', '->', 'return', '=', '+', '-', '*', '/', '(', ','):
            d, j = 0, k0
            while j < N:
                d += T(j) == '('
                d -= T(j) == ')'
                if d == 0:
                    break
                j += 1
            if T(j + 1) == 'const':
                j += 1
            if T(j + 1) == '{':
                j = n - 1
                while j >= 0 and T(j) not in (';', '{', '}') and K(j) != 'pp':
                    j -= 1
                first = sig[j + 1]
                out[first] = '__attribute__((weak)) ' + out[first]
            continue
        # virtual insertion: in class body at declaration level
        if virt and stack and stack[-1][0] in virt and t in virt[stack[-1][0]] and nx == '(' and paren == 0:
            # walk back to the statement start
            j = n - 1
            while j >= 0 and T(j) not in (';', '{', '}', ':') :
                j -= 1
            if T(j) == ':' and T(j - 1) not in ('public', 'private', 'protected'):
                while j >= 0 and T(j) not in (';', '{', '}'):
                    j -= 1
            words = [T(q) for q in range(j + 1, n)]
            if 'virtual' not in words and 'static' not in words and 'return' not in words and words:
                first = sig[j + 1]
                out[first] = 'virtual ' + out[first]
            continue
    res = ''.join(out)
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--out', required=True)
    ap.add_argument('--virtual', default='{}', help='json {class: [methods]}')
    a = ap.parse_args()
    opts = {'virtual': json.loads(a.virtual)}
    extract(a.repo, a.out, opts)


DIRS = ['utility', 'models', 'ThermalFunctions', 'minimizer', 'minimum_tracer', 'bounce_solution',
        'gravitational_waves', 'transition_tracer']


def extract(repo, outdir, opts):
    files = []
    for base, sub in (('include/BSMPT', True), ('src', True)):
        for d in DIRS:
            for root, dirs, fs in os.walk(os.path.join(repo, base, d)):
                for f in sorted(fs):
                    if f.endswith(('.h', '.cpp', '.hpp')):
                        files.append(os.path.join(root, f))
    patches = opts.get('patch', {})
    for f in files:
        rel = os.path.relpath(f, repo)
        dst = os.path.join(outdir, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        src = open(f, encoding='utf-8', errors='replace').read()
        txt = rewrite(src, f, opts)
        hdr = f'#include "dv.h"\n#line 1 "{f}"\n'
        txt = hdr + txt
        if not (os.path.exists(dst) and open(dst).read() == txt):
            open(dst, 'w').write(txt)
    cfg = os.path.join(outdir, 'include/BSMPT/config.h')
    c = '#pragma once\n#define NLopt_FOUND\n#define nlohmann_json_FOUND\n'
    os.makedirs(os.path.dirname(cfg), exist_ok=True)
    if not (os.path.exists(cfg) and open(cfg).read() == c):
        open(cfg, 'w').write(c)
    return files


if __name__ == '__main__':
    main()
