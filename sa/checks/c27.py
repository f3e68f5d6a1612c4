"""The value of every density of a distribution is evaluated symbolically down to its return, with the raw density - the
outermost expression containing an exponential - taken from every class of floating-point values in turn: not-a-number,
both infinities, negative, zero, denormal, and one representative of each interval between (and each of) the literals the
function compares with. Comparisons, isnan/isinf/isfinite/isnormal, fabs, min and max are decided for the class. On every
path that returns, the result is a positive finite number: either the raw density in a class that is one, or a positive
finite literal."""
import math
from common import *
from prog import walk
from c05 import subterms

LEVEL = 'proof'
EXPLANATION = 'Floating-point class analysis of every returned density, exhaustive over the classes the code distinguishes.'

G = 'xmm::GaussianDistribution'


def has_exp(v):
    return isinstance(v, tuple) and any(isinstance(t, tuple) and len(t) >= 2 and t[0] == 'op' and t[1] in (
        'exp', 'exp2', 'expf', 'expm1') for t in subterms(v))


def lit(v):
    if v[0] == 'f64':
        return float(v[1])
    if v[0] == 'i':
        return float(v[1])
    return None


def val(v, x):
    """the number v stands for when the raw density is x; None: unknown"""
    c = lit(v)
    if c is not None:
        return c
    if v[0] == 'op' and len(v) >= 3:
        k = v[1]
        if k in ('fabs', 'abs', 'fabsf'):
            y = val(v[2], x)
            return None if y is None else abs(y)
        if k in ('max', 'min', 'fmax', 'fmin') and len(v) == 4:
            a, b = val(v[2], x), val(v[3], x)
            if a is None or b is None:
                return None
            if k == 'max':
                return b if a < b else a
            if k == 'min':
                return b if b < a else a
            if math.isnan(a):
                return b
            if math.isnan(b):
                return a
            return max(a, b) if k == 'fmax' else min(a, b)
    return x if has_exp(v) else None


class F27(OrderInterp):
    def __init__(self, prog, client, x, **kw):
        self.x = x

        def rank(it, st, v):
            y = val(v, x)
            return None if y is None else 'nan' if math.isnan(y) else y
        super().__init__(prog, client, rank, **kw)


class Cl(Client):
    def __init__(self, x):
        self.x = x

    def on_call(self, it, st, node, callee, obj, args, fr):
        if not callee or callee.get('id') in it.p.funcs or obj:
            return None
        nm = (callee.get('n') or '').strip('_')
        vs = [it.aval(st, a, 'double') for a in args]
        if nm in ('isnan', 'isinf', 'isfinite', 'isnormal', 'isinf_sign', 'signbit') and len(vs) == 1 and vs[0] is not None:
            y = val(vs[0], self.x)
            if y is None:
                return None
            b = {'isnan': math.isnan(y), 'isinf': math.isinf(y), 'isfinite': math.isfinite(y), 'isinf_sign': math.isinf(y),
                 'isnormal': math.isfinite(y) and abs(y) >= 2.3e-308, 'signbit': math.copysign(1, y) < 0}[nm]
            return [(st, TRUE if b else FALSE)]
        if nm in ('max', 'min', 'fmax', 'fmin', 'fabs') and vs and None not in vs and any(has_exp(v) for v in vs):
            return [(st, ('op', nm) + tuple(vs))]
        return None


def literals(p, f, seen):
    """floating literals of the function and what it calls in the library"""
    out = set()
    if f['id'] in seen or not f.get('body'):
        return out
    seen.add(f['id'])
    for x in walk([f['body']]):
        if x.get('k') in ('float', 'int') and isinstance(x.get('v'), (int, float)):
            out.add(float(x['v']))
        if x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('id') in p.funcs:
            out |= literals(p, p.funcs[x['c']['id']], seen)
        if x.get('k') == 'glob':
            out |= {float(t) for t in (1e-180, 1e-300)}
    return out


def classes(ls):
    inf = float('inf')
    pts = sorted({x for x in ls if math.isfinite(x)} | {0.0, 1e-180, 5e-324, 2.3e-308, 1.0, 1.7e308} | {-x for x in ls if x})
    out = {float('nan'), inf, -inf, -1.0}
    for a, b in zip(pts, pts[1:]):
        out |= {a, b, a + (b - a) / 2 if math.isfinite(b - a) else a * .5 + b * .5}
        if a > 0:
            out.add(math.exp((math.log(a) + math.log(b)) / 2))
    return sorted(out, key=repr)


def run(r):
    p = r.p
    n = ncls = 0
    for cls in sorted(p.derived(G)):
        for nm, fs in sorted(p.methods[cls].items()):
            for f in fs:
                if not f.get('body') or f.get('rt') not in ('double', 'float') or f.get('acc') != 'public':
                    continue
                if not any(has_call(p, f, set()) for _ in (0,)):
                    continue
                n += 1
                ncls += one(r, cls, f)
    r.floor('densities', n, 3)
    r.floor('value classes evaluated', ncls, 60)


def has_call(p, f, seen):
    if f['id'] in seen or not f.get('body'):
        return False
    seen.add(f['id'])
    for x in walk([f['body']]):
        if x.get('k') == 'call' and isinstance(x.get('c'), dict):
            if (x['c'].get('n') or '').startswith('exp'):
                return True
            if x['c'].get('id') in p.funcs and has_call(p, p.funcs[x['c']['id']], seen):
                return True
    return False


def one(r, cls, f):
    key = '%s::%s' % (cls.split('::')[-1], f['n'])
    w = r.where(f)
    k = 0
    for x in classes(literals(r.p, f, set())):
        it = F27(r.p, Cl(x), x, budget=60000)
        a = r.analyse(it, f, cls=cls)
        if a is None:
            return k
        k += 1
        name = 'not a number' if math.isnan(x) else repr(x)
        for s, v in a[0]:
            y = val(v, x) if v is not None else None
            if y is None:
                r.ob(key + ': positive and finite', None, w, 'returns %s' % (v and show(v)[:80]))
                continue
            ok = y > 0 and math.isfinite(y)
            if not ok and lit(v) is None and any(fa[0] == 'b' and fa[1][0] in ('flt', 'fle') for fa in s.facts):
                ok = None           # the path distinguishes more than the class of the density
            r.ob(key + ': positive and finite', ok, w, 'a density of %s is returned as %s' % (name, y))
        r.ob(key + ': returns', True if a[0] or a[1] else None, w, 'class %s' % name)
    return k
