"""Index bounds of trained quantities. The size every array needs is a function of the model's dimensions: a mean has the
dimension, a covariance and its inverse the dimension or its square (by covariance mode), those of the input the input
dimension or its square, mixture weights one per component, priors and forward variables one per state, transitions two per
state or the square of the states, class-level arrays one per class. (A) The allocating functions leave each array with
that size at every normal end, and whatever else gives such an array a size (results, work arrays of the training, class-level
transitions) gives it that size. (B) Assuming those sizes on entry, each access to an element of such an array, or of an
array of a size known on the path, lies inside it: the largest value of the index, with every counter at the last value
its loop allows, is compared with the size as polynomials over the dimensions. Each function is analysed on its own, in
every modality, covariance mode and topology it refers to; an access whose index or size has other terms is undecided."""
import bounds
from common import *
from effects import Effects
from prog import walk
from c31 import span_of
from c28 import sized
from c05 import subterms

LEVEL = 'other'
EXPLANATION = ('Symbolic index bounds (polynomials over dimensions, states, components and classes) of every element access '
               'of the distributions and models, in each configuration a function distinguishes.')

G = 'xmm::GaussianDistribution'
GM = 'xmm::SingleClassGMM'
HM = 'xmm::SingleClassHMM'
HH = 'xmm::HierarchicalHMM'
KM = 'xmm::KMeans'
CLASSES = (G, GM, HM, 'xmm::GMM', HH, KM)
GROW = ('push_back', 'emplace_back', 'insert', 'emplace')
ALLOC = ('allocate',)
D, DI, NG, NS, NC, NK, NP, ML = (('in', ('sym', x)) for x in ('dimension', 'input dimension', 'components', 'states', 'classes',
                                                      'clusters', 'phrases', 'longest'))
SYMS = (D, DI, NG, NS, NC, NK, NP, ML)


def kind(cls, l):
    """class of the object at a location, from the containers it lies in"""
    if l == ('T',):
        return cls
    if l[0] == 'e' and l[1][0] == 'f':
        n = l[1][2]
        if n == 'components':
            return G
        if n == 'states':
            return GM
        if n == 'models':
            return {'xmm::GMM': GM, HH: HM}.get(cls)
        return None
    if l[0] == 'pair' and l[1][0] == 'f' and l[1][2] == 'models':
        return {'xmm::GMM': GM, HH: HM}.get(cls)
    return None


def within(l, n):
    while l is not None and l[0] in ('f', 'e'):
        if l[0] == 'f' and l[2] == n:
            return True
        l = l[1]
    return False


class Canon:
    """names the dimensions of a model wherever they are read"""

    def __init__(self, it, cls, cfg):
        self.it, self.cls, self.cfg = it, cls, cfg
        self.memo = {}
        self.st = None

    def sym(self, l):
        p = tuple(loc_path(l))          # leaf first
        if p[:1] == ('value_',) and len(p) > 1:
            if p[1] == 'dimension':
                return D
            if p[1] == 'dimension_input':
                return DI
            if p[1] == 'gaussians' and (self.cls in (GM, HM)):
                return NG
            if p[1] == 'states' and self.cls == HM:
                return NS
            if p[1] == 'clusters':
                return NK
            if p[1] in ('gaussians', 'states') and self.cls in ('xmm::GMM', HH) and 'models' in p:
                return ('in', ('sym', p[1], self.elem(l)))
        if p[:1] == ('length_',):
            k = [x for x in subterms(l) if isinstance(x, tuple) and x[:1] == ('mapkey',)]
            if len(set(k)) == 1:
                return ('in', ('sym', 'length', k[0][1]))
            k = [x for x in subterms(l) if isinstance(x, tuple) and x[:1] == ('A',)]
            if not any(x[:1] in (('e',), ('lv',)) for x in subterms(l)) and len(set(k)) == 1:
                return ('in', ('sym', 'length', k[0]))
        if p[:2] == ('#size', 'phrases_') and root_of(l)[0] != 'T':
            return NP
        if p[:1] == ('#size',):
            n = self.size(l[1])
            if n is not None:
                return n
        return ('in', l)

    def elem(self, l):
        while l[0] != 'e' or not (l[1][0] == 'f' and l[1][2] == 'models'):
            if l[0] not in ('f', 'e'):
                return None
            l = l[1]
        return l[2]

    def size(self, l):
        """required size of the array at a location, or None"""
        c = self.cfg
        do = psub(D, DI)
        if l[0] == 'A':
            return c.get('params', {}).get(l[1])
        if c.get('work') and self.cls == HM:
            n = self.work(l)
            if n is not None:
                return n
        if l[0] == 'e':
            if l[1][0] == 'f' and l[1][2] == 'transition' and self.cls == HH and l[1][1] == ('T',):
                return NC
            if l[1][0] == 'f' and l[1][2] == 'alpha_h' and c.get('hier'):
                return self.count('states', l[1][1])
            return None
        if l[0] != 'f':
            return None
        n, o = l[2], l[1]
        k = kind(self.cls, o)
        full = c.get('mode') == 'Full'
        if k == G:
            if n == 'mean':
                return D
            if n in ('covariance', 'inverse_covariance_'):
                return None if 'mode' not in c else pmul(D, D) if full else D
            if not c.get('bi'):
                return None
            if n == 'inverse_covariance_input_':
                return None if 'mode' not in c else pmul(DI, DI) if full else DI
            if n == 'output_covariance' and c.get('oc'):
                return None if 'mode' not in c else pmul(do, do) if full else do
        if k == GM and n in ('components', 'mixture_coeffs', 'beta'):
            return self.count('gaussians', o)
        if k == HM:
            if n in ('states', 'exit_probabilities_') or n == 'prior' and c.get('ergodic') or \
                    n in ('alpha', 'previous_alpha_', 'beta_', 'previous_beta_') and c.get('hier') is False:
                return self.count('states', o)
            if n == 'transition':
                s = self.count('states', o)
                e = c.get('ergodic') if self.cls == HM else self.ergodic(o)
                return None if e is None else pmul(s, s) if e else pmul(('i', 2), s)
        if k in ('xmm::GMM', HH) and o == ('T',):
            if n == 'models':
                return NC
            if k == HH and n in ('prior', 'exit_transition', 'transition', 'frontier_v1_', 'frontier_v2_'):
                return NC
        if o[0] == 'f' and o[2] == 'results' and o[1] == ('T',) and self.cls in ('xmm::GMM', HH) and \
                n in ('instant_likelihoods', 'instant_normalized_likelihoods', 'smoothed_likelihoods',
                      'smoothed_normalized_likelihoods', 'smoothed_log_likelihoods'):
            return NC
        if o[0] == 'f' and o[2] == 'results' and n == 'output_values' and c.get('bi') and \
                (o[1] != ('T',) or c.get('out')):
            return do
        if self.cls == KM and n == 'distances' and o[0] == 'f' and o[2] == 'results':
            return NK
        if k == KM and n == 'centers':
            return pmul(NK, D)
        return None

    def work(self, l):
        """arrays of the training itself, one entry per phrase"""
        if l[0] == 'f' and l[1] == ('T',):
            if l[2] in ('gamma_sequence_', 'epsilon_sequence_', 'gamma_sequence_per_mixture_'):
                return NP
            if l[2] in ('alpha_seq_', 'beta_seq_'):
                return pmul(NS, ML)
            if l[2] == 'gamma_sum_':
                return NS
            if l[2] == 'gamma_sum_per_mixture_':
                return pmul(NS, NG)
            if l[2] in ('alpha', 'previous_alpha_', 'beta_', 'previous_beta_'):
                return NS
            return None
        d, path = 0, []
        while l[0] == 'e':
            path.append(l[2])
            l = l[1]
        if l[0] != 'f' or l[1] != ('T',) or not path:
            return None
        ph = path[-1]
        if l[2] == 'gamma_sequence_per_mixture_' and len(path) == 1:
            return NG
        if ph[0] == 'lv' and len(ph) == 3:
            m = self.it.meta.get(ph[1], {})
            if m.get('entry', {}).get(ph[2]) != ZERO or m.get('step', {}).get(ph[2]) != 1:
                return None
            t = ('in', ('sym', 'length', ph[1]))
        elif ph[0] == 'in' and ph[1][0] == 'A' and self.cfg.get('phrase'):
            t = ('in', ('sym', 'length', ('A', self.cfg['phrase'])))
        else:
            return None
        if l[2] == 'gamma_sequence_' and len(path) == 1 or l[2] == 'gamma_sequence_per_mixture_' and len(path) == 2:
            return pmul(t, NS)
        if l[2] == 'epsilon_sequence_' and len(path) == 1 and 'ergodic' in self.cfg:
            return pmul(pmul(t, NS), NS if self.cfg['ergodic'] else ('i', 2))
        return None

    def ergodic(self, o):
        """topology of one class of a hierarchical model, from what the path knows"""
        self.memo = {}
        for f in self.st.facts if self.st is not None else ():
            if f[0] in ('eq', 'ne') and 'transition_mode' in str(f[1]):
                for m, c in to_poly(f[1]).items():
                    if len(m) != 1 or abs(c) != 1:
                        continue
                    k = psub(f[1], from_poly({m: c}))
                    if k[0] != 'i':
                        continue
                    v = -k[1] * c
                    if v == self.cfg['Ergodic']:
                        return f[0] == 'eq'
                    if f[0] == 'eq':
                        return False
        return None

    def count(self, what, o):
        if self.cls in ('xmm::GMM', HH):
            return ('in', ('sym', what, self.elem(o)))
        return NG if what == 'gaussians' else NS

    def __call__(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self.go(v)
        return r

    def go(self, v):
        if v[0] == 'in' and len(v) == 2:
            return self.sym(v[1])
        if v[0] == 'lv':
            n = self.size(v[2][1]) if isinstance(v[2], tuple) and v[2][:1] == ('f',) and v[2][2] == '#size' else None
            return v if n is None else n
        if v[0] == 'prj' and v[2] and v[2][-1][1:] in (('#size',), ('value_',)) and v[1][0] in ('lv', 'in'):
            l = v[1][2] if v[1][0] == 'lv' else v[1][1]
            for x in v[2]:
                l = (x[0], l, x[1])
            n = self.sym(l)
            return v if n == ('in', l) else n
        if v[0] == 'poly':
            acc = ZERO
            for m, c in to_poly(v).items():
                t = ('i', c)
                for a in m:
                    t = pmul(t, self(a))
                acc = padd(acc, t)
            return acc
        return tuple(self(x) for x in v)


def allowed(v):
    return all(a in SYMS or a[0] == 'in' and a[1][0] == 'sym' for m in to_poly(v) for a in m if a[0] != 'lv')


def decide(it, cn, st, i, size, lo):
    """is the index inside, with everything but the dimensions left undecided"""
    cn.st = st
    i, size = cn(i), cn(size)
    if not allowed(size) or lvs(size):
        return None, i, size
    free = not allowed(i)
    if free and not all(a in SYMS or a[0] in ('in', 'lv') for m in to_poly(i) for a in m):
        return None, i, size
    s = st.clone()
    fs = set()
    for f in s.facts:
        g = tuple([f[0]] + [cn(x) if isinstance(x, tuple) else x for x in f[1:]])
        if g[0] in ('le', 'eq', 'ne') and g[1][0] == 'i':
            n = g[1][1]
            if not {'le': n <= 0, 'eq': n == 0, 'ne': n != 0}[g[0]]:
                return None, i, size        # not a path of this configuration
            continue
        fs.add(g)
    for a in {x for f in fs for x in SYMS if f[0] == 'le'} | set(SYMS):
        it.nonneg.add(a)
        fs.add(('le', psub(ONE, a)))
    for v in (i, size):
        for m in to_poly(v):
            for a in m:
                if a[0] == 'in' and a[1][0] == 'sym':
                    it.nonneg.add(a)
                    fs.add(('le', psub(ONE, a)))
    for a in {x for f in fs for x in subterms(f) if isinstance(x, tuple) and x[:1] == ('in',) and len(x) == 2 and
              isinstance(x[1], tuple) and x[1][:2] == ('sym', 'length')}:
        it.nonneg.add(a)
        fs |= {('le', psub(ONE, a)), ('le', psub(a, ML))}
    if lo:
        fs |= set(lo)
    s.facts = frozenset(fs)
    if free:
        return (True if bounds.inside(it, s, i, size) is True else None), i, size
    # a counter that runs along a map
    todo, seen = set(lvs(i)), set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        ups = bounds.uppers(s, c)
        good = [u for u in ups if allowed(u)]
        if ups and not good:
            return None, i, size
        if not good:
            sp = span_of(it, c)
            ms = [x[1] for x in sp[2] if x[0] in ('map', 'all')] if sp else []
            n = cn(('in', ('f', ms[0], '#size'))) if len(ms) == 1 else None
            if sp is None or sp[1] != 1 or n is None or not allowed(n) or not allowed(sp[0]):
                return None, i, size
            u = psub(padd(sp[0], n), ONE)
            s.facts = s.facts | {('le', psub(c, u))}
            good = [u]
        for u in good:
            todo |= set(lvs(u))
        e = it.meta.get(c[1], {}).get('entry', {}).get(c[2])
        if e is not None:
            if not allowed(e):
                return None, i, size
            todo |= set(lvs(e))
        if not (isinstance(c[2], tuple) and c[2][:1] == ('idx',)) and bounds.steps(it, c) not in (1, -1):
            return (True if bounds.inside(it, s, i, size) else None), i, size
    v = bounds.inside(it, s, i, size)
    if v is False and any(f[0] in ('ne', 'eq') and any(c in m for m in to_poly(f[1]) for c in seen) for f in s.facts):
        v = None                            # more is known about the counter than its bounds
    if v is False and any(f[0] == 'b' and any(c in str(f) for c in map(str, seen)) for f in s.facts):
        v = None
    if v is False and other_bounds(s, i, seen):
        v = None
    return v, i, size


def other_bounds(s, i, seen):
    """a fact relating the counters of the index to each other or to something else, other than a plain upper bound"""
    for f in s.facts:
        if f[0] != 'le':
            continue
        d = to_poly(f[1])
        cs = [c for c in seen if any(c in m for m in d)]
        if not cs:
            continue
        if any(m.count(c) and m != (c,) for c in cs for m in d):
            return True
        if any(d.get((c,), 0) > 0 for c in cs) and not allowed(f[1]):
            return True
    return False


class Acc(LoopTrack):
    def __init__(self, p, ef, cls, top):
        self.p, self.ef, self.cls, self.top = p, ef, cls, top
        self.calls = set()
        self.carr = {fd['n'] for q in p.classes for _, fd in p.fields(q) if fd['t'].endswith(']')}

    def seen(self, it, st, loc, node, fr):
        if loc[0] != 'e' or loc[1][0] == 'd' or fr.func is None:
            return
        i = loc[2]
        if not isinstance(i, tuple) or i[0] in ('s', 'mapkey', 'rng'):
            return
        if loc[1][0] == 'f' and loc[1][2] in self.carr:
            return
        if root_of(loc)[0] == 'A' and 'Json' in next((x['t'] for x in fr.func['params'] if x['n'] == root_of(loc)[1]), ''):
            return
        size = it.load(st, ('f', loc[1], '#size'))
        it.log(('AC', loc, i, size, st.clone(), node, fr.func))

    def on_read(self, it, st, loc, node, fr):
        self.seen(it, st, loc, node, fr)

    def on_write(self, it, st, loc, val, node, fr):
        if ((node or {}).get('c') or {}).get('n') in GROW:
            return                          # adds an element
        self.seen(it, st, loc, node, fr)
        if isinstance(val, tuple) and val[:1] in (('resize',), ('vec',)) and fr.func is not None:
            it.log(('RS', loc, val[1], None, st.clone(), node, fr.func))

    def on_call(self, it, st, node, callee, obj, args, fr):
        g = self.p.funcs.get((callee or {}).get('id'))
        if g and obj == ('T',):
            self.calls.add(g['id'])
        if not g or not g['q'].startswith('xmm::') or g.get('ctor') or not g.get('body'):
            return None
        if (g.get('cls') or '').startswith('xmm::Attribute') or g.get('static') or not g.get('cls'):
            return None
        if not any(n.get('k') in ('while', 'for', 'rfor', 'do') for n in walk(g['body'])) and len(list(walk(g['body']))) < 60:
            return None
        if g['n'] in ('allocate',) and self.cls == G:
            return None
        sm = self.ef.of(g['id'], g.get('cls') or None)
        st = st.clone()
        if obj is not None:
            o = it.resolve(st, obj)
            for x in sorted({x[1][:1] for x in sm.w if x[0] == 'this' and x[1]}, key=repr):
                l = ('f', o, x[0])
                it.drop(st, l)
                t = next((fd['t'] for _, fd in self.p.fields(g['cls']) if fd['n'] == x[0]), '')
                if 'std::' not in t and 'xmm::' not in t and 'Attribute' not in t:
                    it.havoc(st, l, (node.get('l'), x[0]))
                elif any(len(y[1]) > 1 and 'value_' in str(y[1]) for y in sm.w if y[0] == 'this' and y[1][:1] == (x[0],)):
                    it.havoc(st, l, (node.get('l'), x[0]))      # parameters change
        for x in sm.w:
            if x[0][0] == 'p' and x[0][1] < len(args):
                k, l = args[x[0][1]][0], args[x[0][1]][1]
                if k in ('ref', 'obj', 'loc', 'addr'):
                    l = it.resolve(st, l)
                    it.drop(st, l)
                    it.havoc(st, l, (node.get('l'), x[0][1]))
                    it.store(st, ('f', l, '#size'), it.fresh(st, ('sz', node.get('l'), x[0][1])))
        rt = g.get('rt', 'void')
        return [(st, None if rt == 'void' else it.fresh(st, ('r', g['n'], node.get('l'))))]


def mentions(p, f, names):
    return any(n.get('n') in names or n.get('t') in names for n in walk(f['body'])) if f.get('body') else False


def configs(p, cls, f):
    """the configurations a function distinguishes"""
    ms = {n.get('n') for n in walk(f['body'])}
    out = [{}]

    def cross(k, vs):
        return [dict(c, **{k: v}) for c in out for v in vs]
    if ms & {'covariance', 'inverse_covariance_', 'inverse_covariance_input_', 'output_covariance', 'covariance_mode'}:
        out = cross('mode', ('Full', 'Diagonal'))
    out = cross('bi', (False, True))
    if cls == HM:
        if ms & {'transition', 'prior', 'transition_mode', 'epsilon_sequence_'}:
            out = cross('ergodic', (True, False))
        out = cross('hier', (True, False))
    if cls == HH:
        out = [dict(c, hier=True) for c in out]
    return out


def setup_for(p, cls, c, M, T):
    def setup(it, st, fr):
        if cls == G:
            seed_bool(it, st, F('bimodal_'), c['bi'])
            if 'mode' in c:
                st.env[F('covariance_mode', 'value_')] = ('i', M[c['mode']])
            return sized(it, st, c['bi'])
        if cls in (GM, HM, 'xmm::GMM', HH):
            d = it.deref(it.load(st, F('shared_parameters')))
            seed_bool(it, st, ('f', ('f', d, 'bimodal'), 'value_'), c['bi'])
        if cls in (GM, HM) and 'mode' in c:
            st.env[F('parameters', 'covariance_mode', 'value_')] = ('i', M[c['mode']])
        if cls == HM:
            if 'ergodic' in c:
                st.env[F('parameters', 'transition_mode', 'value_')] = ('i', T['Ergodic' if c['ergodic'] else 'LeftRight'])
            seed_bool(it, st, F('is_hierarchical_'), c['hier'])
        return st
    return setup


PARAMS = {'likelihood': (D,), 'likelihood_input': (DI,), 'likelihood_bimodal': (DI, psub(D, DI)), 'regression': (DI,), 'regularize': (D,)}
WORK = ('emAlgorithmUpdate', 'baumWelch')


def run(r):
    p = r.p
    ef = Effects(p)
    E = next((e for q, e in p.enums.items() if q.endswith('GaussianDistribution::CovarianceMode')), None)
    M = {x['n']: x['v'] for x in E['e']}
    E = next((e for q, e in p.enums.items() if q.endswith('HMM>::TransitionMode') or q.endswith('HMM::TransitionMode')), None)
    T = {x['n']: x['v'] for x in E['e']}
    n = acc = al = 0
    reach, found = {}, []
    for cls in CLASSES:
        for name, fs in sorted(p.methods.get(cls, {}).items()):
            for f in fs:
                if not f.get('body') or name.startswith('~') or not any(x.get('k') == 'idx' or x.get('op') == '[]' or
                        (x.get('c') or {}).get('n') in ('operator[]', 'at', 'resize', 'assign') for x in walk(f['body'])):
                    continue
                if f.get('ctor'):
                    continue
                n += 1
                for c in configs(p, cls, f):
                    a, b = one(r, cls, f, c, M, T, ef, reach, found)
                    acc += a
                    al += b
    for key, v, w, msg, f, c in found:
        at = reach.get(f['id'], [])
        if v is False and f.get('acc') != 'public' and at and not any(
                all(c[k] == d[k] for k in c if k in d and k in ('mode', 'bi', 'ergodic', 'hier')) for d in at):
            continue                        # never called in this configuration
        r.ob(key, v, w, msg)
    r.floor('functions with element accesses', n, 30)
    r.floor('accesses', acc, 150)
    r.floor('allocated arrays', al, 8)


def to_poly_atoms(v):
    return {a for m in to_poly(v) for a in m}


def longest(it, cn, a):
    """is a variable carried by a loop over the phrases the greatest of their lengths"""
    if len(a) != 3 or not isinstance(a[2], tuple):
        return None
    e = it.meta.get(a[1], {}).get('entry', {}).get(a[2])
    ns = nexts(it, a[1])
    if not ns or e is None or e[0] != 'i':
        return None
    out, kept = True, False
    for s in ns:
        cn.st, cn.memo = s, {}
        v = cn(it.load(s, a[2]))
        T = ('in', ('sym', 'length', a[1]))
        fs = [cn(f[1]) for f in s.facts if f[0] == 'le']
        if v == a:
            kept = True
            d = psub(T, a)                  # length <= best
            if not any(it_le(f, d) for f in fs):
                out = None
        elif v == T:
            d = psub(a, T)                  # best <= length
            if not any(it_le(f, d) for f in fs):
                out = False if out is not None and len({it.load(x, a[2]) for x in ns}) == 1 else None
        elif v[0] == 'op' and v[1] == 'max' and set(v[2:]) == {a, T}:
            continue
        else:
            out = None
    return out if e[1] <= 0 or out is False else None


def it_le(f, d):
    """does f <= 0 give d <= 0"""
    x = psub(d, f)
    return x[0] == 'i' and x[1] <= 0


def ended(cn, s, loc):
    cn.st, cn.memo = s, {}
    return cn(cn.it.load(s, ('f', loc, '#size')))


def one(r, cls, f, c, M, T, ef, reach, found):
    p = r.p
    c = dict(c, Ergodic=T['Ergodic'])
    if cls == G:
        # what is passed in: vectors of the size the operation is for
        sz = PARAMS.get(f['n'], ())
        c['params'] = {x['n']: s for x, s in zip(f['params'], sz)}
        c['oc'] = 'regression' in f['n']
    else:
        c['oc'] = True
        if f['n'] in ('initParametersToDefault',):
            c['params'] = {x['n']: D for x in f['params']}
    if cls == HM and f['n'].startswith(WORK):
        c['work'] = True
        c['phrase'] = next((x['n'] for x in f['params'] if 'Phrase' in x['t']), None)
    cl = Acc(p, ef, cls, f)
    it = Interp(p, cl, budget=200000)
    alloc = f['n'] in ALLOC
    a = r.analyse(it, f, cls=cls, setup=setup_for(p, cls, c, M, T))
    for g in cl.calls:
        reach.setdefault(g, []).append(c)
    if a is None:
        return 0, 0
    cn = Canon(it, cls, c)
    lo = {('le', padd(psub(DI, D), ONE)), ('le', psub(ONE, DI))} if c['bi'] else set()
    for u in it.meta:
        for k in ('entry',):
            e = it.meta[u].get(k, {})
            it.meta[u][k] = {l: cn(v) if v is not None else v for l, v in e.items()}
    done = {}
    n = 0
    for _, loc, i, size, st, node, fn in [j for j in it.journal if j[0] == 'AC']:
        k = (fn['id'], (node or {}).get('l'), loc, i, size, st.facts)
        if k in done:
            continue
        done[k] = 1
        v, ci, cs = decide(it, cn, st, i, size, lo)
        nm = '.'.join(reversed(loc_path(loc[1]))) or str(loc[1][-1])
        n += 1
        if v is None and c.get('hier') and not c.get('work') and nm in ('alpha', 'previous_alpha_', 'beta_', 'previous_beta_'):
            continue                        # released in hierarchical models
        if v is None and (fn.get('cls') or '') not in CLASSES and fn['id'] != f['id'] and fn.get('cls'):
            continue                        # a class of its own
        if v is None and not c['bi'] and loc_path(loc[1])[:1] and loc_path(loc[1])[0] in (
                'output_covariance', 'output_values', 'inverse_covariance_input_'):
            continue                        # unused without an input modality
        found.append(('%s: %s is addressed inside' % (f['q'], nm), v, r.where(fn, node), 'element %s of %s%s' % (
            show(ci)[:80], show(cs)[:60], ' (%s)' % ', '.join('%s %s' % (x, c[x]) for x in sorted(c) if x in ('mode', 'bi', 'ergodic', 'hier')))
            if v is False else '', f, c))
    done = {}
    cn = Canon(it, cls, dict(c, work=True))
    for _, loc, size, _, st, node, fn in [j for j in it.journal if j[0] == 'RS']:
        k = (fn['id'], (node or {}).get('l'), loc, size)
        if k in done:
            continue
        done[k] = 1
        cn.st, cn.memo = st, {}
        want = cn.size(loc)
        if want is None or loc[0] == 'A':
            continue
        have = cn(size)
        ok = None
        for y in [y for y in lvs(have) if y in to_poly_atoms(have)]:
            most = longest(it, cn, y)
            if most:
                have = bounds.subst(have, y, ML)
            elif most is False:
                ok = False
        ok = ok if ok is False else True if have == want else False if allowed(have) and not lvs(have) and have != ZERO else None
        nm = loc_path(loc)[0] if loc_path(loc) else '?'
        nm = '.'.join(x for x in reversed(loc_path(loc)) if isinstance(x, str)) or nm
        if have == ZERO:
            continue                        # emptied
        if ok is False and sum(1 for x in walk(fn['body']) if (x.get('c') or {}).get('n') in GROW and nm.split('.')[-1] in str(
                x.get('o'))) > 0:
            ok = None                       # the rest is added one by one
        if ok is False and not lvs(loc) and a[0] and all(ended(cn, s, loc) == want for s, _ in a[0]):
            ok = True                       # sized again later
        n += 1
        found.append(('%s: %s gets the size its use requires' % (f['q'], nm), ok, r.where(fn, node), 'size %s, required %s%s' % (
            show(have)[:80], show(want)[:60], ' (%s)' % ', '.join('%s %s' % (x, c[x]) for x in sorted(c) if x in ('mode', 'bi', 'ergodic', 'hier'))), f, c))
    m = 0
    cn = Canon(it, cls, c)
    if alloc:
        for s, _ in a[0]:
            for l in arrays(p, cls):
                want = cn.size(l)
                if want is None:
                    continue
                have = cn(it.load(s, ('f', l, '#size')))
                if it.load(s, ('f', l, '#size')) == ('in', ('f', l, '#size')):
                    have = None             # untouched: whatever it was
                m += 1
                ok = None if have is None else True if have == want else False if allowed(have) and not lvs(have) else None
                if have is None and l[2] in ('mean', 'covariance', 'inverse_covariance_', 'inverse_covariance_input_', 'mixture_coeffs', 'beta', 'components',
                                             'alpha', 'states', 'transition'):
                    ok = False
                r.ob('%s: %s has the size its use requires' % (f['q'], l[2]), ok, r.where(f),
                     'size %s, required %s' % (show(have) if have else 'as before', show(want)))
    return n, m


def arrays(p, cls):
    return [F(fd['n']) for _, fd in p.fields(cls) if 'vector<' in fd['t']]
