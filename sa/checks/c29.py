"""(A) Every public function of a distribution or per-class model that handles the modalities of its argument separately
(input-only likelihood, joint likelihood, regression) is analysed with the modality off: it never ends normally, and at
the throw no element of the observation has been read and nothing has been written; with
the modality on it can end normally. (B) With the modality on, every access to the observation in these functions is
below the input dimension, to the joint output below the output dimension, and the predicted vector has exactly the
output dimension at the end. (C) In every function that evaluates densities, the density called fits the modality of the
model on every path: none of the functions of (A) on a unimodal model, no unimodal density on a bimodal one. (D) At the
end of the regression of a per-class model and of filtering with a model, bimodal, the output values have the output
dimension and the variances that many entries, or its square with full covariance."""
from common import *
from prog import walk
from bounds import inside
from slicer import Slicer

LEVEL = 'proof'
EXPLANATION = ('Case analysis of the modality guards, bounds of observation accesses, modality/callee agreement at every '
               'density call and result sizes by abstract interpretation.')

G = 'xmm::GaussianDistribution'
S = 'xmm::SingleClassGMM'
LOCAL = ('L', 'tmp', 'retv')
SPLIT = (G, 'likelihood_input'), (G, 'likelihood_bimodal'), (G, 'regression'), (S, 'obsProb_input'), (S, 'obsProb_bimodal')
JOINT = (G, 'likelihood'), (S, 'obsProb')


def modality(it, st, cls, bi):
    """the model's modality is bi; dimensions are consistent"""
    if any(fd['n'] == 'bimodal_' for _, fd in it.p.fields(cls)):
        seed_bool(it, st, F('bimodal_'), bi)
        base = ('T',)
    else:
        base = it.deref(it.load(st, F('shared_parameters')))
        seed_bool(it, st, ('f', ('f', base, 'bimodal'), 'value_'), bi)
    d, di = (it.load(st, ('f', ('f', base, k), 'value_')) for k in ('dimension', 'dimension_input'))
    it.nonneg |= {d, di}
    st.facts = st.facts | {('le', psub(ONE, d)), ('le', padd(psub(di, d), ONE))}
    if bi:
        st.facts = st.facts | {('le', psub(ONE, di))}
    return d, di


class Guard(Client):
    def __init__(self, f, bi):
        self.f, self.bi = f, bi
        self.data = {x['n'] for x in f['params'] if '*' in x['t'] or 'vector' in x['t']}

    def param_of(self, loc):
        """name of the array argument loc is an element of"""
        l = loc
        if l[0] != 'e':
            return None
        b = l[1]
        while b[0] in ('d', 'f', 'e') and b[1] and isinstance(b[1], tuple):
            b = b[1]
        if b[0] == 'in':
            b = b[1]
        return b[1] if b[0] == 'A' and b[1] in self.data else None

    def on_read(self, it, st, loc, node, fr, *a):
        if loc[0] == 'e':
            n = self.param_of(loc)
            if n:
                it.log(('acc', n, st.clone(), loc[2], node))
                st.tr.setdefault('rd', n)

    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'e' and self.param_of(loc):
            it.log(('acc', self.param_of(loc), st.clone(), loc[2], node))
        if root_of(loc)[0] not in LOCAL:
            st.tr.setdefault('wr', show(loc))

    def on_call(self, it, st, node, callee, obj, args, fr):
        g = it.p.funcs.get((callee or {}).get('id'))
        if g and (g.get('cls'), g['n']) in SPLIT + JOINT:
            if not self.bi and (g['cls'], g['n']) in SPLIT:      # by the same rule
                it.throw(st.clone(), 'std::runtime_error', node, fr)
                return []
            if g['id'] != self.f['id']:
                st.tr.setdefault('rd', g['n'])
            return [(st, it.fresh(st, ('dens', node.get('l'), g['n'])))]
        return None


def guards(r):
    p = r.p
    n = 0
    for cls, name in SPLIT:
        for f in p.methods.get(cls, {}).get(name, []):
            if not f.get('body'):
                continue
            n += 1
            for bi in (False, True):
                cl = Guard(f, bi)
                it = Interp(p, cl, budget=120000)
                dims = {}

                def setup(it, st, fr):
                    dims['d'], dims['i'] = modality(it, st, cls, bi)
                    return st
                a = r.analyse(it, f, cls=cls, setup=setup)
                if a is None:
                    continue
                w = r.where(f)
                if not bi:
                    r.ob('%s: refused on unimodal' % f['q'], not a[0], w, 'a unimodal model carries it out')
                    for s, ty, info in a[1]:
                        e = s.tr.get('rd') or s.tr.get('wr')
                        r.ob('%s: refused before anything is read' % f['q'], not e, '%s:%s' % info[1:],
                             '%s is used before the refusal' % e)
                    continue
                r.ob('%s: carried out on bimodal' % f['q'], bool(a[0]), w, 'never ends normally')
                out = psub(dims['d'], dims['i'])
                for j in it.journal:
                    if j[0] != 'acc':
                        continue
                    _, nm, s, i, node = j
                    which = [x['n'] for x in f['params'] if x['n'] in cl.data]
                    lim, what = (dims['i'], 'input') if which and nm == which[0] else (out, 'output')
                    ok = inside(it, s, i, lim)
                    r.ob('%s: %s[] within the %s dimension, line %s' % (f['q'], nm, what, node.get('l')), ok,
                         r.where(f, node), 'index %s may exceed the %s dimension' % (show(i), what))
                if (cls, name) == (G, 'regression'):
                    for s, v in a[0]:
                        sz = it.load(s, ('f', ('A', f['params'][1]['n']), '#size'))
                        r.ob('%s: predicts as many values as there are outputs' % f['q'], equal(it, s, sz, out), w,
                             'the predicted vector has %s entries' % show(sz))
    r.floor('modality guarded functions', n, 5)


def equal(it, s, a, b):
    d = psub(a, b)
    if d == ZERO or it.prove_le(s, d) and it.prove_le(s, psub(ZERO, d)):
        return True
    x = it.assume(s.clone(), ('cmp', 'eq', d), True)
    if x is None or d[0] == 'i':
        return False
    return False if all(t[0] == 'in' for m in to_poly(d) for t in m) else None


# ------------------------------------------------------------------------------------------ (C)
class Fits(Client):
    def __init__(self, bi, split):
        self.bi, self.split = bi, split

    def on_call(self, it, st, node, callee, obj, args, fr):
        g = it.p.funcs.get((callee or {}).get('id'))
        if not g:
            return None
        k = (g.get('cls'), g['n'])
        if k in self.split + JOINT:
            told = any(x[0] == 'b' and x[1][0] == 'in' and x[1][1][0] == 'A' for x in st.facts)    # by a flag argument
            it.log(('dens', g['n'], node, k in self.split, told))
            return [(st, it.fresh(st, ('dens', node.get('l'), g['n'])))]
        if not g.get('cls', '').startswith(('xmm::Shared', 'xmm::Attr')) and g.get('body') and g['n'] not in ('get', 'at'):
            return [(st, it.fresh(st, ('c', node.get('l'), g['n'])) if g.get('rt', 'void') != 'void' else None)]
        return None


def helpers(p):
    """internal functions that predict outputs: only called with the modality on"""
    out = ()
    for cls in sorted(p.methods):
        if any(fd['n'] == 'shared_parameters' for _, fd in p.fields(cls)):
            for f in p.methods[cls].get('regression', []):
                if f.get('body') and f.get('acc') != 'public':
                    out += ((cls, f['n']),)
    return out


def agreement(r):
    p = r.p
    n = 0
    split = SPLIT + helpers(p)
    hot = split + JOINT

    def is_hot(x):
        return isinstance(x, dict) and x.get('k') == 'call' and x.get('c') and \
            (x['c'].get('cls'), x['c'].get('n') or x['c'].get('q', '').split('::')[-1]) in hot
    for f in sorted(p.src_funcs(), key=lambda f: f['id']):
        if not f.get('body') or not f.get('cls') or f['cls'] == G or (f['cls'], f['n']) in SPLIT + JOINT:
            continue
        cs = [x for x in walk(f['body']) if is_hot(x)]
        if not cs or not any(fd['n'] == 'shared_parameters' for _, fd in p.fields(f['cls'])):
            continue
        n += 1
        for bi in (False, True):
            if (f['cls'], f['n']) in split and not bi:
                continue
            g = Slicer(is_hot).function(f)
            cl = Fits(bi, split)
            it = Interp(p, cl, budget=150000)

            def setup(it, st, fr):
                modality(it, st, f['cls'], bi)
                return st
            a = r.analyse(it, g, cls=f['cls'], setup=setup)
            if a is None:
                continue
            k = '%s on a %s model' % (f['q'], 'bimodal' if bi else 'unimodal')
            seen = False
            for j in it.journal:
                if j[0] == 'dens':
                    seen = True
                    r.ob('%s: density fits, line %s' % (k, j[2].get('l')), j[3] == bi or (None if j[4] else False), r.where(f, j[2]), 'calls %s' % j[1])
            r.ob('%s: evaluates a density' % k, True if seen or (f['n'] == 'filter' and not bi) else None, r.where(f),
                 'no density is evaluated')
    r.floor('functions that evaluate densities', n, 6)


# ------------------------------------------------------------------------------------------ (D)
def names_of(v):
    """member names down to the value, innermost last; element steps are '[]'"""
    if v[0] == 'in':
        out, l = [], v[1]
        while isinstance(l, tuple) and l[0] in ('f', 'e'):
            out.append(l[2] if l[0] == 'f' else '[]')
            l = l[1]
        return out[::-1]
    if v[0] == 'prj':
        base = names_of(('in', v[1][2])) if v[1][0] == 'lv' else names_of(v[1])
        return base + [x[1] if x[0] == 'f' else '[]' for x in v[2]]
    if v[0] == 'lv' and isinstance(v[2], tuple) and v[2][0] in ('f', 'e'):
        return names_of(('in', v[2]))
    return []


class Sizes(Client):
    def on_call(self, it, st, node, callee, obj, args, fr):
        g = it.p.funcs.get((callee or {}).get('id'))
        if not g or g['id'] == (fr.func or {}).get('id'):
            return None
        cls = g.get('cls') or ''
        if cls == G and g['n'] == 'regression' or cls.startswith('xmm::SingleClass') and g['n'] in (
                'likelihood', 'regression', 'filter', 'updateAlphaWindow', 'updateResults', 'isTraining') or \
                g['n'] in ('updateResults', 'forward_init', 'forward_update', 'checkTraining', 'check_training'):
            if cls == G and len(args) > 1:                 # by (A) it leaves as many values as there are outputs
                l = it.resolve(st, args[1][1]) if args[1][0] in ('ref', 'obj') else None
                if l:
                    st.env[('f', l, '#size')] = self.out
            return [(st, it.fresh(st, ('c', node.get('l'), g['n'])) if g.get('rt', 'void') != 'void' else None)]
        return None


def sizes(r):
    p = r.p
    E = next((e for q, e in p.enums.items() if q.endswith('GaussianDistribution::CovarianceMode')), None)
    M = {x['n']: x['v'] for x in E['e']}
    n = 0
    jobs = [(c, f) for c, _ in helpers(p) for f in p.methods[c]['regression'] if f.get('body')]
    jobs += [(c, f) for c in ('xmm::GMM', 'xmm::HierarchicalHMM') for f in p.methods.get(c, {}).get('filter', []) if f.get('body')]
    for cls, f in jobs:
        n += 1
        own = 'parameters' if any(fd['n'] == 'parameters' for _, fd in p.fields(cls)) else 'configuration'
        for mode in sorted(M):
            cl = Sizes()
            it = Interp(p, cl, budget=150000)
            dims = {}

            def setup(it, st, fr):
                d, i = modality(it, st, cls, True)
                cl.out = dims['o'] = psub(d, i)
                st.env[F(own, 'covariance_mode', 'value_')] = ('i', M[mode])
                if own == 'configuration':
                    seed_bool(it, st, F('is_training_'), False)
                return st
            a = r.analyse(it, Slicer(lambda x: isinstance(x, dict) and x.get('k') == 'mem' and
                                     x.get('n') in ('output_values', 'output_covariance')).function(f), cls=cls, setup=setup)
            if a is None:
                continue
            o = dims['o']
            key = '%s, %s' % (f['q'], mode)
            r.ob(key + ': ends', bool(a[0]), r.where(f), 'never ends normally')
            for s, v in a[0]:
                for fld, want in (('output_values', o), ('output_covariance', pmul(o, o) if mode == 'Full' else o)):
                    sz = it.load(s, ('f', F('results', fld), '#size'))
                    ns = names_of(sz)
                    if ns[-2:] == [fld, '#size'] and '[]' in ns:
                        ok = True                      # the result of one class or state, by the same rule
                    else:
                        ok = equal(it, s, sz, want)
                    r.ob('%s: size of %s' % (key, fld), ok, r.where(f), '%s has %s entries instead of %s' % (
                        fld, show(sz), show(want)))
    r.floor('predictions', n, 4)


def run(r):
    guards(r)
    agreement(r)
    sizes(r)
