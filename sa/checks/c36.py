"""Conversion between covariance modes. The attribute handler of a distribution is analysed for a change of the covariance
mode, from either mode to either mode, with the dimension arbitrary. Converting to full covariance: every value moved out
of the previous covariance, element j, is written to element j*(dimension+1) of an array of dimension squared elements
that held zeros, for every j below the dimension; converting to diagonal: element j of an array of dimension elements gets
element j*(dimension+1) of the previous one, for every j. That array ends as the covariance. Setting the mode the
distribution already has leaves every element of the covariance, and no change of the mode alters the mean."""
from common import *
from effects import Effects
from c28 import sized

LEVEL = 'proof'
EXPLANATION = ('Polynomial relation between the element read and the element written by every move of a covariance value, and '
               'the range of its counter, in every pair of modes.')

G = 'xmm::GaussianDistribution'
COV = F('covariance')
D = ('in', F('dimension', 'value_'))
DI = ('in', F('dimension_input', 'value_'))
DD = pmul(D, D)


class C(LoopTrack):
    def __init__(self, p, ef):
        self.p, self.ef = p, ef
        self.off = set()

    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'e':
            it.log(('w', loc, val, st.clone(), node, fr.func))
        if loc == COV:
            st.tr['set'] = tuple(sorted(set(st.tr.get('set', ())) | {str(val[0]) if isinstance(val, tuple) and val else '?'}))

    def on_bulk(self, it, st, loc, node=None, fr=None, *a):
        it.log(('bulk', loc, node))

    def on_call(self, it, st, node, callee, obj, args, fr):
        g = self.p.funcs.get((callee or {}).get('id'))
        if not g or obj != ('T',) or g.get('cls') != G or not g.get('body'):
            return None
        sm = self.ef.of(g['id'], G)
        w = {x[1][0] for x in sm.w if x[0] == 'this' and x[1]}
        if w & {'covariance', 'mean'}:
            return None
        st = st.clone()
        for n in sorted(w):
            it.drop(st, F(n))
        return [(st, None if g.get('rt') == 'void' else it.fresh(st, ('r', g['n'])))]


def run(r):
    p = r.p
    ef = Effects(p)
    E = next((e for q, e in p.enums.items() if q.endswith('GaussianDistribution::CovarianceMode')), None)
    M = {x['n']: x['v'] for x in E['e']}
    n = 0
    for f in p.methods[G].get('onAttributeChange', []):
        if f.get('body'):
            n += 1
            for old in ('Diagonal', 'Full'):
                for new in ('Diagonal', 'Full'):
                    for bi in (False, True):
                        one(r, f, ef, M, old, new, bi)
    r.floor('attribute handlers of a distribution', n, 1)


def orig(v):
    """index of the element of the previous covariance a value is"""
    if v[0] == 'in' and v[1][0] == 'e' and v[1][1] == COV:
        return v[1][2]
    return None


def same(x):
    return x in (('in', COV), ('obj', COV))


def one(r, f, ef, M, old, new, bi):
    it = Interp(r.p, C(r.p, ef))
    n0 = DD if old == 'Full' else D

    def setup(it, st, fr):
        st.env[F('covariance_mode', 'value_')] = ('i', M[new])
        seed_bool(it, st, F('bimodal_'), bi)
        st.env[('f', COV, '#size')] = n0
        st = sized(it, st, bi)
        return st
    res = r.analyse(it, f, cls=G, setup=setup, args=[('addr', F('covariance_mode'))])
    if res is None:
        return
    key = 'from %s to %s%s' % (old, new, ' (bimodal)' if bi else '')
    w = r.where(f)
    ws = [j for j in it.journal if j[0] == 'w']
    moves = [j for j in ws if orig(j[2]) is not None]
    r.ob('ends normally: ' + key, bool(res[0]) or None, w)
    for s, _ in res[0]:
        m = it.load(s, F('mean'))
        r.ob('the mean is kept: ' + key, True if m in (('in', F('mean')), ('obj', F('mean'))) or not any(
            root_of(j[1])[0] == 'T' and 'mean' in loc_path(j[1]) for j in ws) else None, w)
        if old != new and n0 != (DD if new == 'Full' else D) and it.truth(s, ('cmp', 'eq', psub(D, ONE))):
            continue                        # the modes are the same thing in one dimension
        v = it.load(s, COV)
        size = it.load(s, ('f', COV, '#size'))
        mine = [j for j in ws if j[1][1] == COV]
        if old == new:
            ok = True if (same(v) or not s.tr.get('set')) and size == n0 and all(orig(j[2]) == j[1][2] for j in mine) else None
            if not ok and moves:
                ok = True if all(psub(orig(j[2]), j[1][2]) == ZERO for j in moves) and size == n0 else None
            if size != n0 and isinstance(psub(size, n0), tuple) and plain(it, psub(size, n0)) and psub(size, n0)[0] == 'poly':
                ok = False if set(lvs(size)) == set() else None
            r.ob('the covariance is kept: ' + key, ok, w, 'its size becomes %s' % show(size)[:60])
            continue
        want = DD if new == 'Full' else D
        d = psub(size, want)
        z = d == ZERO or it.truth(s, ('cmp', 'eq', d))
        if not z and it.truth(s, ('cmp', 'le', psub(DD, D))):
            continue                        # dimension one
        r.ob('the covariance gets the size of the mode: ' + key, True if z else False if plain(it, d) and not lvs(d) else None, w,
             'its size becomes %s' % show(size)[:60])
    if old == new:
        return
    if moves and all(root_of(j[1])[0] == 'L' for j in moves):
        for s, _ in res[0]:
            if it.load(s, ('f', COV, '#size')) in (n0, ) or it.truth(s, ('cmp', 'le', psub(DD, D))):
                continue
            r.ob('the new array becomes the covariance: ' + key, not set(s.tr.get('set', ())) <= {'resize'}, w,
                 'the covariance is only resized')
    if not moves:
        r.ob('the variances are kept: ' + key, False if not ws and not any(j[0] == 'bulk' for j in it.journal) else None, w,
             'no variance is moved to the new covariance')
        return
    done = None
    for _, loc, val, st, node, func in moves:
        i, j = loc[2], orig(val)
        if isinstance(i, tuple) and i[:1] == ('rng',) or isinstance(j, tuple) and j[:1] == ('rng',):
            r.ob('each variance is moved to its place: ' + key, None, r.where(func, node))
            continue
        small, big = (i, j) if new == 'Diagonal' else (j, i)
        d = psub(big, pmul(small, padd(D, ONE)))
        z = d == ZERO or it.truth(st, ('cmp', 'eq', d))
        zz = True if z else False if set(lvs(d)) | set(lvs(small)) and only(d) and only(small) else None
        r.ob('each variance is moved to its place: ' + key, zz, r.where(func, node), 'element %s becomes element %s' % (
            show(j)[:80], show(i)[:80]))
        if z:
            c = spans(it, small, ZERO, D)
            done = c if done is None or c else done
        if new == 'Full':
            b = it.load(it.loop_entry.get(next(iter(lvs(i)))[1], st) if lvs(i) else st, loc[1])
            zero = None
            if b[0] == 'vec':
                zero = b[2] in (('f64', 0.0), ('i', 0), None) or (b[2][0] in ('op',) and str(b[2][1]).startswith('default'))
                zero = True if zero else False if b[2][0] in ('f64', 'i', 'in') else None
            r.ob('correlations start at zero: ' + key, zero, r.where(func, node), 'the new covariance holds %s' % show(b)[:60])
    r.ob('every variance is moved: ' + key, done, w, 'the counter does not run over every dimension')


def only(v):
    """a polynomial of the dimension and counters alone"""
    return all(a in (D, DI) or a[0] == 'lv' for m in to_poly(v) for a in m)
