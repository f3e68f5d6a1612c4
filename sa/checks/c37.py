"""The best element. Wherever recognition leaves the likeliest class (class models), the likeliest state (one class of a
Markov model) or the likeliest cluster (k-means), and where the training of k-means counts a frame for a cluster, the value comes from a loop that keeps the best element so far. Over all
paths through one iteration: the result is replaced exactly when the element's quantity compares better than the running
best (or in the first iteration), it becomes the element compared, and the running best becomes that quantity at the same
time; otherwise both stay. Better is greater for likelihoods and smaller for distances; classes are compared by their
smoothed likelihood. The running best starts from the first element, from an impossible value, or is taken over
unconditionally in the first iteration, and the loop runs over all elements. In regression with the likeliest class or
state, the outputs come from exactly that class or state, and every position of the class-level results used in a loop
over the classes is the position of the class at hand."""
from common import *
from c05 import subterms
from c26 import Canon, NK, NS
from c31 import span_of
from prog import walk

LEVEL = 'other'
EXPLANATION = ('Relational loop analysis: every path through one iteration relates the running best, its index and the '
               'comparison made.')

HH = 'xmm::HierarchicalHMM'
HM = 'xmm::SingleClassHMM'
# class, function, result, better, number of elements, word the compared quantity has
WHAT = (('xmm::GMM', 'likeliest', 'max', None), (HH, 'likeliest', 'max', None),
        ('xmm::KMeans', 'likeliest', 'min', NK), (HM, 'likeliest_state', 'max', NS))
FLOATMAX = 3.4028234663852886e38


class C(LoopTrack):
    def __init__(self, p, cls, stubs=()):
        self.p, self.cls, self.stubs = p, cls, stubs

    def on_call(self, it, st, node, callee, obj, args, fr):
        g = self.p.funcs.get((callee or {}).get('id'))
        if not g or not g.get('body'):
            return None
        if not g.get('cls') and g['q'].startswith('xmm::') and g.get('rt') in ('float', 'double') or g['n'] in self.stubs:
            if g.get('rt', 'void') == 'void':
                return [(st, None)]
            if g['n'] == 'euclidean_distance' and len(args) > 1 and all(a and a[0] in ('addr', 'in', 'iter', 'ref') for a in args[:2]):
                return [(st, ('op', 'distance', args[0], args[1]))]
            return [(st, it.fresh(st, ('r', g['n'], node.get('l'))))]
        return None

    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'e' and isinstance(loc[2], tuple) and lvs(loc[2]):
            it.log(('ix', loc))
        if loc[0] == 'e' and loc[1][0] == 'f' and loc[1][1] == F('results'):
            it.log(('w', loc, val, st.clone(), node, fr.func))

    def on_read(self, it, st, loc, node, fr):
        if loc[0] == 'e' and loc[1][0] == 'f' and loc[1][1] == F('results'):
            it.log(('w', loc, None, st.clone(), node, fr.func))


def run(r):
    p = r.p
    n = k = 0
    for cls, fld, way, count in WHAT:
        fs = [f for f in p.src_funcs() if f.get('cls') == cls and f.get('body') and not f.get('ctor') and
              any(assigns(x, fld) for x in walk(f['body']))]
        n += len(fs)
        for f in fs:
            for hier in (False, True) if cls == HM else (None,):
                k += best(r, f, cls, fld, way, count, hier)
    r.floor('functions using the likeliest element', n, 4)
    r.floor('selections of the best element', k, 1)
    m = 0
    for f in p.src_funcs():
        if f.get('cls') == 'xmm::KMeans' and f.get('body') and f['n'] not in ('filter',):
            m += nearest(r, f)
    r.floor('functions choosing a cluster for each frame', m, 1)
    positions(r)


def nearest(r, f):
    """frames counted for the cluster a loop over the clusters found"""
    if not any((x.get('c') or {}).get('n') == 'euclidean_distance' for x in walk(f['body'])):
        return 0
    it = Interp(r.p, C(r.p, 'xmm::KMeans', ('updateCenters',)), budget=200000)
    res = r.analyse(it, f, cls='xmm::KMeans')
    src = set()
    for _, loc in [j for j in it.journal if j[0] == 'ix']:
        for c in lvs(loc[2]):
            if len(c) == 3 and isinstance(c[2], tuple) and c[2][0] in ('L', 'f') and it.meta.get(c[1], {}).get('step', {}).get(
                    c[2]) not in (1, -1) and any(x[0] == 'b' and isinstance(x[1], tuple) and x[1][0] in ('flt', 'fle')
                                                 for s in nexts(it, c[1]) for x in s.facts):
                src.add((c[1], c[2]))
    for uid, loc in sorted(src, key=repr):
        one(r, it, '%s: cluster of a frame' % f['q'], r.where(f), 'xmm::KMeans', None, 'min', NK, uid, loc, f)
    return 1


def assigns(x, fld):
    op = x.get('op') or (x.get('c') or {}).get('n', '')
    if op not in ('=', 'operator=', 'assign'):
        return False
    t = x.get('x') or x.get('o') or (x.get('args') or x.get('a') or [None])[0]
    return isinstance(t, dict) and t.get('n') == fld


def better(way, a, b, op, val, x, M):
    """what a comparison fact says: True (x strictly better or tied-better), False (not better), 'worse'"""
    # op(a, b) is val; a < b or a <= b
    lt = (a == M and b == x)             # M < x
    if not val:                          # not (M < x)  ->  x <= M ; not (M <= x) -> x < M
        bigger, strict = not lt, op == 'flt'
        strict = op == 'fle'
    else:
        bigger, strict = lt, op == 'flt'
    # bigger: x is above M (strictly or not); otherwise below
    good = bigger if way == 'max' else not bigger
    return good, strict


def comps(s, uid, M, x=None):
    out = []
    for f in s.facts:
        if f[0] == 'b' and isinstance(f[1], tuple) and f[1][0] in ('flt', 'fle') and len(f[1]) == 3:
            a, b = f[1][1:]
            if M in (a, b) and a != b:
                out.append((f[1][0], a, b, f[2], b if a == M else a))
    return out


def best(r, f, cls, fld, way, count, hier):
    p = r.p
    it = Interp(p, C(p, cls), budget=200000)
    FL = F('results', fld)

    def setup(it, st, fr):
        if hier is not None:
            seed_bool(it, st, F('is_hierarchical_'), hier)
        return st
    res = r.analyse(it, f, cls=cls, setup=setup)
    if res is None:
        return 0
    src = set()
    for s, _ in res[0]:
        v = it.load(s, FL)
        if v[0] == 'lv' and len(v) == 3:
            src.add((v[1], v[2]))
    nm = '%s%s' % (f['q'], '' if hier is None else ' (hierarchical)' if hier else ' (alone)')
    w = r.where(f)
    if not src:
        return 0
    for uid, loc in sorted(src, key=repr):
        one(r, it, nm, w, cls, fld, way, count, uid, loc, f)
    return 1


def firsts(it, s, uid):
    m = it.meta.get(uid, {})
    for l, e in m.get('entry', {}).items():
        if m.get('step', {}).get(l) in (1, -1) and e is not None and e[0] in ('i', 'in', 'poly'):
            if it.truth(s, ('cmp', 'eq', psub(('lv', uid, l), e))) is True:
                return True
    return any(f[0] in ('b', 'eq') and "'first'" in str(f) and str(uid) in str(f) and f[-1] is not False for f in s.facts)


def one(r, it, nm, w, cls, fld, way, count, uid, loc, f):
    m = it.meta.get(uid, {})
    ns = nexts(it, uid)
    L0 = ('lv', uid, loc)
    # the running best: a value carried by the loop and compared with something of the iteration
    cand = {}
    for s in ns:
        for fact in s.facts:
            if fact[0] == 'b' and isinstance(fact[1], tuple) and fact[1][0] in ('flt', 'fle'):
                for M, x in ((fact[1][1], fact[1][2]), (fact[1][2], fact[1][1])):
                    if M[0] == 'lv' and M[1] == uid and M[2] != loc and x[0] not in ('i', 'f64'):
                        cand.setdefault(M, set()).add(x)
    cand = {M: xs for M, xs in cand.items() if any(it.load(s, M[2]) in xs for s in ns) or len(cand) == 1}
    if len(cand) != 1:
        ok = None
        for s in ns:
            if not cand and it.load(s, loc) != L0:
                for fact in s.facts:
                    if fact[0] == 'b' and isinstance(fact[1], tuple) and fact[1][0] in ('flt', 'fle') and len(fact[1]) == 3 and any(
                            a[0] in ('i', 'f64', 'in', 'op', 'poly') and str(uid) not in str(a) and "('u'," not in str(a) for a in fact[1][1:]) and any(
                            str(uid) in str(a) or a[0] == 'u' for a in fact[1][1:]):
                        ok = False          # compared with the same value every time
        r.ob('%s: the best element is kept' % nm, ok, w, 'elements are compared with a value that never changes')
        return
    M, xs = next(iter(cand.items()))
    x = min(xs, key=repr)
    # what is compared
    if cls in ('xmm::GMM', HH):
        t = str(x)
        r.ob('%s: classes are compared by their smoothed likelihood' % nm, True if 'log_likelihood' in t or 'smoothed' in t else
             False if 'instant' in t or 'prior' in t else None, w, 'compares %s' % show(x)[:100])
    keys = {a for a in subterms(x) if isinstance(a, tuple) and a[:2] == ('mapkey', uid)}
    idxs = {a[2] for a in subterms(x) if isinstance(a, tuple) and a[:1] == ('e',) and len(a) == 3 and isinstance(a[2], tuple) and
            any(c[1] == uid for c in lvs(a[2]))}
    ctrs = [('lv', uid, l) for l in m.get('step', {}) if m['step'][l] in (1, -1) and l != loc]
    forced = False
    for s in ns:
        L1, M1 = it.load(s, loc), it.load(s, M[2])
        cs = [better(way, a, b, op, val, y, M) for op, a, b, val, y in comps(s, uid, M) if y in xs]
        here = {y for _, _, _, _, y in comps(s, uid, M) if y in xs} or xs
        first = firsts(it, s, uid)
        good = any(g for g, _ in cs)
        bad = any(not g for g, _ in cs)
        tied = all(not st for _, st in cs)
        if L1 != L0:
            forced = forced or first and not cs
            r.ob('%s: replaced only by a better element' % nm, True if good or first and not cs else False if bad and not tied else
                 False if bad and not first else None, w, 'replaced where it compares worse')
            if keys:
                ok = True if L1 in keys else None if not (lvs(L1) or L1[0] in ('i', 'in')) else False
            elif idxs:
                ok = True if L1 in idxs or L1 in ctrs and all(set(c for c in lvs(i) if c[1] == uid) == {L1} for i in idxs) and not (
                    idxs & set(ctrs)) else False if all(c[1] == uid for c in lvs(L1)) and L1[0] in ('i', 'lv', 'poly') else None
            else:
                ok = True if L1 in ctrs else False if L1[0] in ('poly', 'i') and all(a in ctrs for mm in to_poly(L1) for a in mm) \
                    else True if L1[:2] == ('mapkey', uid) else None
            r.ob('%s: the element reported is the one compared' % nm, ok, w, 'reports %s for %s' % (show(L1)[:60], show(x)[:80]))
            r.ob('%s: the best value follows the element' % nm, True if M1 in here else False if M1 == M or M1[0] in (
                'op', 'in') and not str(M1[1]).startswith(('max', 'min', 'f', 'cond')) else None, w,
                 'the running best stays %s' % show(M1)[:60])
        else:
            r.ob('%s: a better element replaces it' % nm, True if bad else False if good and any(st for g, st in cs if g) else None,
                 w, 'kept where another compares better')
            r.ob('%s: the best value stays with the element' % nm, True if M1 == M else False if M1 in xs else None, w,
                 'the running best changes alone')
    # the start
    e = m.get('entry', {}).get(M[2])
    le = m.get('entry', {}).get(loc)
    kept_first = any(firsts(it, s, uid) and it.load(s, loc) == L0 for s in ns)
    ok = None
    if forced and not kept_first:
        ok = True
    elif e is not None:
        if e[0] in ('i', 'f64'):
            v = e[1]
            if way == 'min':
                ok = True if v >= FLOATMAX else False
            elif cls in ('xmm::GMM', HH):
                ok = True if v < -1e300 or v == float('-inf') or v <= 0 and 'log' not in str(x) else False
            else:
                ok = True if v < 0 or v == 0 and le == ZERO else False if v > 0 else None
        elif 'max' in str(e) and e[0] in ('op', 'u') or 'infinity' in str(e) or 'lowest' in str(e):
            ok = True
        else:
            for c in ctrs:
                c0 = m['entry'].get(c[2])
                if c0 is None:
                    continue
                for at in (psub(c0, ONE), c0):
                    y = swap(x, c, at)
                    if y == e:
                        ok = True if le == at else False
    r.ob('%s: the best value starts from an element or an impossible one' % nm, ok, w, 'starts from %s' % show(e)[:60] if e else '')
    # all elements
    cn = Canon(it, cls, {})
    if keys:
        sp = span_of(it, ctrs[0]) if ctrs else None
        r.ob('%s: over all elements' % nm, True if not brk(it, uid) else None, w)
        return
    for c in ctrs:
        if idxs and c not in {a for i in idxs for a in lvs(i)}:
            continue
        sp = span_of(it, c)
        if sp is None or sp[1] != 1:
            r.ob('%s: over all elements' % nm, None, w)
            continue
        lo = sp[0]
        hi = {cn(y[1]) for y in sp[2] if y[0] == 'le' and y[1] != lo}
        if count is None or len(hi) != 1:
            r.ob('%s: over all elements' % nm, True if any(y[0] in ('map', 'all') for y in sp[2]) and lo == ZERO else None, w)
            continue
        h = hi.pop()
        d = psub(h, count)
        if lo == ONE and le == ZERO and d == ZERO and e is not None and e[0] in ('u', 'op', 'lv', 'prj') and \
                'lim:' not in str(e) and swap(x, c, ZERO) != e:
            r.ob('%s: over all elements' % nm, None, w, 'starts from %s' % show(e)[:80])
            continue
        lo_ok = lo == ZERO or lo == ONE and le == ZERO and e is not None and swap(x, c, ZERO) == e
        r.ob('%s: over all elements' % nm, None if brk(it, uid) else True if d == ZERO and lo_ok else
             False if d[0] == 'i' and d != ZERO or lo[0] == 'i' and not lo_ok else None, w,
             'from %s to %s of %s' % (show(lo), show(h), show(count)))


def brk(it, uid):
    return any(j[0] == '#break' and j[1] == uid for j in it.journal)


def swap(v, a, b):
    if v == a:
        return b
    if not isinstance(v, tuple):
        return v
    if v[:1] == ('poly',):
        acc = ZERO
        for mm, c in to_poly(v).items():
            t = ('i', c)
            for q in mm:
                t = pmul(t, swap(q, a, b))
            acc = padd(acc, t)
        return acc
    return tuple(swap(q, a, b) for q in v)


# --------------------------------------------------------------------------------------------- regression, positions
def positions(r):
    p = r.p
    n = k = 0
    E = next((e for q, e in p.enums.items() if q.endswith('MultiClassRegressionEstimator')), None)
    ME = {x['n']: x['v'] for x in E['e']}
    for cls in ('xmm::GMM', HH):
        for f in [f for f in p.src_funcs() if f.get('cls') == cls and f.get('body') and not f.get('ctor') and
                  f['n'] in ('filter', 'updateResults')]:
            for est in ('Likeliest', 'Mixture') if f['n'] == 'filter' else (None,):
                it = Interp(p, C(p, cls, ('updateResults', 'checkTraining', 'forward_update', 'forward_init', 'updateAlphaWindow',
                                          'regression') if est else ()), budget=200000)

                def setup(it, st, fr):
                    if est:
                        st.env[F('configuration', 'multiClass_regression_estimator')] = ('i', ME[est])
                        d = it.deref(it.load(st, F('shared_parameters')))
                        seed_bool(it, st, ('f', ('f', d, 'bimodal'), 'value_'), True)
                    return st
                res = r.analyse(it, f, cls=cls, setup=setup)
                if res is None:
                    continue
                if est == 'Likeliest':
                    for s, _ in res[0]:
                        key = it.load(s, F('results', 'likeliest'))
                        for x in ('output_values', 'output_covariance'):
                            v = it.load(s, F('results', x))
                            ok = None
                            key = it.load(s, F('results', 'likeliest'))
                            if v[0] == 'prj' and v[1][0] in ('lv', 'in') and v[1][-1] == F('models'):
                                ks = [y[1] for y in v[2] if y[0] == 'e']
                                ok = True if ks == [key] and v[2][-1] == ('f', x) else False if len(ks) == 1 and (
                                    v[2][-1][1] in ('output_values', 'output_covariance')) and ks[0][0] in ('in', 'mapkey', 's', 'prj') \
                                    else None
                            if v[0] in ('in', 'obj') and v[1][0] == 'f' and v[1][2] in ('output_values', 'output_covariance'):
                                l = v[1]
                                es = [y for y in subterms(l) if isinstance(y, tuple) and y[:1] == ('e',) and y[1] == F('models')]
                                ok = l[2] == x and len(es) == 1 and es[0][2] in (key, ('in', F('results', 'likeliest'))) and True
                                if not ok and l == F('results', x):
                                    ok = None
                                elif not ok:
                                    ok = False
                            k += 1
                            r.ob('%s: %s are those of the likeliest class' % (f['q'], x.replace('_', ' ')), ok, r.where(f),
                                 'they are %s' % show(v)[:100])
                done = set()
                for _, loc, val, st, node, fn in [j for j in it.journal if j[0] == 'w']:
                    if not loc[1][2].startswith(('instant', 'smoothed')):
                        continue
                    i = loc[2]
                    key = (fn['id'], (node or {}).get('l'), loc, val)
                    if key in done:
                        continue
                    done.add(key)
                    cs = set(lvs(i))
                    n += 1
                    what = '%s: %s at the position of its class' % (f['q'], loc[1][2].replace('_', ' '))
                    if len(cs) != 1:
                        inner = any(x[0] == 'b' and x[1][:3] == ('op', 'has', F('models')) and x[2] and x[1][3][0] == 'mapkey'
                                    for x in st.facts)
                        r.ob(what, False if i[0] == 'i' and inner else None, r.where(fn, node), 'position %s for every class' % show(i)[:40])
                        continue
                    c = cs.pop()
                    if isinstance(c[2], tuple) and c[2][:1] == ('idx',):
                        r.ob(what, True if i == c else None, r.where(fn, node))
                        continue
                    mm = it.meta.get(c[1], {})
                    e, stp = mm.get('entry', {}).get(c[2]), mm.get('step', {}).get(c[2])
                    ks = {y for y in subterms(val) if isinstance(y, tuple) and y[:1] == ('mapkey',)} if val is not None else set()
                    same = None if e is None else psub(i, psub(c, ZERO))
                    ok = None
                    if e is not None and stp is not None:
                        ok = i == c and e == ZERO and stp == 1
                        if not ok:
                            ok = False if e[0] == 'i' and same[0] == 'i' and stp in (1, -1, 0, 2) and (
                                psub(padd(e, same), ZERO) != ZERO or stp != 1) else None
                            if e[0] == 'i' and same[0] == 'i' and padd(e, same) == ZERO and stp == 1:
                                ok = True
                        if ok and ks and all(y[1] != c[1] for y in ks):
                            ok = None
                    r.ob(what, ok, r.where(fn, node), 'position %s starting at %s, step %s' % (show(i)[:40], show(e)[:40] if e else '?', stp))
    r.floor('positions in class-level results', n, 6)
    r.floor('outputs taken from the likeliest class', k, 2)
