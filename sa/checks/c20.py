"""Iteration bounds. (A) The convergence test is evaluated symbolically in step, minimum and maximum, with the
comparison of the relative log-likelihood change to the threshold fixed to below, equal, above and not-a-number: with a
maximum above the minimum it answers 'stop' exactly from the maximum on; with a maximum below the minimum exactly when
the minimum is reached and the change is at most the threshold; with both equal never before the minimum; in every case
it answers 'stop' from some step on, and that safety limit is not below 1000. The change compared is the difference of
the two log-likelihoods, relative to one of them, without its sign. (B) The training loop: on every path of an iteration
the model is updated from the data exactly once, the step passed to the test grows by one, the two log-likelihoods
passed are the one just obtained and the one before, and at the first test not those left by an earlier training; no update follows a test that said 'stop'; the training is reported
done only after the test said 'stop'. (C) K-means: every update of the centres inside its loop is reached only while a
counter that starts at 0 and grows by one per iteration is below max_iterations, and an iteration updates once."""
from common import *
from c19 import at_least, assume_limit
from c05 import subterms

LEVEL = 'proof'
EXPLANATION = ('Symbolic evaluation of the convergence test over all orders of step, minimum, maximum and change; '
               'per-iteration obligations of the two training loops.')

STEP, LP, OLD = (('A', x) for x in ('step', 'log_prob', 'old_log_prob'))


def run(r):
    p = r.p
    n = 0
    for cls in sorted(p.methods):
        if not any(fd['n'] == 'training_status' for _, fd in p.fields(cls)):
            continue
        for f in p.find(cls, 'emAlgorithmHasConverged'):
            if f.get('body') and len(f['params']) == 3:
                n += 1
                converged(r, cls, f)
        for f in p.find(cls, 'train'):
            if f.get('body'):
                loop(r, cls, f)
    r.floor('convergence tests', n, 3)
    for f in p.methods.get('xmm::KMeans', {}).get('train', []):
        if f.get('body'):
            kmeans(r, f)


def mentions(v, l):
    return any(t == ('in', l) for t in subterms(v))


def par(f, v, d):
    return ('f', ('f', d, v), 'value_')


def converged(r, cls, f):
    names = [x['n'] for x in f['params']]
    step, lp, old = [('A', x) for x in names]
    lo = at_least(r.p, 'em_algorithm_min_iterations')
    key = '%s on %s' % (f['q'], cls.split('::')[-1])
    where = r.where(f)
    cache = {}
    for scen in ('below', 'equal', 'above', 'nan'):
        terms = set()

        def rank(it, st, v):
            if mentions(v, lp) and mentions(v, old):
                terms.add(v)
                return {'below': 0, 'equal': 1, 'above': 2, 'nan': 'nan'}[scen]
            if any(len(t) == 2 and t[0] == 'in' and loc_path(t[1])[:2] == ['value_', 'em_algorithm_percent_chg'] for t in subterms(v)):
                return 1
            return None
        it = OrderInterp(r.p, Client(), rank, budget=100000)

        def setup(it, st, fr):
            st = assume_limit(it, st, 'em_algorithm_min_iterations', lo)
            return it.assume(st, ('cmp', 'le', psub(ZERO, ('in', step))), True) or st
        a = r.analyse(it, f, cls=cls, setup=setup)
        if a is None:
            return
        d = it.deref(it.load(it.entry, F('shared_parameters')))
        mn = it.load(it.entry, par(f, 'em_algorithm_min_iterations', d))
        mx = it.load(it.entry, par(f, 'em_algorithm_max_iterations', d))
        s0 = ('in', step)
        lt = lambda x, y: ('cmp', 'le', psub(padd(x, ('i', 1)), y))       # x < y
        le = lambda x, y: ('cmp', 'le', psub(x, y))
        small = lt(s0, ('i', 1000))
        hit = scen in ('below', 'equal')
        rules = [('a maximum above the minimum: not before the maximum', True, [small, lt(mn, mx), lt(s0, mx)]),
                 ('a maximum above the minimum: at the maximum', False, [lt(mn, mx), le(mx, s0)]),
                 ('no maximum: not before the minimum', True, [small, lt(mx, mn), lt(s0, mn)]),
                 ('equal bounds: not before the minimum', True, [small, le(mx, mn), le(mn, mx), lt(s0, mn)]),
                 ('never runs forever', False, [le(('i', 10 ** 6), s0)])]
        if hit:
            rules.append(('no maximum: when the change is at most the threshold', False, [lt(mx, mn), le(mn, s0)]))
        else:
            rules.append(('no maximum: not while the change is above the threshold', True, [small, lt(mx, mn)]))
        for s, v in a[0]:
            for ans in (True, False):
                x = it.assume(s.clone(), v, ans) if v[0] != 'i' else (s if (v != ZERO) == ans else None)
                if x is None:
                    continue
                for nm, forbidden, conds in rules:
                    if forbidden != ans:
                        continue
                    k = '%s: %s (change %s)' % (key, nm, scen)
                    y = x.clone()
                    for c in conds:
                        y = it.assume(y, c, True)
                        if y is None:
                            break
                    if y is None:
                        r.ob(k, True)
                        continue
                    kk = (nm, scen)
                    if kk not in cache:
                        cache[kk] = concrete(r, cls, f, scen, nm, rules)
                    w = cache[kk]
                    r.ob(k, False if w else None, where, 'answers %s for step %s, minimum %s, maximum %s' % (
                        ('stop' if ans else 'continue',) + w) if w else 'the bound is not decided on a path')
        for t in sorted(terms, key=repr):
            shape(r, key, where, it, t, lp, old)


def concrete(r, cls, f, scen, nm, rules):
    """representative values for which the forbidden answer is really given"""
    step, lp, old = [('A', x['n']) for x in f['params']]

    def rank(it, st, v):
        if mentions(v, lp) and mentions(v, old):
            return {'below': 0, 'equal': 1, 'above': 2, 'nan': 'nan'}[scen]
        if any(len(t) == 2 and t[0] == 'in' and loc_path(t[1])[:2] == ['value_', 'em_algorithm_percent_chg'] for t in subterms(v)):
            return 1
        return None
    bounds = {'a maximum above the minimum: not before the maximum': lambda s, a, b: s < 1000 and a < b and s < b,
              'a maximum above the minimum: at the maximum': lambda s, a, b: a < b and s >= b,
              'no maximum: not before the minimum': lambda s, a, b: s < 1000 and b < a and s < a,
              'equal bounds: not before the minimum': lambda s, a, b: s < 1000 and a == b and s < a,
              'never runs forever': lambda s, a, b: s >= 10 ** 6,
              'no maximum: when the change is at most the threshold': lambda s, a, b: b < a and s >= a,
              'no maximum: not while the change is above the threshold': lambda s, a, b: s < 1000 and b < a}
    forb = {n: fo for n, fo, _ in rules}[nm]
    for a in (1, 2, 5, 10, 100, 999, 1500):
        for b in (0, 1, 2, 5, 9, 10, 11, 99, 100, 101, 500, 999, 1000, 2000):
            for s in sorted({0, 1, 2, a - 1, a, a + 1, b - 1, b, b + 1, 99, 100, 499, 999, 10 ** 6}):
                if s < 0 or not bounds[nm](s, a, b):
                    continue
                it = OrderInterp(r.p, Client(), rank, budget=20000)

                def setup(it, st, fr):
                    d = it.deref(it.load(st, F('shared_parameters')))
                    st.env[par(f, 'em_algorithm_min_iterations', d)] = ('i', a)
                    st.env[par(f, 'em_algorithm_max_iterations', d)] = ('i', b)
                    return it.assume(st, ('cmp', 'eq', psub(('in', step), ('i', s))), True) or st
                res = r.analyse(it, f, cls=cls, setup=setup)
                for x, v in res[0] if res else []:
                    if v is not None and it.truth(x, v) is forb:
                        return (s, a, b)
    return None


def shape(r, key, where, it, t, lp, old):
    """100 * |(new - old) / one of them|"""
    sub = list(subterms(t))
    divs = [x for x in sub if len(x) > 1 and x[0] == 'op' and x[1] == '/' and len(x) == 4]
    ab = any(len(x) > 1 and x[0] == 'op' and 'abs' in str(x[1]) for x in sub)
    diff = psub(('in', lp), ('in', old))
    ok = None
    if len(divs) == 1:
        n, d = divs[0][2:]
        while n[0] == 'op' and 'abs' in str(n[1]):
            n = n[2]
        q = {n, psub(ZERO, n)}
        if diff in q:
            ok = True
        elif n[0] == 'poly' and all(a in (('in', lp), ('in', old)) for m in to_poly(n) for a in m):
            ok = False
        if ok and not any(mentions(d, x) for x in (lp, old)):
            ok = False
    r.ob(key + ': the change is the relative difference', ok, where, 'compares %s' % show(t))
    r.ob(key + ': the change is taken without its sign', True if ab else None if any(
        f[0] in ('le', 'eq', 'ne', 'b') and mentions(f[-1] if f[0] != 'b' else f[1], old) for f in ()) else
        (False if len(divs) == 1 else None), where, 'compares %s' % show(t))


class Loop(LoopTrack):
    """tr: upd - updates since the iteration began, conv - last answer of the test"""

    def on_loop(self, it, st, node, fr, phase, uid=None):
        super().on_loop(it, st, node, fr, phase, uid)
        if fr.func and fr.func.get('n') == 'train' or st.tr.get('in') == uid:
            if phase == 'body':
                st.tr['upd'] = 0
                st.tr['in'] = uid
            elif phase == 'next' and st.tr.get('in') == uid:
                it.log(('IT', uid, st.tr.get('upd', 0), st.clone()))

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'emAlgorithmHasConverged' and obj == ('T',) and len(args) == 3:
            vals = tuple(it.load(st, a[1]) if a[0] == 'loc' else a[1] for a in args)
            it.log(('CV', vals, st.tr.get('in')))
            first = []
            for v in vals[1:]:
                while v[0] == 'lv' and len(v) == 3 and v[1] in it.loop_entry and isinstance(v[2], tuple):
                    v = it.load(it.loop_entry[v[1]], v[2])
                first.append(v)
            it.log(('FIRST', tuple(first), node, fr.func))
            out = []
            for v in (TRUE, FALSE):
                s = st.clone()
                s.tr['conv'] = v
                out.append((s, v))
            return out
        if nm == 'emAlgorithmUpdate' and obj == ('T',):
            it.throw(st.clone(), 'std::runtime_error', node, fr)
            it.log(('UP', st.tr.get('conv'), (node or {}).get('l')))
            st.tr['upd'] = min(3, st.tr.get('upd', 0) + 1)
            st.tr['conv'] = None
            v = it.fresh(st, ('upd', fr.fid, (node or {}).get('l')))
            st.tr['val'] = v
            return [(st, v)]
        if nm in ('allocate', 'emAlgorithmInit', 'normalizeTransitions') and obj == ('T',):
            return [(st, None)]
        if nm == 'cancelTrainingIfRequested':
            return [(st, FALSE)]
        if nm == 'emAlgorithmTerminate' and obj == ('T',):
            it.log(('DONE', st.tr.get('conv')))
            return [(st, None)]
        if nm == 'notifyListeners':
            return [(st, None)]
        return None


def loop(r, cls, f):
    c = Loop()
    it = Interp(r.p, c, budget=400000)
    a = r.analyse(it, f, cls=cls)
    if a is None:
        return
    key = '%s on %s' % (f['q'], cls.split('::')[-1])
    w = r.where(f)
    cv = [j for j in it.journal if j[0] == 'CV']
    ups = [j for j in it.journal if j[0] == 'UP']
    r.ob(key + ': tests for convergence', True if cv else None, w, 'no call of the convergence test found')
    r.ob(key + ': updates the model', bool(ups), w, 'the model is never updated')
    its = [j for j in it.journal if j[0] == 'IT']
    for j in its:
        r.ob(key + ': one update per iteration', j[2] == 1, w, '%s updates in an iteration' % j[2])
    r.ob(key + ': iterates', True if its else None, w, 'no iteration found')
    for j in ups:
        r.ob(key + ': no update after the test said stop', j[1] != TRUE, w, 'updated at line %s after the test said stop' %
             j[2])
    for j in it.journal:
        if j[0] == 'DONE':
            r.ob(key + ': done only after the test said stop', j[1] == TRUE, w, 'done without the test having said stop')
    for j in it.journal:
        if j[0] == 'FIRST':
            left = [v for v in j[1] if v[0] == 'in' and root_of(v[1]) == ('T',) and 'training_status' in repr(v)]
            r.ob(key + ': the first test knows no earlier training', not left, r.where(j[3], j[2]),
                 'it is given %s as the training began' % (show(left[0]) if left else ''))
    # what the test is given, in the states at the head of an iteration after the first
    for j in cv:
        slots = []
        for v in j[1]:
            while len(v) == 3 and v[:2] == ('op', 'trunc'):
                v = v[2]
            if v[0] == 'lv':
                slots.append(v)
        if len(slots) != 3:
            continue
        uid = slots[0][1]
        for s in [x[3] for x in its if x[1] == uid]:
            st_, lp, old = [it.load(s, v[2]) for v in slots]
            ok = psub(st_, slots[0]) == ('i', 1)
            r.ob(key + ': the step grows by one per iteration', ok if ok or plainish(st_) else None, w,
                 'becomes %s' % show(st_))
            val = s.tr.get('val')
            r.ob(key + ': the test sees the latest log-likelihood', True if lp == val else
                 False if lp in (slots[1], slots[2]) else None, w, 'it sees %s' % show(lp))
            r.ob(key + ': the test sees the previous log-likelihood', True if old == slots[1] else
                 False if old in (val, slots[2]) else None, w, 'it sees %s' % show(old))


def plainish(v):
    return all(a[0] in ('lv', 'in') for m in to_poly(v) for a in m) if v[0] in ('poly', 'lv', 'i', 'in') else False


class KM(LoopTrack):
    def on_loop(self, it, st, node, fr, phase, uid=None):
        super().on_loop(it, st, node, fr, phase, uid)
        if phase == 'body' and not st.tr.get('in'):
            st.tr['upd'] = 0
            st.tr['in'] = uid
        elif phase in ('next', 'break', 'return') and st.tr.get('in') == uid:
            it.log(('IT', uid, st.tr.get('upd', 0), st.clone(), phase))
            st.tr['in'] = None
        elif phase == 'exit' and st.tr.get('in') == uid:
            st.tr['in'] = None

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1]
        f = it.p.funcs.get((callee or {}).get('id')) or {}
        if q.startswith('xmm::KMeans::') and obj == ('T',) and any('TrainingSet' in x['t'] for x in f.get('params', ())) \
                and nm != 'train' and st.tr.get('in'):
            it.log(('UP', st.tr['in'], st.clone(), node))
            st.tr['upd'] = min(3, st.tr.get('upd', 0) + 1)
            return [(st, None)]
        if q.startswith('xmm::KMeans::') and nm in ('initClustersWithFirstPhrase', 'randomizeClusters'):
            return [(st, None)]
        return None


def kmeans(r, f):
    c = KM()
    it = Interp(r.p, c, budget=400000)
    a = r.analyse(it, f, cls='xmm::KMeans')
    if a is None:
        return
    key, w = f['q'], r.where(f)
    ups = [j for j in it.journal if j[0] == 'UP']
    its = [j for j in it.journal if j[0] == 'IT']
    r.ob(key + ': updates the centres', True if ups else None, w, 'no update inside a loop found')
    for j in its:
        if any(u[1] == j[1] for u in ups) and j[4] == 'next':
            r.ob(key + ': one update per iteration', j[2] == 1, w, '%s updates in an iteration' % j[2])
    mx = ('f', F('configuration', 'max_iterations'), 'value_')
    for j in ups:
        uid, s = j[1], j[2]
        cand = {t for fa in s.facts for t in subterms(fa) if len(t) == 3 and t[0] == 'lv' and t[1] == uid}
        if not any(('in', mx) in subterms(fa) for fa in s.facts):
            # the first iteration may be entered without a test only if later ones have it
            r.ob(key + ': bounded by max_iterations', False, r.where(f, j[3]),
                 'the update is reached without a comparison with max_iterations')
            continue
        if not cand:
            continue                    # first iteration: the counter has its initial value
        ok, msg = None, 'no counter bounded by max_iterations found'
        for t in cand:
            first = it.meta.get(uid, {}).get('entry')
            init = first.get(t[2]) if first is not None else None
            step = it.meta.get(uid, {}).get('step', {}).get(t[2])
            step = ('i', step) if isinstance(step, int) else step
            steps = {step} if step else \
                {psub(it.load(x[3], t[2]), t) for x in its if x[1] == uid and x[4] == 'next'}
            below = it.prove_le(s, psub(padd(t, ('i', 1)), ('in', mx)))
            if init == ZERO and steps == {('i', 1)}:
                if below:
                    ok = True
                    break
                if it.assume(s.clone(), ('cmp', 'eq', psub(t, ('in', mx))), True) is not None:
                    ok, msg = False, 'iteration number max_iterations is reached (counting from 0)'
            if init == ('in', mx) and steps == {('i', -1)} and it.prove_le(s, psub(('i', 1), t)):
                ok = True
                break
        r.ob(key + ': at most max_iterations iterations', ok, r.where(f, j[3]), msg)
