"""Case analysis of every operation that takes a class label, a component index, a state index or a dimension index.
Where the thing asked for does not exist (index at or above the count, negative state index, label not in the class
list or training set): no normal end, the exception is std::out_of_range, and at the throw nothing outside the
activation has been changed - including, for the hierarchical model, the classes visited before. Where it exists: no
out-of-range exception; a negative component means all components, each asked for with an index inside the mixture."""
from common import *
from bounds import subst, inside

LEVEL = 'proof'
EXPLANATION = ('Case analysis over existing / not existing label, component, state or dimension for each operation by '
               'abstract interpretation; refused cases only throw out_of_range with nothing changed.')
LOCAL = ('L', 'tmp', 'retv')
BIG = ('i', 2 ** 31 - 1)
OOR = 'std::out_of_range'


class W(Client):
    """records the first outside write; calls named in stub do nothing"""

    def __init__(self, f, stub=(), recur=None):
        self.f, self.stub, self.recur = f, stub, recur

    def on_write(self, it, st, loc, val, node, fr):
        if root_of(loc)[0] not in LOCAL:
            st.tr.setdefault('w', show(loc))

    def on_call(self, it, st, node, callee, obj, args, fr):
        nm = ((callee or {}).get('q') or '').split('::')[-1].split('<')[0]
        if nm in self.stub:
            g = it.p.funcs.get((callee or {}).get('id'))
            void = not g or g.get('rt', 'void') == 'void'
            if not (g or {}).get('const') and nm not in ('addListener',):
                st.tr.setdefault('w', nm)
            return [(st, None if void else it.fresh(st, ('stub', nm, node.get('l'))))]
        if self.recur and (callee or {}).get('id') == self.f['id']:
            return self.recur(it, st, node, args)
        return None


def refused(r, key, w, a, atomic=True, thr=OOR):
    normal, thrown = a
    r.ob('refused: ' + key, not normal, w, 'the operation is carried out')
    r.ob('refused with an exception: ' + key, True if thrown else (False if not normal else None), w, 'never throws')
    for s, ty, info in thrown:
        where = '%s:%s' % info[1:]
        r.ob('right exception: ' + key, ty.split('<')[0] == thr, where, 'throws %s' % ty)
        ch = [l for l in changed_locs(s_it[0], s)]
        r.ob('unchanged: ' + key, not ch and not s.tr.get('w'), where, 'refused, but %s was modified' %
             ', '.join([show(x) for x in ch[:3]] + ([s.tr['w']] if s.tr.get('w') else [])))


s_it = [None]


def allowed(r, key, w, a, any_exc=True):
    normal, thrown = a
    r.ob('allowed: ' + key, bool(normal), w, 'never returns')
    bad = [t for t in thrown if any_exc or t[1].split('<')[0] == OOR]
    r.ob('not refused: ' + key, not bad, bad and '%s:%s' % bad[0][2][1:] or w,
         'asking for something that exists throws ' + (bad[0][1] if bad else ''))


def run(r):
    p = r.p
    n = 0
    for cls in sorted(p.methods):
        for name in ('obsProb', 'obsProb_input', 'obsProb_bimodal'):
            for f in p.methods[cls].get(name, []):
                if f.get('body') and f['params'] and f['params'][-1]['t'] == 'int':
                    n += 1
                    component(r, cls, f)
    r.floor('component operations', n, 3)
    n = 0
    for f in p.methods['xmm::SingleClassHMM'].get('addExitPoint', []):
        if f.get('body'):
            n += 1
            state(r, f)
    for f in p.methods['xmm::HierarchicalHMM'].get('addExitPoint', []):
        if f.get('body'):
            n += 1
            all_states(r, f)
    r.floor('exit point operations', n, 2)
    n = 0
    for name in ('toEllipse', 'fromEllipse'):
        for f in p.methods['xmm::GaussianDistribution'].get(name, []):
            if f.get('body'):
                n += 1
                dims(r, f)
    r.floor('ellipse operations', n, 2)
    n = 0
    for cls in ('xmm::GMM', 'xmm::HierarchicalHMM'):
        for name in ('removeClass', 'train', 'hasClass', 'getIndex'):
            for f in p.find(cls, name):
                if f.get('body') and f['params'] and 'string' in f['params'][-1]['t']:
                    n += 1
                    label(r, cls, f)
    r.floor('label operations', n, 8)


# ------------------------------------------------------------------------------------------ components
def component(r, cls, f):
    w = r.where(f)
    c = f['params'][-1]['n']
    i = ('in', ('A', c))
    for case in ('existing', 'beyond', 'all'):
        def recur(it, st, node, args):
            x = it.aval(st, args[-1], '')
            it.log(('asked', st.clone(), x))
            return [(st, it.fresh(st, ('rec', node.get('l'))))]
        cl = W(f, ('likelihood', 'likelihood_input', 'likelihood_bimodal'), recur)
        it = Interp(r.p, cl, budget=60000)

        def setup(it, st, fr):
            d = it.deref(it.load(st, F('shared_parameters')))
            seed_bool(it, st, ('f', ('f', d, 'bimodal'), 'value_'), True)
            n = count(it, st)
            it.nonneg.add(n)
            for x in ('components', 'mixture_coeffs'):
                st.env[('f', F(x), '#size')] = n
            st.facts = st.facts | {('le', psub(ONE, n)), ('le', psub(n, BIG)), ('le', psub(i, BIG))}
            if case == 'all':
                st.facts = st.facts | {('le', padd(i, ONE)), ('le', psub(ZERO, padd(i, padd(BIG, ONE))))}
            else:
                st.facts = st.facts | {('le', psub(ZERO, i)),
                                       ('le', padd(psub(i, n), ONE) if case == 'existing' else psub(n, i))}
            return st
        a = r.analyse(it, f, cls=cls, setup=setup)
        if a is None:
            continue
        for s, x in [j[1:] for j in it.journal if j[0] == 'asked']:
            ok = False if it.prove_le(s, padd(x, ONE)) else inside(it, s, x, count(it, s))
            r.ob('components asked for: %s' % f['q'], ok, w, 'component %s need not exist' % show(x))
        s_it[0] = it
        key = '%s, component %s' % (f['q'], case)
        if case == 'beyond':
            refused(r, key, w, a)
        else:
            allowed(r, key, w, a)


def count(it, st):
    return it.load(st, ('f', ('f', ('f', ('T',), 'parameters'), 'gaussians'), 'value_'))


# ------------------------------------------------------------------------------------------ states
def nstates(base):
    return ('f', ('f', ('f', base, 'parameters'), 'states'), 'value_')


def state(r, f):
    w = r.where(f)
    i = ('in', ('A', f['params'][0]['n']))
    for case in ('existing', 'beyond', 'negative', 'not hierarchical'):
        it = Interp(r.p, W(f), budget=60000)

        def setup(it, st, fr):
            seed_bool(it, st, F('is_hierarchical_'), case != 'not hierarchical')
            n = it.load(st, nstates(('T',)))
            it.nonneg.add(n)
            st.env[('f', ('f', ('T',), 'exit_probabilities_'), '#size')] = n
            st.facts = st.facts | {('le', psub(ONE, n)), ('le', psub(n, BIG)), ('le', psub(i, BIG)),
                                   ('le', psub(ZERO, padd(i, padd(BIG, ONE))))}
            if case == 'negative':
                st.facts = st.facts | {('le', padd(i, ONE))}
            else:
                st.facts = st.facts | {('le', psub(ZERO, i)),
                                       ('le', padd(psub(i, n), ONE) if case != 'beyond' else psub(n, i))}
            return st
        a = r.analyse(it, f, cls=f['cls'], setup=setup)
        if a is None:
            continue
        s_it[0] = it
        key = '%s, state %s' % (f['q'], case)
        if case == 'existing':
            allowed(r, key, w, a)
        else:
            refused(r, key, w, a, thr=OOR if case != 'not hierarchical' else 'std::runtime_error')


def canon(x, written):
    """values of the class a loop visits, by member path; members the loops write stay apart"""
    if not isinstance(x, tuple):
        return x
    if x and x[0] == 'in' and len(x) == 2:
        l, fs = x[1], []
        while l[0] == 'f':
            fs.append(l[2])
            l = l[1]
        if l[0] == 'e' and l[2][0] == 'mapkey' and not set(fs) & written:
            return ('in', ('K',) + tuple(reversed(fs)))
    if x and x[0] == 'prj' and x[2] and x[2][0][0] == 'e' and x[2][0][1][0] == 'mapkey' and \
            all(y[0] == 'f' for y in x[2][1:]) and not {y[1] for y in x[2][1:]} & written:
        return ('in', ('K',) + tuple(y[1] for y in x[2][1:]))
    return tuple(canon(y, written) for y in x)


class All(W):
    """journal: what the passes of each loop over the classes write and, where they write nothing, know"""

    def on_write(self, it, st, loc, val, node, fr):
        super().on_write(it, st, loc, val, node, fr)
        it.log(('wrote', tuple(loc_path(loc))))

    def on_loop(self, it, st, node, fr, phase, uid=None):
        if phase == 'exit':
            st.tr['past'] = tuple(sorted(set(st.tr.get('past', ())) | {uid}, key=repr))
        if phase == 'body' and len(st.tr.get('in', ())) < 3:
            st.tr['in'] = st.tr.get('in', ()) + (uid,)
            st.tr.pop('now', None)
        if phase == 'next':
            if st.tr.get('w'):
                it.log(('pass', uid, st.tr['w']))
            else:
                it.log(('kept', uid, frozenset(x for x in st.facts if x[0] in ('le', 'eq', 'ne'))))
            st.tr['in'] = tuple(u for u in st.tr.get('in', ()) if u != uid)
            st.tr['past_iter'] = uid


def all_states(r, f):
    """no class is changed before a class that refuses"""
    w = r.where(f)
    it = Interp(r.p, All(f), budget=60000)

    def setup(it, st, fr):
        return st
    a = r.analyse(it, f, cls=f['cls'], setup=setup)
    if a is None:
        return
    normal, thrown = a
    name = f['q']
    r.ob('reaches the classes: ' + name, bool(thrown), w, 'no class can refuse the state')
    passes = {j[1]: j[2] for j in it.journal if j[0] == 'pass'}
    thr = {}
    for s, ty, info in thrown:
        u = s.tr.get('in', (None,))
        thr.setdefault(u[-1] if u else None, []).append((s, ty, info))
    for s, ty, info in thrown:
        if ty.split('<')[0] != OOR:
            continue
        u = (s.tr.get('in') or (None,))[-1]
        past = s.tr.get('past', ())
        changed = u in passes or any(x in passes for x in past)
        ok = not changed
        if changed and u is not None:           # did an earlier pass over the classes let this one through?
            for x in past:
                alts = [j[2] for j in it.journal if j[0] == 'kept' and j[1] == x]
                if x in passes or not alts:
                    continue
                written = {n for j in it.journal if j[0] == 'wrote' for n in j[1]}
                alive = False
                for fs in alts:
                    y = s.clone()
                    y.facts = frozenset()
                    for c in sorted(set(fs) | s.facts, key=repr):
                        if y is not None and c[0] in ('le', 'eq', 'ne'):
                            y = it.assume(y, ('cmp', c[0], from_poly({tuple(canon(b, written) for b in m): k for m, k in
                                                                     to_poly(c[1]).items()})), True)
                    alive = alive or y is not None
                ok = ok or not alive
        r.ob('unchanged: ' + name, ok, '%s:%s' % info[1:],
             'a class visited earlier was already changed (%s) when a class refuses the state' %
             passes.get(u, next(iter(passes.values()), '')))


# ------------------------------------------------------------------------------------------ dimensions
def dims(r, f):
    w = r.where(f)
    names = [x['n'] for x in f['params'] if x['t'].startswith('unsigned')]
    for case in ('existing',) + tuple(names):
        it = Interp(r.p, W(f, ('updateInverseCovariance', 'updateOutputCovariance')), budget=60000)

        def setup(it, st, fr):
            d = it.load(st, F('dimension', 'value_'))
            it.nonneg.add(d)
            st.facts = st.facts | {('le', psub(ONE, d))}
            for m in names:
                i = ('in', ('A', m))
                it.nonneg.add(i)
                st.facts = st.facts | {('le', padd(psub(i, d), ONE) if case != m else psub(d, i))}
            return st
        a = r.analyse(it, f, cls=f['cls'], setup=setup)
        if a is None:
            continue
        s_it[0] = it
        key = '%s, %s' % (f['q'], 'existing dimensions' if case == 'existing' else case + ' beyond the last')
        if case == 'existing':
            allowed(r, key, w, a)
        else:
            refused(r, key, w, a)


# ------------------------------------------------------------------------------------------ labels
def label(r, cls, f):
    w = r.where(f)
    lab = ('A', f['params'][-1]['n'])
    train = f['n'] == 'train'
    for case in ('known', 'unknown'):
        it = Interp(r.p, W(f, ('reset', 'joinTraining', 'updateTransitionParameters', 'addModelForClass', 'checkTraining',
                               'cancelTraining')), budget=200000)
        def setup(it, st, fr):
            seed_bool(it, st, F('is_joining_'), False)
            seed_bool(it, st, F('is_training_'), False)
            if train:
                ts = it.deref(('in', ('A', f['params'][0]['n'])))
                st = it.assume(st, ('in', ('A', f['params'][0]['n'])), True) or st
                m = ('f', ts, 'labels_')
            else:
                m = ('f', ('T',), 'models')
            t = ('op', 'has', m, ('in', lab))
            it.boolset.add(t)
            return it.assume(st, t, case == 'known') or st
        a = r.analyse(it, f, cls=cls, setup=setup)
        if a is None:
            continue
        s_it[0] = it
        key = '%s on %s, %s label' % (f['q'], cls.split('::')[-1], case)
        if f['n'] in ('hasClass', 'getIndex'):
            allowed(r, key, w, a)
            for s, v in a[0]:
                ch = changed_locs(it, s)
                r.ob('asking changes nothing: ' + key, not ch, w, 'modifies ' + ', '.join(show(x) for x in ch[:3]))
                answer(r, it, s, v, f, case, key, w)
        elif case == 'known':
            allowed(r, key, w, a, any_exc=not train)
        else:
            refused(r, key, w, a)


def answer(r, it, s, v, f, case, key, w):
    if f['n'] == 'hasClass':
        for x in [x for x in s.facts if x[0] == 'b' and x[1][:2] == ('op', 'has')]:
            if v and v[0] == 'cmp':
                v = v[:2] + (subst(v[2], x[1], ONE if x[2] else ZERO),)
        t = it.truth(s, v) if v and v[0] != 'i' else (None if not v else v[1] != 0)
        r.ob('answers whether the class exists: ' + key, None if t is None else t == (case == 'known'), w, 'answers %s' % t)
    elif case == 'unknown' and v and v[0] == 'i':
        r.ob('answers no index: ' + key, v[1] == -1, w, 'answers %d' % v[1])
