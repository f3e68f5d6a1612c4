"""For every copy constructor and assignment with a body, of every class of the library whose objects users copy
(distributions, parameter sets, configurations, per-class models, complete models, phrases, training sets): on every
path ending normally (for assignment: from another object), every option (Attribute member), every member read when
the object is written as JSON, and every member in the table TRAINED, equals the same member of the source - member by
member for nested objects, through the pointer for an object owned through one. For a phrase owning its memory the
sample arrays are copied over at least the recorded part, otherwise the pointers are the source's; for a training set a
completed loop over the source's phrases puts a copy of (or the same) phrase under the same index; for a complete model
the set of per-class models is the source's, and only listeners and the shared parameter object of its elements change
afterwards."""
from common import *

LEVEL = 'proof'
EXPLANATION = ('Symbolic end state of every user-written copy operation compared member by member with the source; the '
               'members required are derived from the class declaration and from what toJson reads.')

TRAINED = {
    'xmm::GaussianDistribution': ['mean', 'covariance', 'inverse_covariance_', 'covariance_determinant_',
                                  'inverse_covariance_input_', 'covariance_determinant_input_', 'bimodal_',
                                  'output_covariance'],
    'xmm::SingleClassGMM': ['label', 'parameters', 'components', 'mixture_coeffs', 'shared_parameters'],
    'xmm::SingleClassHMM': ['label', 'parameters', 'states', 'prior', 'transition', 'exit_probabilities_',
                            'is_hierarchical_', 'shared_parameters'],
    'xmm::SingleClassProbabilisticModel': ['label', 'shared_parameters'],
    'xmm::GMM': ['shared_parameters', 'configuration', 'models'],
    'xmm::HierarchicalHMM': ['shared_parameters', 'configuration', 'models', 'prior', 'transition',
                             'exit_transition'],
    'xmm::KMeans': ['shared_parameters', 'configuration', 'centers', 'initialization_mode'],
    'xmm::Phrase': ['own_memory_', 'bimodal_', 'empty_', 'length_', 'input_length_', 'output_length_', 'column_names',
                    'label', 'data_'],
    'xmm::TrainingSet': ['own_memory_', 'bimodal_', 'phrases_'],
    'xmm::TrainingEvent': ['model', 'label', 'status', 'progression', 'log_likelihood', 'iterations'],
}
SKIP = {'is_training_', 'is_joining_', 'cancel_required_', 'training_mutex_', 'events', 'training_events',
        'models_still_training_', 'event_mutex_', 'changed'}
# the elements of a copied model may differ from the source's elements in these only
ELEMENT_OWN = {'training_events', 'shared_parameters'}


class Reads(Client):
    """Members of the object a saved form is written from."""

    def __init__(self):
        self.r = set()

    def on_read(self, it, st, loc, node, fr):
        l = loc
        while l is not None and not (l[0] == 'f' and l[1] == ('T',)):
            l = loc_parent(l)
        if l:
            self.r.add(l[2])

    def inline(self, func, depth):
        return depth < 4

    def on_call(self, it, st, node, callee, obj, args, fr):
        if obj and root_of(obj) == ('T',) and obj != ('T',):
            self.on_read(it, st, obj, node, fr)


def copy_ops(p):
    for cls in sorted(p.classes):
        if not cls.startswith('xmm::') or cls.startswith(('xmm::Matrix', 'xmm::JsonException')) \
                or 'Event' in cls.split('<')[0]:
            continue
        for fs in p.methods.get(cls, {}).values():
            for f in fs:
                if not f.get('body') or f.get('defaulted') or not f['params']:
                    continue
                if f.get('copy') or f['n'] == 'operator=' and cls in f['params'][0]['t'] and \
                        '&&' not in f['params'][0]['t']:
                    yield cls, f


def required(p, cls, f):
    """Members that must come over, and why."""
    out = {}
    names = {x['n']: x for _, x in p.fields(cls)}
    if cls.startswith('xmm::Attribute'):
        return {n: 'option value' if n == 'value_' else 'limit' for n in names
                if n == 'value_' or n.startswith('limit')}, names
    for n, x in names.items():
        if 'Attribute<' in x['t']:
            out[n] = 'option'
    for g in p.methods.get(cls, {}).get('toJson', []):
        if g.get('body'):
            c = Reads()
            it = Interp(p, c, budget=1200000)
            try:
                it.analyse(g, cls=cls)
            except Bailout:
                continue
            for n in c.r:
                out.setdefault(n, 'saved')
    for n in TRAINED.get(cls, []):
        out.setdefault(n, 'trained')
    return {n: w for n, w in out.items() if n in names and n not in SKIP}, names


def definite(v):
    """Nothing the analysis lost track of."""
    if isinstance(v, tuple):
        if v and (v[0] in ('u', 'lv', 'H') or v[0] == 'vec' and v[1:] != (ZERO, None) and v[2] is None):
            return False
        return all(definite(x) for x in v)
    return True


def from_src(v, src):
    """Does the value derive from the source at all?"""
    if v == src:
        return True
    return isinstance(v, tuple) and any(from_src(x, src) for x in v)


def leaf_eq(it, s, L, S, src):
    v = it.load(s, L)
    if v in (('in', S), ('obj', S)) or v == it.load(it.entry, S) or v == it.load(s, S):
        return True, v
    d = psub(v, ('in', S)) if v[0] in ('in', 'poly', 'i') else None
    if d == ZERO:
        return True, v
    if not definite(v) or L in it.c.inside:
        return None, v
    if from_src(v, src) and v[0] not in ('i', 'in', 'poly'):
        return None, v
    return False, v


def class_of(t):
    t = t.replace('const ', '').strip()
    return t


def eq(it, s, L, S, t, src, depth=0):
    """Is the object at L equal to the one at S?  (verdict, member path, value)"""
    p = it.p
    t = class_of(t)
    if t.startswith('xmm::Attribute<'):
        ok, v = leaf_eq(it, s, F('value_', base=L), F('value_', base=S), src)
        return ok, '', v
    if t.startswith('xmm::CircularBuffer') or t not in p.classes or depth > 4 or not p.fields(t):
        ok, v = leaf_eq(it, s, L, S, src)
        return ok, '', v
    res = (True, '', None)
    for _, x in p.fields(t):
        if x['n'] in SKIP:
            continue
        ok, path, v = eq(it, s, F(x['n'], base=L), F(x['n'], base=S), x['t'], src, depth + 1)
        if ok is not True:
            r = (ok, '.' + x['n'] + path, v)
            if ok is False:
                return r
            res = r
    return res


class Track(LoopTrack):
    """Copies between arrays, copies of phrases, writes to elements of the per-class models."""

    def __init__(self, cls):
        self.cls = cls
        self.inside = set()         # objects of which an element was written

    def on_bulk(self, it, st, dst, src, ln, node, fr):
        st.tr['bulk'] = tuple(b for b in st.tr.get('bulk', ()) if b[0] != dst)[-5:] + ((dst, src, ln),)

    def on_loop(self, it, st, node, fr, phase, uid=None):
        super().on_loop(it, st, node, fr, phase, uid)
        if phase == 'body':
            st.tr.pop('putk', None)

    def on_call(self, it, st, node, callee, obj, args, fr):
        if self.cls == 'xmm::TrainingSet' and callee and callee.get('copy') and callee.get('cls') == 'xmm::Phrase' and \
                obj and obj[0] == 'H' and args and args[0][0] == 'loc':
            st.env[obj] = ('obj', it.resolve(st, args[0][1]))
            return [(st, None)]
        return None

    def on_write(self, it, st, loc, val, node, fr):
        if loc == F('models'):
            st.tr['mdl'] = val
        if loc == F('phrases_'):
            st.tr['ph'] = val[:2] == ('vec', ZERO)
        if loc[0] == 'e' and loc[1] == F('phrases_'):
            it.log(('put', loc[2], val, st.clone(), node, fr.func))
            st.tr['putk'] = loc[2]
        l = loc_parent(loc) if loc[0] == 'e' else None
        while l is not None:
            self.inside.add(l)
            l = loc_parent(l)
        l, tail = loc, []
        while l is not None and not (l[0] == 'e' and l[1] == F('models')):
            if l[0] == 'f':
                tail.append(l[2])
            l = loc_parent(l)
        if loc[0] == 'e' and loc[1][0] == 'H':
            it.log(('samples', loc[1]))
        if l is not None:
            it.log(('elem', l[2], tuple(reversed(tail)), val, st.clone(), node, fr.func))


def run(r):
    p = r.p
    n = m = 0
    for cls, f in copy_ops(p):
        n += 1
        m += one(r, cls, f)
    r.floor('copy operations', n, 26)
    r.floor('members compared', m, 150)


def analyse(r, cls, f, client, extra=None, budget=2500000):
    it = Interp(r.p, client, budget=budget)
    src = ('A', f['params'][0]['n'])

    def setup(it, st, fr):
        if f['n'] == 'operator=':
            st = it.assume(st, ('cmp', 'eq', psub(('addr', ('T',)), ('addr', src))), False) or st
        if extra:
            extra(it, st, src)
        return st
    return it, src, r.analyse(it, f, cls=cls, setup=setup)


def one(r, cls, f):
    p = r.p
    req, names = required(p, cls, f)
    if not req:
        return 0
    if cls == 'xmm::Phrase':
        return phrase(r, cls, f, req, names)
    it, src, res = analyse(r, cls, f, Track(cls))
    if res is None:
        return 0
    w = r.where(f)
    op = cls[5:] + (' assignment' if f['n'] == 'operator=' else ' copy')
    r.ob(op + ' ends normally', bool(res[0]) or None, w)
    k = 0
    for n, why in sorted(req.items()):
        t = names[n]['t']
        key = '%s: %s (%s)' % (op, n, why)
        k += 1
        for s, _ in res[0]:
            if n == 'models':
                r.ob(key, *models(it, s, src, w))
            elif cls == 'xmm::TrainingSet' and n == 'phrases_':
                r.ob(key, *phrases(it, s, src, w, f))
            elif n == 'shared_parameters':
                v = it.load(s, F(n))
                S = F(n, base=src)
                if v == ('in', S):
                    r.ob(key, True, w)
                elif v[0] == 'addr':
                    ok, path, x = eq(it, s, v[1], ('d', ('in', S)), 'xmm::SharedParameters', src)
                    r.ob(key, ok, w, 'the copied object has %s = %s' % (path, show(x)[:80] if x else ''))
                else:
                    r.ob(key, False if definite(v) else None, w, 'is %s' % show(v)[:100])
            else:
                ok, path, v = eq(it, s, F(n), F(n, base=src), t, src)
                if ok is None and 'map<' in t:
                    ok, why = table(it, s, n, src)
                    if ok is not None:
                        r.ob(key, ok, w, why)
                        continue
                r.ob(key, ok, w, 'after the operation %s%s is %s' % (n, path, show(v)[:100] if v else '?'))
    for j in it.journal:
        if j[0] == 'elem':
            ok = j[2] and j[2][0] in ELEMENT_OWN or j[2] and j[2][-1] in ELEMENT_OWN
            if not ok and j[2]:
                r.ob('%s: %s of a per-class model after the copy' % (op, j[2][0]), None, r.where(j[6], j[5]),
                     'written: %s' % show(j[3])[:80])
    return k


def table(it, s, n, src):
    """A map filled entry by entry in a loop over the entries of the source."""
    L, S = F(n), F(n, base=src)
    v = it.load(s, L)
    if v[0] != 'lv' or v[1] not in it.loop_entry or v[1] not in s.tr.get('done', ()):
        return None, ''
    uid = v[1]
    E = it.loop_entry[uid]
    k = ('mapkey', uid)
    ns = nexts(it, uid)
    here, there = ('e', L, k), ('e', S, k)
    if not ns or not all(it.truth(x, ('op', 'has', S, k)) for x in ns):
        return None, ''
    if any(has_prefix(w, L) and w[0] == 'e' and w[1] == L and w != here for x in ns for w in x.env):
        return None, ''
    was = it.load(E, L)
    if was == ('in', L):
        if all(it.truth(x, ('op', 'has', L, k)) for x in ns):
            return False, 'entries %s already has under other keys stay' % n
        return None, ''
    if was[0] != 'vec' or was[1] != ZERO:
        return None, ''
    if all(from_src(it.load(x, here), src) and it.load(x, here)[1] == there for x in ns):
        return True, ''
    return None, ''


def models(it, s, src, w):
    S = F('models', base=src)
    v = it.load(s, F('models'))
    if v in (('in', S), ('obj', S)):
        return True, w, ''
    m = s.tr.get('mdl')
    if m in (('in', S), ('obj', S)):        # the elements have been changed since
        return True, w, ''
    if m is not None and definite(m) and not any(j[0] == 'elem' and not j[2] for j in it.journal):
        return False, w, 'models is assigned %s' % show(m)[:80]
    return (False if definite(v) else None), w, 'after the operation models is %s' % show(v)[:100]


def phrases(it, s, src, w, f):
    """A completed loop over the source's phrases has put each under its own index."""
    S = F('phrases_', base=src)
    D = F('phrases_')
    v = it.load(s, D)
    if v in (('in', S), ('obj', S)):
        return True, w, ''
    best = (False, w, 'no completed loop over the phrases of the source')
    if not definite(v):
        best = (None,) + best[1:]
    for u in s.tr.get('done', ()):
        ns = nexts(it, u)
        k = ('mapkey', u)
        if not ns or not any(it.truth(x, ('op', 'has', S, k)) is True or
                             mentions(x.env.get(('e', D, k), ()), ('e', S, k)) or
                             source_of(it, x, D, S, k) is not None for x in ns):
            if ns and any(has_key_of(x, S, k) for x in ns):
                best = (False, w, 'an iteration over the source\'s phrases does not insert the phrase')
            continue
        empty = f.get('ctor') or s.tr.get('ph') is True
        if not empty and s.tr.get('ph') is None:
            return False, w, 'the phrases held before remain'
        alone = all(j[1] == k for j in it.journal if j[0] == 'put')
        for x in ns:
            ok = source_of(it, x, D, S, k)
            if ok is None and empty and alone and x.env.get(('e', D, k)) is None and \
                    it.truth(x, ('op', 'has', D, k)) is True and once(it, x, D, S, k):
                continue        # the index cannot be taken: each is inserted once, into an empty set
            if ok is None and empty and alone and x.tr.get('putk') != k and definite(x.env.get(('e', D, k), ())):
                return False, w, 'an iteration over the phrases of the source leaves the phrase out'
            if ok is not True:
                return (False if ok is False else None), w, 'phrase not put under its own index in an iteration'
        return True, w, ''
    if not s.tr.get('done') and v[:1] == ('vec',):
        return False, w, 'no phrase is copied'
    return best


def once(it, x, D, S, k):
    return any(j[0] == 'put' and j[1] == k and j[2] == ('kept',) for j in it.journal)


def has_key_of(st, S, k):
    return any(mentions(f, ('e', S, k)) for f in st.facts) or any(mentions(v, ('e', S, k)) for v in st.env.values())


def source_of(it, s, D, S, k):
    """True: under k there is the source's phrase k or a copy of it; False: another; None: unknown"""
    v = s.env.get(('e', D, k))
    if v is None:
        return None
    want = ('in', ('e', S, k))
    if v == want:
        return True
    if v[0] == 'addr' and v[1][0] == 'H':
        o = s.env.get(v[1])
        if o is None:
            return None
        if o == ('obj', ('d', want)):
            return True
        if o[0] == 'obj':
            return False
        return False if o[0] == 'undef' else None
    return None


# ------------------------------------------------------------------ phrases
def phrase(r, cls, f, req, names):
    k = 0
    for own in (True, False):
        for bim in (True, False):
            def extra(it, st, src):
                seed_bool(it, st, F('own_memory_', base=src), own)
                seed_bool(it, st, F('bimodal_', base=src), bim)
                g = lambda *n: it.load(st, F(*n, base=src))
                d, di, ln, li, lo, mx = (g('dimension', 'value_'), g('dimension_input', 'value_'), g('length_'),
                                         g('input_length_'), g('output_length_'), g('max_length_'))
                it.nonneg |= {d, di, ln, li, lo, mx}
                st.facts = st.facts | {('le', psub(ONE, d)), ('le', padd(psub(di, d), ONE)), ('le', psub(ln, mx)),
                                       ('le', psub(li, mx)), ('le', psub(lo, mx))}
            it, src, res = analyse(r, cls, f, Track(cls), extra)
            if res is None:
                continue
            w = r.where(f)
            op = 'Phrase ' + ('assignment' if f['n'] == 'operator=' else 'copy')
            case = '%s %s source' % ('bimodal' if bim else 'unimodal', 'owning' if own else 'sharing')
            r.ob('%s, %s ends normally' % (op, case), bool(res[0]) or None, w)
            for n, why in sorted(req.items()):
                key = '%s, %s: %s (%s)' % (op, case, n, why)
                k += 1
                for s, _ in res[0]:
                    if n in ('own_memory_', 'bimodal_'):
                        v = it.load(s, F(n))
                        want = TRUE if (own if n == 'own_memory_' else bim) else FALSE
                        r.ob(key, True if v in (want, ('in', F(n, base=src))) else (False if definite(v) else None), w,
                             'is %s' % show(v)[:80])
                    elif n == 'data_':
                        for c in range(2 if bim else 1):
                            r.ob('%s, modality %d' % (key, c), *data(it, s, src, own, bim, c, w))
                    else:
                        ok, path, v = eq(it, s, F(n), F(n, base=src), names[n]['t'], src)
                        r.ob(key, ok, w, 'after the operation %s%s is %s' % (n, path, show(v)[:100] if v else '?'))
    return k


def data(it, s, src, own, bim, c, w):
    dv = it.load(s, F('data_'))
    if dv[0] != 'addr':
        return (None if not definite(dv) else False), w, 'data_ is %s' % show(dv)[:80]
    S = ('in', ('e', ('d', ('in', F('data_', base=src))), ('i', c)))
    v = it.load(s, ('e', dv[1], ('i', c)))
    if not own:
        if v == S:
            return True, w, ''
        return (False if definite(v) or v[0] == 'addr' else None), w, 'pointer is %s' % show(v)[:80]
    g = lambda *n: it.load(it.entry, F(*n, base=src))
    d, di = g('dimension', 'value_'), g('dimension_input', 'value_')
    dim = d if not bim else (di if c == 0 else psub(d, di))
    ln = g('length_') if not bim else (g('input_length_') if c == 0 else g('output_length_'))
    need = pmul(ln, dim)
    if v == NULL:
        # nothing recorded?
        if it.prove_le(s, ln):
            return True, w, ''
        t = it.assume(s.clone(), ('cmp', 'le', psub(ONE, ln)), True)
        return (True if t is None else None), w, 'no array'
    if v[0] != 'addr':
        return (None if not definite(v) else False), w, 'array is %s' % show(v)[:80]
    if v == S:
        return True, w, ''
    for dst, sv, n in s.tr.get('bulk', ()):
        if dst != v:
            continue
        if sv != S and it.load(s, ('e', ('d', ('in', F('data_', base=src))), ('i', c))) != sv:
            return (False if definite(sv) else None), w, 'filled from %s' % show(sv)[:80]
        q = pdiv(n, dim)
        if it.prove_le(s, psub(need, n)) or q is not None and it.prove_le(s, psub(ln, q)):
            return True, w, ''
        if q is not None:
            short = it.assume(s.clone(), ('cmp', 'le', padd(psub(q, ln), ONE)), True)
            return (False if short is not None and plain(it, n) else None), w, \
                'copies %s of %s frames' % (show(q)[:60], show(ln)[:60])
        short = it.assume(s.clone(), ('cmp', 'le', padd(psub(n, need), ONE)), True)
        return (False if short is not None and plain(it, n) else None), w, \
            'copies %s of %s samples' % (show(n)[:60], show(need)[:60])
    base = s.env.get(v[1])
    if base is not None and base[0] == 'undef' and ('samples', v[1]) not in it.journal:
        return False, w, 'the samples of the source are not copied'
    return None, w, 'array filled in a way not analysed'
