"""(a) Every rebuild function of a training set (a method without parameters that rewrites the labels and the class
subsets from the phrases): the label set is emptied and then completely refilled - a loop over all phrases after each
of whose iterations the phrase's label is in the set, only labels of phrases being inserted; the subsets are emptied
and then completely refilled - for each label a loop over all phrases after each of whose iterations the subset of the
label holds the phrase under its own index if the labels agree and does not if they differ; each subset has the set's
dimensions and column names.
(b) Every public operation, constructor, assignment and event handler: after the last change of the phrases held, or
of a label of one of them, a rebuild function runs before the operation ends normally (or phrases, labels and subsets
are all emptied). (c) A label-changed event makes the set rebuild, and changing the label of a phrase sends one."""
from common import *

LEVEL = 'proof'
EXPLANATION = ('Universal statement per rebuild loop checked at the end of every iteration, plus typestate (changed / '
               'rebuilt) over every path of every operation of the training set.')

PH, LAB, SUB = F('phrases_'), F('labels_'), F('sub_training_sets_')
CLS = 'xmm::TrainingSet'


def phrase_of(k):
    return ('d', ('in', ('e', PH, k)))


def label_of(it, s, k):
    return it.load(s, ('f', ('f', phrase_of(k), 'label'), 'value_'))


def over(it, s, key):
    """Is this loop key a key of the phrases?"""
    return it.truth(s, ('op', 'has', PH, key)) is True


def same(it, s, a, b):
    for t in (('op', 'same', a, b), ('op', 'same', b, a)):
        v = it.truth(s, t)
        if v is not None:
            return v
    return True if a == b else None


class Reb(LoopTrack):
    keys_once = True        # other keys put in these maps are reported by the obligations on keys below

    def on_write(self, it, st, loc, val, node, fr):
        if loc == LAB or loc == SUB:
            st.tr['clr' + loc[2]] = st.tr.get('done', ()) if val[:2] == ('vec', ZERO) else 'other'
        if loc[0] == 'e' and loc[1] == LAB:
            it.log(('lab', loc[2], val, st.clone(), node, fr.func))
        if loc[0] == 'e' and loc[1][0] == 'f' and loc[1][2] == 'phrases_' and loc[1][1][0] == 'e' and loc[1][1][1] == SUB:
            it.log(('sub', loc[1][1][2], loc[2], val, st.clone(), node, fr.func))


class Ops(Client):
    def __init__(self, rebuild):
        self.rebuild = rebuild
        self.sites = 0

    def on_call(self, it, st, node, callee, obj, args, fr):
        if callee and callee['id'] in self.rebuild and obj == ('T',):
            self.sites += 1
            st.tr['chg'] = st.tr['part'] = None
            st.tr['built'] = True
            return [(st, None)]
        return None

    def on_write(self, it, st, loc, val, node, fr):
        at = '%s:%s' % (fr.func['n'] if fr.func else '?', node.get('l', '?'))
        if loc == PH or loc[0] == 'e' and loc[1] == PH:
            if val != ('kept',):
                st.tr['chg'] = at
                st.tr['part'] = None
        elif loc == LAB or loc == SUB or loc[0] == 'e' and has_prefix(loc, LAB) or has_prefix(loc, SUB):
            if st.tr.get('chg') and val[:2] != ('vec', ZERO):
                st.tr['part'] = at
        elif loc[0] == 'f' and loc[2] == 'value_' and loc[1][0] == 'f' and loc[1][2] == 'label' and \
                root_of(loc)[0] in ('d', 'H'):
            if holds(it, st, root_of(loc)):
                st.tr['chg'] = at
                st.tr['part'] = None


def holds(it, st, root):
    """Is this phrase object (possibly) one of those held?"""
    if root[0] == 'd':
        return True
    for l, v in st.env.items():
        if l[0] == 'e' and l[1] == PH and v == ('addr', root):
            return True
    return False


def rebuilders(p):
    out = []
    for fs in p.methods[CLS].values():
        for f in fs:
            if not f.get('body') or f.get('ctor') or f.get('params') or f['n'].startswith('~'):
                continue
            out.append(f)
    return out


def run(r):
    p = r.p
    upd = p.methods[CLS].get('update', [])
    cand = [f for f in upd if f.get('body')]
    if not cand:        # renamed: any parameterless method that refills both indexes
        for f in rebuilders(p):
            it = Interp(p, Reb())
            try:
                it.analyse(f, cls=CLS)
            except Bailout:
                continue
            if any(j[0] == 'lab' for j in it.journal) and any(j[0] == 'sub' for j in it.journal):
                cand.append(f)
    r.floor('rebuild functions', len(cand), 1)
    for f in cand:
        rebuild(r, f)
    ids = {f['id'] for f in cand}
    n = sites = 0
    for name, fs in sorted(p.methods[CLS].items()):
        for f in fs:
            if not f.get('body') or f['id'] in ids or name.startswith('~'):
                continue
            if not (f.get('ctor') or f['acc'] == 'public' or name.startswith('on')):
                continue
            if f.get('const'):
                continue
            n += 1
            sites += op(r, f, ids)
    r.floor('operations of a training set', n, 20)
    r.floor('rebuild calls met', sites, 8)
    events(r, ids)


def rebuild(r, f):
    it = Interp(r.p, Reb())
    res = r.analyse(it, f, cls=CLS)
    if res is None:
        return
    w = r.where(f)
    name = f['n']
    ends = res[0]
    r.ob(name + ' ends normally', bool(ends) or None, w)
    for j in it.journal:        # nothing but labels of phrases is inserted
        if j[0] == 'lab':
            s, k = j[3], j[1]
            ok = any(label_of(it, s, a) == k and over(it, s, a) for a in keys(k))
            r.ob(name + ': only labels of phrases enter the label set', True if ok else
                 (None if mentions_u(k) else False), r.where(j[5], j[4]), 'inserts %s' % show(k)[:120])
    sub_ok = {}
    for s, _ in ends:
        done = s.tr.get('done', ())
        # labels
        c = s.tr.get('clrlabels_')
        r.ob(name + ': the label set is emptied first', {None: False, 'other': None}.get(c, True), w, 'old labels survive')
        c = () if c in (None, 'other') else c
        got = False
        for u in done:
            if u in c:
                continue
            k = ('mapkey', u)

            def pred(x):
                return over(it, x, k) and it.truth(x, ('op', 'has', LAB, label_of(it, x, k)))
            v = every(it, u, pred) if nexts(it, u) else False
            got = got or v
        r.ob(name + ': the label of every phrase is in the label set', True if got else
             got, w,
             'no completed loop over the phrases adds every label')
        # subsets
        c = s.tr.get('clrsub_training_sets_')
        r.ob(name + ': the class subsets are emptied first', {None: False, 'other': None}.get(c, True), w, 'old subsets survive')
        c = () if c in (None, 'other') else c
        got, why = False, ''
        for u in done:
            if u in c:
                continue
            if u not in sub_ok:
                sub_ok[u] = fills(it, r, u)
            v = sub_ok[u]
            if v[0] is True:
                got = True
                break
            if v[0] is False and got is False:
                why = v[1]
            if v[0] is None:
                got = None
        if got is False and not why:
            why = 'no completed loop puts every phrase in the subset of its label'
        r.ob(name + ': each subset holds exactly the phrases with its label, under their index', got, w, why)
    # what is put in a subset, and where
    for j in it.journal:
        if j[0] != 'sub':
            continue
        l, idx, val, s = j[1], j[2], j[3], j[4]
        if val[0] in ('kept', 'erased') or idx[0] != 'mapkey':
            if not mentions_u(idx) and val[0] not in ('kept', 'erased'):
                r.ob(name + ': phrases keep their index in the subset', False, r.where(j[6], j[5]), 'index %s' % show(idx)[:80])
            continue
        if val == ('in', ('e', PH, idx)):
            lb = label_of(it, s, idx)
            ok = same(it, s, lb, l)
            if l[0] == 'mapkey' or ok is False:
                r.ob(name + ': only phrases with the label enter its subset', ok if ok else False, r.where(j[6], j[5]),
                     'phrase %s enters subset %s' % (show(idx)[:60], show(l)[:60]))
        elif val[0] == 'in' and val[1][0] == 'e' and val[1][1] == PH:
            r.ob(name + ': phrases keep their index in the subset', False, r.where(j[6], j[5]), 'index %s' % show(idx)[:80])
    r.floor('phrases entering a subset', sum(1 for j in it.journal if j[0] == 'sub'), 1)


def keys(v):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'mapkey':
                out.append(x)
                return
            for y in x:
                walk(y)
    walk(v)
    return out


def mentions_u(v):
    return isinstance(v, tuple) and (v[:1] == ('u',) or any(mentions_u(x) for x in v))


def fills(it, r, u):
    """Does the completed loop u put every phrase in the subset of its label?"""
    ns = nexts(it, u)
    if not ns:
        return False, ''
    k = ('mapkey', u)
    if over(it, ns[0], k):      # one loop over the phrases
        def pred(x):
            lb = label_of(it, x, k)
            v = it.load(x, ('e', ('f', ('e', SUB, lb), 'phrases_'), k))
            return True if v == ('in', ('e', PH, k)) else None
        return every(it, u, pred), ''
    if all(it.truth(x, ('op', 'has', LAB, k)) is not True for x in ns):
        return False, 'loop %s is over neither the phrases nor the labels' % (u[1],)
    res = True
    why = ''
    for x in ns:
        b = False
        for i in x.tr.get('done', ()):
            k2 = ('mapkey', i)

            def pred(y):
                if not over(it, y, k2):
                    return False
                lb = label_of(it, y, k2)
                loc = ('e', ('f', ('e', SUB, k), 'phrases_'), k2)
                v = it.load(y, loc)
                q = same(it, y, lb, k)
                want = ('in', ('e', PH, k2))
                if q is True:
                    return True if v == want else (None if mentions_u(v) else False)
                if q is False:
                    return False if v == want else True
                return None if v == want else False
            v = every(it, i, pred) if nexts(it, i) else False
            b = b or v
        if b is not True:
            res = b if res is True else (res and b)
            why = 'the subset of a label does not get exactly its phrases'
        # same dimensions and names
        for a in ('dimension', 'dimension_input', 'column_names'):
            v = it.load(x, F(a, 'value_', base=('e', SUB, k)))
            want = it.load(x, F(a, 'value_'))
            if v[0] == 'obj':
                v = it.load(x, v[1])
            ok = v == want or v == ('in', F(a, 'value_')) or v == ('obj', F(a, 'value_'))
            r.ob('each subset has the set\'s ' + a, True if ok else (None if mentions_u(v) else False), '',
                 'subset has %s' % show(v)[:100])
    return res, why


def op(r, f, ids):
    c = Ops(ids)
    it = Interp(r.p, c)
    args = None

    def setup(it, st, fr):
        if f['n'].startswith('operator='):
            st = it.assume(st, ('cmp', 'eq', psub(('addr', ('T',)), ('addr', ('A', f['params'][0]['n'])))), False) or st
        return st
    name = '%s(%s)' % (f['n'], ', '.join(x['t'] for x in f['params']))
    if f['n'] == 'onPhraseEvent' or f['n'] == 'onAttributeChange':
        return 0
    res = r.analyse(it, f, cls=CLS, args=args)
    if res is None:
        return c.sites
    for s, _ in res[0]:
        chg = s.tr.get('chg')
        if not chg:
            r.ob('labels and subsets rebuilt after ' + name, True)
            continue
        empty = all(it.load(s, x)[:2] == ('vec', ZERO) for x in (PH, LAB, SUB))
        if empty:
            r.ob('labels and subsets rebuilt after ' + name, True)
            continue
        r.ob('labels and subsets rebuilt after ' + name, None if s.tr.get('part') else False, r.where(f),
             'changed at %s and not rebuilt afterwards' % chg)
    return c.sites


def events(r, ids):
    p = r.p
    e = [(n, x) for n, x in p.enums.items() if any(y['n'] == 'LabelChanged' for y in x['e'])]
    if not e:
        return
    val = [y['v'] for y in e[0][1]['e'] if y['n'] == 'LabelChanged'][0]
    n = 0
    for f in p.methods[CLS].get('onPhraseEvent', []):
        c = Ops(ids)
        it = Interp(p, c)

        def setup(it, st, fr):
            st.env[F('type', base=('A', f['params'][0]['n']))] = ('i', val)
            return st
        res = r.analyse(it, f, cls=CLS, setup=setup)
        if res is None:
            continue
        n += 1
        for s, _ in res[0]:
            r.ob('relabelling a phrase rebuilds the set', True if s.tr.get('built') else False, r.where(f),
                 'a path handles the label change without rebuilding')
    for f in p.methods['xmm::Phrase'].get('onAttributeChange', []):
        class N(Client):
            def on_call(self, it, st, node, callee, obj, args, fr):
                if callee and callee['n'] == 'notifyListeners' and obj == F('events'):
                    v = args[0]
                    t = it.load(st, ('f', v[1], 'type')) if v and v[0] == 'loc' else None
                    st.tr['sent'] = st.tr.get('sent', ()) + (t,)
                    return [(st, None)]
        it = Interp(p, N())
        res = r.analyse(it, f, cls='xmm::Phrase', args=[('addr', F('label'))])
        if res is None:
            continue
        n += 1
        for s, _ in res[0]:
            t = s.tr.get('sent', ())
            ok = True if ('i', val) in t else (False if all(x and x[0] == 'i' for x in t) else None)
            r.ob('changing the label of a phrase sends a label-changed event', ok, r.where(f), 'sends %s' % (t,))
    r.floor('handlers of label changes', n, 2)
