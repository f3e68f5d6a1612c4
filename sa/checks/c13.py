"""(a) The attribute-change handler of a training set, for the dimension, the input dimension and the column names: at
every normal end a loop over all phrases and a loop over all class subsets have completed after each of whose iterations
the phrase (the subset) has the set's value of that attribute, and nothing later in the handler changes the set's value
without passing it on. (b) A phrase created through the set (an operation that stores a newly made phrase not copied
from another one): when the operation ends it has the set's memory mode, modality, dimension, input dimension and
column names, and the requested label."""
from common import *
from c12 import PH, SUB, CLS, mentions_u

LEVEL = 'proof'
EXPLANATION = ('Universal statement per loop of the handler, checked at the end of every iteration on every path; final '
               'state of the created phrase on every path of the creating operations.')

ATTRS = ('dimension', 'dimension_input', 'column_names')


class C(LoopTrack):
    max_depth = 9

    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] == 'value_' and loc[1][0] == 'f' and loc[1][1] == ('T',) and loc[1][2] in ATTRS:
            st.tr['at_' + loc[1][2]] = st.tr.get('done', ())


def value(it, s, loc):
    v = it.load(s, loc)
    n = 0
    while v[0] == 'obj' and n < 4:
        w = it.load(s, v[1])
        if w == v:
            break
        v, n = w, n + 1
    return v


def vloc(p, cls, a, base):
    f = [x for _, x in p.fields(cls) if x['n'] == a]
    attr = not f or 'Attribute<' in f[0]['t']
    return F(a, 'value_', base=base) if attr else F(a, base=base)


def agree(it, s, a, b):
    """same value / different / unknown"""
    x, y = value(it, s, a), value(it, s, b)
    if x == y or x in (('in', b), ('obj', b)) and y in (('in', b), ('obj', b)):
        return True
    if x[0] == 'vec' and y[0] == 'vec' and x == y:
        return True
    if mentions_u(x) or mentions_u(y):
        return None
    if untouched(x, a):
        return False        # not written: keeps whatever it had
    if x[0] == 'vec' and y[0] in ('in', 'obj'):
        return False        # rebuilt with one repeated value
    p = psub(x, y) if x[0] in ('in', 'i', 'poly', 'lv') and y[0] in ('in', 'i', 'poly', 'lv') else None
    if p is not None:
        t = it.truth(s, ('cmp', 'eq', p))
        return t if t is not None else (False if plain(it, p) else None)
    return None


def run(r):
    p = r.p
    fs = [f for f in p.methods[CLS].get('onAttributeChange', []) if f.get('body')]
    r.floor('attribute-change handlers of a training set', len(fs), 1)
    for f in fs:
        for a in ATTRS:
            handler(r, f, a)
    n = 0
    for name, fs in sorted(p.methods[CLS].items()):
        for f in fs:
            if f.get('body') and f['acc'] == 'public' and not f.get('ctor') and not f.get('const'):
                n += created(r, f)
    r.floor('operations that create a phrase', n, 1)


def handler(r, f, a):
    it = Interp(r.p, C())

    res = r.analyse(it, f, cls=CLS, args=[('addr', F(a))])
    if res is None:
        return
    w = r.where(f)
    r.ob('handler of %s ends normally' % a, bool(res[0]) or None, w)
    cache = {}
    for s, _ in res[0]:
        late = s.tr.get('at_' + a, ())
        for what, L in (('phrase', PH), ('class subset', SUB)):
            got = False
            for u in s.tr.get('done', ()):
                if u in late:
                    continue
                if (u, what) not in cache:
                    k = ('mapkey', u)

                    def pred(x):
                        if it.truth(x, ('op', 'has', L, k)) is not True:
                            return False
                        o = ('d', ('in', ('e', L, k))) if what == 'phrase' else ('e', L, k)
                        return agree(it, x, vloc(r.p, 'xmm::Phrase' if what == 'phrase' else CLS, a, o), F(a, 'value_'))
                    cache[u, what] = every(it, u, pred) if nexts(it, u) else False
                v = cache[u, what]
                got = got or v
                if got is True:
                    break
            r.ob('setting %s reaches every %s' % (a, what), got, w,
                 'no completed loop gives every %s the value' % what)


def created(r, f):
    """operations storing a new phrase that is not a copy"""
    made = {}

    class N(Client):
        def on_call(self, it, st, node, callee, obj, args, fr):
            if callee and callee['n'] == 'update' and obj == ('T',):
                return [(st, None)]     # writes only the labels and the subsets (C12)
            return None

        def on_write(self, it, st, loc, val, node, fr):
            if loc[0] == 'e' and loc[1] == PH and val[0] == 'addr' and val[1][0] == 'H':
                st.tr['made'] = st.tr.get('made', ()) + (val[1],)

        def on_enter(self, it, st, func, obj, args, fr):
            if func.get('ctor') and func.get('copy') and func['cls'] == 'xmm::Phrase':
                st.tr['copied'] = st.tr.get('copied', ()) + (obj,)
    it = Interp(r.p, N())
    try:
        res, th, _ = it.analyse(f, cls=CLS)
    except Bailout:
        return 0
    n = 0
    key = '%s(%s)' % (f['n'], ', '.join(x['t'].split('<')[0] for x in f['params']))
    for s, _ in res:
        for h in s.tr.get('made', ()):
            if h in s.tr.get('copied', ()):
                continue
            n = 1
            for x in ('own_memory_', 'bimodal_'):
                a, b = it.load(s, F(x, base=h)), it.load(s, F(x))
                ta, tb = it.truth(s, it.boolterm(s, a)), it.truth(s, it.boolterm(s, b))
                ok = a == b or (ta == tb if ta is not None and tb is not None else
                                False if ta is not None and b == ('in', F(x)) else None)
                r.ob('%s: the phrase has the set\'s %s' % (key, x), ok, r.where(f), '%s, set %s' % (show(a), show(b)))
            for x in ATTRS:
                l = vloc(r.p, 'xmm::Phrase', x, h)
                ok = agree(it, s, l, F(x, 'value_'))
                r.ob('%s: the phrase has the set\'s %s' % (key, x), ok, r.where(f), '%s' % show(it.load(s, l))[:100])
            ls = [q for q in f['params'] if 'string' in q['t']]
            for q in ls[:1]:
                v = value(it, s, F('label', 'value_', base=h))
                want = {('in', ('A', q['n'])), ('obj', ('A', q['n']))}
                r.ob('%s: the phrase has the requested label' % key, True if v in want else None if mentions_u(v) else False,
                     r.where(f), 'label %s' % show(v)[:100])
    r.note_run(it, f)
    return n
