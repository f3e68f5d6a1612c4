"""record, record_input and record_output are analysed with the recorded dimensions, all lengths and the storage
arbitrary (lengths at most the allocated maximum, storage max_length x modality dimension). At every normal end, for
the modalities the operation records: the observation's part is written to [length*d, (length+1)*d) of the array the
phrase then uses, the written part of the observation is that modality's, the modality length is one more, the new
length does not exceed the (possibly grown) maximum; modalities not recorded keep their length; and nothing else is
written to the arrays in use. Growth: a replaced array has new maximum x modality dimension elements, both arrays
of a bimodal phrase agree with the new maximum, and the recorded frames are copied to the same places of the new
array before the old one is released. After every operation (recording, clearing, connecting, disconnecting,
dimension change, construction) a bimodal phrase's length is the shorter of its modality lengths. Clearing leaves the
length of what is cleared zero, and clearing one modality of a bimodal phrase keeps the length of the other."""
from common import *
from c06 import phrase_state
from c07 import DIM, DIN, LEN, array, mdim

LEVEL = 'proof'
EXPLANATION = ('Symbolic ranges (polynomials) of every write of the recording operations against the append position and '
               'the size of the array in use, on every path through growth; lengths at every end of every operation.')

MAX = ('in', F('max_length_'))
AB = ('in', ('G', 'xmm::Phrase::AllocationBlockSize'))
LENF = {0: 'input_length_', 1: 'output_length_'}


def slot(it, s, m):
    return it.load(s, ('e', ('d', ('in', F('data_'))), ('i', m)))


class C(Client):
    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'e' and root_of(loc)[0] in ('d', 'H') and loc[1] != ('d', ('in', F('data_'))):
            if isinstance(loc[2], tuple) and loc[2][0] == 'rng':
                st.tr['w'] = st.tr.get('w', ()) + ((loc, val),)
            it.log(('w', loc, val, st.clone(), node, fr.func))

    def on_new(self, it, st, loc, node, n, fr):
        st.tr['new'] = st.tr.get('new', ()) + ((loc, n),)

    def on_delete(self, it, st, val, arr, node, fr):
        if val[0] == 'in':
            st.tr['del'] = st.tr.get('del', ()) + (val,)


def setup_for(b, own=True, frames=True):
    def setup(it, st, fr):
        phrase_state(it, st, own, b)
        it.nonneg.add(AB)
        fs = {('le', psub(ONE, AB))}
        if b:
            fs |= {('le', psub(LEN[None], LEN[0])), ('le', psub(LEN[None], LEN[1])),
                   ('le', psub(LEN[0], MAX)), ('le', psub(LEN[1], MAX))}
        else:
            fs |= {('le', psub(LEN[None], MAX)), ('le', psub(LEN[0], MAX))}
        st.facts = st.facts | fs
        return st
    return setup


def run(r):
    p = r.p
    n = 0
    for name, mods in (('record', (0, 1)), ('record_input', (0,)), ('record_output', (1,))):
        for f in p.methods['xmm::Phrase'].get(name, []):
            n += 1
            for b in (True, False):
                if b or name == 'record':
                    record(r, f, b, mods if b else (0,))
    r.floor('recording operations', n, 3)
    k = 0
    for name in ('record', 'record_input', 'record_output', 'clear', 'clearInput', 'clearOutput', 'connect',
                 'connect_input', 'connect_output', 'disconnect', 'onAttributeChange'):
        for f in p.methods['xmm::Phrase'].get(name, []):
            if f.get('body'):
                k += 1
                lengths(r, f)
    for f in p.methods['xmm::Phrase'].get('Phrase', []):
        if f.get('ctor') and f.get('body'):
            k += 1
            lengths(r, f)
    r.floor('operations of a phrase', k, 15)
    c = sum(cleared(r, f, name) for name in ('clear', 'clearInput', 'clearOutput')
            for f in p.methods['xmm::Phrase'].get(name, []) if f.get('body'))
    r.floor('clearing operations', c, 3)


def cleared(r, f, name):
    """what is cleared is empty afterwards, and a modality that is not keeps its frames"""
    n = 0
    for b in (True, False):
        it = Interp(r.p, Client())

        def setup(it, st, fr):
            st = setup_for(b, True)(it, st, fr)
            if b:
                seed_min(st, ('T',), it)
            return st
        res = r.analyse(it, f, cls='xmm::Phrase', setup=setup)
        if res is None:
            continue
        n += 1
        gone = (0, 1) if name == 'clear' else (0,) if name == 'clearInput' or not b else (1,)
        for m in (0, 1) if b else (0,):
            key = '%s (%s phrase): %s' % (name, 'bimodal' if b else 'unimodal', ('input', 'output')[m] if b else 'data')
            for s, _ in res[0]:
                v = it.load(s, F(LENF[m] if b else 'length_'))
                if m in gone:
                    z = it.truth(s, ('cmp', 'eq', v))
                    r.ob(key + ' is empty afterwards', True if z else False if plain(it, v) else None, r.where(f),
                         'its length is %s' % show(v)[:80])
                else:
                    d = psub(v, LEN[m])
                    z = d == ZERO or it.truth(s, ('cmp', 'eq', d))
                    r.ob(key + ' is kept', True if z else False if plain(it, d) else None, r.where(f),
                         'its length becomes %s' % show(v)[:80])
    return n


def src_start(val):
    """(where the copied elements come from, first index)"""
    if val[0] != 'rng':
        return None
    v = val[1]
    if v[0] == 'iter':
        return ('in', v[1]) if False else (v[1], v[2])
    if v[0] == 'addr' and v[1][0] == 'e':
        return v[1][1], v[1][2]
    if v[0] == 'addr':
        return v[1], ZERO
    if v[0] == 'in':
        return ('d', v), ZERO
    return None


def below(it, s, p, md):
    q = pdiv(p, md)
    return it.prove_le(s, p) or q is not None and it.prove_le(s, q)


def covers(it, idx, lo, hi, s, exact, md=ONE):
    """Does a write at idx take all of [lo, hi)?  exact: and nothing else."""
    if isinstance(idx, tuple) and idx[0] == 'rng':
        a, c = idx[1], idx[2]
        d0, d1 = psub(a, lo), psub(padd(a, c), hi)
        if exact:
            z = [it.truth(s, ('cmp', 'eq', d)) if d != ZERO else True for d in (d0, d1)]
            if all(z):
                return True
            if any(x is False or x is None and plain(it, d) for x, d in zip(z, (d0, d1))):
                return False
            return None
        if below(it, s, d0, md) and below(it, s, pmul(('i', -1), d1), md):
            return True
        return False if plain(it, d0) and plain(it, d1) else None
    return spans(it, idx, lo, hi)


def record(r, f, b, mods):
    it = Interp(r.p, C())
    pre = setup_for(b)

    def setup(it, st, fr):
        st = pre(it, st, fr)
        if b and len(mods) == 2:        # refused otherwise (C06)
            st = it.assume(st, ('cmp', 'eq', psub(LEN[0], LEN[1])), True)
            st = it.assume(st, ('cmp', 'eq', psub(LEN[None], LEN[0])), True)
        elif not b:
            st = it.assume(st, ('cmp', 'eq', psub(LEN[None], LEN[0])), True)
        return st
    res = r.analyse(it, f, cls='xmm::Phrase', setup=setup)
    if res is None:
        return
    name = '%s (%s phrase)' % (f['n'], 'bimodal' if b else 'unimodal')
    obs = ('A', f['params'][0]['n'])
    w = r.where(f)
    r.ob('ends normally: ' + name, bool(res[0]) or None, w)
    evs = [j for j in it.journal if j[0] == 'w']
    every = evs
    for s, _ in res[0]:
        maxn = it.load(s, F('max_length_'))
        here = s.tr.get('w', ())
        evs = [e for e in every if not (isinstance(e[1][2], tuple) and e[1][2][0] == 'rng') or (e[1], e[2]) in here]
        news = dict(s.tr.get('new', ()))
        for m in ((0, 1) if b else (0,)):
            md, L = mdim(b, m), LEN[m if b else None]
            v = slot(it, s, m)
            nm = '%s, %s' % (name, ('input', 'output')[m] if b else 'data')
            H = v[1] if v[0] == 'addr' else None
            if H is not None and H[0] == 'e' and H[2] == ZERO:
                H = H[1]
            if v == ('in', array(m)[1][1]):
                H = None
                base = array(m)
                ok = it.prove_le(s, psub(maxn, MAX))
                r.ob('storage agrees with the maximum: ' + nm, ok or (False if maxn != MAX and plain(it, maxn) or
                     atoms(maxn) <= {('G', 'xmm::Phrase::AllocationBlockSize'), F('max_length_')} else None), w,
                     'the maximum becomes %s but the array is the old one' % show(maxn))
            elif H is not None and H in news:
                base = H
                d = psub(news[H], pmul(maxn, md))
                r.ob('storage agrees with the maximum: ' + nm, True if d == ZERO or it.prove_le(s, pmul(('i', -1), d)) else
                     False, w, 'allocates %s for a maximum of %s' % (show(news[H]), show(maxn)))
                kept = None
                for _, loc, val, es, node, func in evs:
                    if loc[1] != H:
                        continue
                    ss = src_start(val)
                    if ss is None or ss[0] != array(m):
                        if val[0] == 'in' and loc_of_elem(val) == array(m):
                            c = covers(it, loc[2], ZERO, pmul(L, md), es, False, md)
                            if psub(val[1][2], loc[2]) != ZERO:
                                c = False
                            kept = c if kept is None or c else kept
                        continue
                    c = covers(it, loc[2], ZERO, pmul(L, md), es, False, md)
                    if isinstance(loc[2], tuple) and loc[2][0] == 'rng' and psub(loc[2][1], ss[1]) != ZERO:
                        c = False
                    kept = c if kept is None or c else kept
                    if ('in', array(m)[1][1]) in es.tr.get('del', ()):
                        r.ob('copied before the old array is released: ' + nm, False, r.where(func, node),
                             'reads the released array')
                mine = [e for e in evs if e[1][1] == H and (src_start(e[2]) or (None,))[0] != obs]
                if not mine:
                    kept = False
                if it.truth(s, ('in', array(m)[1][1])) is False:
                    kept = True         # nothing was allocated before
                zero = it.truth(s, ('cmp', 'eq', MAX)) or it.truth(s, ('cmp', 'eq', L))
                r.ob('recorded frames kept: ' + nm, True if kept or zero else kept, w,
                     'the recorded frames are not all copied to the new array')
            else:
                r.ob('array in use: ' + nm, None, w, 'the array is %s' % show(v)[:80])
                continue
            n1 = it.load(s, F(LENF[m]))
            if m in mods:
                r.ob('length grows by one: ' + nm, psub(n1, LEN[m]) == ONE, w, 'length becomes %s' % show(n1)[:80])
                if not b:
                    l1 = it.load(s, F('length_'))
                    r.ob('phrase length grows by one: ' + nm, psub(l1, LEN[None]) == ONE, w, 'length becomes %s' % show(l1)[:80])
                inb = it.prove_le(s, psub(padd(L, ONE), maxn))
                r.ob('the new frame is inside the storage: ' + nm, True if inb else False if not H else None, w,
                     'length %s, maximum %s' % (show(padd(L, ONE)), show(maxn)))
                start = DIN if b and m == 1 and 0 in mods else ZERO
                got = None
                for _, loc, val, es, node, func in evs:
                    if loc[1] != base:
                        continue
                    ss = src_start(val)
                    if ss and ss[0] == obs or val[0] == 'in' and loc_of_elem(val) == obs:
                        c = covers(it, loc[2], pmul(L, md), pmul(padd(L, ONE), md), s, True)
                        if ss and psub(ss[1], start) != ZERO:
                            r.ob('part of the observation recorded: ' + nm, False if plain(it, ss[1]) else None,
                                 r.where(func, node), 'copies from %s' % show(ss[1]))
                        got = c if got is None else (got and c)
                        r.ob('appended in place: ' + nm, c, r.where(func, node), 'writes %s, expected frame %s' % (
                            show(('in', loc))[:120], show(L)))
                if got is None:
                    r.ob('appended in place: ' + nm, False if all(e[2][0] in ('rng', 'in') for e in evs) else None, w,
                         'the observation is not written to the array in use')
            else:
                r.ob('other modality keeps its length: ' + nm, n1 == LEN[m], w, 'length becomes %s' % show(n1)[:80])
                for _, loc, val, es, node, func in evs:
                    ss = src_start(val)
                    if loc[1] == base and ss and ss[0] == obs:
                        r.ob('other modality not written: ' + nm, False, r.where(func, node),
                             'writes %s' % show(('in', loc))[:100])
    r.calls += len(every)


def loc_of_elem(v):
    return v[1][1] if v[0] == 'in' and v[1][0] == 'e' else None


def lengths(r, f):
    """length == min of the modality lengths (bimodal) at each normal end."""
    ctor = f.get('ctor')
    for b in (True,) if not ctor else (None,):
        for own in (True, False) if not ctor else (None,):
            it = Interp(r.p, Client())
            ats = ('dimension', 'dimension_input', 'label') if f['n'] == 'onAttributeChange' else (None,)
            for at in ats:
                def setup(it, st, fr):
                    if ctor:
                        if f.get('copy'):
                            src = ('A', f['params'][0]['n'])
                            for n in ('length_', 'input_length_', 'output_length_', 'max_length_'):
                                it.nonneg.add(('in', F(n, base=src)))
                            seed_min(st, src, it)
                        return st
                    st = setup_for(b, own)(it, st, fr)
                    seed_min(st, ('T',), it)
                    return st
                args = [('addr', F(at))] if at else None
                res = r.analyse(it, f, cls='xmm::Phrase', setup=setup, args=args)
                if res is None:
                    continue
                key = 'bimodal length is the shorter one after %s(%s)%s' % (
                    f['n'], ', '.join(x['t'] if ctor else x['n'] for x in f['params']), ' of ' + at if at else '')
                for s, _ in res[0]:
                    bv = it.load(s, F('bimodal_'))
                    if ctor:
                        bt = it.boolterm(s, bv)
                        s = it.assume(s.clone(), bt, True)
                        if s is None:
                            continue
                    l, a, o = (it.load(s, F(x)) for x in ('length_', 'input_length_', 'output_length_'))
                    r.ob(key, is_min(it, s, l, a, o), r.where(f), 'lengths %s, modalities %s and %s' % (
                        show(l)[:60], show(a)[:60], show(o)[:60]))


def seed_min(st, base, it):
    """length is the minimum on entry: min is a symbol bounded by both and equal to one of them"""
    l, a, o = (('in', F(x, base=base)) for x in ('length_', 'input_length_', 'output_length_'))
    st.facts = st.facts | {('le', psub(l, a)), ('le', psub(l, o))}
    it.ismin = (l, a, o)


def is_min(it, s, l, a, o):
    if l[0] == 'op' and l[1] in ('min', 'max'):
        same = any(psub(l[2], x) == ZERO and psub(l[3], y) == ZERO for x, y in ((a, o), (o, a)))
        if same or psub(a, o) == ZERO and (l[2] == a or l[3] == a):
            return l[1] == 'min' or psub(a, o) == ZERO
        if all(plain(it, x) for x in (l[2], l[3], a, o)):
            return False
        return None
    for x in (a, o):
        if it.truth(s, ('cmp', 'eq', psub(l, x))) or l == x:
            if it.prove_le(s, psub(l, a)) and it.prove_le(s, psub(l, o)):
                return True
    m = getattr(it, 'ismin', None)
    if m and psub(l, m[0]) == psub(a, m[1]) == psub(o, m[2]):
        return True
    if l[0] == 'u':
        return None
    # a definite counterexample shape: different modality length but neither equal
    ds = [psub(l, x) for x in (a, o)]
    if all(plain(it, d) for d in ds):
        if m and l == m[0] and (a, o) != (m[1], m[2]):
            return False
        for x in (a, o):
            if it.assume(s.clone(), ('cmp', 'le', padd(psub(x, l), ONE)), True) is not None and not it.prove_le(s, psub(l, x)):
                return False
    return None
