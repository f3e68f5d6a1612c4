"""For each combination of memory mode (own/shared) and modality (unimodal/bimodal), every operation of a phrase
is analysed with the rest of the phrase arbitrary. Where the operation is not allowed: no normal end, and at the
throw nothing outside the activation has been written, freed or allocated into the phrase. Where it is allowed
(and, for recording, the observation has exactly the recorded dimension and a bimodal phrase has equal lengths):
no exception. Where only the observation size or the lengths are wrong: refused in the same way."""
from common import *

LEVEL = 'proof'
EXPLANATION = ('Case analysis over memory mode x modality x size agreement for every phrase operation by abstract '
               'interpretation: refused cases only throw with the phrase unwritten, allowed cases never throw.')

# name, number of parameters, memory owned, bimodal, recorded dimension
OPS = [('connect', 2, False, False, None), ('connect', 3, False, True, None), ('connect_input', 2, False, True, None),
       ('connect_output', 2, False, True, None), ('disconnect', 0, False, None, None),
       ('record', 1, True, None, 'all'), ('record_input', 1, True, True, 'in'), ('record_output', 1, True, True, 'out'),
       ('clear', 0, True, None, None), ('clearInput', 0, True, None, None), ('clearOutput', 0, True, None, None),
       ('getPointer', 1, None, False, None), ('getPointer_input', 1, None, True, None),
       ('getPointer_output', 1, None, True, None)]
LOCAL = ('L', 'tmp', 'retv')


class W(Client):
    def on_write(self, it, st, loc, val, node, fr):
        if root_of(loc)[0] not in LOCAL and root_of(loc) != ('T',):
            st.tr.setdefault('w', show(loc))

    def on_delete(self, it, st, val, arr, node, fr):
        st.tr.setdefault('w', 'a released array')


def phrase_state(it, st, own, bim):
    """own / bimodal as given; dimensions within the invariant of C03; lengths non-negative."""
    if own is not None:
        seed_bool(it, st, F('own_memory_'), own)
    if bim is not None:
        seed_bool(it, st, F('bimodal_'), bim)
    d, di = it.load(st, F('dimension', 'value_')), it.load(st, F('dimension_input', 'value_'))
    it.nonneg |= {d, di}
    st.facts = st.facts | {('le', psub(ONE, d)), ('le', padd(psub(di, d), ONE))}
    if bim:
        st.facts = st.facts | {('le', psub(ONE, di))}
    for n in ('length_', 'input_length_', 'output_length_', 'max_length_'):
        it.nonneg.add(it.load(st, F(n)))
    return d, di


def run(r):
    p = r.p
    n = 0
    for name, np, own, bim, rec in OPS:
        fs = [f for f in p.methods['xmm::Phrase'].get(name, []) if len(f['params']) == np and f.get('body')]
        if not fs:
            continue
        f = fs[0]
        n += 1
        for o in (True, False):
            for b in (True, False):
                ok = (own is None or own == o) and (bim is None or bim == b)
                cases = ['any'] if not ok or rec is None else ['match', 'mismatch'] + \
                    (['uneven'] if rec == 'all' and b else [])
                for c in cases:
                    one(r, f, o, b, rec, c, ok and c in ('any', 'match'), name.startswith('getPointer'))
    r.floor('phrase operations', n, 14)


def one(r, f, o, b, rec, case, ok, inrange):
    it = Interp(r.p, W())

    def setup(it, st, fr):
        d, di = phrase_state(it, st, o, b)
        li, lo, l = (it.load(st, F(x)) for x in ('input_length_', 'output_length_', 'length_'))
        if inrange and ok:
            i = ('in', ('A', f['params'][0]['n']))
            it.nonneg.add(i)
            st.facts = st.facts | {('le', padd(psub(i, l), ONE)), ('le', psub(l, li))}
            if b:
                st.facts = st.facts | {('le', psub(l, lo))}
        if case != 'any':
            sz = ('in', ('f', ('A', f['params'][0]['n']), '#size'))
            it.nonneg.add(sz)
            want = {'all': d, 'in': di, 'out': psub(d, di)}[rec]
            st = it.assume(st, ('cmp', 'eq' if case != 'mismatch' else 'ne', psub(sz, want)), True)
            if b and rec == 'all':
                st = it.assume(st, ('cmp', 'eq' if case != 'uneven' else 'ne', psub(li, lo)), True)
        return st
    res = r.analyse(it, f, cls='xmm::Phrase', setup=setup)
    if res is None:
        return
    key = '%s(%s) on %s %s phrase%s' % (f['n'], ', '.join(x['n'] for x in f['params']), 'owning' if o else 'shared',
                                       'bimodal' if b else 'unimodal', {'any': '', 'match': ', matching size',
                                                                        'mismatch': ', wrong size',
                                                                        'uneven': ', modalities of different length'}[case])
    w = r.where(f)
    normal, thrown = res
    if ok:
        r.ob('allowed: ' + key, bool(normal) and not thrown, thrown and '%s:%s' % thrown[0][2][1:] or w,
             'an allowed operation %s' % ('throws ' + thrown[0][1] if thrown else 'never returns'))
    else:
        r.ob('refused: ' + key, not normal, w, 'the operation is carried out')
        for s, ty, info in thrown:
            ch = changed_locs(it, s)
            r.ob('unchanged: ' + key, not ch and not s.tr.get('w'), '%s:%s' % info[1:], 'refused, but %s was modified' %
                 ', '.join([show(x) for x in ch] + ([s.tr['w']] if s.tr.get('w') else [])))
