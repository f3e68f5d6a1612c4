"""getValue and the three getPointer variants are analysed for each modality and each position of the index
(inside / at or beyond the length) and of the dimension (input part / output part / beyond). Inside: no
exception, and the location returned is, as a polynomial, frame*modality dimension + dimension within the
modality, in the array of that modality. Outside: no normal end.
rescale: each write into the data arrays is at frame*modality dimension + k of its modality array with
0 <= frame < length, the offset and gain it uses are entry k (input) or dimension_input + k (output), and the
loops take every frame and every dimension of the modality exactly once."""
from common import *
from c06 import phrase_state

LEVEL = 'proof'
EXPLANATION = ('Symbolic (polynomial) location of every access decided against the row-major layout, with loop ranges by '
               'induction-variable analysis; bounds by case analysis over index and dimension positions.')

DIM, DIN = ('in', F('dimension', 'value_')), ('in', F('dimension_input', 'value_'))
LEN = {None: ('in', F('length_')), 0: ('in', F('input_length_')), 1: ('in', F('output_length_'))}


def array(m):
    return ('d', ('in', ('e', ('d', ('in', F('data_'))), ('i', m))))


def mdim(b, m):
    return DIM if not b else (DIN if m == 0 else psub(DIM, DIN))


def trimmed(it, st, b):
    """length is the shorter of the two modalities (C08)"""
    if b:
        st.facts = st.facts | {('le', psub(LEN[None], LEN[0])), ('le', psub(LEN[None], LEN[1]))}


def run(r):
    p = r.p
    n = 0
    for f in p.methods['xmm::Phrase'].get('getValue', []):
        n += 1
        for b in (True, False):
            for dimpos in (('in', 'out') if b else ('in',)) + ('beyond',):
                for inside in (True, False):
                    if dimpos == 'beyond' and not inside:
                        continue
                    access(r, f, b, dimpos, inside and dimpos != 'beyond', inside)
    for nm, b, m in (('getPointer', False, 0), ('getPointer_input', True, 0), ('getPointer_output', True, 1)):
        for f in p.methods['xmm::Phrase'].get(nm, []):
            n += 1
            for inside in (True, False):
                pointer(r, f, b, m, inside)
    for f in p.methods['xmm::Phrase'].get('rescale', []):
        n += 1
        for b in (True, False):
            rescale(r, f, b)
    r.floor('access functions', n, 5)


def access(r, f, b, dimpos, ok, inside):
    it = Interp(r.p, Client())
    i, d = (('in', ('A', x['n'])) for x in f['params'])
    m = 1 if dimpos == 'out' else 0

    def setup(it, st, fr):
        phrase_state(it, st, None, b)
        trimmed(it, st, b)
        it.nonneg |= {i, d}
        fs = {'in': [padd(psub(d, DIN if b else DIM), ONE)], 'out': [psub(DIN, d), padd(psub(d, DIM), ONE)],
              'beyond': [psub(DIM, d)]}[dimpos]
        L = LEN[m if b else None]
        fs.append(padd(psub(i, L), ONE) if inside else psub(L, i))
        st.facts = st.facts | {('le', q) for q in fs}
        return st
    res = r.analyse(it, f, cls='xmm::Phrase', setup=setup)
    if res is None:
        return
    key = 'getValue on a %s phrase, dimension %s, frame %s' % (
        'bimodal' if b else 'unimodal', {'in': 'of the input' if b else 'inside', 'out': 'of the output',
                                         'beyond': 'beyond the last'}[dimpos], 'inside' if inside else 'outside')
    k = psub(d, DIN) if dimpos == 'out' else d
    want = ('e', array(m), padd(pmul(i, mdim(b, m)), k))
    judge(r, it, f, key, ok, res, want, lambda s, v: v[1] if v[0] in ('in', 'obj') else None)


def pointer(r, f, b, m, inside):
    it = Interp(r.p, Client())
    i = ('in', ('A', f['params'][0]['n']))

    def setup(it, st, fr):
        phrase_state(it, st, None, b)
        trimmed(it, st, b)
        it.nonneg.add(i)
        L = LEN[None]
        st.facts = st.facts | {('le', padd(psub(i, L), ONE) if inside else psub(L, i))}
        return st
    res = r.analyse(it, f, cls='xmm::Phrase', setup=setup)
    if res is None:
        return
    key = '%s, frame %s' % (f['n'], 'inside' if inside else 'outside')
    want = ('e', array(m), pmul(i, mdim(b, m)))
    judge(r, it, f, key, inside, res, want, lambda s, v: v[1] if v[0] == 'addr' else None)


def norm(l):
    """Element 0 of an array is where its pointer points."""
    return l


def judge(r, it, f, key, ok, res, want, loc):
    normal, thrown = res
    w = r.where(f)
    if not ok:
        r.ob('refused: ' + key, not normal, w, 'an access outside the phrase succeeds')
        r.ob('throws: ' + key, bool(thrown) or bool(normal) or None, w)
        return
    r.ob('accepted: ' + key, bool(normal) and not thrown, thrown and '%s:%s' % thrown[0][2][1:] or w,
         'an access inside the phrase %s' % ('throws ' + thrown[0][1] if thrown else 'never returns'))
    for s, v in normal:
        l = v and loc(s, v)
        if l is None:
            r.ob('place: ' + key, None, w, 'returns %s' % (v and show(v)))
            continue
        same = l == want or l[0] == 'e' and l[1] == want[1] and psub(l[2], want[2]) == ZERO
        if not same and l[0] == 'e' and l[1] == want[1]:
            same = it.truth(s, ('cmp', 'eq', psub(l[2], want[2])))
            if same is None and plain(it, psub(l[2], want[2])):
                same = False
        elif not same and not (l[0] == 'e' and l[1][0] == 'd'):
            same = None
        r.ob('place: ' + key, same, w, 'addresses %s, expected %s' % (show(('in', l)), show(('in', want))))


class RC(Client):
    def on_write(self, it, st, loc, val, node, fr):
        if root_of(loc)[0] == 'd':
            it.log(('w', loc, val, st.clone(), node, fr.func))


def uses(v, names):
    """(name, index) of the entries of the named parameters a value depends on"""
    out = set()
    for a in atoms(v):
        if a[0] == 'e' and isinstance(a[1], tuple) and len(a) == 3:
            root = a[1]
            if root[0] == 'A' and root[1] in names or root[0] == 'L' and root[-1] in names:
                out.add((root[-1], a[2]))
    return out


def rescale(r, f, b):
    it = Interp(r.p, RC())
    names = [x['n'] for x in f['params']]
    base = set()

    def setup(it, st, fr):
        phrase_state(it, st, None, b)
        trimmed(it, st, b)
        base.update(st.facts)
        return st
    res = r.analyse(it, f, cls='xmm::Phrase', setup=setup)
    if res is None:
        return
    kind = 'bimodal' if b else 'unimodal'
    w = r.where(f)
    r.ob('rescale of a %s phrase ends normally' % kind, not res[1] and bool(res[0]) or None, w)
    seen = {}
    for j in it.journal:
        if j[0] != 'w':
            continue
        _, loc, val, s, node, func = j
        wh = r.where(func if func and 'q' in func else f, node)
        m = next((x for x in ((0, 1) if b else (0,)) if loc[0] == 'e' and loc[1] == array(x)), None)
        if m is None:
            r.ob('rescale (%s) writes the data arrays only' % kind, None, wh, 'writes %s' % show(('in', loc)))
            continue
        md = mdim(b, m)
        for name, k in sorted(uses(val, names), key=repr):
            key = 'rescale (%s) entry of %s matches the dimension, array %d' % (kind, name, m)
            kl = psub(k, DIN) if m == 1 else k
            t = pdiv(psub(loc[2], kl), md)
            if t is None:
                r.ob(key, False if plain(it, loc[2]) and plain(it, kl) else None, wh,
                     'the value at %s uses entry %s' % (show(loc[2]), show(k)))
                continue
            r.ob(key, True)
            inb = it.prove_le(s, padd(psub(t, LEN[None]), ONE))
            r.ob('rescale (%s) stays inside the frames, array %d' % (kind, m), inb or None, wh)
            seen.setdefault((m, name), []).append((kl, t, wh))
    for m in ((0, 1) if b else (0,)):
        md = mdim(b, m)
        for name in names:
            key = 'rescale (%s) applies %s to all dimensions of array %d' % (kind, name, m)
            got = seen.get((m, name))
            if not got:
                r.ob(key, None if any(o is None for k2, o in r.obs.items() if k2.startswith('rescale (' + kind)) else False,
                     w, 'no entry of %s reaches array %d' % (name, m))
                continue
            vs = [spans(it, kl, ZERO, md, base) for kl, t, wh in got]
            r.ob(key, True if True in vs else (False if all(v is False for v in vs) else None), got[0][2],
                 'dimensions taken: %s' % show(got[0][0]))
            key = 'rescale (%s) applies %s to all frames of array %d' % (kind, name, m)
            vs = [spans(it, t, ZERO, LEN[None], base) for kl, t, wh in got]
            r.ob(key, True if True in vs else (False if all(v is False for v in vs) else None), got[0][2],
                 'frames taken: %s' % show(got[0][1]))
