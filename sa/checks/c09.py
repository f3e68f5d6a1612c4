"""Every constructor, the assignment operator, the destructor, the attribute reaction and every operation of a phrase
is analysed for each memory mode and modality of the phrase (and of the source). Along every path: a shared-mode phrase
never deletes or writes an array it is connected to (rescaling apart), nothing of the source is deleted or written; an
array is deleted with delete[], at most once, never while still stored in the phrase at the end (except on
destruction), and never through an unset pointer; only the slots the modality has are touched. At every end each
array the phrase owned or allocated is either stored in exactly one slot or has been released; slots never hold unset
or source-owned pointers; a phrase sharing memory takes the source's pointers. After destruction everything owned is
released. A constructor that throws has released what it allocated. Assigning a phrase to itself changes nothing."""
from common import *
from c06 import phrase_state

LEVEL = 'proof'
EXPLANATION = ('Ownership typestate over allocations, releases and stored pointers on all paths of every Phrase operation, '
               'by case analysis over memory mode and modality of the phrase and its source.')

DATA = ('in', F('data_'))


def undef(v):
    while isinstance(v, tuple) and v:
        if v[0] == 'undef':
            return True
        v = v[1] if v[0] not in ('in', 'addr', 'poly', 'op', 'u') and len(v) > 1 else None
    return False


def tab(base):
    return ('d', ('in', F('data_', base=base)))


def ptr(base, m):
    return ('in', ('e', tab(base), ('i', m)))


def arr(base, m):
    return ('d', ptr(base, m))


class C(Client):
    def __init__(self, r, f, key, shared, bim, ctor, src, free_write):
        self.r, self.f, self.key, self.shared, self.bim = r, f, key, shared, bim
        self.ctor, self.src, self.free_write = ctor, src, free_write

    def w(self, fr, node):
        return self.r.where(fr.func if fr and fr.func and 'q' in fr.func else self.f, node)

    def bad(self, what, fr, node, msg):
        self.it.log(('#ob', '%s: %s' % (what, self.key), False, self.w(fr, node), msg))

    def on_new(self, it, st, loc, node, n, fr):
        st.tr['new'] = st.tr.get('new', ()) + (loc,)
        st.tr['del'] = tuple(x for x in st.tr.get('del', ()) if x != ('addr', loc))

    def on_delete(self, it, st, val, ar, node, fr):
        if val[0] == 'addr' and val[1][0] == 'e' and val[1][2] == ZERO:
            val = ('addr', val[1][1])
        if val == NULL or it.truth(st, val) is False:
            return
        if undef(val) or self.ctor and val in (DATA, ptr(('T',), 0), ptr(('T',), 1)):
            return self.bad('no unset pointer released', fr, node, 'deletes %s before it is set' % show(val)[:80])
        if self.shared and val in (ptr(('T',), 0), ptr(('T',), 1)):
            return self.bad('user memory not released', fr, node, 'deletes an array the phrase is only connected to')
        if self.src and val in (ptr(self.src, 0), ptr(self.src, 1), ('in', F('data_', base=self.src))):
            return self.bad('source arrays not released', fr, node, 'deletes an array of the source')
        if val[0] not in ('addr', 'in'):
            st.tr['delu'] = True        # something not identified is released
            return
        if val[0] == 'in' and val[1][0] == 'e' and val[1][1] in (tab(('T',)), tab(self.src)) and lvs(val[1][2]):
            if val[1][1] == tab(self.src):
                return self.bad('source arrays not released', fr, node, 'deletes arrays of the source')
            if self.shared:
                return self.bad('user memory not released', fr, node, 'deletes arrays the phrase is only connected to')
            if not ar:
                return self.bad('released with delete[]', fr, node, 'array released with delete')
            st.tr['delr'] = tuple(sorted(set(st.tr.get('delr', ()) + (val[1][2],)), key=repr))
            return
        if val in st.tr.get('del', ()):
            return self.bad('released once', fr, node, 'deletes %s twice' % show(val)[:60])
        if not ar:
            if val[0] == 'in' or val[0] == 'addr' and it.load(st, ('f', val[1], '#alloc')) != NULL:
                return self.bad('released with delete[]', fr, node, 'array released with delete')
        elif val[0] == 'addr' and it.load(st, ('f', val[1], '#alloc')) == NULL:
            return self.bad('released with delete[]', fr, node, 'object released with delete[]')
        self.r.ob('released once: ' + self.key, True)
        st.tr['del'] = st.tr.get('del', ()) + (val,)

    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] != 'e':
            return
        for b, m in ((('T',), 0), (('T',), 1)):
            if loc[1] == arr(b, m) and self.shared and not self.free_write:
                self.bad('user memory not written', fr, node, 'writes %s' % show(('in', loc))[:80])
        if self.src:
            for m in (0, 1):
                if loc[1] == arr(self.src, m) or loc == ('e', tab(self.src), ('i', m)):
                    self.bad('source arrays not written', fr, node, 'writes %s' % show(('in', loc))[:80])
        self.slot(it, st, loc, node, fr, 'written')
        self.freed(it, st, loc, node, fr)

    def on_read(self, it, st, loc, node, fr):
        if loc[0] != 'e':
            return
        self.slot(it, st, loc, node, fr, 'read')
        self.freed(it, st, loc, node, fr)
        if loc[1] == tab(('T',)) and self.ctor:
            self.bad('no unset pointer used', fr, node, 'data_ is used before it is set')

    def on_deref(self, it, st, p, node, fr):
        if undef(p):
            self.bad('no unset pointer used', fr, node, 'dereferences an unset pointer')

    def slot(self, it, st, loc, node, fr, how):
        if loc[1] == tab(('T',)) and loc[2] == ONE and self.bim is False:
            self.bad('modality slots', fr, node, 'the output slot of a unimodal phrase is %s' % how)

    def freed(self, it, st, loc, node, fr):
        d = st.tr.get('del', ())
        if not d:
            return
        b = loc[1]
        if b[0] == 'd' and b[1] in d or ('addr', b) in d:
            self.bad('released memory not used', fr, node, 'uses %s after its release' % show(('in', loc))[:80])


def end(r, it, s, c, f, kind, own0, bim0):
    """kind: end, throw, dtor. Ownership at this end."""
    T = ('T',)
    key, w = c.key, r.where(f)
    dele = s.tr.get('del', ())
    D = it.load(s, F('data_'))
    held = []
    loops = [spans(it, i, ZERO, ('i', 2 if bim0 else 1)) for i in s.tr.get('delr', ())]
    if True in loops:
        dele += tuple(ptr(T, m) for m in range(2 if bim0 else 1))
    elif loops:
        return r.ob('owned arrays released: ' + key, None, w, 'released in a loop over %s' % show(s.tr['delr'][0]))
    destroyed = kind == 'dtor' or kind == 'throw' and c.ctor
    if not destroyed:
        ownv = it.boolterm(s, it.load(s, F('own_memory_')))
        bimv = it.boolterm(s, it.load(s, F('bimodal_')))
        own, bim = it.truth(s, ownv), it.truth(s, bimv)
        for t, x in ((ownv, own), (bimv, bim)):
            if x is None:
                for v in (True, False):
                    s2 = it.assume(s.clone(), t, v)
                    if s2 is not None:
                        end(r, it, s2, c, f, kind, own0, bim0)
                return
        if undef(D) or c.ctor and D == DATA:
            return r.ob('pointers set: ' + key, False, w, 'data_ is left unset')
        if D != NULL:
            held.append(D)
        if D in dele:
            return r.ob('no dangling pointer: ' + key, False, w, 'data_ still points to released memory')
        base = D[1] if D[0] == 'addr' else ('d', D)
        if D[0] == 'addr' and base[0] == 'e' and base[2] == ZERO:
            base = base[1]
            held[-1] = ('addr', base)
        if D[0] == 'addr':
            n = it.load(s, ('f', base, '#size'))
            ok = it.truth(s, ('cmp', 'le', psub(('i', 2 if bim else 1), n)))
            r.ob('one slot per modality: ' + key, ok, w, 'data_ has %s slots' % show(n)[:60])
        elif c.src or own0 is not None:
            if bim and bim0 is False:
                r.ob('one slot per modality: ' + key, False, w, 'becomes bimodal with a single slot')
        if D == NULL:
            r.ob('pointers set: ' + key, False, w, 'data_ is null at the end')
            return
        for m in range(2 if bim else 1):
            v = it.load(s, ('e', base, ('i', m)))
            if v[0] == 'addr' and v[1][0] == 'e' and v[1][2] == ZERO:
                v = ('addr', v[1][1])
            nul = v == NULL or it.truth(s, v) is False
            if nul:
                continue
            if undef(v):
                r.ob('pointers set: ' + key, False, w, 'slot %d is left unset' % m)
                continue
            if v in dele:
                r.ob('no dangling pointer: ' + key, False, w, 'slot %d still points to released memory' % m)
                continue
            if v in held:
                r.ob('one owner: ' + key, False, w, 'both slots hold the same array')
                continue
            held.append(v)
            if c.src and v in (ptr(c.src, 0), ptr(c.src, 1)):
                r.ob('source arrays only shared in shared mode: ' + key, not own, w,
                     'an owning phrase stores an array of its source')
                r.ob('shared slot of the same modality: ' + key, v == ptr(c.src, m), w, 'slot %d takes %s' % (m, show(v)[:60]))
            elif own and v[0] == 'in' and v not in (ptr(T, 0), ptr(T, 1)):
                r.ob('owns only its arrays: ' + key, False, w, 'an owning phrase stores %s' % show(v)[:60])
            elif not own and v[0] == 'addr' and v[1] in s.tr.get('new', ()):
                r.ob('owned arrays released: ' + key, False, w, 'a shared-mode phrase stores an array it allocated')
            r.ob('pointers set: ' + key, True)
    mine = [('addr', h) for h in dict.fromkeys(s.tr.get('new', ()))]
    if not c.ctor:
        mine.append(DATA)
        if own0 and it.truth(s, DATA) is not False:
            mine += [ptr(T, m) for m in range(2 if bim0 else 1)]
    for v in mine:
        if it.truth(s, v) is False and v[0] == 'in':
            continue
        ok = v in held or v in dele
        if destroyed and v in held:
            ok = v in dele
        r.ob('owned arrays released: ' + key, True if ok else None if s.tr.get('delu') else False, w, '%s is neither released nor stored at %s' % (
            show(v)[:70], {'end': 'the end', 'throw': 'an exception', 'dtor': 'destruction'}[kind]))


def one(r, f, own, bim, srck, self_assign=False):
    ctor = bool(f.get('ctor'))
    dtor = f['n'].startswith('~')
    src = ('A', f['params'][0]['n']) if srck is not None and not self_assign else None
    def nm(o, b):
        return '%s %s' % ({True: 'owning', False: 'shared', None: 'any'}[o], {True: 'bimodal', False: 'unimodal', None: ''}[b])
    key = '%s(%s)' % (f['n'], ', '.join(x['t'] for x in f['params']))
    if not ctor:
        key += ' on %s phrase' % nm(own, bim)
    if src:
        key += ' from %s phrase' % nm(*srck)
    if self_assign:
        key += ' to itself'
    ats = ('dimension', 'dimension_input', 'label') if f['n'] == 'onAttributeChange' else (None,)
    for at in ats:
        k2 = key + (' of ' + at if at else '')
        c = C(r, f, k2, own is False and not ctor, bim, ctor, src, f['n'] == 'rescale')
        it = c.it = Interp(r.p, c)

        def setup(it, st, fr):
            if not ctor:
                phrase_state(it, st, own, bim)
                for n in range(2):      # the two arrays are distinct objects
                    pass
            if src:
                seed_bool(it, st, F('own_memory_', base=src), srck[0])
                seed_bool(it, st, F('bimodal_', base=src), srck[1])
                for n in ('length_', 'input_length_', 'output_length_', 'max_length_'):
                    it.nonneg.add(('in', F(n, base=src)))
            return st
        args = [('addr', F(at))] if at else ([('ref', ('T',))] if self_assign else None)
        res = r.analyse(it, f, cls='xmm::Phrase', setup=setup, args=args)
        if res is None:
            continue
        if self_assign:
            for s, _ in res[0]:
                bad = s.tr.get('new') or s.tr.get('del') or changed_locs(it, s)
                r.ob('unchanged: ' + k2, not bad, r.where(f), 'self-assignment changes the phrase')
            continue
        for s, _ in res[0]:
            end(r, it, s, c, f, 'dtor' if dtor else 'end', own, bim)
        for s, ty, info in res[1]:
            end(r, it, s, c, f, 'throw', own, bim)


def run(r):
    p = r.p
    M = p.methods['xmm::Phrase']
    n = 0
    for name, fs in sorted(M.items()):
        for f in fs:
            if not f.get('body') or name in ('fromJson', 'toJson') or \
                    f.get('acc') != 'public' and name != 'onAttributeChange':
                continue
            n += 1
            copyish = len(f['params']) == 1 and 'Phrase' in f['params'][0]['t'] and (f.get('ctor') or name == 'operator=')
            combos = [(None, None)] if f.get('ctor') else [(o, b) for o in (True, False) for b in (True, False)]
            for o, b in combos:
                if copyish:
                    for so in (True, False):
                        for sb in (True, False):
                            one(r, f, o, b, (so, sb))
                    if not f.get('ctor') and (b or o):
                        one(r, f, o, b, (o, b), True)
                else:
                    one(r, f, o, b, None)
    r.floor('phrase operations', n, 30)
    r.floor('destructor', len(M.get('~Phrase', [])), 1)
    r.floor('constructors and assignment', len([1 for f in M.get('Phrase', []) if f.get('body')]) + len(M.get('operator=', [])), 4)
