"""Ring buffers, for each instantiation, any positive length. The buffer is described by its length L, write position C and
full flag; N (number of values reported) is L when full, C otherwise. Assuming C < L and L stored entries per channel,
for every operation and every path: construction gives C=0, not full, L entries in every channel; push stores the value
at position C of every channel, then C grows by one and wraps to 0 exactly at L, where the buffer becomes full; clear
gives N=0; reading succeeds exactly for an existing channel and an index below N and returns that entry; size_t is N,
size L; resize gives L entries in every channel, C below it, at most N values reported and at most L, all N if it was not
full and they fit; the mean adds every entry below N of its channel once, from zero, and divides by N. Both class filters
push exactly one value on every path that returns, the logarithm of the likelihood it reports, and the smoothed likelihood
reads only values that exist."""
from common import *
from effects import Effects
from c05 import subterms
from slicer import Slicer

LEVEL = 'proof'
EXPLANATION = ('Inductive representation invariant of the ring, checked per operation and path with symbolic length and '
               'position; per-path event counting in the filters.')

LEN, CUR, FULL, DAT = F('length_'), F('current_index_'), F('full_'), F('data_')
iL, iC, iF = ('in', LEN), ('in', CUR), ('in', FULL)


def le(a, b):
    return ('cmp', 'le', psub(a, b))


def lt(a, b):
    return ('cmp', 'le', padd(psub(a, b), ONE))


def same(it, st, a, b):
    """True / False / None"""
    d = psub(a, b)
    if d == ZERO:
        return True
    if d[0] == 'i':
        return False
    if ('eq', d) in st.facts or ('eq', psub(b, a)) in st.facts:
        return True
    if it.prove_le(st, d) and it.prove_le(st, psub(b, a)):
        return True
    if it.prove_le(st, padd(d, ONE)) or it.prove_le(st, padd(psub(b, a), ONE)) or ('ne', d) in st.facts:
        return False
    return False if plain(it, d) else None


def mods(v):
    return [t for t in subterms(v) if isinstance(t, tuple) and len(t) == 4 and t[:2] == ('op', '%')]


def red(it, st, v):
    """v with remainders resolved where the state determines them"""
    if len(v) == 4 and v[:2] == ('op', '%'):
        a, b = v[2], v[3]
        if it.prove_le(st, padd(psub(a, b), ONE)) and it.prove_le(st, psub(ZERO, a)):
            return a
        if same(it, st, a, b) is True:
            return ZERO
    return v


def cases(it, s, *conds):
    out = [s]
    for c in conds:
        nxt = []
        for x in out:
            for b in (True, False):
                y = it.assume(x.clone(), c, b)
                if y is not None:
                    nxt.append((y))
        out = nxt
    return out


def pre(it, st, chans):
    for c in (le(ONE, iL), lt(iC, iL)):
        st = it.assume(st, c, True)
    for v in (iL, iC):
        it.nonneg.add(v)
    return st


def report(it, s):
    """[(state, N)] for the state at an end"""
    out = []
    f = it.boolterm(s, it.load(s, FULL))
    for b in (True, False):
        y = it.assume(s.clone(), f, b)
        if y is not None:
            out.append((y, it.load(y, LEN) if b else red(it, y, it.load(y, CUR))))
    return out


class W(LoopTrack):
    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'e' and loc[1] == DAT and val[0] == 'vec':
            it.log(('S', loc[2], val[1], st.clone(), node))
        if loc[0] == 'e' and loc[1][0] == 'e' and loc[1][1] == DAT:
            it.log(('W', loc[1][2], loc[2], val, st.clone(), node, len(st.tr.get('stk', ()))))
        elif loc[0] == 'e' and loc[1][0] == 'L':
            it.log(('M', loc, val, it.load(st, loc), st.clone(), node))

    def on_call(self, it, st, node, callee, obj, args, fr):
        if callee and callee.get('n') in ('resize', 'assign') and obj and obj[0] == 'e' and obj[1] == DAT and args:
            it.log(('S', obj[2], it.aval(st, args[0], ''), st.clone(), node))

    def on_read(self, it, st, loc, node, fr):
        if loc[0] == 'e' and loc[1][0] == 'e' and loc[1][1] == DAT:
            it.log(('R', loc[1][2], loc[2], st.clone(), node))


def covers(it, idx, chans):
    """the channel indices written cover [0, chans)"""
    got = set()
    for i in idx:
        if i[0] == 'i':
            got.add(i[1])
        elif spans(it, i, ZERO, ('i', chans)) is True:
            return True
        elif spans(it, i, ZERO, ('i', chans)) is None and i[0] != 'i':
            return None
    return got >= set(range(chans))


def op(r, cls, f, chans, full=None):
    n, key = f['n'], '%s%s(%s)' % ('', f['n'], ', '.join(x['t'].split('<')[0] for x in f['params']))
    key += ' of %d channel%s' % (chans, 's' * (chans > 1))
    it = Interp(r.p, W(), budget=60000)
    ctor = bool(f.get('ctor'))
    ps = [('in', ('A', x['n'])) for x in f['params']]

    def setup(it, st, fr):
        if not ctor:
            st = pre(it, st, chans)
            if full is not None:
                st = it.assume(st, iF, full)
        if ctor or n == 'resize':
            st = it.assume(st, le(ONE, ps[0]), True)
        return st
    a = r.analyse(it, f, cls=cls, setup=setup)
    if a is None:
        return
    w = r.where(f)
    J = it.journal
    ob = lambda what, ok, msg, node=None: r.ob('%s: %s' % (key, what), ok, r.where(f, node) if node else w, msg)
    ends = a[0]
    for j in J:
        if j[0] in 'WR':
            s, i = j[4 if j[0] == 'W' else 3], j[2]
            node = j[5 if j[0] == 'W' else 4]
            i = red(it, s, i)
            if s.env.get(LEN, iL) == iL and not ctor and n != 'resize':
                ok = True if it.prove_le(s, padd(psub(i, iL), ONE)) else None
                if ok is None and plain(it, psub(i, iL)):
                    x = it.assume(s.clone(), le(iL, i), True)
                    ok = False if x is not None else True
                ob('inside the storage', ok, 'addresses entry %s of %s' % (show(i)[:60], show(iL)), node)
            if j[1][0] == 'i':
                ob('existing channel', 0 <= j[1][1] < chans, 'channel %d' % j[1][1], node)
            elif lvs(j[1]):
                x = it.assume(s.clone(), le(('i', chans), j[1]), True)
                ob('existing channel', x is None or None, 'channel %s' % show(j[1])[:60], node)
    if n == 'push':
        ws = [j for j in J if j[0] == 'W']
        if ends:
            ob('stores in every channel', covers(it, {j[1] for j in ws}, chans), 'a channel does not get its value')
        for _, c, i, v, s, node, _d in ws:
            ob('stores at the write position', same(it, s, red(it, s, i), iC), 'stores at %s' % show(i)[:80], node)
            if 'value' in (x['n'] for x in f['params']):
                A = [('A', x['n']) for x in f['params']]
                ob('stores the value', any(isinstance(t, tuple) and len(t) == 2 and t[0] == 'in' and root_of(t[1]) in A
                                           for t in subterms(v)) or None, 'stores %s' % show(v)[:60], node)
        for s, _ in ends:
            for y in cases(it, s, lt(padd(iC, ONE), iL), iF):
                wrap = it.truth(y, lt(padd(iC, ONE), iL)) is False
                full = it.truth(y, iF)
                if wrap:
                    y = it.assume(y, ('cmp', 'eq', psub(padd(iC, ONE), iL)), True) or y
                c = red(it, y, it.load(y, CUR))
                ob('position advances by one, wrapping at the length', same(it, y, c, ZERO if wrap else padd(iC, ONE)),
                   'the position becomes %s %s' % (show(c)[:80], 'at the end' if wrap else 'inside'))
                fl = it.truth(y, it.boolterm(y, it.load(y, FULL)))
                ob('full exactly from the first wrap', fl if fl is None else fl == (wrap or full),
                   'full is %s with %s' % (fl, 'the last entry stored' if wrap else 'entries left'))
                ob('the length stays', same(it, y, it.load(y, LEN), iL), 'the length changes')
        for s, t, info in a[1]:
            ob('a refused value changes nothing', not changed_locs(it, s), 'throws after a change')
        if len(f['params'][0]['t'].split()) <= 2 and '*' not in f['params'][0]['t'] and chans > 1:
            ob('one value is refused by several channels', not ends, 'accepted')
        else:
            ob('values are accepted', bool(ends) and not a[1], 'refused')
    elif n == 'clear':
        for s, _ in ends:
            for y, N in report(it, s):
                ob('no value is left', same(it, y, N, ZERO), '%s values are reported' % show(N)[:60])
                ob('starts at the beginning', same(it, y, it.load(y, CUR), ZERO), 'position %s' % show(it.load(y, CUR))[:60])
                ob('the length stays', same(it, y, it.load(y, LEN), iL), 'the length changes')
    elif ctor or n == 'resize':
        nl = ps[0]
        bul = [j for j in J if j[0] == 'S']
        for s, _ in ends:
            L = it.load(s, LEN)
            ob('takes the length', same(it, s, L, nl), 'the length becomes %s' % show(L)[:60])
            if not ctor and same(it, s, nl, iL) is True:
                ob('same length: nothing changes', True, '')
                if not changed_locs(it, s, skip=('#size',)):
                    continue
            for y, N in report(it, s):
                C = red(it, y, it.load(y, CUR))
                ob('position inside', inside(it, y, C, L), 'position %s, length %s' % (show(C)[:60], show(L)[:60]))
                if ctor:
                    ob('starts empty', same(it, y, N, ZERO), '%s values' % show(N)[:60])
                    continue
                for z in cases(it, y, iF):
                    N0 = iL if it.truth(z, iF) else iC
                    ob('reports no more values than stored', atmost(it, z, N, N0), '%s after %s' % (show(N)[:60], show(N0)))
                    ob('reports no more values than its length', atmost(it, z, N, nl), '%s, length %s' % (show(N)[:60], show(nl)))
                    if it.truth(z, iF) is False:
                        for q in cases(it, z, le(iC, nl)):
                            fit = it.truth(q, le(iC, nl))
                            ob('keeps the values that fit', same(it, q, N, iC if fit else nl), '%s values' % show(N)[:60])
                            if fit and it.truth(q, lt(iC, nl)):
                                ob('next value goes after the last', same(it, q, C, iC), 'position %s' % show(C)[:60])
        if ctor or any(changed_locs(it, s) for s, _ in ends):
            ok = covers(it, {j[1] for j in bul}, chans) if bul else None
            ob('every channel gets its storage', ok, 'a channel keeps its size')
            for _, c, v, s, node in bul:
                ob('as many entries as the length', same(it, s, v, nl) if same(it, s, v, nl) is not False or not it.prove_le(
                    s, psub(nl, v)) else True, '%s entries' % show(v)[:60], node)
    elif n == 'operator()' and len(ps) == 2:
        ch, ix = ps
        for s, v in ends:
            for y in cases(it, s, iF):
                N = iL if it.truth(y, iF) else iC
                ob('index below the number of values', inside(it, y, ix, N), 'index %s of %s is read' % (show(ix), show(N)))
                ob('existing channel only', inside(it, y, ch, ('i', chans)), 'any channel is read')
            ob('returns the entry asked for', v == ('in', ('e', ('e', DAT, ch), ix)) or (None if not subterms(v) else
               False if v[0] == 'in' or v[0] == 'i' else None), 'returns %s' % show(v)[:60])
            ob('reading changes nothing', not changed_locs(it, s), 'changes the buffer')
        for s, t, info in a[1]:
            ob('refused with an out-of-range error', 'out_of_range' in str(t), str(t))
            y = it.assume(s.clone(), lt(ch, ('i', chans)), True)
            for z in cases(it, y, iF) if y is not None else ():
                N = iL if it.truth(z, iF) else iC
                q = it.assume(z.clone(), lt(ix, N), True)
                ob('an existing value is returned', q is None, 'an existing value is refused')
        ob('returns values', bool(ends), 'never returns')
        ob('refuses others', bool(a[1]), 'never refuses')
    elif n in ('size_t', 'size'):
        for s, v in ends:
            for y in cases(it, s, iF):
                N = iL if it.truth(y, iF) or n == 'size' else iC
                ob('the number of values' if n == 'size_t' else 'the length', same(it, y, v, N), 'returns %s' % show(v)[:60])
    elif n == 'mean':
        mean(r, it, f, ends, chans, ob, full)


def inside(it, s, i, hi):
    if it.prove_le(s, padd(psub(i, hi), ONE)):
        return True
    return False if plain(it, psub(i, hi)) and it.assume(s.clone(), le(hi, i), True) is not None else None


def below(it, s, i, n):
    if it.prove_le(s, padd(psub(i, n), ONE)):
        return True
    return None if it.assume(s.clone(), le(n, i), True) is not None and not plain(it, psub(i, n)) else False


def atmost(it, s, a, b):
    if it.prove_le(s, psub(a, b)):
        return True
    return False if plain(it, psub(a, b)) and it.assume(s.clone(), lt(b, a), True) is not None else None


def mean(r, it, f, ends, chans, ob, full):
    N = iL if full else iC
    adds = divs = 0
    seen = set()
    for j in it.journal:
        if j[0] != 'M':
            continue
        _, loc, val, old, s, node = j
        d = psub(val, old)
        entry = d[1] if d[0] == 'in' and d[1][0] == 'e' and d[1][1][0] == 'e' and d[1][1][1] == DAT else None
        if entry:
            adds += 1
            ob('adds to its own channel', same(it, s, entry[1][2], loc[2]), 'channel %s into %s' % (show(entry[1][2])[:50], show(loc[2])[:50]), node)
            ob('adds only existing values', below(it, s, entry[2], N), 'entry %s is added, %s values' % (show(entry[2])[:50], show(N)), node)
            ob('adds every value once', spans(it, entry[2], ZERO, N), 'adds entries %s' % show(entry[2])[:60], node)
            seen.add(loc[2])
        elif len(val) == 4 and val[:2] == ('op', '/'):
            divs += 1
            v = val[3]
            while v[0] == 'op' and len(v) == 3:
                v = v[2]
            ob('divided by the number of values', same(it, s, v, N), 'divided by %s' % show(v)[:60], node)
    if adds:
        ob('every channel', covers(it, seen, chans), 'a channel is left out')
    ob('mean taken', True if adds and divs else None, '')


class P(Client):
    """counts pushes; calls that cannot reach the buffer are skipped"""

    def __init__(self, r, E, cls):
        self.r, self.E, self.cls = r, E, cls
        self.cache = {}

    def reaches(self, callee):
        fid = callee.get('id')
        if fid not in self.cache:
            f = self.r.p.funcs.get(fid)
            ids = {fid} | set(self.r.p.overriders.get(fid, ()))
            self.cache[fid] = any(q[1][:1] == ('likelihood_buffer_',) for i in ids if self.r.p.funcs.get(i) and self.r.p.funcs[i].get('body')
                                  for q in self.E.of(i, self.cls).w) if f else False
        return self.cache[fid]

    def on_call(self, it, st, node, callee, obj, args, fr):
        if not callee:
            return None
        if obj == F('likelihood_buffer_'):
            nm = callee.get('n')
            if nm == 'push':
                v = it.aval(st, args[0], '') if args else None
                st.tr['push'] = st.tr.get('push', ()) + ((v, it.load(st, F('results', 'instant_likelihood'))),)
                return [(st, ('undef', obj))]
            if nm == 'clear':
                if st.tr.get('push'):
                    st.tr['lost'] = True
                return [(st, ('undef', obj))]
            if nm == 'size_t':
                return [(st, ('in', ('f', obj, '#n')))]
            if nm == 'operator()':
                i = it.aval(st, args[1], '')
                if i is not None:
                    it.log(('RD', i, st.clone(), node, fr.func, ('in', ('f', obj, '#n'))))
                return [(st, it.fresh(st, ('value', node.get('l'))))]
        if callee.get('id') in self.r.p.funcs and (obj and obj != ('T',) or not self.reaches(callee)):
            f = self.r.p.funcs[callee['id']]
            if obj == ('T',) or not obj:
                for q in self.E.of(callee['id'], self.cls).w:
                    if q[0] == 'this' and q[1]:
                        it.havoc(st, F(q[1][0]), ('w', node.get('l')))
            return [(st, it.fresh(st, ('call', node.get('l'), callee.get('n'))))]
        return None


def filters(r):
    p = r.p
    E = Effects(p, {'notifyListeners'})
    n = 0
    sl = Slicer(lambda x: x.get('k') == 'mem' and x.get('n') in ('likelihood_buffer_', 'instant_likelihood') or x.get('k') == 'ret'
                or x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('id') in rel, True)
    rel = set()
    for cls in sorted(p.classes):
        if any(fd['n'] == 'likelihood_buffer_' for _, fd in p.fields(cls)):
            pc = P(r, E, cls)
            rel |= {f['id'] for c in [cls] + p.bases(cls) for fs in p.methods.get(c, {}).values() for f in fs
                    if pc.reaches(f)}
    for cls in p.methods:
        for fs in p.methods[cls].values():
            for i, f in enumerate(fs):
                if f['id'] in rel and f.get('body') and not f.get('ctor'):
                    fs[i] = p.funcs[f['id']] = sl.function(f)
    for cls in sorted(p.classes):
        if not any(fd['n'] == 'likelihood_buffer_' for _, fd in p.fields(cls)):
            continue
        for f in p.find(cls, 'filter'):
            if not f.get('body') or f['cls'] != cls:
                continue
            n += 1
            key = '%s::filter' % cls.split('::')[-1]
            it = Interp(p, P(r, E, cls), budget=100000)
            a = r.analyse(it, f, cls=cls)
            if a is None:
                continue
            for s, v in a[0]:
                ps = s.tr.get('push', ())
                r.ob(key + ': one likelihood per observation', len(ps) == 1, r.where(f), '%d values are pushed' % len(ps))
                r.ob(key + ': the value pushed is kept', not s.tr.get('lost'), r.where(f), 'cleared after the push')
                for pv, il in ps:
                    ok = pv is not None and pv[:2] == ('op', 'log') and (
                        pv[2] == v or pv[2] == il and it.load(s, F('results', 'instant_likelihood')) == il) or \
                        pv is not None and pv[0] == 'op' and pv[1].endswith('log') and len(pv) == 3 and pv[2] == v
                    und = pv is None or pv[0] != 'op' and pv[0] not in ('i', 'in')
                    r.ob(key + ': its logarithm is pushed', ok or None, r.where(f), 'pushes %s' % show(pv)[:80])
            for j in it.journal:
                if j[0] == 'RD':
                    ok = spans(it, j[1], ZERO, j[5]) if lvs(j[1]) else None
                    if below(it, j[2], j[1], j[5]) is not True and ok:
                        ok = below(it, j[2], j[1], j[5])
                    r.ob(key + ': the smoothed likelihood reads every value', ok, r.where(j[4], j[3]), 'reads %s' % show(j[1])[:60])
    r.floor('filters with a likelihood buffer', n, 2)


def run(r):
    p = r.p
    n = 0
    names = set()
    for cls in sorted(p.classes):
        if not cls.startswith('xmm::CircularBuffer<'):
            continue
        chans = int(cls.split(',')[1].strip(' >'))
        for name, fs in sorted(p.methods[cls].items()):
            for f in fs:
                if f.get('body') and not name.startswith('~') and not f.get('copy') and not f.get('defaulted'):
                    n += 1
                    names.add(name)
                    for full in (True, False) if name == 'mean' else (None,):
                        op(r, cls, f, chans, full)
    r.floor('ring buffer operations', n, 9)
    for x in ('push', 'clear', 'resize', 'operator()', 'size_t', 'mean'):
        r.floor('operation ' + x, x in names, 1)
    filters(r)
