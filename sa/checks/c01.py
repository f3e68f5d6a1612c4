"""For every attribute type and every ordering of (value, minimum, maximum) - including a value that
compares false with everything (NaN) and lists of wrong size - each way out of Attribute<T>::set is
examined: inadmissible => only exceptions, no field of the attribute written, no listener called;
admissible => only normal ends, value stored and change flag raised before the (non-silent, non-empty)
listener is called exactly once. Lists: every element position is compared (loop covers [0,size)).
at(): returns value[i] exactly when i < declared size, otherwise throws. The limit-checking primitives
are also decided one by one for every specialisation present."""
from common import *

LEVEL = 'proof'
EXPLANATION = ('Case analysis over the finite set of orderings of value/minimum/maximum, per attribute type, by '
               'abstract interpretation of the attribute setters and limit checks; list elements through loop coverage.')

NUM = {'int', 'unsigned int', 'long', 'char', 'unsigned char', 'float', 'double', 'unsigned long', 'short', 'size_t'}


class Obs(Client):
    def __init__(self, args):
        self.args = args
        self.cbs = []

    def peel(self, n, fr):
        return True

    def on_call(self, it, st, node, callee, obj, args, fr):
        if callee and callee['n'] == 'isnan':
            v = args[0][1]
            r = it.rank(it, st, v)
            if r is not None:
                return [(st, TRUE if r == 'nan' else FALSE)]
        return None

    def on_index(self, it, st, base, idx, node, fr):
        if base == ('A', self.args[0]):
            st.tr['idx'] = st.tr.get('idx', frozenset()) | {idx}

    def on_loop(self, it, st, node, fr, phase, uid=None):
        if phase == 'body' and node['k'] == 'rfor':
            st.tr['rfor'] = True

    def callback(self, it, st, fval, loc, args, node, fr):
        st.tr['cb'] = st.tr.get('cb', 0) + 1
        st.tr['cbval'] = it.load(st, F('value_'))
        st.tr['cbchg'] = it.load(st, F('changed'))
        if it.truth(st, fval) is not True:
            st.tr['cbnull'] = True
        return [(st, None)]


def tname(cls):
    t = cls[len('xmm::Attribute<'):-1]
    t = t.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    if t.startswith('std::vector<'):
        t = 'vector<' + t[len('std::vector<'):].split(',')[0] + '>'
    return t


def run(r):
    p = r.p
    nset = 0
    for cls in sorted(p.classes):
        if not cls.startswith('xmm::Attribute<'):
            continue
        t = tname(cls)
        fs = [f for f in p.methods[cls].get('set', []) if f.get('body')]
        if not fs:
            continue
        nset += 1
        check_set(r, cls, t, fs[0])
        for f in p.methods[cls].get('at', []):
            if f.get('body'):
                check_at(r, cls, t, f)
        for f in p.methods[cls].get('resize', []):
            if f.get('body'):
                check_resize(r, cls, t, f)
    r.floor('attribute types with a setter', nset, 10)
    n = 0
    for f in p.src_funcs():
        if f['n'].startswith('checkLimits') and f.get('body') and len(f['params']) == 3:
            n += 1
            check_limits(r, f)
    r.floor('limit checks', n, 9)


def orders(t):
    base = t[7:-1] if t.startswith('vector<') else t
    if base in ('bool', 'string'):
        return [(None, None, None, True)]
    out = [(v, 1, 3, 1 <= v <= 3) for v in (0, 1, 2, 3, 4)] + [(v, 1, 1, v == 1) for v in (0, 1, 2)]
    if base in ('float', 'double'):
        out += [('nan', 1, 3, False), ('nan', 1, 1, False)]
    return out


def mk(p, c, arg, o, elem):
    v, lo, hi, ok = o

    def rank(it, st, x):
        if v is None:
            return None
        if x[0] == 'in':
            l = x[1]
            if l == F('limit_min_') or l == ('A', 'lo'):
                return lo
            if l == F('limit_max_') or l == ('A', 'hi'):
                return hi
            if elem:
                if l[0] == 'e' and l[1] == ('A', arg):
                    return v
            elif l == ('A', arg):
                return v
        return None
    return OrderInterp(p, c, rank)


def check_set(r, cls, t, f):
    p = r.p
    a0, a1 = f['params'][0]['n'], f['params'][1]['n']
    vec = t.startswith('vector<')
    sizes = ['any', 'match', 'mismatch'] if vec else ['-']
    for o in orders(t):
        for size in sizes:
            for silent in (False, True):
                for cb in (False, True):
                    one(r, cls, t, f, a0, a1, vec, o, size, silent, cb)


def one(r, cls, t, f, a0, a1, vec, o, size, silent, cb):
    c = Obs((a0, a1))
    it = mk(r.p, c, a0, o, vec)

    def setup(it, st, fr):
        l = ('L', fr.fid, f['params'][1]['id'], a1)
        st.env[l] = TRUE if silent else FALSE
        cbv = ('in', F('callback_'))
        st.facts = st.facts | {('b', cbv, cb)}
        if vec:
            n, m = ('in', ('f', ('A', a0), '#size')), ('in', F('size_'))
            it.nonneg |= {n, m}
            st = it.assume(st, ('cmp', 'le', psub(ONE, n)), True)
            if size == 'any':
                st.env[F('size_')] = ZERO
            else:
                st = it.assume(st, ('cmp', 'le', psub(ONE, m)), True)
                st = it.assume(st, ('cmp', 'eq' if size == 'match' else 'ne', psub(n, m)), True)
        return st
    res = r.analyse(it, f, cls=cls, setup=setup)
    if res is None:
        return
    ok = o[3] and size != 'mismatch'
    desc = '%s value:%s' % (t, {None: 'any', 'nan': 'NaN'}.get(o[0], 'v=%s min=%s max=%s' % o[:3]))
    if vec:
        desc += ' size:' + size
    desc += ' silent:%s listener:%s' % (silent, cb)
    normal, thrown = res
    w = r.where(f)
    if o[0] is not None and size != 'mismatch':
        r.ob('limits compared: ' + desc, True if it.ranked else None, w)
    base = F('value_')
    if ok:
        r.ob('accepted: ' + desc, not thrown, thrown and '%s:%s' % thrown[0][2][1:] or w,
             'an admissible value is rejected with %s' % (thrown and thrown[0][1]))
        r.ob('accepts: ' + desc, bool(normal) or None, w, 'no normal end')
        for s, _ in normal:
            v = it.load(s, base)
            want = ('in', ('A', a0))
            r.ob('stored: ' + desc, v == want, w, 'value after set is %s' % show(v))
            r.ob('flag: ' + desc, it.truth(s, it.load(s, F('changed'))) is True, w, 'change flag not raised')
            n = s.tr.get('cb', 0)
            r.ob('listener: ' + desc, n == (1 if cb and not silent else 0) and not s.tr.get('cbnull'), w,
                 'listener called %d time(s)' % n)
            if n:
                r.ob('stored before listener: ' + desc, s.tr['cbval'] == want, w,
                     'the listener sees value %s' % show(s.tr['cbval']))
            if vec and o[0] is not None and not s.tr.get('rfor'):
                r.ob('every element compared: ' + t, covered(it, s, ('A', a0)), w, 'not every element is compared')
    else:
        r.ob('rejected: ' + desc, not normal, w, 'an inadmissible value is accepted')
        r.ob('rejects: ' + desc, bool(thrown) or bool(normal) or None, w)
        for s, ty, info in thrown:
            ch = changed_locs(it, s)
            r.ob('unchanged: ' + desc, not ch, '%s:%s' % info[1:], 'rejected, but %s was modified' %
                 ', '.join(show(x) for x in ch))
            r.ob('silent rejection: ' + desc, not s.tr.get('cb'), w, 'listener called before the rejection')


def covered(it, s, base):
    size = it.load(s, ('f', base, '#size'))
    und = None
    for idx in s.tr.get('idx', ()):
        if idx[0] != 'lv':
            continue
        m = it.meta.get(idx[1])
        if not m:
            continue
        e, st = m['entry'].get(idx[2]), m['step'].get(idx[2])
        if e == ZERO and st == 1 and it.prove_le(s, psub(size, idx)):
            return True
        if e is not None and e[0] == 'i' and e[1] > 0 or st is not None and st > 1:
            und = False
    return und


def check_at(r, cls, t, f):
    it = Interp(r.p, Client())
    a0 = f['params'][0]['n']
    i, n, m = ('in', ('A', a0)), ('in', F('size_')), ('in', ('f', F('value_'), '#size'))

    def setup(it, st, fr):
        it.nonneg |= {i, n, m}
        st.facts = st.facts | {('eq', psub(n, m))}
        return st
    res = r.analyse(it, f, cls=cls, setup=setup)
    if res is None:
        return
    w = r.where(f)
    for s, v in res[0]:
        inside = it.prove_le(s, padd(psub(i, n), ONE))
        r.ob('at() inside only: ' + t, inside or (False if outside(it, s, i, n) else None), w,
             'index %s is not refused' % show(i))
        val = it.load(s, v[1]) if v and v[0] in ('obj', 'ref') else v
        want = ('in', ('e', F('value_'), i))
        r.ob('at() element: ' + t, val == want or (None if val is None or val[0] == 'u' else False), w,
             'returns %s' % show(val))
    for s, ty, info in res[1]:
        r.ob('at() refuses only outside: ' + t, it.prove_le(s, psub(n, i)) or None if
             it.assume(s.clone(), ('cmp', 'le', padd(psub(i, n), ONE)), True) is None else False,
             '%s:%s' % info[1:], 'an index inside the declared size is refused')
    r.ob('at() refuses: ' + t, bool(res[1]), w, 'no index is ever refused')


def outside(it, s, i, n):
    """The path is compatible with i == n (one past the end)."""
    s2 = it.assume(s.clone(), ('cmp', 'eq', psub(i, n)), True)
    return s2 is not None


def check_resize(r, cls, t, f):
    it = Interp(r.p, Client())
    a0 = f['params'][0]['n']
    res = r.analyse(it, f, cls=cls)
    if res is None:
        return
    for s, _ in res[0]:
        n = ('in', ('A', a0))
        d, v = it.load(s, F('size_')), it.load(s, ('f', F('value_'), '#size'))
        r.ob('resize() sets the declared size: ' + t, d == n, r.where(f), 'declared size becomes %s' % show(d))
        r.ob('resize() sizes the list: ' + t, v == n, r.where(f), 'list size becomes %s' % show(v))


def check_limits(r, f):
    t = f['params'][0]['t'].replace('const ', '').replace('&', '').strip()
    b = 'string' if 'basic_string' in t else t
    names = [q['n'] for q in f['params']]
    for o in orders(b):
        if o[0] is None:
            continue
        c = Client()

        def rank(it, st, x, o=o):
            if x[0] == 'in' and x[1][0] == 'A' and x[1][1] in names:
                return o[names.index(x[1][1])]
            return None
        it = OrderInterp(r.p, c, rank)
        res = r.analyse(it, f)
        if res is None:
            return
        d = '%s v=%s min=%s max=%s' % (b, o[0], o[1], o[2])
        if o[3]:
            r.ob('limit check passes: ' + d, not res[1] and bool(res[0]), r.where(f), 'admissible value refused')
        else:
            r.ob('limit check refuses: ' + d, not res[0] and bool(res[1]), r.where(f), 'inadmissible value accepted')
