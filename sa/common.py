"""Helpers shared by the rules."""
from engine import *


class OrderInterp(Interp):
    """Comparisons between values of a known rank are decided by the ranks; 'nan' compares false."""

    def __init__(self, prog, client, rank, **kw):
        super().__init__(prog, client, **kw)
        self.rank = rank
        self.ranked = 0

    def compare(self, st, op, a, b, xt):
        ra, rb = self.rank(self, st, a), self.rank(self, st, b)
        if ra is not None and rb is not None:
            self.ranked += 1
            if ra == 'nan' or rb == 'nan':
                r = op == '!='
            else:
                r = {'<': ra < rb, '<=': ra <= rb, '>': ra > rb, '>=': ra >= rb, '==': ra == rb,
                     '!=': ra != rb}[op]
            return TRUE if r else FALSE
        return super().compare(st, op, a, b, xt)


def changed_locs(it, st, root=('T',), skip=()):
    """Locations under root whose value differs from the value on entry."""
    out = []
    for l in st.env:
        if not has_prefix(l, root):
            continue
        if any(s in skip for s in loc_path(l)):
            continue
        if it.load(it.entry, l) != st.env[l]:
            out.append(l)
    return out


def loc_path(l):
    out = []
    while l is not None:
        if l[0] == 'f':
            out.append(l[2])
        l = loc_parent(l)
    return out


def F(*names, base=('T',)):
    l = base
    for n in names:
        l = ('f', l, n)
    return l


def seed_bool(it, st, loc, val):
    v = ('in', loc)
    it.boolset.add(v)
    it.nonneg.add(v)
    st.env[loc] = TRUE if val else FALSE


def root_of(l):
    while loc_parent(l) is not None:
        l = loc_parent(l)
    return l


# ------------------------------------------------------------------ polynomials and loops
def pdiv(v, by):
    """q with v == q*by, or None. by: one plain term, or a sum containing a plain term of coefficient one."""
    if v == ZERO:
        return ZERO
    if by[0] == 'i':
        p = to_poly(v)
        if by[1] and all(c % by[1] == 0 for c in p.values()):
            return from_poly({m: c // by[1] for m, c in p.items()})
        return None
    lead = None
    for m, c in sorted(to_poly(by).items(), key=repr):
        if len(m) == 1 and (c == 1 or len(to_poly(by)) == 1):
            lead, lc = m[0], c
            break
    if lead is None:
        return None
    q, rem = ZERO, v
    for _ in range(12):                     # long division, highest power of the leading term first
        if rem == ZERO:
            return q
        m, c = max(to_poly(rem).items(), key=lambda x: (x[0].count(lead), repr(x)))
        if lead not in m or c % lc:
            return None
        l = list(m)
        l.remove(lead)
        t = from_poly({tuple(l): c // lc})
        q = padd(q, t)
        rem = psub(rem, pmul(t, by))
    return None


def lvs(v):
    return [a for m in to_poly(v) for a in m if a[0] == 'lv']


def plain(it, v):
    """Every term is a value on entry or a loop counter with a known constant step."""
    for m in to_poly(v):
        for a in m:
            if a[0] == 'in':
                continue
            if a[0] == 'lv' and it.meta.get(a[1], {}).get('step', {}).get(a[2]) is not None:
                continue
            return False
    return True


def exits_of(it, uid):
    return [x[2] for x in it.journal if x[0] == '#exit' and x[1] == uid]


def spans(it, v, lo, hi, more=()):
    """v (affine in one loop counter) takes every value of [lo, hi): True / False / None.
    more: extra facts that hold (e.g. on entry)."""
    if v == lo and psub(hi, lo) == ONE:
        return True
    ls = set(lvs(v))
    if len(ls) != 1:
        return None
    a = ls.pop()
    off = psub(v, a)
    if a in lvs(off):
        return None
    m = it.meta.get(a[1])
    if not m:
        return None
    e, step = m['entry'].get(a[2]), m['step'].get(a[2])
    if isinstance(a[2], tuple) and a[2][0] == 'idx':
        e, step = ZERO, 1
    if e is None or step is None:
        return None
    first = psub(padd(e, off), lo)
    if step != 1 and step != -1:
        return False
    ex = exits_of(it, a[1])
    if not ex:
        return None
    if step == 1:
        if first != ZERO:
            return False if first[0] == 'i' and first[1] > 0 else (False if plain(it, first) and first[0] != 'i' else None)
        for s in ex:
            s = s.clone()
            s.facts = s.facts | set(more)
            end = padd(a, off)          # first value not taken
            if it.prove_le(s, psub(hi, end)):
                continue
            # is there an exit with end == hi - 1 possible
            s2 = it.assume(s.clone(), ('cmp', 'le', padd(psub(end, hi), ONE)), True)
            if s2 is None:
                continue
            return False if plain(it, psub(hi, end)) else None
        return True
    return None


# ------------------------------------------------------------------ statements about every element
class LoopTrack(Client):
    """Records which loops ran to their end on a path, and the state at the end of each iteration.
    tr['done']: loops completed since the enclosing iteration began; journal: ('#next', uid, state)."""

    def on_loop(self, it, st, node, fr, phase, uid=None):
        if phase == 'body':
            st.tr['stk'] = ((uid, st.tr.get('done', ())),) + st.tr.get('stk', ())
            st.tr['done'] = ()
        elif phase in ('next', 'break', 'return'):
            if phase == 'next':
                it.log(('#next', uid, st.clone(), node, fr.func))
            stk = st.tr.get('stk', ())
            while stk and stk[0][0] != uid:
                stk = stk[1:]
            if stk:
                st.tr['done'] = stk[0][1]
                st.tr['stk'] = stk[1:]
            if not st.tr.get('stk'):
                st.tr.pop('stk', None)
        elif phase == 'exit':
            d = st.tr.get('done', ())
            if uid not in d:
                st.tr['done'] = d + (uid,)


def nexts(it, uid):
    return [j[2] for j in it.journal if j[0] == '#next' and j[1] == uid]


def every(it, uid, pred):
    """pred(state at the end of an iteration) for all iterations: True / False / None"""
    out = True
    n = nexts(it, uid)
    if not n:
        return None
    for s in n:
        v = pred(s)
        if v is False:
            return False
        if v is None:
            out = None
    return out


def untouched(x, loc):
    """Is this value whatever loc held when the current iteration (or the function) began?"""
    if x in (('in', loc), ('obj', loc)):
        return True
    if x[0] != 'prj':
        return False
    path = list(x[2])
    l = loc
    while path:
        e = path.pop()
        if l is None or l[0] != e[0] or l[2] != e[1]:
            return False
        l = loc_parent(l)
    return x[1] == ('in', l) or x[1][0] == 'lv' and x[1][2] == l
