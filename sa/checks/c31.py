"""Every write of a quotient to a mixture weight, prior, transition or forward probability, component responsibility or
class-normalised likelihood. (A) The divisor is known not to be zero there: a comparison with a constant on the path, or a
sum of provably positive terms; an accumulated sum of weights without either can be zero. (B) When the divisor was
accumulated in a loop from zero, each iteration adds the entry of the same array the division rewrites (equal values count
as equal), and the summed and the divided entries form the same range; when it is a plain sum of entries, exactly these
entries are divided by it. (C) A weight that is a share of the frames of a training set is divided by the number of
frames: the divisor is not the number of phrases, nor a sum that grows by a constant for each phrase."""
from common import *
from bounds import subst
from effects import Effects
from prog import walk
from c05 import subterms

LEVEL = 'other'
EXPLANATION = ('Path-sensitive non-zero analysis of every normalising division and comparison of the loop that sums with the '
               'loop that divides (same entries, same start, same end).')

CLASSES = ('xmm::SingleClassGMM', 'xmm::SingleClassHMM', 'xmm::GMM', 'xmm::HierarchicalHMM')
TRACK = {'mixture_coeffs', 'prior', 'transition', 'exit_transition', 'alpha', 'alpha_h', 'beta',
         'instant_normalized_likelihoods', 'smoothed_normalized_likelihoods', 'gamma_sequence_per_mixture_'}
# what is computed from the model alone and only read here
LEAF = ('xmm::GaussianDistribution', 'xmm::Phrase', 'xmm::TrainingSet', 'xmm::CircularBuffer')


def array_of(loc):
    """the tracked array an element belongs to"""
    l = loc
    while isinstance(l, tuple) and l and l[0] in ('e', 'f', 'd'):
        if l[0] == 'f':
            return l[2] if l[2] in TRACK else None
        l = l[1]
    return None


def divides(f):
    return any(n.get('k') == 'bin' and n.get('op') in ('/=', '/') or n.get('k') in ('call',) and n.get('op') == '/='
               for n in walk(f['body']))


def touches(f):
    return any(n.get('k') == 'mem' and n.get('n') in TRACK for n in walk(f['body']))


def callees(p, f):
    for n in walk(f['body']):
        c = n.get('c')
        if n.get('k') == 'call' and isinstance(c, dict) and c.get('id') in p.funcs:
            g = p.funcs[c['id']]
            if g.get('body'):
                yield g


def helper(g):
    """a helper that may do the summing or the dividing for its caller"""
    return g['q'].startswith('xmm::') and (not g.get('cls') or g.get('static') or g['cls'] in CLASSES) and \
        any(t in x['t'] for x in g['params'] for t in ('vector<float', 'vector<double', 'double', 'float', 'iterator'))


def roots(p):
    out = {}
    for cls in CLASSES:
        for l in p.methods.get(cls, {}).values():
            for f in l:
                if not f.get('body') or not touches(f):
                    continue
                if divides(f) or any(helper(g) and g['n'] not in p.methods.get(cls, {}) and divides(g) for g in callees(p, f)):
                    out[f['id']] = (cls, f)
                elif any(helper(g) and divides(g) and not touches(g) for g in callees(p, f)):
                    out[f['id']] = (cls, f)
    return out


class Norm(LoopTrack):
    def __init__(self, p, ef, cls, top, rs):
        self.p, self.ef, self.cls, self.top, self.roots = p, ef, cls, top, rs

    def on_write(self, it, st, loc, val, node, fr):
        a = array_of(loc)
        if a:
            d = quotient(val)
            if d is not None:
                it.log(('div', a, loc, val, d, st.clone(), node, fr.func))

    def on_call(self, it, st, node, callee, obj, args, fr):
        g = self.p.funcs.get((callee or {}).get('id'))
        if not g or not g['q'].startswith('xmm::') or g.get('ctor'):
            return None
        if g['cls'] and g['cls'].startswith('xmm::Attribute'):
            return None
        if g['n'] in ('size',) or g['cls'] and g['cls'].startswith('xmm::Model<'):
            return None if g['n'] == 'size' else [(st, self.res(it, st, g, node))]
        if helper(g) and not g.get('cls') or g.get('static') or g['cls'] in CLASSES and g['id'] != self.top['id'] and \
                sums(g) and touches(g) and (g['id'] not in self.roots or scalar(g)):
            return None
        sm = self.ef.of(g['id'], g.get('cls') or None)
        st = st.clone()
        if obj is not None:
            o = it.resolve(st, obj)
            for x in sorted({x[1][:1] for x in sm.w if x[0] == 'this' and x[1]}, key=repr):
                l = ('f', o, x[0])
                it.drop(st, l)
                it.havoc(st, l, (node.get('l'), x[0]))
        for x in sm.w:
            if x[0][0] == 'p' and x[0][1] < len(args):
                k, l = args[x[0][1]][0], args[x[0][1]][1]
                if k in ('ref', 'obj', 'loc', 'addr'):
                    l = it.resolve(st, l)
                    it.drop(st, l)
                    it.havoc(st, l, (node.get('l'), x[0][1]))
        return [(st, self.res(it, st, g, node))]

    def res(self, it, st, g, node):
        rt = g.get('rt', 'void')
        if rt == 'void' or '&' in rt or '*' in rt:
            return None if rt == 'void' else it.fresh(st, ('r', g['n'], node.get('l')))
        return it.fresh(st, ('r', g['n'], node.get('l')))


def scalar(g):
    """is given the divisor"""
    return any(strip_t(x['t']) in ('double', 'float') for x in g['params'])


def sums(g):
    return any(n.get('op') in ('+=', '/=', '/') for n in walk(g['body']))


def quotient(val):
    """the divisor, if the value is something (not a constant) divided by something"""
    if val[:2] == ('op', '/'):
        return val[3] if num(val[2]) is None else None
    if val[0] == 'poly' and len(to_poly(val)) == 1:
        for m in to_poly(val):
            ds = [a[3] for a in m if a[:2] == ('op', '/') and num(a[2]) == 1]
            if len(ds) == 1:
                return ds[0]
    return None


def num(v):
    return v[1] if v and v[0] in ('i', 'f64') else None


def nonzero(it, s, D, depth=0):
    n = num(D)
    if n is not None:
        return True if n else None  # (an empty count: whether there is one empty set to divide for is not decided)
    seen = False
    for f in s.facts:
        if f[0] in ('ne', 'eq', 'le') and len(f) == 2:
            if f[0] == 'ne' and f[1] in (D, psub(ZERO, D)):
                return True
            if f[0] == 'le' and len(to_poly(f[1])) <= 2 and D in [a for m in to_poly(f[1]) for a in m] and \
                    it.truth(s, ('cmp', 'le', padd(psub(ZERO, D), ONE))) is True:
                return True
            continue
        if f[0] != 'b':
            continue
        t, v = f[1], f[2]
        if t == D and v:
            return True
        if t[0] not in ('flt', 'fle', 'feq') or D not in t[1:]:
            seen = seen or D in subterms(t)
            continue
        o = num(t[1] if t[2] == D else t[2])
        if o is None:
            seen = True
            continue                # (a comparison with a constant that leaves zero possible decides nothing)
        if t[0] == 'feq' and not v and o == 0:
            return True
        if t[0] == 'feq' and v and o != 0:
            return True
        if t[2] == D:               # o < D, o <= D
            if v and (o >= 0 if t[0] == 'flt' else o > 0):
                return True
            if not v and (o <= 0 if t[0] == 'flt' else o < 0) and o < 0:
                return True
        else:                       # D < o, D <= o
            if not v and (o > 0 if t[0] == 'flt' else o >= 0):
                return True
            if v and (o <= 0 if t[0] == 'flt' else o < 0):
                return True
    p = to_poly(D)
    if D[0] == 'poly' and all(c > 0 for c in p.values()) and any(all((num(a) or 0) > 0 for a in m) for m in p):
        return True                 # weights and something positive
    if D[0] == 'lv' and depth < 3:
        ns = steady(it, D)
        if ns and all(positive(it, x, T, depth + 1) for x, T in ns):
            return True
        if not ns:
            return None
        if not any(l[0] == 'e' or array_of(l) or 'likelihood' in str(l[-1]) for x, T in ns for l in where_is(it, x, T)) and \
                not any(entry(a) for x, T in ns for m in to_poly(T) for a in m):
            return None             # not a sum of entries
        if any(t[:2] == ('op', 'exp') for x, T in ns for t in subterms(T)):
            return None
        # the sum of weights that may all be zero
        return None if seen else False
    if D[0] == 'poly' and all(c == 1 and len(m) == 1 and entry(m[0]) for m, c in p.items()):
        return None if seen else False
    return None


def entry(a):
    l = a[1] if a[0] == 'in' else None
    if a[0] == 'prj':
        return 'entry'
    return array_of(l) if l else None


def positive(it, s, T, depth):
    n = num(T)
    if n is not None:
        return n > 0
    if T[:2] == ('op', '/') and (num(T[2]) or 0) > 0:
        return True                 # one part of a whole
    return nonzero(it, s, T, depth) is True


def steady(it, D):
    """[(state at the end of an iteration, what it added)] for a divisor accumulated in a loop"""
    out = []
    for s in nexts(it, D[1]):
        v = s.env.get(D[2])
        if v is None:
            return []
        if v[0] == 'lv' and v != D and it.meta.get(v[1], {}).get('entry', {}).get(v[2]) == D:
            out += steady(it, v)    # summed in an inner loop
            continue
        T = psub(v, D)
        if D in subterms(T):
            continue                # the first iteration, or something other than a sum
        out.append((s, T))
    return out


def own_steps(it, D):
    return all((it.meta.get((s.env.get(D[2]) or ZERO)[1] if (s.env.get(D[2]) or ZERO)[0] == 'lv' else None, {})
                .get('entry', {}).get(D[2])) != D for s in nexts(it, D[1]))


CNT = ('CNT',)


def rename(v, uid):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'lv' and v[1] == uid:
            return CNT
        if v[:1] == ('mapkey',) and v[1:] == (uid,):
            return ('KEY',)
        return tuple(rename(x, uid) for x in v)
    return v


def counters_in(l):
    return {x for x in subterms(l) if x[:1] == ('lv',) and len(x) == 3}


def span_of(it, c):
    """(start, step, ways the counting ends) of a counter"""
    m = it.meta.get(c[1])
    if not m:
        return None
    if isinstance(c[2], tuple) and c[2][:1] == ('idx',):
        return ZERO, 1, frozenset([('all', c[2][1])])
    e, st = m['entry'].get(c[2]), m['step'].get(c[2])
    if e is None or st is None:
        return None
    ends = set()
    for s in exits_of(it, c[1]):
        for f in s.facts:
            if f[0] == 'le' and c in [a for mm in to_poly(f[1]) for a in mm]:
                p = to_poly(f[1])
                if p.get((c,)) == -1:           # bound <= counter
                    ends.add(('le', padd(f[1], c)))
            elif f[0] == 'b' and f[1][:2] == ('op', 'has') and not f[2] and rename(f[1], c[1]) != f[1]:
                ends.add(('map', f[1][2]))
    for s in nexts(it, c[1]):
        for f in s.facts:
            if f[0] == 'b' and f[1][:2] == ('op', 'has') and f[2] and rename(f[1], c[1]) != f[1]:
                ends.add(('map', f[1][2]))
    keep = set()
    for e2 in ends:                              # the strongest bound
        if e2[0] == 'le' and any(x[0] == 'le' and x != e2 and num(psub(x[1], e2[1])) is not None and
                                 num(psub(x[1], e2[1])) > 0 for x in ends):
            continue
        keep.add(e2)
    return e, st, frozenset(keep)


def same_range(it, a, b):
    x, y = span_of(it, a), span_of(it, b)
    if not x or not y:
        return None
    x, y = [(e, s, frozenset(z for z in k if not (z[0] == 'le' and num(z[1]) == 0))) for e, s, k in (x, y)]
    if x[0] != y[0]:
        d = psub(x[0], y[0])
        return False if d[0] == 'i' and d[1] != 0 else None
    if x[1] != y[1]:
        return False
    if x[2] & y[2] and (x[2] == y[2] or len(x[2] & y[2]) >= 1):
        return True
    if len(x[2]) == 1 and len(y[2]) == 1:
        (k, u), (l, v) = list(x[2])[0], list(y[2])[0]
        if k == l == 'le':
            d = psub(u, v)
            if d[0] == 'i':
                return d[1] == 0
        if {k, l} == {'le', 'map'}:
            n, M = (u, v) if k == 'le' else (v, u)
            if n == it.load(it.entry, ('f', M, '#size')):
                return True
    return None


def summed(it, D, a, loc):
    """(B) for a divisor accumulated in a loop; (verdict, reason)"""
    if not own_steps(it, D):
        return None, ''
    ns = steady(it, D)
    if not ns:
        return None, ''
    e = it.meta.get(D[1], {}).get('entry', {}).get(D[2])
    if e is not None and num(e) is not None and num(e) != 0:
        return False, 'the sum starts from %s' % show(e)
    if e is not None and e[0] == 'lv' and e[2] == D[2]:
        return False, 'the sum is not started afresh for each row'
    if e is None or num(e) != 0:
        return None, ''
    Lc = counters_in(loc)
    res, why = True, ''
    for s, T in ns:
        if num(T) == 0:
            if leaves_out(it, s, D, ns):
                return False, 'the sum leaves an entry out'
            return None, ''                     # (left out for its value: undecided)
        hits = [l for l in where_is(it, s, T)]
        mine = [l for l in hits if array_of(l) == a or rooted(l, loc)]
        if not mine:
            others = [l for l in hits if array_of(l)]
            x = known_entry(it, s, a, D)
            if others and x is not None and x != T:
                return False, 'the sum adds %s instead' % show(others[0])[:60]
            if T[0] == 'in' and array_of(T[1]) and array_of(T[1]) != a and x is None and not written(s, a):
                return False, 'the sum adds %s instead' % show(T[1])[:60]
            res = None
            continue
        best, apart, matched = None, '', False
        for l in mine:
            cs = counters_in(l)
            for c in cs:
                if c[1] != D[1]:
                    continue
                for d in Lc:
                    if rename(l, c[1]) == rename(loc, d[1]) or canon(l, c) == canon(loc, d):
                        k = same_range(it, c, d)
                        matched = True
                        if k is True or best is None:
                            best = k
                            if k is False:
                                why = 'entries from %s are summed, from %s divided' % (rng(it, c), rng(it, d))
                    elif a == array_of(l) and across(canon(l, c), canon(loc, d)):
                        apart = 'the sum adds %s' % show(l)[:60]
                    if best is True:
                        break
        if apart and not matched:
            best, why = False, apart
        if best is not True:
            res = best if res is True else (False if best is False else res)
    return res, why


def leaves_out(it, s, D, ns):
    """an iteration adds nothing because of which entry it is, not because of its value"""
    kept = set()
    for x, T in ns:
        if num(T) != 0:
            kept |= set(x.facts)
    mine = [f for f in s.facts if f not in kept]
    cs = {c for c in it.meta[D[1]]['step'] if it.meta[D[1]]['step'][c] is not None}
    def pure(f):
        return f[0] in ('le', 'ne', 'eq') and len(f) == 2 and all(
            a[:2] == ('lv', D[1]) and a[2] in cs for m in to_poly(f[1]) for a in m)
    return bool(mine) and bool(kept) and all(pure(f) for f in mine)


def across(a, b):
    """the counter runs over different indices of the same array"""
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 and a[0] == b[0] == 'e':
        if (CNT in subterms(a[2])) != (CNT in subterms(b[2])):
            return True
        a, b = a[1], b[1]
    return False


def canon(l, c):
    return rename_one(l, c)


def rename_one(v, c):
    if v == c:
        return CNT
    if isinstance(v, tuple):
        return tuple(rename_one(x, c) for x in v)
    return v


def rng(it, c):
    x = span_of(it, c)
    return '%s to %s' % (show(x[0]), ', '.join(sorted(show(k[1]) for k in x[2]))) if x else '?'


def rooted(l, loc):
    """elements of the same (local or parameter) array"""
    def base(x):
        while isinstance(x, tuple) and x and x[0] == 'e':
            x = x[1]
        return x
    return base(l) == base(loc)


def where_is(it, s, T):
    out = [l for l, v in s.env.items() if v == T and l[0] in ('e', 'f')]
    if T[0] == 'in':
        out.append(T[1])
    if T[0] == 'prj':
        l = T[1][2] if len(T[1]) > 2 else None
        if l is not None:
            for st in T[2]:
                l = (st[0], l, st[1])
            out.append(l)
    return out


def known_entry(it, s, a, D):
    for l, v in s.env.items():
        if l[0] == 'e' and array_of(l) == a and any(c[1] == D[1] for c in counters_in(l)):
            return v
    return None


def written(s, a):
    return any(l[0] == 'e' and array_of(l) == a for l in s.env)


def run(r):
    p = r.p
    ef = Effects(p)
    n = nd = 0
    rs = roots(p)
    for i, (cls, f) in sorted(rs.items()):
        it = Interp(p, Norm(p, ef, cls, f, rs), budget=300000)
        a = r.analyse(it, f, cls=cls)
        n += 1
        if a is None:
            continue
        sites = {}
        for j in it.journal:
            if j[0] == 'div':
                sites.setdefault((j[1], (j[6] or {}).get('l')), []).append(j)
        for (arr, line), js in sorted(sites.items(), key=repr):
            nd += 1
            key = '%s: %s' % (f['q'], arr)
            w = r.where(js[0][7], js[0][6])
            for _, _, loc, val, D, st, node, fn in js:
                ok = nonzero(it, st, D)
                r.ob(key + ' divided by a sum that is not zero', ok, w, 'divided by %s, which can be zero' % show(D)[:60])
                if arr == 'mixture_coeffs' and val[:2] == ('op', '/'):
                    b = frames(it, D)
                    if b is not None:
                        r.ob(key + ' is a share of the number of frames', b, w, 'the divisor, %s, counts phrases' % show(D)[:60])
                if D[0] == 'lv':
                    k, why = summed(it, D, arr, loc)
                    r.ob(key + ' divided by the sum of its entries', k, w, why)
        plain_sums(r, it, f, sites)
    r.floor('functions with normalisations', n, 8)
    r.floor('normalising divisions', nd, 10)


def frames(it, D):
    if D[0] == 'in' and D[1][0] == 'f' and D[1][2] == '#size' and D[1][1][0] == 'f' and D[1][1][2] == 'phrases_':
        return False
    if D[0] != 'lv':
        return None
    ns = steady(it, D)
    if not ns:
        return None
    Ts = [T for _, T in ns]
    if all(T[0] == 'i' for T in Ts) and any(f[0] == 'b' and f[1][:2] == ('op', 'has') and 'phrases_' in str(f[1][2])
                                            for s, _ in ns for f in s.facts):
        return False
    return True if all('length' in str(T) or '#size' in str(T) or T[:1] == ('u',) for T in Ts) else None


def plain_sums(r, it, f, sites):
    groups = {}
    for (arr, line), js in sites.items():
        for j in js:
            D = j[4]
            if D[0] == 'poly' and all(c == 1 and len(m) == 1 and entry(m[0]) for m, c in to_poly(D).items()):
                groups.setdefault((arr, D), set()).add(j[2])
    for (arr, D), locs in groups.items():
        want = set()
        for m in to_poly(D):
            want |= set(where_is(it, it.entry, m[0]))
        w = r.where(f)
        key = '%s: %s divided by the sum of exactly these entries' % (f['q'], arr)
        r.ob(key, want == locs if want and all(array_of(x) == arr for x in want) else None, w, 'the sum has %s, divided are %s' % (
            ', '.join(sorted(show(x) for x in want)), ', '.join(sorted(show(x) for x in locs))))
