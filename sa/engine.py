"""A trace-partitioned abstract interpreter over the type-resolved program.

Abstract state = environment (location -> value number) + facts (linear integer
(in)equalities and boolean literals over value numbers) + client typestate.
Loops are brought to a fixpoint by replacing every location they may change by a
fresh value number; calls to repository functions are analysed in context
(inlined), standard-library calls by small models, anything else by havoc.
Nothing is executed and no solver is involved: entailment is a closed, incomplete
rule set (sums of at most three known inequalities)."""
import sys

sys.setrecursionlimit(20000)

ZERO = ('i', 0)
ONE = ('i', 1)
TRUE = ('i', 1)
FALSE = ('i', 0)
NULL = ('null',)

SCALAR_STD = ('std::shared_ptr', 'std::unique_ptr', 'std::basic_string', 'std::function',
              'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator',
              'std::__shared_ptr', 'std::weak_ptr', 'std::reverse_iterator', 'std::_Bind',
              'std::__shared_ptr_access', 'std::initializer_list', 'Json::ValueConstIterator', 'Json::ValueIterator',
              'Json::ValueIteratorBase', 'std::atomic', 'std::__atomic_base')


class Bailout(Exception):
    pass


def base_cls(t):
    i = t.find('<')
    return t if i < 0 else t[:i]


def strip_t(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '):
            t = t[6:]
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        if t.endswith('*const'):
            t = t[:-5].strip()
        if t.startswith('volatile '):
            t = t[9:]
        if t == o:
            return t


def is_ref(t):
    return t.endswith('&')


def is_ptr(t):
    return strip_t(t).endswith('*')


FLOATS = {'double', 'float', 'long double'}
WRAP = {'unsigned int': 2 ** 32, 'unsigned long': 2 ** 64, 'unsigned long long': 2 ** 64}
SGN = {'int', 'long', 'long long', 'short', 'signed char'}
UNS = {'unsigned int', 'unsigned long', 'unsigned long long', 'unsigned char', 'unsigned short'}
INTS = UNS | {'int', 'long', 'long long', 'char', 'short', 'signed char', 'bool'}


# ---------------------------------------------------------------- polynomials
def _atom_key(a):
    return repr(a)


def to_poly(v):
    k = v[0]
    if k == 'i':
        return {} if v[1] == 0 else {(): v[1]}
    if k == 'poly':
        return dict(v[1])
    return {(v,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ('i', c)
        if c == 1 and len(m) == 1:
            return m[0]
    return ('poly', tuple(sorted(d.items(), key=lambda x: repr(x))))


def padd(a, b, sb=1):
    if a[0] == 'i' and b[0] == 'i':
        return ('i', a[1] + sb * b[1])
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + sb * c
    return from_poly(d)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    da, db = to_poly(a), to_poly(b)
    if len(da) * len(db) > 40:
        return ('op', '*', a, b)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = tuple(sorted(m1 + m2, key=_atom_key))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def atoms(v, out=None):
    """All sub-terms of a value (locations included as ('in', loc))."""
    if out is None:
        out = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x not in out:
                out.add(x)
                st.extend(x)
    return out


def mentions(v, what):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x == what:
                return True
            st.extend(x)
    return False


def show(v):
    """Readable rendering of values and locations for reports."""
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == 'i':
        return str(v[1])
    if k == 's':
        return '"%s"' % v[1]
    if k == 'in':
        return show(v[1])
    if k in ('f', 'e') and len(v) == 2:
        return show(v[1]) if isinstance(v[1], tuple) else str(v[1])
    if k == 'f':
        b = show(v[1])
        return (b + '.' if b != 'this' else '') + str(v[2])
    if k == 'e':
        return '%s[%s]' % (show(v[1]), show(v[2]))
    if k == 'd':
        return '*' + show(v[1])
    if k == 'T':
        return 'this'
    if k == 'A':
        return str(v[1])
    if k == 'L':
        return '%s' % (v[3] if len(v) > 3 else v[2])
    if k == 'addr':
        return '&' + show(v[1])
    if k == 'op':
        return '%s(%s)' % (v[1], ', '.join(show(x) for x in v[2:]))
    if k == 'cmp':
        return '%s%s0' % (show(v[2]), {'le': '<=', 'eq': '==', 'ne': '!='}[v[1]])
    if k == 'poly':
        out = []
        for m, c in v[1]:
            t = '*'.join(show(a) for a in m)
            if not m:
                out.append('%+g' % c if isinstance(c, float) else '%+d' % c)
            elif c == 1:
                out.append('+' + t)
            elif c == -1:
                out.append('-' + t)
            else:
                out.append('%+g*%s' % (c, t))
        return ''.join(out).lstrip('+')
    if k == 'lv':
        return '%s~' % show(v[2])
    if k == 'u':
        return '?%s' % (v[1] if len(v) > 1 and isinstance(v[1], str) else '')
    if k == 'H':
        return 'new@%s' % (v[1],)
    if k == 'prj':
        return show(v[1]) + '.' + '.'.join(str(show(x)) for x in v[2])
    return str(k) + '(' + ','.join(show(x) for x in v[1:]) + ')'


class St:
    __slots__ = ('env', 'facts', 'tr', 'notes')

    def __init__(self, env=None, facts=frozenset(), tr=None, notes=()):
        self.env = env if env is not None else {}
        self.facts = facts
        self.tr = tr if tr is not None else {}
        self.notes = notes

    def clone(self):
        return St(dict(self.env), self.facts, dict(self.tr), self.notes)

    def key(self):
        return (frozenset(self.env.items()), self.facts, frozenset(self.tr.items()))


def loc_parent(l):
    if l[0] in ('f', 'e'):
        return l[1]
    return None


def has_prefix(l, p):
    while l is not None:
        if l == p:
            return True
        l = loc_parent(l)
    return False


def plain_size(v):
    return all(a[0] in ('in', 'i') for m in to_poly(v) for a in m)


class Client:
    """Hooks; a rule overrides what it needs."""
    max_depth = 14
    recursion = 0       # how often a function may be entered again while it is active

    def inline(self, func, depth):
        return True

    def on_call(self, it, st, node, callee, obj, args, fr):
        """Before a call; may return [(state, value)] to replace it."""
        return None

    def on_write(self, it, st, loc, val, node, fr):
        pass

    def on_index(self, it, st, base, idx, node, fr):
        pass

    def on_read(self, it, st, loc, node, fr):
        pass

    def on_new(self, it, st, loc, node, n, fr):
        pass

    def on_delete(self, it, st, val, arr, node, fr):
        pass

    def on_throw(self, it, st, typ, node, fr):
        pass

    def on_enter(self, it, st, func, obj, args, fr):
        pass

    def on_leave(self, it, st, func, obj, val, fr):
        pass

    def peel(self, n, fr):
        """Analyse the first iteration of this range loop apart (exits then imply >= 1 iteration)."""
        return False

    def on_unwind(self, it, st, func, fr):
        """An exception leaves func."""
        pass

    def on_make(self, it, st, cls, vals, node, fr):
        """An object of a library class (std::thread, ...) is built from several values."""
        pass

    def on_lock(self, it, st, loc, op, node, fr):
        pass

    def on_opaque(self, it, st, callee, obj, args, node, fr):
        """A call whose effects are not modelled (havoc)."""
        pass

    def on_deref(self, it, st, ptr, node, fr):
        pass

    def may_throw(self, it, st, callee, node, fr):
        return False

    def on_loop(self, it, st, node, fr, phase, uid=None):
        """phase: exit (condition false / range exhausted), body, next (end of an iteration), break, return"""
        pass

    def callback(self, it, st, fval, loc, args, node, fr):
        return None


class Frame:
    __slots__ = ('fid', 'this', 'cls', 'func', 'depth', 'ret_ref', 'ret_cls', 'parent', 'stack')

    def __init__(self, fid, this, cls, func, depth, parent=None):
        self.fid = fid
        self.this = this
        self.cls = cls
        self.func = func
        self.depth = depth
        self.parent = parent
        self.stack = (parent.stack if parent else ()) + ((func['id'] if func else None),)


def apart(a, b):
    """Two parts of one object that cannot be the same part: different members of it, or a part and a part of that part."""
    def steps(l):
        out = []
        while isinstance(l, tuple) and l and l[0] in ('f', 'e'):
            out.append((l[0], l[2]))
            l = l[1]
        return l, out[::-1]
    (ra, pa), (rb, pb) = steps(a), steps(b)
    if ra != rb:
        return False
    for x, y in zip(pa, pb):
        if x != y:
            return x[0] == 'f' and y[0] == 'f'
    return len(pa) != len(pb)


class Interp:
    CAP = 48

    def __init__(self, prog, client, budget=4000000):
        self.p = prog
        self.c = client
        self.throws = []
        self.journal = []       # events logged by a client; those of rejected loop rounds are dropped
        self._lecache = {}
        self._prcache = {}
        self._ixcache = {}
        self.nonneg = set()
        self.enumdom = {}
        self.boolset = set()
        self.stats = {'calls': 0, 'inlined': 0, 'loops': 0, 'joins': 0, 'states': 0, 'havoc': 0}
        self.dyn = {}           # location root -> dynamic class
        self.loops = {}
        self.meta = {}          # loop uid -> {'entry': {loc: value}, 'step': {loc: const|None}}
        self.steps = 0
        self.budget = budget
        self.unmodelled = {}

    # ------------------------------------------------------------- type helpers
    def is_obj(self, t):
        """True when values of the type are kept as objects (by location)."""
        t = strip_t(t)
        if t.endswith('*') or t.endswith(']'):
            return t.endswith(']')
        if t in self.p.enums:
            return False
        b = base_cls(t)
        if b in SCALAR_STD:
            return False
        if t in self.p.classes:
            return not self.p.classes[t].get('file', '').startswith('dependencies') or t == 'Json::Value'
        if b.startswith('std::') or b.startswith('Json::') or b.startswith('xmm::'):
            return True
        return False

    def note_type(self, atom, t):
        t = strip_t(t)
        if t in UNS:
            self.nonneg.add(atom)
        elif t == 'bool':
            self.nonneg.add(atom)
            self.boolset.add(atom)
        elif t in self.p.enums:
            self.enumdom[atom] = frozenset(e['v'] for e in self.p.enums[t]['e'])

    # ------------------------------------------------------------- env access
    def canon(self, st, loc):
        return loc

    def project(self, V, path):
        if not path:
            return V
        if V[0] == 'in':
            l = V[1]
            for kind, x in path:
                l = (kind, l, x)
            return ('in', l)
        if V[0] == 'vec':
            # ('vec', n, fill)
            if len(path) == 1 and path[0] == ('f', '#size'):
                return V[1]
            if len(path) >= 1 and path[0][0] == 'e' and V[2] is not None:
                return self.project(V[2], path[1:])
        if V[0] == 'sized' and path == (('f', '#size'),):
            return V[2]
        if V[0] == 'sized':
            return self.project(V[1], path)
        if V[0] == 'prj':
            return ('prj', V[1], V[2] + tuple(path))
        return ('prj', V, tuple(path))

    def load(self, st, loc, t=None):
        env = st.env
        l = loc
        path = []
        while True:
            v = env.get(l)
            if v is not None:
                if v[0] == 'ref':
                    r = v[1]
                    for kind, x in path:
                        r = (kind, r, x)
                    return self.load(st, r, t)
                v = self.project(v, tuple(path)) if path else v
                break
            if l[0] in ('f', 'e'):
                path.insert(0, (l[0], l[2]))
                l = l[1]
                continue
            v = ('in', loc)
            break
        if t is not None and v[0] in ('in', 'prj', 'u', 'lv'):
            self.note_type(v, t)
        if loc[0] == 'f' and loc[2] == '#size' and v[0] != 'i':
            if v[0] != 'poly':
                self.nonneg.add(v)
        return v

    def store(self, st, loc, val):
        env = st.env
        kill = [k for k in env if k != loc and has_prefix(k, loc)]
        for k in kill:
            del env[k]
        if loc[0] == 'e':
            # may alias other elements of the same container
            base = loc[1]
            for k in [k for k in env if k[0] == 'e' and k[1] == base and k != loc]:
                if not self.distinct(st, k[2], loc[2]):
                    del env[k]
                    for k2 in [x for x in env if has_prefix(x, k)]:
                        del env[k2]
                    env[k] = ('u', 'alias', k)
        env[loc] = val

    def distinct(self, st, a, b):
        if a[0] == 'i' and b[0] == 'i':
            return a[1] != b[1]
        if a[0] == 's' and b[0] == 's':
            return a[1] != b[1]
        d = psub(a, b)
        if d[0] == 'i':
            return d[1] != 0
        return self.truth(st, ('cmp', 'eq', d)) is False

    def copy_obj(self, st, dst, src):
        if dst == src:
            return
        env = st.env
        whole = self.load(st, src)
        subs = [(k, v) for k, v in env.items() if k != src and has_prefix(k, src)]

        def rebase(l):
            if l == src:
                return dst
            return (l[0], rebase(l[1]), l[2])
        self.store(st, dst, whole)
        for k, v in subs:
            env[rebase(k)] = v

    def write(self, st, loc, val, node, fr):
        """Scalar write with hooks."""
        loc = self.resolve(st, loc)
        self.c.on_write(self, st, loc, val, node, fr)
        self.store(st, loc, val)

    def write_obj(self, st, dst, src, node, fr):
        dst = self.resolve(st, dst)
        src = self.resolve(st, src)
        self.c.on_write(self, st, dst, ('obj', src), node, fr)
        self.copy_obj(st, dst, src)

    def havoc(self, st, loc, key):
        loc = self.resolve(st, loc)
        self.stats['havoc'] += 1
        self.store(st, loc, self.fresh(st, ('h', key, loc)))

    def resolve(self, st, loc):
        v = st.env.get(loc)
        if v is not None and v[0] == 'ref':
            return self.resolve(st, v[1])
        if loc[0] in ('f', 'e'):
            b = self.resolve(st, loc[1])
            if b is not loc[1]:
                return (loc[0], b, loc[2])
        return loc

    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'iter':
            return ('e', v[1], v[2])
        return ('d', v)

    def fresh(self, st, key):
        sym = ('u',) + (key if isinstance(key, tuple) else (key,))
        self.purge(st, sym)
        return sym

    def purge(self, st, sym):
        if any(mentions(f, sym) for f in st.facts):
            st.facts = frozenset(f for f in st.facts if not mentions(f, sym))
        for k, v in list(st.env.items()):
            if mentions(v, sym) or mentions(k, sym):
                del st.env[k]
                if not mentions(k, sym):
                    st.env[k] = ('u', 'old', k)

    # ------------------------------------------------------------- facts
    def le_facts(self, st):
        r = self._lecache.get(st.facts)
        if r is None:
            if len(self._lecache) > 20000:
                self._lecache.clear()
            r = self._lecache[st.facts] = self.le_facts1(st)
        return r

    def le_facts1(self, st):
        out = []
        for f in st.facts:
            if f[0] == 'le':
                out.append(to_poly(f[1]))
            elif f[0] == 'eq':
                d = to_poly(f[1])
                out.append(d)
                out.append({m: -c for m, c in d.items()})
        return out

    def _nonpos(self, d):
        """poly d <= 0 using non-negativity of atoms only."""
        c0 = 0
        for m, c in d.items():
            if m == ():
                c0 = c
            elif c > 0:
                return False
            else:
                for a in m:
                    if not self.is_nonneg(a):
                        return False
        return c0 <= 0

    def is_nonneg(self, a):
        if a in self.nonneg:
            return True
        if a[0] == 'op' and a[1] in ('max',):
            return any(x[0] == 'i' and x[1] >= 0 or self.is_nonneg(x) for x in a[2:] if isinstance(x, tuple))
        if a[0] == 'op' and a[1] == 'min':
            return all(x[0] == 'i' and x[1] >= 0 or self.is_nonneg(x) for x in a[2:] if isinstance(x, tuple))
        if a[0] in ('in', 'prj') and False:
            return True
        return False

    @staticmethod
    def _dsub(a, b):
        d = dict(a)
        for m, c in b.items():
            n = d.get(m, 0) - c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return d

    def prove_le(self, st, p):
        """p <= 0 follows from the facts (integers)."""
        d = to_poly(p)
        if self._nonpos(d):
            return True
        k = (st.facts, p, len(self.nonneg))
        r = self._prcache.get(k)
        if r is None:
            if len(self._prcache) > 50000:
                self._prcache.clear()
            r = self._prcache[k] = self.prove_le1(st, d)
        return r

    def prove_le1(self, st, d):
        F = self.le_facts(st)
        # products of a fact with a non-negative atom (needed for index bounds)
        mons = [m for m, c in d.items() if len(m) >= 2]
        if mons:
            ext = []
            ats = set(a for m in mons for a in m)
            for f in F:
                for a in ats:
                    if self.is_nonneg(a):
                        ext.append({tuple(sorted(m + (a,), key=_atom_key)): c for m, c in f.items()})
            F = F + ext
            index = self.fact_index(F)
        else:
            index = self._ixcache.get(st.facts)
            if index is None:
                if len(self._ixcache) > 20000:
                    self._ixcache.clear()
                index = self._ixcache[st.facts] = self.fact_index(F)

        def go(r, depth):
            if self._nonpos(r):
                return True
            if depth == 0:
                return False
            # some fact must cancel each positive monomial: branch on one of them
            best = None
            for m, c in r.items():
                if c > 0:
                    fs = index.get(m)
                    if fs is None:
                        if m == ():
                            continue
                        return False
                    if best is None or len(fs) < len(best):
                        best = fs
            if best is None:
                for m, c in r.items():
                    if c < 0 and m != () and not all(self.is_nonneg(a) for a in m):
                        best = index.get(('neg', m))
                        if best is None:
                            return False
                        break
                else:
                    return False
            for f in best:
                if go(self._dsub(r, f), depth - 1):
                    return True
            return False
        return go(d, 4)

    @staticmethod
    def fact_index(F):
        ix = {}
        for f in F:
            for m, c in f.items():
                if c > 0:
                    ix.setdefault(m, []).append(f)
                elif m != ():
                    ix.setdefault(('neg', m), []).append(f)
        return ix

    def truth(self, st, t):
        """True / False / None for a boolean-valued term."""
        k = t[0]
        if k == 'i':
            return bool(t[1])
        if k == 'null':
            return False
        if k in ('addr', 'bind', 'fn', 'lam', 's', 'f64'):
            return True
        if k == 'cmp':
            op, p = t[1], t[2]
            if p[0] == 'i':
                return {'le': p[1] <= 0, 'eq': p[1] == 0, 'ne': p[1] != 0}[op]
            if op == 'ne':
                r = self.truth(st, ('cmp', 'eq', p))
                return None if r is None else not r
            if op == 'le':
                if self.prove_le(st, p):
                    return True
                # not(p<=0) == p>=1 == 1-p<=0
                if self.prove_le(st, psub(ONE, p)):
                    return False
                return None
            if ('eq', p) in st.facts or ('eq', psub(ZERO, p)) in st.facts:
                return True
            if ('ne', p) in st.facts or ('ne', psub(ZERO, p)) in st.facts:
                return False
            # enum reasoning
            r = self._eq_subst(st, p)
            if r is not None:
                return r
            if self.prove_le(st, padd(p, ONE)) or self.prove_le(st, psub(ONE, p)):
                return False
            if self.prove_le(st, p) and self.prove_le(st, psub(ZERO, p)):
                return True
            return None
        if k == 'not':
            r = self.truth(st, t[1])
            return None if r is None else not r
        if k == 'and':
            rs = [self.truth(st, x) for x in t[1:]]
            if False in rs:
                return False
            return True if all(r is True for r in rs) else None
        if k == 'or':
            rs = [self.truth(st, x) for x in t[1:]]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if ('b', t, True) in st.facts:
            return True
        if ('b', t, False) in st.facts:
            return False
        if k in ('flt', 'fle', 'feq'):
            a, b = t[1], t[2]
            if a == b and k == 'flt':
                return False
            for kk, vv in (('flt', True), ('fle', True), ('feq', True)):
                for x, y in ((a, b), (b, a)):
                    if ('b', (kk, x, y), True) in st.facts:
                        same = (x, y) == (a, b)
                        if kk == 'flt':
                            if k == 'flt':
                                return same
                            if k == 'fle':
                                return same
                            return False
                        if kk == 'feq':
                            return k != 'flt'
                        if kk == 'fle' and not same and k == 'flt':
                            return False
            if a[0] in ('i', 'f64') and b[0] in ('i', 'f64'):
                return {'flt': a[1] < b[1], 'fle': a[1] <= b[1], 'feq': a[1] == b[1]}[k]
            return None
        if k in ('in', 'prj', 'u', 'lv', 'op', 'poly') and t not in self.boolset:
            r = self.truth(st, ('cmp', 'eq', t)) if k != 'op' else None
            if r is not None:
                return not r
        if t in self.boolset:
            for f in st.facts:
                if f[0] in ('eq', 'ne') and f[1][0] == 'poly' or f[0] in ('eq', 'ne') and f[1] == t:
                    if f[1] == t:
                        return f[0] == 'ne'
                    d = to_poly(f[1])
                    if set(d) <= {(), (t,)} and (t,) in d:
                        v = -d.get((), 0) / d[(t,)]
                        if f[0] == 'eq':
                            return v == 1
                        if v in (0, 1):
                            return v == 0
        return None

    def _eq_subst(self, st, p):
        """Try to decide p == 0 by substituting known equalities atom = const."""
        d = to_poly(p)
        known = {}
        for f in st.facts:
            if f[0] == 'eq':
                q = to_poly(f[1])
                ms = [m for m in q if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1:
                    known[ms[0][0]] = -q.get((), 0) / q[ms[0]]
            elif f[0] == 'b' and f[1] in self.boolset:
                known[f[1]] = 1 if f[2] else 0
        if not known:
            return None
        c = d.get((), 0)
        rest = False
        for m, k in d.items():
            if m == ():
                continue
            v = k
            for a in m:
                if a in known:
                    v *= known[a]
                else:
                    rest = True
                    break
            else:
                c += v
        if rest:
            return None
        return c == 0

    def assume(self, st, t, val=True):
        """State refined by (t == val), or None when contradictory. Mutates st."""
        r = self.truth(st, t)
        if r is not None:
            if r != val:
                return None
            if t[0] not in ('and', 'or', 'not'):
                return st
            return st
        k = t[0]
        if k == 'not':
            return self.assume(st, t[1], not val)
        if k == 'and' and val or k == 'or' and not val:
            for x in t[1:]:
                if self.assume(st, x, val) is None:
                    return None
            return st
        if k in ('and', 'or'):
            open_ = [x for x in t[1:] if self.truth(st, x) is None]
            if len(open_) == 1:
                return self.assume(st, open_[0], val)
            st.facts = st.facts | {('b', t, val)}
            return st
        if k == 'cmp':
            op, p = t[1], t[2]
            if op == 'le':
                q = p if val else psub(ONE, p)
                st.facts = st.facts | {('le', q)}
                # le + ne -> strict not derived
                return st
            if op == 'ne':
                op, val = 'eq', not val
            if val:
                st.facts = st.facts | {('eq', p)}
            else:
                st.facts = st.facts | {('ne', p)}
                # non-negative and != 0 => >= 1
                d = to_poly(p)
                if self.prove_le(st, psub(ZERO, p)):
                    st.facts = st.facts | {('le', psub(ONE, p))}
                elif self.prove_le(st, p):
                    st.facts = st.facts | {('le', padd(p, ONE))}
                ms = [m for m in d if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0] in self.enumdom:
                    a = ms[0][0]
                    left = []
                    for v in self.enumdom[a]:
                        if self.truth(st, ('cmp', 'eq', psub(a, ('i', v)))) is not False:
                            left.append(v)
                    if not left:
                        return None
                    if len(left) == 1:
                        st.facts = st.facts | {('eq', psub(a, ('i', left[0])))}
            return st
        if k in ('in', 'prj', 'u', 'lv', 'poly') and t not in self.boolset and k == 'poly':
            return self.assume(st, ('cmp', 'ne' if val else 'eq', t), True)
        st.facts = st.facts | {('b', t, val)}
        if t not in self.boolset and k in ('in', 'prj', 'u', 'lv'):
            # integer/pointer used as a condition
            if t in self.nonneg:
                return self.assume(st, ('cmp', 'ne' if val else 'eq', t), True)
        return st

    def split(self, st, t):
        """[(state, bool)] for both feasible outcomes of a boolean term."""
        r = self.truth(st, t)
        if r is not None:
            return [(st, r)]
        out = []
        for val in (True, False):
            s = self.assume(st.clone(), t, val)
            if s is not None:
                out.append((s, val))
        return out

    # ------------------------------------------------------------- conditions
    def cond(self, n, st, fr):
        """Evaluate a condition with short-circuit: [(state, bool)]."""
        k = n['k']
        if k == 'bin' and n['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(n['x'], st, fr):
                if (n['op'] == '&&') == b:
                    out += self.cond(n['y'], s, fr)
                else:
                    out.append((s, b))
            return out
        if k == 'un' and n['op'] == '!':
            return [(s, not b) for s, b in self.cond(n['x'], st, fr)]
        if k == 'cast' and 'ToBoolean' in n.get('ck', ''):
            return self.cond(n['e'], st, fr)
        out = []
        for s, v in self.eval(n, st, fr):
            out += self.split(s, self.boolterm(s, v))
        return out

    def boolterm(self, st, v):
        if v[0] == 'obj':
            v = self.load(st, v[1])
        if v[0] == 'poly':
            return ('cmp', 'ne', v)
        return v

    def compare(self, st, op, a, b, xt):
        xt = strip_t(xt or '')
        if a[0] == 'end' or b[0] == 'end':
            e, i = (a, b) if a[0] == 'end' else (b, a)
            if i[0] == 'end':
                t = TRUE
            elif i[0] == 'iter':
                t = self.at_end(st, i)
            else:
                t = ('op', 'isend', e, i)
            if op in ('==',):
                return t
            return ('not', t)
        if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
            a, b = a[2], b[2]
        if xt in FLOATS:
            if op == '<':
                return ('flt', a, b)
            if op == '>':
                return ('flt', b, a)
            if op == '<=':
                return ('fle', a, b)
            if op == '>=':
                return ('fle', b, a)
            x, y = sorted((a, b), key=repr)
            t = ('feq', x, y)
            return t if op == '==' else ('not', t)
        if op in ('==', '!='):
            if a == b:
                return TRUE if op == '==' else FALSE
            for x, y in ((a, b), (b, a)):
                if x[0] == 'null':
                    if y[0] in ('addr', 'bind', 's', 'iter'):
                        r = FALSE
                    else:
                        r = ('not', y)
                    return r if op == '==' else ('not', r)
            if a[0] == 'addr' and b[0] == 'addr' and a != b:
                return self.addr_eq(st, a, b, op)
            if a[0] == 's' and b[0] == 's':
                return TRUE if (a == b) == (op == '==') else FALSE
            if a[0] in ('s', 'addr', 'fn') or b[0] in ('s', 'addr', 'fn') or 'basic_string' in xt or xt.endswith('*'):
                x, y = sorted((a, b), key=repr)
                t = ('op', 'same', x, y)
                return t if op == '==' else ('not', t)
            return ('cmp', 'eq' if op == '==' else 'ne', psub(a, b))
        if op == '<':
            return ('cmp', 'le', padd(psub(a, b), ONE))
        if op == '<=':
            return ('cmp', 'le', psub(a, b))
        if op == '>':
            return ('cmp', 'le', padd(psub(b, a), ONE))
        return ('cmp', 'le', psub(b, a))

    def addr_eq(self, st, a, b, op):
        # addresses of different named objects / fields are different
        ra, rb = a[1], b[1]
        amb = any(x[0] in ('d', 'e') for x in (ra, rb))
        if not amb and not any(mentions(r, 'A') for r in (ra, rb)):
            return FALSE if op == '==' else TRUE
        if ra[0] == 'f' and rb[0] == 'f' and ra[2] != rb[2] or apart(ra, rb):
            return FALSE if op == '==' else TRUE
        x, y = sorted((a, b), key=repr)
        t = ('op', 'same', x, y)
        return t if op == '==' else ('not', t)

    def at_end(self, st, i):
        """Boolean term: iterator i is at the end of its container."""
        L, key = i[1], i[2]
        if self.is_map(L, key):
            size = self.load(st, ('f', L, '#size'))
            if size == ZERO:
                return TRUE
            if key == ('first', L) and self.prove_le(st, psub(ONE, size)):
                return FALSE
            return ('not', ('op', 'has', L, key))
        return ('cmp', 'le', psub(self.load(st, ('f', L, '#size')), key))

    def is_map(self, L, key):
        return key[0] in ('mapkey', 's', 'first', 'next') or L in self.mapset

    mapset = frozenset()

    # ------------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Bailout('step budget exceeded')

    def merge(self, states, site):
        if len(states) <= 1:
            return states
        seen = {}
        for s in states:
            k = s.key()
            if k not in seen:
                seen[k] = s
        states = list(seen.values())
        if len(states) <= self.CAP:
            return states
        self.stats['joins'] += 1
        groups = {}
        for s in states:
            groups.setdefault(frozenset(s.tr.items()), []).append(s)
        out = []
        lim = max(1, self.CAP // (2 * len(groups)))
        for g in groups.values():
            if len(g) <= lim:
                out += g
                continue
            out.append(self.join(g, site))
        return out

    def join(self, g, site):
        facts = frozenset.intersection(*[s.facts for s in g])
        keys = set()
        for s in g:
            keys |= set(s.env)
        r = St({}, facts, dict(g[0].tr), g[0].notes)
        equal = {}              # sizes that are equal in every joined state stay equal
        for k in sorted(keys, key=lambda l: (len(repr(l)), repr(l))):
            vs = [self.load(s, k) if k not in s.env else s.env[k] for s in g]
            if all(v == vs[0] for v in vs):
                r.env[k] = vs[0]
            else:
                r.env[k] = ('u', 'join', site, k)
                if k[0] == 'f' and k[2] == '#size':
                    r.env[k] = equal.setdefault(tuple(vs), r.env[k])
        return r

    def block(self, stmts, st, fr):
        """Execute statements: returns dict kind -> list."""
        out = {'n': [st], 'ret': [], 'brk': [], 'cont': []}
        cur = [st]
        guards = []
        pushed = False
        for s in stmts:
            if s is None:
                continue
            if s['k'] == 'decl':
                for d in s['d']:
                    if d and base_cls(strip_t(d['t'])) in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
                        if not pushed:
                            self.throws.append([])
                            pushed = True
                        guards.append(('L', fr.fid, d['id'], d['n']))
            nxt = []
            for x in cur:
                r = self.exec(s, x, fr)
                nxt += r['n']
                out['ret'] += r['ret']
                out['brk'] += r['brk']
                out['cont'] += r['cont']
            cur = self.merge(nxt, ('b', s.get('l')))
            self.stats['states'] = max(self.stats['states'], len(cur))
            if not cur:
                break
        out['n'] = cur
        if pushed:
            for g in reversed(guards):
                for k in ('n', 'brk', 'cont'):
                    for x in out[k]:
                        self.release_guard(x, g, fr)
                for x, v in out['ret']:
                    self.release_guard(x, g, fr)
                for x, t, nd in self.throws[-1]:
                    self.release_guard(x, g, fr)
            th = self.throws.pop()
            self.throws[-1].extend(th)
        return out

    def release_guard(self, st, g, fr):
        m = st.env.get(('f', g, '#mutex'))
        if m is not None and m[0] == 'addr':
            owned = st.env.get(('f', g, '#owns'), TRUE)
            if owned == TRUE:
                self.c.on_lock(self, st, m[1], 'unlock', None, fr)
            st.env[('f', g, '#owns')] = FALSE

    def exec(self, n, st, fr):
        self.tick()
        k = n['k']
        N = {'n': [], 'ret': [], 'brk': [], 'cont': []}
        if k == 'expr':
            N['n'] = [s for s, v in self.eval(n['e'], st, fr)]
            return N
        if k == 'block':
            return self.block(n['s'], st, fr)
        if k == 'decl':
            cur = [st]
            for d in n['d']:
                if d is None:
                    continue
                nxt = []
                for s in cur:
                    nxt += self.vardecl(d, s, fr)
                cur = nxt
            N['n'] = cur
            return N
        if k == 'if':
            cur = [st]
            if n.get('init'):
                r = self.exec(n['init'], st, fr)
                cur = r['n']
            if n.get('cv'):
                cur = [s2 for s in cur for s2 in self.vardecl(n['cv'], s, fr)]
            for s in cur:
                for s2, b in self.cond(n['c'], s, fr):
                    br = n['x'] if b else n.get('y')
                    if br is None:
                        N['n'].append(s2)
                    else:
                        r = self.exec(br, s2, fr)
                        for kk in N:
                            N[kk] += r[kk]
            return N
        if k == 'ret':
            if n.get('e') is None:
                N['ret'] = [(st, None)]
                return N
            rt = fr.func['rt'] if fr.func else ''
            if is_ref(rt):
                N['ret'] = [(s, ('ref', l)) for s, l in self.lval(n['e'], st, fr)]
            else:
                N['ret'] = list(self.eval(n['e'], st, fr))
            return N
        if k == 'break':
            N['brk'] = [st]
            return N
        if k == 'continue':
            N['cont'] = [st]
            return N
        if k in ('for', 'while', 'do', 'rfor'):
            return self.loop(n, st, fr)
        if k == 'switch':
            return self.switch(n, st, fr)
        if k == 'try':
            self.throws.append([])
            r = self.exec(n['b'], st, fr)
            th = self.throws.pop()
            for kk in N:
                N[kk] += r[kk]
            for s, t, nd in th:
                for h in n['h']:
                    if self.catches(h, t):
                        if h.get('id') is not None:
                            s.env[('L', fr.fid, h['id'], 'e')] = ('u', 'exc', t)
                        self.cur_exc = t
                        self.caught_stack = getattr(self, 'caught_stack', []) + [t]
                        r = self.exec(h['b'], s, fr)
                        self.caught_stack = self.caught_stack[:-1]
                        for kk in N:
                            N[kk] += r[kk]
                        break
                else:
                    self.throws[-1].append((s, t, nd))
            return N
        if k in ('case', 'default', 'label'):
            return self.exec(n['b'], st, fr)
        if k == 'null':
            N['n'] = [st]
            return N
        raise Bailout('statement ' + k + ' ' + str(n.get('what')))

    EXC_BASES = {
        'std::out_of_range': 'std::logic_error', 'std::domain_error': 'std::logic_error',
        'std::invalid_argument': 'std::logic_error', 'std::logic_error': 'std::exception',
        'std::runtime_error': 'std::exception', 'std::bad_alloc': 'std::exception',
        'xmm::JsonException': 'std::exception', 'std::length_error': 'std::logic_error',
    }

    def catches(self, h, t):
        if not h.get('t'):
            return True
        want = strip_t(h['t'])
        if want.endswith('*'):
            return False
        x = strip_t(t or '')
        if x in ('?', ''):
            return want == 'std::exception'
        while x:
            if x == want:
                return True
            nx = self.EXC_BASES.get(x)
            if nx is None and x in self.p.classes:
                bs = self.p.classes[x]['bases']
                nx = bs[0] if bs else None
            x = nx
        return False

    def throw(self, st, t, node, fr):
        self.c.on_throw(self, st, t, node, fr)
        self.throws[-1].append((st, t, (node, fr.func['file'] if fr.func else '', node.get('l') if node else 0)))

    def vardecl(self, d, st, fr):
        loc = ('L', fr.fid, d['id'], d['n'])
        t = d['t']
        for k in [k for k in st.env if has_prefix(k, loc)]:
            del st.env[k]
        init = d.get('init')
        if is_ref(t):
            out = []
            for s, l in self.lval(init, st, fr):
                s.env[loc] = ('ref', self.resolve(s, l))
                out.append(s)
            return out
        b = base_cls(strip_t(t))
        if b in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock') and init is not None and init.get('a'):
            out = []
            for s, l in self.lval(init['a'][0], st, fr):
                l = self.resolve(s, l)
                s.env[('f', loc, '#mutex')] = ('addr', l)
                if len(init['a']) == 1:
                    self.c.on_lock(self, s, l, 'lock', init, fr)
                    s.env[('f', loc, '#owns')] = TRUE
                else:
                    tag = init['a'][1].get('t', '') + str(init['a'][1].get('n', ''))
                    if 'adopt' in tag:
                        s.env[('f', loc, '#owns')] = TRUE
                    elif 'defer' in tag:
                        s.env[('f', loc, '#owns')] = FALSE
                    else:
                        raise Bailout('guard tag ' + tag)
                out.append(s)
            return out
        if init is None:
            st.env[loc] = ('undef', loc)
            return [st]
        if self.is_obj(t):
            return [s for s in self.init_obj(init, loc, t, st, fr)]
        out = []
        for s, v in self.eval(init, st, fr):
            self.write(s, loc, v, d, fr)
            out.append(s)
        return out

    def init_obj(self, e, loc, t, st, fr):
        """Initialise the object at `loc` from expression e: states."""
        if e['k'] == 'construct':
            return [s for s, _ in self.construct(e, st, fr, loc)]
        if e['k'] == 'cast' and e['e'] and self.is_obj(e.get('t', '')):
            return self.init_obj(e['e'], loc, t, st, fr)
        if e['k'] == 'ilist':
            return self.init_list(e, loc, st, fr)
        out = []
        for s, v in self.eval(e, st, fr):
            if v[0] == 'obj':
                self.copy_obj(s, loc, self.resolve(s, v[1]))
            else:
                self.store(s, loc, v)
            out.append(s)
        return out

    def init_list(self, e, loc, st, fr):
        cur = [st]
        self.store(st, loc, ('vec', ('i', len(e['a'])), None))
        for i, x in enumerate(e['a']):
            nxt = []
            for s in cur:
                for s2, v in self.eval(x, s, fr):
                    l = ('e', loc, ('i', i))
                    if v[0] == 'obj':
                        self.copy_obj(s2, l, self.resolve(s2, v[1]))
                    else:
                        s2.env[l] = v
                    nxt.append(s2)
            cur = nxt
        return cur

    def switch(self, n, st, fr):
        N = {'n': [], 'ret': [], 'brk': [], 'cont': []}
        items = []

        def flat(s):
            if s is None:
                return
            if s['k'] == 'block' and not items_in_block[0]:
                items_in_block[0] = True
                for x in s['s']:
                    flat(x)
            elif s['k'] == 'case':
                items.append(('case', s['v']))
                flat(s['b'])
            elif s['k'] == 'default':
                items.append(('default', None))
                flat(s['b'])
            else:
                items.append(('stmt', s))
        items_in_block = [False]
        flat(n['b'])
        for s, v in self.eval(n['c'], st, fr):
            tests = []
            for i, (kind, x) in enumerate(items):
                if kind == 'case':
                    cv = list(self.eval(x, s, fr))[0][1]
                    tests.append((i, cv))
            starts = []
            for i, cv in tests:
                s2 = self.assume(s.clone(), self.compare(s, '==', v, cv, ''), True)
                if s2 is not None:
                    starts.append((i, s2))
            rest = s.clone()
            for i, cv in tests:
                if rest is not None:
                    rest = self.assume(rest, self.compare(rest, '==', v, cv, ''), False)
            # closed enumerations
            if rest is not None and strip_t(n.get('et', '')) in self.p.enums:
                dom = {e['v'] for e in self.p.enums[strip_t(n['et'])]['e']}
                if dom <= {cv[1] for _, cv in tests if cv[0] == 'i'}:
                    rest = None
            if rest is not None:
                di = [i for i, (kd, x) in enumerate(items) if kd == 'default']
                if di:
                    starts.append((di[0], rest))
                else:
                    N['n'].append(rest)
            for i, s2 in starts:
                stm = [x for kd, x in items[i:] if kd == 'stmt']
                r = self.block(stm, s2, fr)
                N['n'] += r['n'] + r['brk']
                N['ret'] += r['ret']
                N['cont'] += r['cont']
        return N

    # ------------------------------------------------------------- loops
    def loop_uid(self, n, fr):
        # position-free identity within the function + call path
        return (fr.fid, n.get('l'), n['k'])

    def loop(self, n, st, fr):
        self.stats['loops'] += 1
        N = {'n': [], 'ret': [], 'brk': [], 'cont': []}
        uid = self.loop_uid(n, fr)
        entries = [st]
        if n['k'] == 'for' and n.get('init'):
            entries = self.exec(n['init'], st, fr)['n']
        results = []
        for e in entries:
            r = self.loop1(n, e, fr, uid)
            for kk in N:
                N[kk] += r[kk]
        N['n'] = self.merge(N['n'] + N['brk'], ('loop', uid[1]))
        N['brk'] = []
        N['cont'] = []
        return N

    loop_entry = {}

    def may_skip(self, st, uid):
        """st, a state in which the loop is left: can this be before any iteration?"""
        e = self.loop_entry.get(uid)
        s = st.clone()
        seen, todo = set(), [s.facts]
        while todo:
            y = todo.pop()
            if isinstance(y, tuple) and len(y) == 3 and y[0] == 'lv' and y[1] == uid:
                seen.add(y)
            elif isinstance(y, (tuple, frozenset)):
                todo.extend(y)
        for v in seen:
            x = ZERO if isinstance(v[2], tuple) and v[2][:1] == ('idx',) else self.load(e, v[2]) if e else None
            if x is not None and isinstance(x, tuple):
                s = self.assume(s, ('cmp', 'eq', psub(v, x)), True)
                if s is None:
                    return False
        return True

    def purge_loop(self, st, uid):
        def bad(x):
            s = [x]
            while s:
                y = s.pop()
                if isinstance(y, tuple):
                    if len(y) >= 2 and y[0] in ('lv', 'mapkey') and y[1] == uid:
                        return True
                    s.extend(y)
            return False
        st.facts = frozenset(f for f in st.facts if not bad(f))
        for k, v in list(st.env.items()):
            if bad(k):
                del st.env[k]
            elif bad(v):
                st.env[k] = ('u', 'old', k)

    def loop1(self, n, st, fr, uid):
        self.purge_loop(st, uid)
        N = {'n': [], 'ret': [], 'brk': [], 'cont': []}
        rng = None
        if n['k'] == 'rfor':
            rl = list(self.lval(n['r'], st, fr))
            if not rl:
                return N
            if len(rl) > 1:
                for s, l in rl:
                    r = self.rfor(n, s, self.resolve(s, l), fr, uid)
                    for kk in N:
                        N[kk] += r[kk]
                return N
            s, l = rl[0]
            return self.rfor(n, s, self.resolve(s, l), fr, uid)

        def step(s, first):
            """One iteration from a head state: (exits, nexts, rets)."""
            exits, nexts, rets = [], [], []
            if n['k'] == 'do' and first:
                heads = [s]
            elif n.get('c') is None:
                self.c.on_loop(self, s, n, fr, 'head', uid)
                heads = [s]
            else:
                heads = []
                self.c.on_loop(self, s, n, fr, 'head', uid)
                ss = [s]
                if n.get('cv'):
                    ss = [y for x in ss for y in self.vardecl(n['cv'], x, fr)]
                for x in ss:
                    for s2, b in self.cond(n['c'], x, fr):
                        (heads if b else exits).append(s2)
            for x in exits:
                self.c.on_loop(self, x, n, fr, 'exit', uid)
            exits = [x for x in exits if not x.tr.get('#dead')]
            for h in heads:
                self.c.on_loop(self, h, n, fr, 'body', uid)
                r = self.exec(n['b'], h, fr) if n.get('b') else {'n': [h], 'ret': [], 'brk': [], 'cont': []}
                for x, _ in r['ret']:
                    self.c.on_loop(self, x, n, fr, 'return', uid)
                rets += r['ret']
                for x in r['brk']:
                    self.c.on_loop(self, x, n, fr, 'break', uid)
                exits += r['brk']
                for s2 in self.merge(r['n'] + r['cont'], ('it', uid[1])):
                    self.c.on_loop(self, s2, n, fr, 'next', uid)
                    if n['k'] == 'for' and n.get('inc'):
                        nexts += [x for x, _ in self.eval(n['inc'], s2, fr)]
                    else:
                        nexts.append(s2)
            return exits, nexts, rets
        if n['k'] == 'do':
            # a do loop: the body runs once before the condition is first tested
            ex, nx, rt = step(st, True)
            N['n'] += ex
            N['ret'] += rt
            for s in nx:
                r = self.fix(s, uid, fr, lambda x: step(x, False), n)
                for kk in N:
                    N[kk] += r[kk]
            return N
        return self.fix(st, uid, fr, lambda x: step(x, False), n)

    def fix(self, st, uid, fr, step, n):
        """Fixpoint: havoc every location the body changes."""
        N = {'n': [], 'ret': [], 'brk': [], 'cont': []}
        changed = {}            # loc -> info
        self.loop_entry[uid] = st
        rel, banned, prim = {}, set(), None
        below, unbelow = {}, set()      # location -> upper bound that every iteration keeps (candidates, then proven)
        for rounds in range(8):
            mark = len(self.throws[-1])
            jmark = len(self.journal)
            heads = self.make_heads(st, changed, uid, fr, n)
            if rel:
                # variables advancing by a fixed amount whenever the primary counter advances by one
                h = heads[0]
                cnt = psub(('lv', uid, prim), self.load(st, prim))
                for l, dv in rel.items():
                    if changed.get(l) == ('inc', 1) and h.env.get(l) == ('lv', uid, l):
                        h.env[l] = padd(self.load(st, l), pmul(dv, cnt))
            if n.get('k') in ('while', 'do'):
                for l in changed:
                    if changed[l] == ('inc', 1) and l not in below and l not in unbelow:
                        us = self.upper_of(st, self.load(st, l))
                        if us:
                            below[l] = us
                for h in heads:
                    for l, us in below.items():
                        v = h.env.get(l)
                        if v is not None:
                            h.facts = h.facts | {('le', psub(v, u)) for u in us}
            new = False
            exits, rets = [], []
            first, again = [], False
            steps, stepv, npaths = {}, {}, 0
            work = [(h, h) for h in heads]
            seen = set(h.key() for h in heads)
            guard = 0
            while work:
                h, gen = work.pop()
                guard += 1
                if guard > 60:
                    raise Bailout('loop does not stabilise (%s:%s)' % (fr.func.get('q'), n.get('l')))
                ex, nx, rt = step(h.clone())
                if h.tr == st.tr:
                    first += ex
                else:
                    exits += ex
                rets += rt
                for s in nx:
                    npaths += 1
                    again = again or s.tr == st.tr
                    ch = self.diff(h, s, fr, uid)
                    for l in list(below):
                        ok = [u for u in below[l] if self.at_most(s, psub(self.load(s, l), u))]
                        if len(ok) != len(below[l]):
                            new = True
                            below[l] = ok
                            if not ok:
                                del below[l]
                                unbelow.add(l)
                    for l in stepv:
                        if l not in ch:
                            stepv[l].add(ZERO)
                            steps[l].add(0)
                    for l, info in ch.items():
                        if l in steps and not isinstance(info, str):
                            dv = psub(self.load(s, l), self.load(h, l))
                            steps[l].add(dv[1] if dv[0] == 'i' else None)
                            stepv[l].add(dv)
                        elif not isinstance(info, str):
                            dv = psub(self.load(s, l), self.load(h, l))
                            steps[l] = {dv[1] if dv[0] == 'i' else None}
                            stepv[l] = {dv}
                            if npaths > 1:
                                steps[l].add(0)
                                stepv[l].add(ZERO)
                        if l not in changed:
                            changed[l] = info
                            new = True
                        elif changed[l] != info and changed[l] is not None:
                            if info == 'elems':
                                pass
                            elif info != 'same':
                                changed[l] = None
                                new = True
                    # typestate changed by the body: another head, which keeps the flags this typestate comes with
                    if s.tr != gen.tr:
                        h2 = gen.clone()
                        h2.tr = dict(s.tr)
                        for l in set(ch) | set(changed):
                            v = s.env.get(l)
                            if v in (TRUE, FALSE) and l[0] == 'L' and h2.env.get(l, v) != v and not (
                                    isinstance(changed.get(l), tuple) and changed[l][0] == 'inc'):
                                h2.env[l] = v
                        if h2.key() not in seen:
                            seen.add(h2.key())
                            work.append((h2, gen))
            if not new:
                bad = [l for l in rel if stepv.get(l) != {rel[l]}]
                if rel and stepv.get(prim) != {ONE}:
                    bad = list(rel)
                if bad:
                    banned |= set(bad)
                    rel = {l: v for l, v in rel.items() if l not in bad}
                    new = True
                elif rounds < 5:
                    cand = {l: list(v)[0] for l, v in stepv.items() if len(v) == 1 and l not in banned
                            and changed.get(l) == ('inc', 1) and self.invariant_step(list(v)[0], uid)}
                    ones = sorted((l for l in cand if cand[l] == ONE),
                                  key=lambda l: (self.load(st, l) != ZERO, repr(l)))
                    if ones and prim is None:
                        prim = ones[0]
                    if prim is not None:
                        add = {l: v for l, v in cand.items() if l != prim and l not in rel}
                        if add:
                            rel.update(add)
                            new = True
            if not new:
                if first and not again and changed:
                    # every iteration changes the typestate: this head is the entry state only
                    m2, j2 = len(self.throws[-1]), len(self.journal)
                    known = dict(self.meta)
                    first = step(st.clone())[0]
                    self.meta.update(known)
                    del self.throws[-1][m2:]
                    del self.journal[j2:]
                exits += first
                for x in exits:
                    self.journal.append(('#exit', uid, x))
                N['n'] = exits
                N['ret'] = rets
                if not steps and self.meta.get(uid, {}).get('step'):
                    return N            # no iteration from this entry: what is known of the loop stays
                self.meta[uid] = {
                    'entry': {l: self.load(st, l) for l in changed if changed[l] != 'elems'},
                    'step': {l: list(v)[0] if len(v) == 1 else None for l, v in steps.items()}}
                return N
            # body threw in non-final rounds: keep only the final round's
            del self.throws[-1][mark:]
            del self.journal[jmark:]
        raise Bailout('loop fixpoint not reached')

    def upper_of(self, st, v):
        """terms v is known not to exceed"""
        out = []
        ats = {a for m in to_poly(v) for a in m}
        if v[0] == 'i' or len(ats) != 1:
            return out
        for f in sorted(st.facts, key=repr):
            if f[0] == 'le':
                d = to_poly(f[1])
                if d.get((v,)) == 1:
                    u = psub(v, f[1])
                    if v not in {a for m in to_poly(u) for a in m} and all(
                            a[0] in ('in', 'lv') for m in to_poly(u) for a in m):
                        out.append(u)
        return out[:3]

    def at_most(self, st, p):
        """p <= 0, also from p <= 1 and p != 1"""
        if self.prove_le(st, p):
            return True
        q = psub(p, ONE)
        return (('ne', q) in st.facts or ('ne', psub(ZERO, q)) in st.facts) and self.prove_le(st, q)

    def log(self, item):
        self.journal.append(item)

    @staticmethod
    def invariant_step(v, uid):
        return all(a[0] == 'in' or a[0] == 'lv' and a[1] != uid for m in to_poly(v) for a in m)

    def make_heads(self, st, changed, uid, fr, n):
        h = st.clone()
        for l in sorted(changed, key=repr):
            info = changed[l]
            old = self.load(h, l)
            sym = ('lv', uid, l)
            if info == 'elems':
                l = self.resolve(h, l)
                size = self.load(h, ('f', l, '#size'))
                for k in [k for k in h.env if has_prefix(k, l) and k[0] == 'e' or
                          any(has_prefix(k, ('e', l, x)) for x in [self.elem_idx(k, l)] if x is not None)]:
                    del h.env[k]
                keep = {k: v for k, v in h.env.items() if k != l and has_prefix(k, l)}
                h.env[l] = ('lv', uid, l)
                h.env.update(keep)
                h.env[('f', l, '#size')] = size
                continue
            if info == 'killed':
                for k in [k for k in h.env if has_prefix(k, l)]:
                    del h.env[k]
                h.env[l] = sym
                continue
            if old[0] in ('iter', 'end') and isinstance(info, tuple) and info[0] == 'iter':
                if self.is_map(old[1], old[2]) or old[2][0] == 'first':
                    key = ('mapkey', uid)
                else:
                    key = ('lv', uid, l)
                    self.nonneg.add(key)
                    h.facts = h.facts | {('le', psub(old[2], key))}
                self.store(h, l, ('iter', old[1], key))
                continue
            if old in self.nonneg or old[0] == 'i' and old[1] >= 0:
                pass
            self.store(h, l, sym)
            if isinstance(info, tuple) and info[0] == 'inc':
                if info[1] > 0:
                    h.facts = h.facts | {('le', psub(old, sym))}
                    if old in self.nonneg or old[0] == 'i' and old[1] >= 0:
                        self.nonneg.add(sym)
                elif info[1] < 0:
                    h.facts = h.facts | {('le', psub(sym, old))}
            if old in self.boolset or (isinstance(info, tuple) and info[0] == 'bool'):
                self.boolset.add(sym)
                self.nonneg.add(sym)
            if old in self.enumdom:
                self.enumdom[sym] = self.enumdom[old]
            if l[0] == 'f' and l[2] == '#size':
                self.nonneg.add(sym)
        return [h]

    @staticmethod
    def elem_idx(k, base):
        while k is not None:
            if k[0] == 'e' and k[1] == base:
                return k[2]
            k = loc_parent(k)
        return None

    def diff(self, h, s, fr, uid):
        """Locations whose value differs between loop head h and end-of-body s."""
        out = {}
        for l in set(h.env) | set(s.env):
            if l[0] == 'L' and l not in h.env:
                continue
            root = l
            while loc_parent(root) is not None:
                root = loc_parent(root)
            if root[0] in ('L', 'tmp') and root not in h.env and not any(has_prefix(k, root) for k in h.env):
                continue
            a = self.load(h, l)
            b = self.load(s, l)
            if a == b:
                continue
            own = lambda y: any(isinstance(x, tuple) and len(x) >= 2 and x[0] in ('lv', 'mapkey') and x[1] == uid
                                for x in atoms_of_loc(y))
            if own(l):
                # element addressed by this loop's own variable: the container's elements change
                base = l
                while base is not None and own(base):
                    base = loc_parent(base)
                if base is not None:
                    out.setdefault(base, 'elems')
                continue
            if a[0] in ('iter', 'end') and b[0] == 'iter':
                out[l] = ('iter',)
                continue
            if l not in self.mapset and (a[0] == 'vec' or ('f', l, '#size') in h.env) and (b[0] == 'vec' or (
                    'f', l, '#size') in s.env) and self.load(h, ('f', l, '#size')) == self.load(s, ('f', l, '#size')):
                out[l] = 'elems'        # of the same size
                continue
            if a[0] in ('obj', 'ref') or b[0] in ('obj', 'ref'):
                out[l] = None
                continue
            d = psub(b, a) if a[0] in ('i', 'in', 'lv', 'u', 'prj', 'poly', 'op') and \
                b[0] in ('i', 'in', 'lv', 'u', 'prj', 'poly', 'op') else None
            if d is not None and d[0] == 'i':
                out[l] = ('inc', 1 if d[1] > 0 else -1)
            elif d is not None and all(c > 0 and (m == () or all(x in self.nonneg for x in m))
                                       for m, c in to_poly(d).items()):
                out[l] = ('inc', 1)
            elif b[0] == 'i' and b[1] in (0, 1) and (a in self.boolset or a in (TRUE, FALSE)):
                out[l] = ('bool',)
            else:
                out[l] = None
        return out

    def rfor(self, n, st, L, fr, uid):
        key_is_map = self.container_kind(n.get('rt', ''))
        var = n['v']
        vloc = ('L', fr.fid, var['id'], var['n'])
        if key_is_map in ('map', 'set', 'jsonv'):
            self.mapset = self.mapset | {L}
            key = ('mapkey', uid)
        else:
            key = ('lv', uid, ('idx', L))
            self.nonneg.add(key)
        def step(s):
            exits, nexts, rets = [], [], []
            self.drop_key(s, key)
            ex = s.clone()
            self.c.on_loop(self, ex, n, fr, 'exit', uid)
            exits.append(ex)
            h = s
            if key_is_map in ('map', 'set', 'jsonv'):
                if key_is_map == 'jsonv':
                    pass
                h.facts = h.facts | {('b', ('op', 'has', L, key), True)}
            else:
                t = ('cmp', 'le', padd(psub(key, self.load(h, ('f', L, '#size'))), ONE))
                h = self.assume(h, t, True)
                if h is None:
                    return exits, nexts, rets
            self.c.on_loop(self, h, n, fr, 'body', uid)
            if key_is_map == 'map':
                el = ('pair', L, key)
            else:
                el = ('e', L, key)
            for k in [k for k in h.env if has_prefix(k, vloc)]:
                del h.env[k]
            if is_ref(var['t']):
                h.env[vloc] = ('ref', el)
            elif key_is_map == 'set':
                h.env[vloc] = key
            elif self.is_obj(var['t']):
                if key_is_map == 'map':
                    h.env[vloc] = ('ref', el)   # by-value pair: reads are the same
                else:
                    self.copy_obj(h, vloc, el)
            else:
                h.env[vloc] = self.load(h, el, var['t'])
            if key_is_map == 'set' and is_ref(var['t']):
                h.env[el] = key
            r = self.exec(n['b'], h, fr)
            for x, _ in r['ret']:
                self.c.on_loop(self, x, n, fr, 'return', uid)
            rets += r['ret']
            for x in r['brk']:
                self.c.on_loop(self, x, n, fr, 'break', uid)
            exits += r['brk']
            nx = self.merge(r['n'] + r['cont'], ('it', uid[1]))
            for x in nx:
                self.c.on_loop(self, x, n, fr, 'next', uid)
            nexts += nx
            return exits, nexts, rets
        if self.c.peel(n, fr) and key_is_map not in ('jsonv',):
            r = {'n': [], 'ret': [], 'brk': [], 'cont': []}
            size = self.load(st, ('f', L, '#size'))
            s0 = self.assume(st.clone(), ('cmp', 'le', size), True)
            if s0 is not None:
                r['n'].append(s0)
            s1 = self.assume(st.clone(), ('cmp', 'le', psub(ONE, size)), True)
            if s1 is not None:
                ex, nx, rt = step(s1)
                r['n'] += ex[1:]
                r['ret'] += rt
                for s in nx:
                    r2 = self.fix(s, uid, fr, step, n)
                    r['n'] += r2['n']
                    r['ret'] += r2['ret']
        else:
            r = self.fix(st, uid, fr, step, n)
        for s in r['n']:
            if vloc in s.env:
                del s.env[vloc]
        return r

    def drop_key(self, st, key):
        st.facts = frozenset(f for f in st.facts if not mentions(f, key))
        for k in [k for k in st.env if mentions(k, key)]:
            del st.env[k]

    def container_kind(self, t):
        b = base_cls(strip_t(t))
        if b in ('std::map', 'std::unordered_map', 'std::multimap'):
            return 'map'
        if b in ('std::set', 'std::unordered_set'):
            return 'set'
        if b == 'Json::Value':
            return 'jsonv'
        return 'vec'

    # ------------------------------------------------------------- expressions
    def evals(self, nodes, st, fr):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval(n, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def eval(self, n, st, fr):
        """[(state, value)]"""
        self.tick()
        k = n['k']
        if k == 'int':
            return [(st, ('i', int(n['v'])))]
        if k == 'float':
            v = n['v']
            return [(st, ('i', int(v)) if float(v).is_integer() and abs(v) < 1e15 else ('f64', v))]
        if k == 'bool':
            return [(st, TRUE if n['v'] else FALSE)]
        if k == 'null':
            return [(st, NULL)]
        if k == 'str':
            return [(st, ('s', n['v']))]
        if k == 'enum':
            return [(st, ('i', n['v']))]
        if k == 'this':
            return [(st, ('addr', fr.this))]
        if k == 'fn':
            return [(st, ('fn', n['c']['id']))]
        if k in ('ref', 'mem', 'glob', 'idx'):
            out = []
            for s, l in self.lval(n, st, fr):
                out.append((s, self.rvalue(s, l, n.get('t', ''), n, fr)))
            return out
        if k == 'cast':
            ck = n.get('ck', '')
            if 'ToBoolean' in ck:
                out = []
                for s, v in self.eval(n['e'], st, fr):
                    if v[0] in ('cmp', 'not', 'and', 'or', 'flt', 'fle', 'feq') or v in self.boolset:
                        out.append((s, v))
                    elif v[0] == 'i':
                        out.append((s, TRUE if v[1] else FALSE))
                    else:
                        out.append((s, ('cmp', 'ne', v)))
                return out
            if ck == 'FloatingToIntegral':
                return [(s, v if v[0] == 'i' else ('op', 'trunc', v)) for s, v in self.eval(n['e'], st, fr)]
            if ck == 'NullToPointer':
                return [(st, NULL)]
            if ck == 'IntegralCast' and n.get('t') in WRAP and n.get('ft') in SGN:
                out = []                # a definitely negative value becomes a large one
                for s, v in self.eval(n['e'], st, fr):
                    if v[0] in ('i', 'poly', 'in', 'lv') and self.prove_le(s, padd(v, ONE)):
                        v = padd(v, ('i', WRAP[n['t']]))
                    out.append((s, v))
                return out
            return self.eval(n['e'], st, fr)
        if k == 'bin':
            return self.binop(n, st, fr)
        if k == 'un':
            return self.unop(n, st, fr)
        if k == 'cond':
            out = []
            for s, b in self.cond(n['c'], st, fr):
                out += self.eval(n['x'] if b else n['y'], s, fr)
            return out
        if k == 'call':
            out = []
            for s, v in self.call(n, st, fr):
                if v is not None and v[0] == 'ref':
                    v = self.rvalue(s, self.resolve(s, v[1]), n.get('t', ''), n, fr)
                out.append((s, v if v is not None else ('void',)))
            return out
        if k == 'construct':
            t = n['t']
            if self.is_obj(t):
                loc = ('tmp', fr.fid, n.get('l'), base_cls(strip_t(t)), self.tmpid(n))
                self.drop(st, loc)
                return [(s, ('obj', loc)) for s, _ in self.construct(n, st, fr, loc)]
            return self.construct_scalar(n, st, fr)
        if k == 'new':
            return self.new(n, st, fr)
        if k == 'delete':
            out = []
            for s, v in self.eval(n['e'], st, fr):
                self.c.on_delete(self, s, v, bool(n.get('arr')), n, fr)
                out.append((s, ('void',)))
            return out
        if k == 'throw':
            t = n.get('t')
            if t is None:
                cs = getattr(self, 'caught_stack', [])
                t = cs[-1] if cs else '?'
                self.throw(st, t, n, fr)
                return []
            self.throw(st, strip_t(t), n, fr)
            return []
        if k == 'ilist':
            loc = ('tmp', fr.fid, n.get('l'), 'il', self.tmpid(n))
            t = strip_t(n.get('t', ''))
            if not self.is_obj(t) and t in INTS | FLOATS:
                if len(n['a']) == 1:
                    return self.eval(n['a'][0], st, fr)
                return [(st, ZERO)]
            self.drop(st, loc)
            return [(s, ('obj', loc)) for s in self.init_list(n, loc, st, fr)]
        if k == 'zero':
            return [(st, ZERO if not is_ptr(n.get('t', '')) else NULL)]
        if k == 'lambda':
            return [(st, ('lam', self.lamid(n), fr.fid, fr.this))]
        if k == 'sizeof':
            return [(st, ('op', 'sizeof', ('s', n.get('t', ''))))]
        if k == 'unk' or k == 'arrcopy' or k == 'typeid' or k == 'memfn':
            return [(st, self.fresh(st, ('unk', fr.fid, n.get('l'))))]
        raise Bailout('expression ' + k)

    _lams = {}
    _tmps = {}

    def lamid(self, n):
        Interp._lams[id(n)] = n
        return id(n)

    def tmpid(self, n):
        # stable small integer per syntax node
        d = Interp._tmps
        return d.setdefault(id(n), len(d))

    def drop(self, st, loc):
        for k in [k for k in st.env if has_prefix(k, loc)]:
            del st.env[k]

    def rvalue(self, st, l, t, n, fr):
        l = self.resolve(st, l)
        self.c.on_read(self, st, l, n, fr)
        if self.is_obj(t):
            return ('obj', l)
        return self.load(st, l, t)

    def lval(self, n, st, fr):
        """[(state, location)]"""
        k = n['k']
        if k == 'ref':
            return [(st, self.resolve(st, ('L', fr.fid, n['id'], n['n'])))] if ('L', fr.fid, n['id'], n['n']) in st.env \
                or not getattr(fr, 'parent', None) else [(st, self.find_local(st, n, fr))]
        if k == 'glob':
            return [(st, ('G', n['n']))]
        if k == 'this':
            return [(st, fr.this)]
        if k == 'mem':
            out = []
            b = n['b']
            if n.get('arrow') or b['k'] == 'this':
                for s, v in self.eval(b, st, fr):
                    if b['k'] != 'this':
                        self.c.on_deref(self, s, v, n, fr)
                    out.append((s, self.member(s, self.deref(v), n)))
            else:
                for s, l in self.lval(b, st, fr):
                    out.append((s, self.member(s, self.resolve(s, l), n)))
            return out
        if k == 'idx':
            out = []
            for s, b in self.eval(n['b'], st, fr):
                for s2, i in self.eval(n['i'], s, fr):
                    if b[0] == 'obj':
                        base = b[1]
                    else:
                        self.c.on_deref(self, s2, b, n, fr)
                        base = self.deref(b)
                    if base[0] == 'e' and b[0] == 'addr':
                        base, i = base[1], padd(base[2], i)
                    self.c.on_index(self, s2, base, i, n, fr)
                    out.append((s2, ('e', base, i)))
            return out
        if k == 'un' and n['op'] == '*':
            out = []
            for s, v in self.eval(n['x'], st, fr):
                if v[0] == 'obj':
                    out.append((s, v[1]))
                    continue
                if n['x']['k'] != 'this':
                    self.c.on_deref(self, s, v, n, fr)
                l = self.deref(v)
                if l[0] == 'd' and not self.is_obj(n.get('t', '')):
                    self.c.on_index(self, s, l, ZERO, n, fr)
                    l = ('e', l, ZERO)
                elif l[0] == 'e':
                    self.c.on_index(self, s, l[1], l[2], n, fr)
                elif l[0] == 'H' and not self.is_obj(n.get('t', '')):
                    l = ('e', l, ZERO)
                out.append((s, l))
            return out
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            out = []
            for s, v in self.eval(n, st, fr):
                for s2, l in self.lval(n['x'], s, fr):
                    out.append((s2, l))
            return out
        if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            out = []
            for s, v in self.eval(n, st, fr):
                out += self.lval(n['x'], s, fr)
            return out
        if k == 'call':
            out = []
            for s, v in self.call(n, st, fr):
                if v is not None and v[0] == 'ref':
                    out.append((s, self.resolve(s, v[1])))
                elif v is not None and v[0] == 'obj':
                    out.append((s, v[1]))
                else:
                    l = ('tmp', fr.fid, n.get('l'), 'c', self.tmpid(n))
                    self.drop(s, l)
                    s.env[l] = v if v is not None else ('void',)
                    out.append((s, l))
            return out
        if k == 'cond':
            out = []
            for s, b in self.cond(n['c'], st, fr):
                out += self.lval(n['x'] if b else n['y'], s, fr)
            return out
        if k == 'cast':
            if n.get('imp') and n.get('ck') != 'base':
                pass
            else:
                return self.lval(n['e'], st, fr)
        out = []
        for s, v in self.eval(n, st, fr):
            if v[0] == 'obj':
                out.append((s, v[1]))
            else:
                l = ('tmp', fr.fid, n.get('l'), 'v', self.tmpid(n))
                self.drop(s, l)
                s.env[l] = v
                out.append((s, l))
        return out

    def find_local(self, st, n, fr):
        """A variable captured by a lambda lives in an enclosing frame."""
        f = fr
        while f is not None:
            l = ('L', f.fid, n['id'], n['n'])
            if l in st.env or any(has_prefix(k, l) for k in st.env):
                return self.resolve(st, l)
            f = f.parent if f.func and f.func.get('lambda') else None
        return ('L', fr.fid, n['id'], n['n'])

    def member(self, st, base, n):
        if base[0] == 'pair':
            if n['n'] == 'first':
                l = ('pk', base[1], base[2])
                st.env[l] = base[2]
                return l
            return ('e', base[1], base[2])
        return ('f', base, n['n'])

    # ------------------------------------------------------------- operators
    def binop(self, n, st, fr):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for s, b in self.cond(n, st, fr):
                out.append((s, TRUE if b else FALSE))
            return out
        if op == ',':
            out = []
            for s, _ in self.eval(n['x'], st, fr):
                out += self.eval(n['y'], s, fr)
            return out
        if op == '=':
            out = []
            for s, v in self.eval(n['y'], st, fr):
                for s2, l in self.lval(n['x'], s, fr):
                    if v[0] == 'obj':
                        self.write_obj(s2, l, v[1], n, fr)
                    else:
                        self.write(s2, l, v, n, fr)
                    out.append((s2, v))
            return out
        if op in ('+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='):
            out = []
            for s, v in self.eval(n['y'], st, fr):
                for s2, l in self.lval(n['x'], s, fr):
                    old = self.load(s2, self.resolve(s2, l), n.get('t'))
                    nv = self.arith(op[:-1], old, v, n.get('t', ''), s2)
                    self.write(s2, l, nv, n, fr)
                    out.append((s2, nv))
            return out
        out = []
        for s, (a, b) in self.evals([n['x'], n['y']], st, fr):
            if op in ('<', '>', '<=', '>=', '==', '!='):
                out.append((s, self.compare(s, op, a, b, n.get('xt', ''))))
            else:
                out.append((s, self.arith(op, a, b, n.get('t', ''), s)))
        return out

    def arith(self, op, a, b, t, st):
        if a[0] == 'obj' or b[0] == 'obj':
            return ('op', op, a, b)
        if is_ptr(t) or a[0] in ('addr', 'iter') or b[0] in ('addr', 'iter'):
            if op in ('+', '-') and not (a[0] in ('addr', 'iter') and b[0] in ('addr', 'iter')):
                p, o = (a, b)
                if b[0] in ('addr', 'iter') and op == '+':
                    p, o = b, a
                if op == '-':
                    o = psub(ZERO, o)
                if p[0] == 'iter':
                    return ('iter', p[1], padd(p[2], o))
                if p[0] == 'addr' and p[1][0] == 'e':
                    return ('addr', ('e', p[1][1], padd(p[1][2], o)))
                return ('addr', ('e', self.deref(p), o))
            if op == '-' and a[0] == b[0] == 'iter' and a[1] == b[1]:
                return psub(a[2], b[2])
            if op == '-' and a[0] == 'end' and b[0] == 'iter' and a[1] == b[1]:
                return psub(self.load(st, ('f', a[1], '#size')), b[2])
            return ('op', op, a, b)
        if op == '-' and a[0] == 'end' and b[0] == 'iter':
            return psub(self.load(st, ('f', a[1], '#size')), b[2])
        if op == '+':
            if a[0] == 's' or b[0] == 's' or 'basic_string' in t:
                return ('op', 'cat', a, b)
            return padd(a, b)
        if op == '-':
            return psub(a, b)
        if op == '*':
            return pmul(a, b)
        if op == '/' and b == ONE:
            return a
        if op == '/' and a[0] == 'i' and b[0] == 'i' and b[1] != 0 and strip_t(t) in INTS:
            return ('i', int(a[1] / b[1]))
        r = ('op', op, a, b)
        if strip_t(t) in UNS:
            self.nonneg.add(r)
        if op == '%' and strip_t(t) in UNS | INTS:
            self.nonneg.add(r)
            st.facts = st.facts | {('le', padd(psub(r, b), ONE))} if b[0] != 'i' or b[1] > 0 else st.facts
        if op == '/' and strip_t(t) in UNS:
            st.facts = st.facts | {('le', psub(r, a))}
        return r

    def unop(self, n, st, fr):
        op = n['op']
        if op == '&':
            return [(s, ('addr', self.resolve(s, l))) for s, l in self.lval(n['x'], st, fr)]
        if op == '*':
            return [(s, self.rvalue(s, l, n.get('t', ''), n, fr)) for s, l in self.lval(n, st, fr)]
        if op == '!':
            return [(s, ('i', 0 if b else 1)) for s, b in self.cond(n['x'], st, fr)]
        if op in ('++', '--'):
            out = []
            for s, l in self.lval(n['x'], st, fr):
                old = self.load(s, self.resolve(s, l), n.get('t'))
                nv = self.arith('+' if op == '++' else '-', old, ONE, n.get('t', ''), s)
                self.write(s, l, nv, n, fr)
                out.append((s, old if n.get('post') else nv))
            return out
        if op == '-':
            return [(s, psub(ZERO, v) if v[0] != 'f64' else ('f64', -v[1])) for s, v in self.eval(n['x'], st, fr)]
        if op in ('+', '__extension__'):
            return self.eval(n['x'], st, fr)
        return [(s, ('op', op, v)) for s, v in self.eval(n['x'], st, fr)]

    def new(self, n, st, fr):
        loc = ('H', (fr.fid, n.get('l'), self.tmpid(n)))
        out = []
        if n.get('arr'):
            for s, c in self.eval(n['n'], st, fr):
                self.drop(s, loc)
                s.env[loc] = ('undef', loc)
                s.env[('f', loc, '#alloc')] = c
                s.env[('f', loc, '#size')] = c
                self.c.on_new(self, s, loc, n, c, fr)
                out.append((s, ('addr', loc)))
            return out
        self.drop(st, loc)
        st.env[loc] = ('undef', loc)
        st.env[('f', loc, '#alloc')] = NULL
        self.c.on_new(self, st, loc, n, None, fr)
        if n.get('init') and self.is_obj(n['t']):
            return [(s, ('addr', loc)) for s in self.init_obj(n['init'], loc, n['t'], st, fr)]
        return [(st, ('addr', loc))]

    # ------------------------------------------------------------- construction
    def construct_scalar(self, n, st, fr):
        """Construct expressions of types kept as scalars (strings, pointers...)."""
        a = [x for x in n['a'] if not (x['k'] == 'construct' and 'allocator' in x.get('t', ''))]
        b = base_cls(strip_t(n['t']))
        if not a:
            v = {'std::basic_string': ('s', '')}.get(b, NULL)
            return [(st, v)]
        if len(a) == 1 or b in ('std::shared_ptr', 'std::unique_ptr', 'std::basic_string'):
            if b in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator') \
                    or b == 'std::basic_string' or b in ('std::shared_ptr', 'std::unique_ptr', 'std::function') or True:
                return [(s, v) for s, v in self.eval(a[0], st, fr)]
        out = []
        for s, vs in self.evals(a, st, fr):
            self.c.on_make(self, s, b, tuple(vs), n, fr)
            out.append((s, ('op', 'make:' + b) + tuple(vs)))
        return out

    def construct(self, n, st, fr, loc):
        """Run a constructor call on `loc`: [(state, None)]."""
        t = strip_t(n['t'])
        b = base_cls(t)
        c = n['c']
        if t in self.p.classes and c['cls'] in self.p.classes and b.startswith('xmm::'):
            args = self.bind_args(n['a'], c['pt'], st, fr)
            out = []
            for s, avs in args:
                out += self.run_ctor(c, loc, t, avs, s, fr, n)
            return out
        return self.std_construct(n, st, fr, loc, b)

    def run_ctor(self, c, loc, t, avs, st, fr, n):
        f = self.p.funcs.get(c['id'])
        r = self.c.on_call(self, st, n, c, loc, avs, fr)
        if r is not None:
            return r
        if f is None or f.get('body') is None and not f.get('inits'):
            if c.get('copy') or c.get('move'):
                src = avs[0][1]
                self.write_obj(st, loc, self.resolve(st, src), n, fr)
                return [(st, None)]
            # implicit default constructor without a body in the dump
            return [(s, None) for s in self.default_fields(t, loc, st, fr, n)]
        if not self.may_inline(f, fr):
            return self.opaque(n, c, loc, avs, st, fr)
        return [(s, None) for s, v in self.invoke(f, loc, t, avs, st, fr, n)]

    def default_fields(self, t, loc, st, fr, n):
        cur = [st]
        for cls, fd in self.p.fields(t):
            nxt = []
            for s in cur:
                fl = ('f', loc, fd['n'])
                if fd.get('init'):
                    nxt += self.init_field(fd['init'], fl, fd['t'], s, fr)
                else:
                    s.env[fl] = ('undef', fl)
                    nxt.append(s)
            cur = nxt
        return cur

    def init_field(self, e, fl, t, st, fr):
        if is_ref(t):
            out = []
            for s, l in self.lval(e, st, fr):
                s.env[fl] = ('ref', self.resolve(s, l))
                out.append(s)
            return out
        if self.is_obj(t):
            if e['k'] in ('construct', 'ilist') or self.is_obj(e.get('t', '')):
                out = []
                if e['k'] == 'construct':
                    return [s for s, _ in self.construct(e, st, fr, fl)]
                for s in self.init_obj(e, fl, t, st, fr):
                    out.append(s)
                return out
        out = []
        for s, v in self.eval(e, st, fr):
            if v[0] == 'obj':
                self.write_obj(s, fl, v[1], e, fr)
            else:
                self.write(s, fl, v, e, fr)
            out.append(s)
        return out

    def std_construct(self, n, st, fr, loc, b):
        a = [x for x in n['a'] if not (x['k'] == 'construct' and 'allocator' in x.get('t', ''))]
        c = n['c']
        if c.get('copy') or c.get('move') and a:
            out = []
            for s, l in self.lval(a[0], st, fr):
                self.write_obj(s, loc, l, n, fr)
                out.append((s, None))
            return out
        if b in ('std::vector',):
            if not a:
                self.store(st, loc, ('vec', ZERO, None))
                return [(st, None)]
            pt0 = c['pt'][0] if c['pt'] else ''
            if 'initializer_list' in pt0:
                if a[0]['k'] == 'ilist':
                    return [(s, None) for s in self.init_list(a[0], loc, st, fr)]
                out = []
                for s, v in self.eval(a[0], st, fr):
                    if v[0] == 'obj':
                        self.copy_obj(s, loc, v[1])
                    else:
                        self.havoc(s, loc, ('il', fr.fid, n.get('l')))
                    out.append((s, None))
                return out
            out = []
            for s, vs in self.evals(a, st, fr):
                if vs[0][0] in ('iter', 'end', 'addr') or 'iterator' in pt0 or is_ptr(pt0):
                    self.store(s, loc, ('u', 'range', fr.fid, n.get('l')))
                    sz = self.range_len(s, vs[0], vs[1]) if len(vs) > 1 else None
                    if sz is not None:
                        s.env[('f', loc, '#size')] = sz
                    src = vs[0][1] if vs[0][0] == 'iter' else None
                    if src is not None and sz is not None:
                        s.env[('f', loc, '#from')] = vs[0]
                    self.c.on_write(self, s, loc, ('range', vs[0], vs[1] if len(vs) > 1 else None), n, fr)
                elif len(vs) == 1:
                    fill = ZERO
                    et = self.elem_type(n['t'])
                    if self.is_obj(et):
                        fill = ('vec', ZERO, None) if base_cls(et) == 'std::vector' else ('u', 'default', et)
                    self.store(s, loc, ('vec', vs[0], fill))
                else:
                    fill = vs[1]
                    if fill[0] == 'obj':
                        fill = self.load(s, fill[1])
                    self.store(s, loc, ('vec', vs[0], fill))
                out.append((s, None))
            return out
        if not a:
            self.store(st, loc, ('vec', ZERO, None) if b in ('std::map', 'std::set', 'std::deque', 'std::list')
                       else ('op', 'default:' + b))
            if b in ('std::map', 'std::set'):
                self.clear_has(st, loc)
            return [(st, None)]
        if b == 'std::pair':
            out = []
            for s, vs in self.evals(a, st, fr):
                self.store(s, loc, ('op', 'pair'))
                for nm, v in zip(('first', 'second'), vs):
                    l = ('f', loc, nm)
                    if v[0] == 'obj':
                        self.copy_obj(s, l, v[1])
                    else:
                        s.env[l] = v
                out.append((s, None))
            return out
        if b == 'Json::Value':
            out = []
            for s, vs in self.evals(a, st, fr):
                v = vs[0]
                if v[0] == 'obj':
                    self.copy_obj(s, loc, v[1])
                else:
                    self.store(s, loc, v)
                out.append((s, None))
            return out
        out = []
        for s, vs in self.evals(a, st, fr):
            self.c.on_make(self, s, b, tuple(vs), n, fr)
            self.store(s, loc, ('op', 'make:' + b) + tuple(vs))
            out.append((s, None))
        return out

    def clear_has(self, st, loc):
        def about(f):
            return f[0] == 'b' and f[1][0] == 'op' and f[1][1] == 'has' and f[1][2] == loc
        st.facts = frozenset(f for f in st.facts if not about(f))

    def elem_type(self, t):
        t = strip_t(t)
        i = t.find('<')
        if i < 0:
            return ''
        depth = 0
        for j in range(i + 1, len(t)):
            ch = t[j]
            if ch == '<':
                depth += 1
            elif ch == '>':
                if depth == 0:
                    return t[i + 1:j].strip()
                depth -= 1
            elif ch == ',' and depth == 0:
                return t[i + 1:j].strip()
        return ''

    def range_len(self, st, a, b):
        if b[0] == 'end' and a[0] == 'iter':
            return psub(self.load(st, ('f', a[1], '#size')), a[2])
        if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
            return psub(b[2], a[2])
        pa, pb = self.ptr_parts(a), self.ptr_parts(b)
        if pa and pb and pa[0] == pb[0]:
            return psub(pb[1], pa[1])
        return None

    def ptr_parts(self, v):
        if v[0] == 'addr' and v[1][0] == 'e':
            return v[1][1], v[1][2]
        if v[0] == 'iter':
            return v[1], v[2]
        if v[0] == 'addr':
            return v[1], ZERO
        if v[0] in ('in', 'u', 'lv', 'prj', 'undef', 'op'):
            return ('d', v), ZERO
        return None

    # ------------------------------------------------------------- calls
    def bind_args(self, nodes, pts, st, fr):
        """Evaluate arguments: [(state, [('val', v) | ('loc', l)])]"""
        cur = [(st, [])]
        for i, n in enumerate(nodes):
            pt = pts[i] if i < len(pts) else ''
            nxt = []
            for s, vs in cur:
                if is_ref(pt):
                    for s2, l in self.lval(n, s, fr):
                        nxt.append((s2, vs + [('loc', self.resolve(s2, l))]))
                else:
                    for s2, v in self.eval(n, s, fr):
                        nxt.append((s2, vs + [('val', v)]))
            cur = nxt
        return cur

    def may_inline(self, f, fr):
        if f.get('body') is None and not f.get('inits'):
            return False
        if fr.depth >= self.c.max_depth:
            return False
        if fr.stack.count(f['id']) >= 1 + self.c.recursion:
            return False
        return self.c.inline(f, fr.depth)

    def site(self, n, fr, f):
        return fr.fid + ((n.get('l'), self.tmpid(n)),)

    def invoke(self, f, this, cls, avs, st, fr, n):
        """Analyse a repository function in context: [(state, value)]"""
        self.stats['inlined'] += 1
        fid = self.site(n, fr, f)
        nf = Frame(fid, this, cls, f, fr.depth + 1, fr)
        self.c.on_enter(self, st, f, this, avs, nf)
        for i, p in enumerate(f['params']):
            l = ('L', fid, p['id'], p['n'])
            self.drop(st, l)
            if i >= len(avs):
                continue
            kind, v = avs[i]
            if kind == 'loc':
                st.env[l] = ('ref', v)
            elif v[0] == 'obj':
                self.copy_obj(st, l, v[1])
                if l not in st.env:
                    st.env[l] = self.load(st, v[1])
            else:
                st.env[l] = v
        self.throws.append([])
        res = self.run_body(f, nf, st)
        th = self.throws.pop()
        if th:
            self.throws[-1].extend(self.merge_throws(th, fid, f, nf))
        out = []
        for s, v in res:
            if v is not None and v[0] == 'obj':
                root = v[1]
                while loc_parent(root) is not None:
                    root = loc_parent(root)
                if root[0] in ('L', 'tmp') and root[1] == fid or not is_ref(f['rt']):
                    tl = ('tmp', fr.fid, n.get('l'), 'ret', self.tmpid(n))
                    self.drop(s, tl)
                    self.copy_obj(s, tl, v[1])
                    v = ('obj', tl)
            self.c.on_leave(self, s, f, this, v, nf)
            self.drop_frame(s, fid)
            out.append((s, v))
        return self.merge_rets(out, n)

    THROW_CAP = 4

    def merge_throws(self, th, fid, f, nf):
        groups = {}
        for s, t, info in th:
            self.c.on_unwind(self, s, f, nf)
            self.drop_frame(s, fid)
            g = groups.setdefault((t, info[1:], frozenset(s.tr.items())), {})
            g.setdefault(s.key(), (s, t, info))
        out = []
        for (t, _, _), g in groups.items():
            ss = list(g.values())
            if len(ss) > self.THROW_CAP:
                ss = [(self.join([x[0] for x in ss], ('thr', fid[-1])), t, ss[0][2])]
            out += ss
        return out

    def merge_rets(self, out, n):
        if len(out) <= 1:
            return out
        seen = {}
        for s, v in out:
            seen.setdefault((s.key(), v), (s, v))
        out = list(seen.values())
        if len(out) > self.CAP:
            g = {}
            for s, v in out:
                g.setdefault(v, []).append(s)
            r = []
            for v, ss in g.items():
                for s in self.merge(ss, ('ret', n.get('l'))):
                    r.append((s, v))
            if len(r) > self.CAP:
                # join return values too
                byt = {}
                for s, v in r:
                    byt.setdefault(frozenset(s.tr.items()), []).append((s, v))
                r = []
                for lst in byt.values():
                    for s, v in lst:
                        s.env[('retv',)] = v if v is not None else ('void',)
                    j = self.join([s for s, _ in lst], ('ret', n.get('l')))
                    v = j.env.pop(('retv',))
                    r.append((j, None if v == ('void',) else v))
            out = r
        return out

    def drop_frame(self, st, fid):
        for k in list(st.env):
            root = k
            while loc_parent(root) is not None:
                root = loc_parent(root)
            if root[0] in ('L', 'tmp') and root[1] == fid:
                del st.env[k]

    def run_body(self, f, nf, st):
        cur = [st]
        if f.get('ctor'):
            cur = self.run_inits(f, nf, cur)
        out = []
        for s in cur:
            r = self.exec(f['body'], s, nf) if f.get('body') else {'n': [s], 'ret': []}
            out += [(x, None) for x in r['n']]
            out += r['ret']
        return out

    def run_inits(self, f, nf, cur):
        done = set()
        for io in f.get('inits', []):
            nxt = []
            for s in cur:
                if 'base' in io:
                    e = io['e']
                    bt = strip_t(io['base'])
                    if e and e['k'] == 'construct' and bt in self.p.classes:
                        args = self.bind_args(e['a'], e['c']['pt'], s, nf)
                        for s2, avs in args:
                            nxt += [x for x, _ in self.run_base_ctor(e, bt, avs, s2, nf)]
                    else:
                        nxt.append(s)
                elif 'deleg' in io:
                    e = io['e']
                    for s2, avs in self.bind_args(e['a'], e['c']['pt'], s, nf):
                        g = self.p.funcs.get(e['c']['id'])
                        nxt += [x for x, _ in self.invoke(g, nf.this, nf.cls, avs, s2, nf, e)]
                    done.add('*')
                else:
                    fl = ('f', nf.this, io['mem'])
                    fd = self.p.field(f['cls'], io['mem'])
                    t = fd['t'] if fd else (io['e'] or {}).get('t', '')
                    if io['e'] is None:
                        nxt.append(s)
                        continue
                    nxt += self.init_field(io['e'], fl, t, s, nf)
                    done.add(io['mem'])
            cur = nxt
        if '*' not in done:
            for fd in self.p.classes.get(f['cls'], {}).get('fields', []):
                if fd['n'] not in done:
                    for s in cur:
                        fl = ('f', nf.this, fd['n'])
                        if not self.is_obj(fd['t']):
                            self.drop(s, fl)
                            s.env[fl] = ('undef', fl)
        return cur

    def run_base_ctor(self, e, bt, avs, st, nf):
        c = e['c']
        f = self.p.funcs.get(c['id'])
        if f is None or (f.get('body') is None and not f.get('inits')):
            if c.get('copy') or c.get('move'):
                src = avs[0][1]
                for cls, fd in self.p.fields(bt):
                    a, b = ('f', nf.this, fd['n']), ('f', src, fd['n'])
                    if self.is_obj(fd['t']):
                        self.write_obj(st, a, b, e, nf)
                    else:
                        self.write(st, a, self.load(st, self.resolve(st, b), fd['t']), e, nf)
                return [(st, None)]
            return [(s, None) for s in self.default_fields(bt, nf.this, st, nf, e)]
        if not self.may_inline(f, nf):
            return [(st, None)]
        return [(s, None) for s, _ in self.invoke(f, nf.this, nf.cls, avs, st, nf, e)]

    def opaque(self, n, c, obj, avs, st, fr):
        self.c.on_opaque(self, st, c, obj, avs, n, fr)
        if self.c.may_throw(self, st, c, n, fr):
            self.throw(st.clone(), '?', n, fr)
        if c is not None and c.get('noreturn'):
            return []
        key = (fr.fid, n.get('l'), self.tmpid(n))
        if obj is not None and not (c and c.get('const')):
            self.havoc(st, obj, key)
        for i, (kind, v) in enumerate(avs):
            pt = c['pt'][i] if c and i < len(c['pt']) else ''
            if kind == 'loc' and not pt.startswith('const '):
                self.havoc(st, v, key)
            elif kind == 'val' and v[0] == 'addr' and not pt.startswith('const '):
                self.havoc(st, v[1], key)
        rt = c['rt'] if c else n.get('t', '')
        if strip_t(rt) == 'void':
            return [(st, None)]
        sym = self.fresh(st, ('ret', key))
        self.note_type(sym, rt)
        if self.is_obj(rt):
            l = ('tmp', fr.fid, n.get('l'), 'o', self.tmpid(n))
            self.drop(st, l)
            st.env[l] = sym
            return [(st, ('ref', l) if is_ref(rt) else ('obj', l))]
        if is_ref(rt):
            return [(st, ('ref', ('d', sym)))]
        return [(st, sym)]

    def call(self, n, st, fr):
        """[(state, value or ('ref', loc) or None)]"""
        self.stats['calls'] += 1
        c = n.get('c')
        if c is None:
            return self.indirect(n, st, fr)
        # ------------------------------ object
        objs = [(st, None)]
        if n.get('o') is not None:
            objs = []
            o = n['o']
            if n.get('arrow') and o['k'] != 'this':
                for s, v in self.eval(o, st, fr):
                    if v[0] == 'obj':
                        objs.append((s, v[1]))
                    else:
                        if not (o['k'] == 'call' and o.get('op') == '->'):
                            self.c.on_deref(self, s, v, n, fr)
                        objs.append((s, self.deref(v)))
            elif o['k'] == 'this':
                objs = [(st, fr.this)]
            else:
                objs = [(s, self.resolve(s, l)) for s, l in self.lval(o, st, fr)]
        out = []
        for s, ol in objs:
            out += self.call1(n, c, ol, s, fr)
        return out

    def call1(self, n, c, ol, st, fr):
        q = c['q']
        b = base_cls(c.get('cls', '') or '')
        special = self.std_pre(n, c, ol, b, st, fr)
        if special is not None:
            return special
        out = []
        for s, avs in self.bind_args(n.get('a', []), c['pt'], st, fr):
            r = self.c.on_call(self, s, n, c, ol, avs, fr)
            if r is not None:
                out += r
                continue
            if c['n'] == 'operator()' and (c.get('cls') or '').startswith('(lambda'):
                fv = self.load(s, ol) if ol is not None else ('u',)
                if fv[0] == 'lam' and fr.depth < self.c.max_depth:
                    out += self.call_lambda(fv, avs, s, fr, n)
                    continue
                if fr.this is not None:
                    self.havoc(s, fr.this, ('lamcall', fr.fid, n.get('l')))
            if q.startswith('xmm::') or c['id'] in self.p.funcs and not self.p.funcs[c['id']].get('ext'):
                out += self.repo_call(n, c, ol, avs, s, fr)
            else:
                r = self.std_call(n, c, ol, b, avs, s, fr)
                if r is None:
                    self.unmodelled[c['q'].split('<')[0] + '::' + c['n']] = \
                        self.unmodelled.get(c['q'].split('<')[0] + '::' + c['n'], 0) + 1
                    r = self.opaque(n, c, ol, avs, s, fr)
                out += r
        return out

    def dynamic_class(self, ol, static):
        if ol in self.dyn:
            return self.dyn[ol]
        return static

    def repo_call(self, n, c, ol, avs, st, fr):
        f = self.p.funcs.get(c['id'])
        cls = c.get('cls')
        if c.get('ctor'):
            return self.run_ctor(c, ol, cls, avs, st, fr, n)
        if ol is not None:
            static = cls
            if ol == fr.this:
                cls = fr.cls if self.related(fr.cls, cls) else cls
            else:
                cls = self.dynamic_class(ol, cls)
            if c.get('virt') and not n.get('qualified'):
                tgt = self.p.resolve_virtual(c['id'], cls)
                if tgt is not None:
                    f = tgt
        if f is None or f.get('pure') or f.get('body') is None:
            if c.get('copyassign') or c.get('moveassign'):
                return self.member_assign(n, c, ol, avs, st, fr)
            return self.opaque(n, c, ol, avs, st, fr)
        if (c.get('copyassign') or c.get('moveassign')) and f.get('defaulted'):
            return self.member_assign(n, c, ol, avs, st, fr)
        if not self.may_inline(f, fr):
            return self.opaque(n, c, ol, avs, st, fr)
        # default arguments were materialised by the front end
        return self.invoke(f, ol, cls, avs, st, fr, n)

    def related(self, dyn, static):
        return static in self.p.bases(dyn) or dyn in self.p.bases(static)

    def member_assign(self, n, c, ol, avs, st, fr):
        """Compiler-generated assignment: memberwise."""
        src = avs[0][1]
        self.write_obj(st, ol, src, n, fr)
        return [(st, ('ref', ol))]

    def indirect(self, n, st, fr):
        if n.get('pm') is not None:
            self.unmodelled['pointer-to-member call'] = 1
            return [(st, self.fresh(st, ('pm', fr.fid, n.get('l'))))]
        out = []
        fe = n.get('fe')
        for s, fv in self.eval(fe, st, fr):
            for s2, vs in self.evals(n.get('a', []), s, fr):
                out += self.apply(fv, [('val', v) for v in vs], s2, fr, n)
        return out

    def apply(self, fv, avs, st, fr, n):
        """Call a function value."""
        if fv[0] == 'lam':
            return self.call_lambda(fv, avs, st, fr, n)
        if fv[0] == 'bind':
            f = self.p.funcs.get(fv[1])
            if f is not None:
                this = self.deref(fv[2])
                args = []
                for i, a in enumerate(avs):
                    args.append(a)
                cls = f.get('cls')
                if self.may_inline(f, fr):
                    for i, p in enumerate(f['params']):
                        if i < len(args) and is_ref(p['t']) and args[i][0] == 'val':
                            if args[i][1][0] == 'obj':
                                args[i] = ('loc', args[i][1][1])
                    return self.invoke(f, this, cls, args, st, fr, n)
                return self.opaque(n, dict(f), this, args, st, fr)
        if fv[0] == 'fn':
            f = self.p.funcs.get(fv[1])
            if f is not None and self.may_inline(f, fr):
                return self.invoke(f, None, f.get('cls'), avs, st, fr, n)
        self.c.on_opaque(self, st, None, None, avs, n, fr)
        return [(st, self.fresh(st, ('fv', fr.fid, n.get('l'))))]

    def call_lambda(self, fv, avs, st, fr, n):
        node = Interp._lams[fv[1]]
        func = {'id': 'lambda%d' % fv[1], 'rt': '', 'params': node['params'], 'body': node['body'], 'lambda': True,
                'file': fr.func['file'] if fr.func else '', 'q': 'lambda', 'n': 'lambda'}
        fid = fr.fid + (('lam', node.get('l'), self.tmpid(node)),)
        # captured variables resolve through the defining frame
        par = fr
        while par is not None and par.fid != fv[2]:
            par = par.parent
        nf = Frame(fid, fv[3], fr.cls, func, fr.depth + 1, par or fr)
        for i, p in enumerate(node['params']):
            l = ('L', fid, p['id'], p['n'])
            self.drop(st, l)
            if i < len(avs):
                kind, v = avs[i]
                if kind == 'loc':
                    if is_ref(p['t']):
                        st.env[l] = ('ref', v)
                    elif self.is_obj(p['t']):
                        self.copy_obj(st, l, v)
                    else:
                        st.env[l] = self.load(st, v, p['t'])
                elif v[0] == 'obj':
                    st.env[l] = ('ref', v[1])
                else:
                    st.env[l] = v
        r = self.exec(node['body'], st, nf)
        out = [(s, None) for s in r['n']] + list(r['ret'])
        for s, v in out:
            self.drop_frame(s, fid)
        return out

    # ------------------------------------------------------------- std models
    MATH = {'log', 'exp', 'sqrt', 'sqrtf', 'pow', 'fabs', 'abs', 'isnan', 'isinf', 'isfinite', 'floor', 'ceil', 'round',
            'cos', 'sin', 'atan', 'atan2', 'tan', 'fabsf', 'fmin', 'fmax', 'log10', 'isnormal', '__isnan', '__isinf'}

    def std_pre(self, n, c, ol, b, st, fr):
        """Models that need unevaluated arguments (assignment, std::bind...)."""
        nm = c['n']
        if b in ('std::vector', 'std::map', 'std::set', 'std::deque', 'std::list', 'Json::Value', 'std::pair') \
                and nm == 'operator=':
            out = []
            for s, v in self.eval(n['a'][0], st, fr):
                r = self.c.on_call(self, s, n, c, ol, [('val', v)], fr)
                if r is not None:
                    out += r
                    continue
                if v[0] == 'obj':
                    self.write_obj(s, ol, v[1], n, fr)
                    self.copy_has(s, ol, v[1])
                else:
                    self.write(s, ol, v, n, fr)
                out.append((s, ('ref', ol)))
            return out
        if b in SCALAR_STD and nm == 'operator=':
            out = []
            for s, v in self.eval(n['a'][0], st, fr):
                if v[0] == 'obj':
                    v = self.load(s, v[1])
                r = self.c.on_call(self, s, n, c, ol, [('val', v)], fr)
                if r is not None:
                    out += r
                    continue
                self.write(s, ol, v, n, fr)
                out.append((s, ('ref', ol)))
            return out
        if c['q'] == 'std::bind':
            out = []
            for s, vs in self.evals(n['a'], st, fr):
                if vs and vs[0][0] == 'fn':
                    fn = vs[0][1]
                    f = self.p.funcs.get(fn)
                    if f is not None and f.get('virt') and len(vs) > 1:
                        pass
                    out.append((s, ('bind', fn, vs[1] if len(vs) > 1 else NULL)))
                else:
                    out.append((s, ('bind', vs[0] if vs else NULL, vs[1] if len(vs) > 1 else NULL)))
            return out
        if c['q'] in ('std::move', 'std::forward', 'std::ref', 'std::cref'):
            return [(s, ('ref', l)) for s, l in self.lval(n['a'][0], st, fr)]
        return None

    def copy_has(self, st, dst, src):
        add = set()
        keep = set()
        for f in st.facts:
            if f[0] == 'b' and f[1][0] == 'op' and f[1][1] == 'has':
                if f[1][2] == dst:
                    continue
                if f[1][2] == src:
                    add.add(('b', ('op', 'has', dst, f[1][3]), f[2]))
            keep.add(f)
        st.facts = frozenset(keep | add)

    def aval(self, st, a, t=''):
        kind, v = a
        if kind == 'loc':
            return self.load(st, self.resolve(st, v), t)
        if v[0] == 'obj':
            return self.load(st, v[1])
        return v

    def std_call(self, n, c, ol, b, avs, st, fr):
        nm = c['n']
        V = [self.aval(st, a, c['pt'][i] if i < len(c['pt']) else '') for i, a in enumerate(avs)]
        one = lambda v: [(st, v)]
        if b in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex'):
            if nm in ('lock', 'unlock', 'try_lock'):
                self.c.on_lock(self, st, ol, nm, n, fr)
                return one(None if nm != 'try_lock' else self.fresh(st, ('try', fr.fid, n.get('l'))))
        if b in ('std::atomic', 'std::__atomic_base'):
            cur = self.load(st, ol, 'bool' if 'bool' in (c.get('cls') or '') or 'bool' in c['rt'] else None)
            if nm == 'load' or nm.startswith('operator') and nm not in ('operator=', 'operator++', 'operator--',
                                                                       'operator+=', 'operator-='):
                return one(cur)
            if nm == 'store':
                self.write(st, ol, V[0], n, fr)
                return one(None)
            if nm == 'exchange':
                self.write(st, ol, V[0], n, fr)
                return one(cur)
            if nm.startswith('compare_exchange'):
                out = []
                exp = self.load(st, avs[0][1])
                for s, ok in self.split(st, ('cmp', 'eq', psub(cur, exp))):
                    if ok:
                        self.write(s, ol, V[1], n, fr)
                    else:
                        self.store(s, avs[0][1], cur)
                    out.append((s, TRUE if ok else FALSE))
                return out
        if b == 'std::thread':
            if nm in ('join', 'detach', 'joinable', 'get_id', 'swap'):
                if nm in ('join', 'detach'):
                    return one(None)
                return one(self.fresh(st, ('thr', fr.fid, n.get('l'))))
            if nm == 'operator=':
                self.store(st, ol, self.fresh(st, ('thr', fr.fid, n.get('l'))))
                return one(('ref', ol))
        if b in ('std::unique_lock', 'std::lock_guard'):
            m = st.env.get(('f', ol, '#mutex'))
            if m and nm in ('lock', 'unlock'):
                self.c.on_lock(self, st, m[1], nm, n, fr)
                st.env[('f', ol, '#owns')] = TRUE if nm == 'lock' else FALSE
                return one(None)
            if m and nm in ('owns_lock', 'operator bool'):
                return one(st.env.get(('f', ol, '#owns'), TRUE))
        if b == 'std::vector':
            return self.vector_call(n, c, ol, nm, avs, V, st, fr)
        if b in ('std::map', 'std::set', 'std::unordered_map'):
            return self.map_call(n, c, ol, nm, avs, V, st, fr, b)
        if b == 'std::array':
            if nm in ('operator[]', 'at'):
                self.c.on_index(self, st, ol, V[0], n, fr)
                return one(('ref', ('e', ol, V[0])))
            if nm in ('begin', 'cbegin'):
                return one(('iter', ol, ZERO))
            if nm in ('end', 'cend'):
                return one(('end', ol))
            if nm == 'size':
                return one(self.load(st, ('f', ol, '#size')))
            if nm == 'fill':
                self.store(st, ol, ('vec', self.load(st, ('f', ol, '#size')), V[0]))
                return one(None)
        if b in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr'):
            v = self.load(st, ol)
            if nm in ('operator->', 'get'):
                if nm == 'operator->':
                    self.c.on_deref(self, st, v, n, fr)
                return one(v)
            if nm == 'operator*':
                self.c.on_deref(self, st, v, n, fr)
                return one(('ref', self.deref(v)))
            if nm == 'operator bool':
                return one(v)
            if nm == 'reset':
                self.write(st, ol, V[0] if V else NULL, n, fr)
                return one(None)
            if nm == 'operator[]':
                self.c.on_index(self, st, self.deref(v), V[0], n, fr)
                return one(('ref', ('e', self.deref(v), V[0])))
            if nm == 'use_count':
                return None
        if b in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator',
                 'std::reverse_iterator'):
            return self.iter_call(n, c, ol, nm, avs, V, st, fr)
        if b == 'std::function':
            v = self.load(st, ol)
            if nm == 'operator bool':
                return one(v)
            if nm == 'operator()':
                r = self.c.callback(self, st, v, ol, avs, n, fr)
                if r is not None:
                    return r
                if v[0] in ('bind', 'lam', 'fn'):
                    return self.apply(v, avs, st, fr, n)
                self.c.on_opaque(self, st, c, ol, avs, n, fr)
                if self.c.may_throw(self, st, c, n, fr):
                    self.throw(st.clone(), '?', n, fr)
                return one(self.fresh(st, ('cb', fr.fid, n.get('l'))))
        if b == 'std::basic_string':
            if nm in ('size', 'length'):
                v = self.load(st, ol)
                t = ('op', 'strlen', v)
                self.nonneg.add(t)
                return one(t)
            if nm == 'empty':
                v = self.load(st, ol)
                return one(self.compare(st, '==', v, ('s', ''), 'basic_string'))
            if nm == 'c_str':
                return one(self.load(st, ol))
            if nm == 'operator+=':
                self.write(st, ol, ('op', 'cat', self.load(st, ol), V[0]), n, fr)
                return one(('ref', ol))
            if nm == 'clear':
                self.write(st, ol, ('s', ''), n, fr)
                return one(None)
            if nm == 'compare':
                return one(('op', 'strcmp', self.load(st, ol), V[0]))
        if b == 'Json::Value':
            return self.json_call(n, c, ol, nm, avs, V, st, fr)
        if b == 'std::pair' and nm == 'operator=':
            return None
        q = c['q']
        if q in ('std::operator==', 'std::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!=',
                 'std::operator<', 'std::operator>', '__gnu_cxx::operator<') or nm in ('operator==', 'operator!=') and \
                ol is None and len(V) == 2:
            return one(self.compare(st, nm[len('operator'):], V[0], V[1],
                                    'basic_string' if 'basic_string' in ''.join(c['pt']) else ''))
        if nm in ('operator==', 'operator!=') and len(V) == 1 and ol is not None:
            return one(self.compare(st, nm[8:], self.load(st, ol), V[0], ''))
        if nm in ('operator-',) and len(V) == 2:
            return one(self.arith('-', V[0], V[1], '', st))
        if nm in self.MATH:
            x = tuple(v for v in V)
            if nm in ('isnan', '__isnan'):
                return one(('op', 'isnan') + x)
            if nm in ('isinf', '__isinf'):
                return one(('op', 'isinf') + x)
            if all(v[0] == 'i' for v in V) and nm in ('fabs', 'abs'):
                return one(('i', abs(V[0][1])))
            if nm == 'pow' and V[1][0] == 'i' and isinstance(V[1][1], int) and 0 <= V[1][1] <= 3:
                r = ONE
                for _ in range(V[1][1]):
                    r = pmul(r, V[0])
                return one(r)
            return one(('op', nm) + x)
        if q in ('std::min', 'std::max') and len(V) == 2:
            k = nm
            a, bb = V
            if a[0] == 'i' and bb[0] == 'i':
                return one(('i', min(a[1], bb[1]) if k == 'min' else max(a[1], bb[1])))
            x, y = sorted((a, bb), key=repr)
            r = ('op', k, x, y)
            isint = not any(strip_t(t) in FLOATS for t in c['pt'])
            if isint:
                for z in (x, y):
                    st.facts = st.facts | {('le', psub(r, z) if k == 'min' else psub(z, r))}
                if k == 'min' and all(z[0] == 'i' and z[1] >= 0 or self.is_nonneg(z) for z in (x, y)):
                    self.nonneg.add(r)
                if k == 'max' and any(z[0] == 'i' and z[1] >= 0 or self.is_nonneg(z) for z in (x, y)):
                    self.nonneg.add(r)
            return one(r)
        if q in ('std::numeric_limits::max', 'std::numeric_limits::lowest', 'std::numeric_limits::min',
                 'std::numeric_limits::epsilon', 'std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN') \
                or c.get('cls', '').startswith('std::numeric_limits'):
            rt = strip_t(c.get('rt', ''))
            if rt in self.p.enums:
                return one(ZERO)        # primary numeric_limits template: T()
            return one(('op', 'lim:' + nm + ':' + rt))
        if q == 'std::to_string' or nm == 'operator+' and 'basic_string' in c.get('rt', ''):
            return one(('op', 'cat') + tuple(V))
        if q in ('std::swap',):
            l1, l2 = self.resolve(st, avs[0][1]), self.resolve(st, avs[1][1])
            t = ('tmp', fr.fid, n.get('l'), 'sw', 0)
            self.copy_obj(st, t, l1)
            self.write_obj(st, l1, l2, n, fr)
            self.write_obj(st, l2, t, n, fr)
            return one(None)
        if q in ('std::copy', 'std::copy_n', 'std::copy_backward', 'memcpy', 'std::memcpy', 'std::fill', 'std::fill_n',
                 'std::transform', 'std::for_each', 'std::accumulate', 'std::find_if', 'std::any_of', 'std::all_of',
                 'std::none_of', 'std::count_if', 'std::max_element', 'std::min_element', 'std::find', 'memset',
                 'std::memset', 'std::distance', 'std::next', 'std::prev', 'std::inner_product', 'std::iota', 'std::advance'):
            return self.algo(n, c, q, avs, V, st, fr)
        if q in ('std::make_shared', 'std::make_unique'):
            return self.make_shared(n, c, avs, V, st, fr)
        if q in ('std::make_pair',):
            loc = ('tmp', fr.fid, n.get('l'), 'pair', self.tmpid(n))
            self.drop(st, loc)
            st.env[loc] = ('op', 'pair')
            for nme, a in zip(('first', 'second'), avs):
                l = ('f', loc, nme)
                if a[0] == 'loc':
                    self.copy_obj(st, l, self.resolve(st, a[1]))
                    if l not in st.env:
                        st.env[l] = self.load(st, self.resolve(st, a[1]))
                else:
                    st.env[l] = a[1]
            return one(('obj', loc))
        if q in ('rand', 'time', 'clock', 'srand'):
            return one(self.fresh(st, ('rand', fr.fid, n.get('l'))))
        return None

    def vector_call(self, n, c, ol, nm, avs, V, st, fr):
        one = lambda v: [(st, v)]
        size = lambda: self.load(st, ('f', ol, '#size'))
        if nm == 'size':
            return one(size())
        if nm == 'empty':
            return one(('cmp', 'eq', size()))
        if nm in ('operator[]', 'at'):
            if nm == 'at':
                t = ('cmp', 'le', padd(psub(V[0], size()), ONE))
                out = []
                for s, b in self.split(st, t):
                    if b:
                        out.append((s, ('ref', ('e', ol, V[0]))))
                    else:
                        self.throw(s, 'std::out_of_range', n, fr)
                return out
            self.c.on_index(self, st, ol, V[0], n, fr)
            return one(('ref', ('e', ol, V[0])))
        if nm == 'front':
            self.c.on_index(self, st, ol, ZERO, n, fr)
            return one(('ref', ('e', ol, ZERO)))
        if nm == 'back':
            i = psub(size(), ONE)
            self.c.on_index(self, st, ol, i, n, fr)
            return one(('ref', ('e', ol, i)))
        if nm in ('begin', 'cbegin'):
            return one(('iter', ol, ZERO))
        if nm in ('end', 'cend'):
            return one(('end', ol))
        if nm == 'data':
            return one(('addr', ('e', ol, ZERO)))
        if nm == 'clear':
            self.c.on_write(self, st, ol, ('vec', ZERO, None), n, fr)
            self.store(st, ol, ('vec', ZERO, None))
            return one(None)
        if nm in ('resize', 'assign'):
            if nm == 'assign' and (not V or V[0][0] in ('iter', 'end') or is_ptr(c['pt'][0]) or 'iterator' in c['pt'][0]):
                self.c.on_write(self, st, ol, ('range',) + tuple(V), n, fr)
                sz = self.range_len(st, V[0], V[1]) if len(V) > 1 else None
                self.store(st, ol, ('u', 'assign', fr.fid, n.get('l')))
                if sz is not None:
                    st.env[('f', ol, '#size')] = sz
                return one(None)
            if nm == 'assign':
                self.c.on_write(self, st, ol, ('vec', V[0], V[1]), n, fr)
                self.store(st, ol, ('vec', V[0], V[1]))
                return one(None)
            # resize keeps the old prefix
            self.c.on_write(self, st, ol, ('resize', V[0], V[1] if len(V) > 1 else None), n, fr)
            old = self.load(st, ol)
            if V[0] == ZERO:
                self.store(st, ol, ('vec', ZERO, None))
            elif old[0] == 'vec' and old[1] == ZERO or old[0] == 'op' and old[1].startswith('default'):
                fill = V[1] if len(V) > 1 else None
                if fill is None:
                    et = self.elem_type(c.get('cls', ''))
                    fill = ZERO if not self.is_obj(et) else (
                        ('vec', ZERO, None) if base_cls(et) == 'std::vector' else ('u', 'default', et))
                self.store(st, ol, ('vec', V[0], fill))
            else:
                for k in [k for k in st.env if k[0] == 'f' and k[1] == ol and k[2] == '#size']:
                    del st.env[k]
                if old[0] == 'vec' and old[2] is not None and len(V) > 1 and V[1] == old[2]:
                    self.store(st, ol, ('vec', V[0], V[1]))
                else:
                    st.env[('f', ol, '#size')] = V[0]
            return one(None)
        if nm in ('push_back', 'emplace_back'):
            i = size()
            l = ('e', ol, i)
            self.c.on_write(self, st, l, V[0] if V else ('u',), n, fr)
            src = avs[0] if avs else None
            if src and src[0] == 'loc':
                self.copy_obj(st, l, self.resolve(st, src[1]))
            elif src and src[1][0] == 'obj':
                self.copy_obj(st, l, src[1][1])
            elif src:
                self.store(st, l, src[1])
            st.env[('f', ol, '#size')] = padd(i, ONE)
            return one(None)
        if nm == 'pop_back':
            st.env[('f', ol, '#size')] = psub(size(), ONE)
            return one(None)
        if nm in ('reserve', 'shrink_to_fit'):
            return one(None)
        if nm in ('capacity', 'max_size'):
            r = self.fresh(st, ('cap', fr.fid, n.get('l')))
            self.nonneg.add(r)
            return one(r)
        if nm == 'swap' and avs:
            l2 = self.resolve(st, avs[0][1])
            t = ('tmp', fr.fid, n.get('l'), 'sw', 0)
            self.copy_obj(st, t, ol)
            self.write_obj(st, ol, l2, n, fr)
            self.write_obj(st, l2, t, n, fr)
            return one(None)
        if nm in ('erase', 'insert'):
            self.c.on_write(self, st, ol, ('op', nm) + tuple(V), n, fr)
            sz = size()
            self.store(st, ol, ('u', nm, fr.fid, n.get('l')))
            if nm == 'erase' and len(V) == 1:
                st.env[('f', ol, '#size')] = psub(sz, ONE)
            elif nm == 'insert' and len(V) == 2:
                st.env[('f', ol, '#size')] = padd(sz, ONE)
            return one(V[0] if V else None)
        return None

    def map_call(self, n, c, ol, nm, avs, V, st, fr, b):
        one = lambda v: [(st, v)]
        self.mapset = self.mapset | {ol}
        has = lambda k: ('op', 'has', ol, k)
        if nm == 'size':
            return one(self.load(st, ('f', ol, '#size')))
        if nm == 'empty':
            return one(('cmp', 'eq', self.load(st, ('f', ol, '#size'))))
        if nm in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            return one(('iter', ol, ('first', ol)))
        if nm in ('end', 'cend', 'rend', 'crend'):
            return one(('end', ol))
        if nm == 'find':
            return one(('iter', ol, V[0]))
        if nm in ('count', 'contains'):
            self.boolset.add(has(V[0]))
            self.nonneg.add(has(V[0]))
            return [(s, ONE if b else ZERO) for s, b in self.split(st, has(V[0]))]
        if nm == 'operator[]':
            self.set_has(st, ol, V[0], True)
            return one(('ref', ('e', ol, V[0])))
        if nm == 'at':
            out = []
            for s, t in self.split(st, has(V[0])):
                if t:
                    out.append((s, ('ref', ('e', ol, V[0]))))
                else:
                    self.throw(s, 'std::out_of_range', n, fr)
            return out
        if nm == 'clear':
            self.c.on_write(self, st, ol, ('vec', ZERO, None), n, fr)
            self.store(st, ol, ('vec', ZERO, None))
            self.clear_has(st, ol)
            return one(None)
        if nm == 'erase':
            k = V[0]
            if k[0] == 'iter':
                k = k[2]
            if k[0] in ('first', 'next', 'mapkey') or V[0][0] == 'iter':
                cases = [(st, True)]
            else:
                self.boolset.add(has(k))
                cases = self.split(st, has(k))
            out = []
            for s, there in cases:
                sz = self.load(s, ('f', ol, '#size'))
                if there:
                    self.c.on_write(self, s, ('e', ol, k), ('erased',), n, fr)
                    self.drop(s, ('e', ol, k))
                    self.set_has(s, ol, k, False)
                    if plain_size(sz):
                        self.store(s, ('f', ol, '#size'), psub(sz, ONE))
                    else:
                        self.store(s, ('f', ol, '#size'), self.fresh(s, ('sz', fr.fid, n.get('l'))))
                out.append((s, ('iter', ol, ('next', k)) if V[0][0] == 'iter' else ONE if there else ZERO))
            return out
        if nm in ('insert', 'emplace', 'insert_or_assign'):
            a = avs[0]
            if b == 'std::set':
                k = V[0]
                self.set_has(st, ol, k, True)
                self.c.on_write(self, st, ('e', ol, k), ('inserted', k), n, fr)
                return one(self.fresh(st, ('ins', fr.fid, n.get('l'))))
            if len(avs) == 2 and nm in ('emplace', 'insert_or_assign'):
                k = V[0]
                src = avs[1]
            else:
                pl = a[1] if a[0] == 'loc' else (a[1][1] if a[1][0] == 'obj' else None)
                if pl is None:
                    return None
                pl = self.resolve(st, pl)
                k = self.load(st, ('f', pl, 'first')) if pl[0] != 'pair' else pl[2]
                src = ('loc', ('f', pl, 'second') if pl[0] != 'pair' else ('e', pl[1], pl[2]))
            # insert keeps an existing element
            out = []
            cases = self.split(st, has(k)) if nm != 'insert_or_assign' else [(st, False)]
            if getattr(self.c, 'keys_once', False) and k[0] == 'mapkey' and k[1] in self.loop_entry and \
                    self.load(self.loop_entry[k[1]], ('f', ol, '#size')) == ZERO:
                # the map was empty when the loop over these keys began, and a key is visited once
                cases = [(s, False) for s, there in cases if not there] or cases
            for s, present in cases:
                if not present:
                    l = ('e', ol, k)
                    if src[0] == 'loc':
                        sl = self.resolve(s, src[1])
                        self.c.on_write(self, s, l, self.load(s, sl), n, fr)
                        self.copy_obj(s, l, sl)
                    else:
                        self.c.on_write(self, s, l, src[1], n, fr)
                        if src[1][0] == 'obj':
                            self.copy_obj(s, l, src[1][1])
                        else:
                            self.store(s, l, src[1])
                    self.set_has(s, ol, k, True)
                else:
                    self.c.on_write(self, s, ('e', ol, k), ('kept',), n, fr)
                out.append((s, self.fresh(s, ('ins', fr.fid, n.get('l')))))
            return out
        return None

    def set_has(self, st, L, k, val):
        t = ('op', 'has', L, k)
        if val is True and self.truth(st, t) is not True:
            new = self.truth(st, t) is False
            sz = self.load(st, ('f', L, '#size'))
            if new and plain_size(sz):
                st.env[('f', L, '#size')] = padd(sz, ONE)
            else:
                sz = self.fresh(st, ('grown', L))
                self.nonneg.add(sz)
                st.facts = st.facts | {('le', psub(ONE, sz))}
                st.env[('f', L, '#size')] = sz
        fs = set(st.facts)
        fs.discard(('b', t, True))
        fs.discard(('b', t, False))
        if val is False:
            pass
        else:
            # inserting may make another (possibly equal) key present
            fs = {f for f in fs if not (f[0] == 'b' and f[1][0] == 'op' and f[1][1] == 'has' and f[1][2] == L
                                        and f[2] is False and not self.distinct(st, f[1][3], k))}
        fs.add(('b', t, val))
        st.facts = frozenset(fs)

    def iter_call(self, n, c, ol, nm, avs, V, st, fr):
        v = self.load(st, ol)
        if nm == 'operator->':
            if v[0] == 'iter':
                if self.is_map(v[1], v[2]):
                    return [(st, ('addr', ('pair', v[1], v[2])))]
                return [(st, ('addr', ('e', v[1], v[2])))]
            return [(st, v)]
        if nm == 'operator*':
            if v[0] == 'iter':
                if self.is_map(v[1], v[2]) and 'pair' in c.get('rt', ''):
                    return [(st, ('ref', ('pair', v[1], v[2])))]
                if self.is_map(v[1], v[2]):
                    l = ('pk', v[1], v[2])
                    st.env[l] = v[2]
                    return [(st, ('ref', l))]
                self.c.on_index(self, st, v[1], v[2], n, fr)
                return [(st, ('ref', ('e', v[1], v[2])))]
            return [(st, ('ref', ('d', v)))]
        if nm == 'base':
            return [(st, v)]
        if nm == 'operator[]' and v[0] == 'iter':
            i = padd(v[2], V[0])
            self.c.on_index(self, st, v[1], i, n, fr)
            return [(st, ('ref', ('e', v[1], i)))]
        if nm == 'operator[]':
            p = self.ptr_parts(v)
            if p:
                self.c.on_index(self, st, p[0], padd(p[1], V[0]), n, fr)
                return [(st, ('ref', ('e', p[0], padd(p[1], V[0]))))]
        if nm in ('operator++', 'operator--'):
            if v[0] == 'iter':
                if self.is_map(v[1], v[2]):
                    nv = ('iter', v[1], ('next', v[2]))
                else:
                    nv = ('iter', v[1], padd(v[2], ONE if nm == 'operator++' else ('i', -1)))
            elif v[0] == 'end' and nm == 'operator--':
                nv = ('iter', v[1], psub(self.load(st, ('f', v[1], '#size')), ONE))
            else:
                nv = self.arith('+' if nm == 'operator++' else '-', v, ONE, 'x *', st)
            self.write(st, ol, nv, n, fr)
            return [(st, v if V else ('ref', ol))]
        if nm in ('operator+', 'operator-', 'operator+=', 'operator-='):
            op = nm[8]
            if v[0] == 'end' and V[0][0] in ('iter', 'end'):
                nv = psub(self.load(st, ('f', v[1], '#size')), V[0][2]) if V[0][0] == 'iter' else ZERO
                return [(st, nv)]
            if v[0] == 'end':
                v = ('iter', v[1], self.load(st, ('f', v[1], '#size')))
            nv = self.arith(op, v, V[0], 'x *', st)
            if nm.endswith('='):
                self.write(st, ol, nv, n, fr)
                return [(st, ('ref', ol))]
            return [(st, nv)]
        return None

    def json_call(self, n, c, ol, nm, avs, V, st, fr):
        one = lambda v: [(st, v)]
        if nm == 'operator[]':
            return one(('ref', ('e', ol, V[0])))
        if nm == 'get':
            v = self.load(st, ('e', ol, V[0]))
            loc = ('tmp', fr.fid, n.get('l'), 'jget', self.tmpid(n))
            self.drop(st, loc)
            st.env[loc] = v
            st.env[('f', loc, '#default')] = V[1] if len(V) > 1 else NULL
            return one(('obj', loc))
        if nm in ('asInt', 'asUInt', 'asBool', 'asString', 'asFloat', 'asDouble', 'asInt64', 'asUInt64', 'asCString'):
            v = self.load(st, ol)
            r = ('op', 'json', v)
            if nm in ('asUInt', 'asUInt64', 'asBool'):
                self.nonneg.add(r)
            if nm == 'asBool':
                self.boolset.add(r)
            return one(r)
        if nm in ('size',):
            v = self.load(st, ol)
            r = ('op', 'jsize', v)
            self.nonneg.add(r)
            return one(r)
        if nm in ('isArray', 'isMember', 'isNull', 'isObject', 'isNumeric', 'isString', 'empty', 'isInt', 'isUInt', 'isBool',
                  'isDouble'):
            v = self.load(st, ol)
            r = ('op', nm, v) + tuple(V)
            self.boolset.add(r)
            return one(r)
        if nm == 'resize':
            return one(None)
        if nm == 'append':
            i = self.fresh(st, ('app', fr.fid, n.get('l')))
            self.c.on_write(self, st, ('e', ol, i), V[0], n, fr)
            return one(('ref', ('e', ol, i)))
        if nm in ('begin', 'end'):
            return one(('iter', ol, ZERO) if nm == 'begin' else ('end', ol))
        return None

    def algo(self, n, c, q, avs, V, st, fr):
        one = lambda v: [(st, v)]
        nm = q.split('::')[-1]
        key = (fr.fid, n.get('l'), self.tmpid(n))
        if nm in ('copy', 'copy_n', 'memcpy', 'fill', 'fill_n', 'memset', 'iota'):
            if nm == 'copy':
                ln, dst, src = self.range_len(st, V[0], V[1]), V[2], V[0]
            elif nm == 'copy_n':
                ln, dst, src = V[1], V[2], V[0]
            elif nm == 'memcpy':
                ln, dst, src = self.unsizeof(V[2]), V[0], V[1]
            elif nm == 'fill':
                ln, dst, src = self.range_len(st, V[0], V[1]), V[0], None
            elif nm == 'fill_n':
                ln, dst, src = V[1], V[0], None
            elif nm == 'iota':
                ln, dst, src = self.range_len(st, V[0], V[1]), V[0], None
            else:
                ln, dst, src = self.unsizeof(V[2]), V[0], None
            self.bulk(st, n, fr, dst, src, ln, V[2] if nm in ('fill', 'fill_n') else None, key)
            return one(dst)
        if nm == 'distance':
            r = self.range_len(st, V[0], V[1])
            return one(r if r is not None else self.fresh(st, ('dist',) + key))
        if nm in ('next', 'prev'):
            k = V[1] if len(V) > 1 else ONE
            v = V[0]
            if v[0] == 'end':
                v = ('iter', v[1], self.load(st, ('f', v[1], '#size')))
            if v[0] == 'iter' and self.is_map(v[1], v[2]):
                return one(('iter', v[1], ('next', v[2])))
            return one(self.arith('+' if nm == 'next' else '-', v, k, 'x *', st))
        # element-wise algorithms with a function object: one generic element
        rng = V[0]
        L = rng[1] if rng[0] in ('iter', 'end') else None
        elem = None
        uid = (fr.fid, n.get('l'), 'algo')
        self.purge_loop(st, uid)
        if rng[0] == 'iter':
            if self.is_map(L, rng[2]) or rng[2][0] == 'first':
                k = ('mapkey', uid)
                elem = ('pair', L, k)
            else:
                k = ('lv', uid, ('idx', L))
                self.nonneg.add(k)
                elem = ('e', L, k)
        fi = [i for i, v in enumerate(V) if v[0] in ('lam', 'fn', 'bind')]
        if fi and elem is not None:
            def step(s):
                ex = s.clone()
                s.facts = frozenset(f for f in s.facts if not mentions(f, k))
                if k[0] == 'mapkey':
                    s.facts = s.facts | {('b', ('op', 'has', L, k), True)}
                else:
                    last = V[1]
                    up = self.load(s, ('f', L, '#size')) if last[0] == 'end' else last[2] if last[0] == 'iter' else None
                    s.facts = s.facts | {('le', psub(rng[2], k))}
                    if up is not None:
                        s.facts = s.facts | {('le', padd(psub(k, up), ONE))}
                args = [('loc', elem)]
                if nm in ('accumulate',):
                    args = [('val', self.fresh(s, ('acc',) + key)), ('loc', elem)]
                if nm == 'transform' and len(V) == 5:
                    p2 = self.ptr_parts(V[2])
                    args.append(('loc', ('e', p2[0], padd(p2[1], psub(k, rng[2]))) if p2 else ('tmp', 't2')))
                res = self.apply(V[fi[0]], args, s, fr, n)
                nxt = []
                for s2, v in res:
                    if nm == 'transform':
                        d = self.ptr_parts(V[3] if len(V) == 5 else V[2])
                        if d:
                            idx = padd(d[1], psub(k, rng[2]))
                            self.c.on_index(self, s2, d[0], idx, n, fr)
                            self.write(s2, ('e', d[0], idx), v if v is not None else ('void',), n, fr)
                    nxt.append(s2)
                return [ex], nxt, []
            r = self.fix(st, uid, fr, step, n)
            out = []
            for s in r['n']:
                if nm in ('any_of', 'all_of', 'none_of'):
                    v = self.fresh(s, (nm,) + key)
                    self.boolset.add(v)
                elif nm == 'for_each':
                    v = V[fi[0]]
                elif nm == 'find_if' and elem is not None:
                    v = ('iter', L, ('u', 'found') + key)
                else:
                    v = self.fresh(s, (nm,) + key)
                out.append((s, v))
            return out
        if nm == 'find' and rng[0] == 'iter':
            return one(('iter', L, ('u', 'found') + key))
        if nm in ('max_element', 'min_element') and rng[0] == 'iter':
            kk = ('u', nm) + key
            self.nonneg.add(kk)
            return one(('iter', L, kk))
        if nm in ('accumulate', 'inner_product'):
            return one(('op', nm) + tuple(V))
        return None

    def unsizeof(self, v):
        """n * sizeof(T) -> n"""
        d = to_poly(v)
        out = {}
        for m, k in d.items():
            z = [a for a in m if a[0] == 'op' and a[1] == 'sizeof']
            if len(z) != 1:
                return None
            out[tuple(a for a in m if a not in z)] = k
        return from_poly(out)

    def bulk(self, st, n, fr, dst, src, ln, fill, key):
        """Copy/fill `ln` elements."""
        self.c_bulk(st, n, fr, dst, src, ln, fill)
        d = self.ptr_parts(dst)
        if d:
            base, off = d
            self.drop_elems(st, base)
            size = self.load(st, ('f', base, '#size'))
            v = st.env.get(base, ('in', base))
            if fill is not None and off == ZERO and ln is not None and ln == size and v[0] != 'undef':
                st.env[base] = ('vec', size, fill)
                st.env[('f', base, '#size')] = size
            elif v[0] not in ('vec', 'undef', 'u'):
                st.env[base] = self.fresh(st, ('bulk', base) + key)
                st.env[('f', base, '#size')] = size
            self.c.on_write(self, st, ('e', base, ('rng', off, ln)), ('rng', src, fill), n, fr)

    def c_bulk(self, st, n, fr, dst, src, ln, fill):
        h = getattr(self.c, 'on_bulk', None)
        if h:
            h(self, st, dst, src, ln, n, fr)

    def drop_elems(self, st, base):
        for k in [k for k in st.env if any_elem_of(k, base)]:
            del st.env[k]
        v = st.env.get(base)
        if v is not None and v[0] == 'vec':
            st.env[base] = ('vec', v[1], None)
        elif v is not None and v[0] == 'undef':
            st.env[base] = ('u', 'filled', base)

    def make_shared(self, n, c, avs, V, st, fr):
        t = self.elem_type(strip_t(c['rt']))
        loc = ('H', (fr.fid, n.get('l'), self.tmpid(n)))
        self.drop(st, loc)
        st.env[loc] = ('undef', loc)
        self.c.on_new(self, st, loc, n, None, fr)
        if t in self.p.classes:
            # constructor selected by argument types
            ctor = self.pick_ctor(t, n, c)
            if ctor is None:
                return [(st, ('addr', loc))]
            if ctor == 'copy':
                src = avs[0][1] if avs[0][0] == 'loc' else avs[0][1][1]
                self.write_obj(st, loc, src, n, fr)
                return [(st, ('addr', loc))]
            cc = dict(ctor)
            args = []
            for i, a in enumerate(avs):
                pt = ctor['pt'][i] if i < len(ctor['pt']) else ''
                if is_ref(pt):
                    args.append(a if a[0] == 'loc' else ('loc', a[1][1] if a[1][0] == 'obj' else None))
                else:
                    args.append(('val', self.aval(st, a, pt)))
            return [(s, ('addr', loc)) for s, _ in self.run_ctor(cc, loc, t, self.fill_defaults(ctor, args, st, fr), st, fr, n)]
        return [(st, ('addr', loc))]

    def fill_defaults(self, f, args, st, fr):
        for p in f['params'][len(args):]:
            if p.get('def') is not None:
                r = self.eval(p['def'], st, fr)
                if r:
                    v = r[0][1]
                    if is_ref(p['t']):
                        l = ('tmp', fr.fid, 'def', p['id'], 0)
                        if v[0] == 'obj':
                            l = v[1]
                        else:
                            st.env[l] = v
                        args.append(('loc', l))
                    else:
                        args.append(('val', v))
        return args

    def pick_ctor(self, t, n, c):
        cands = [f for fs in self.p.methods.get(t, {}).values() for f in fs if f.get('ctor')]
        at = [strip_t(x) for x in c['pt']]
        for f in cands:
            ft = [strip_t(x) for x in f['pt']]
            need = len([p for p in f['params'] if p.get('def') is None])
            if need <= len(at) <= len(ft) and ft[:len(at)] == at:
                return f
        if len(at) == 1 and at[0] == t:
            return 'copy'
        return None

    # ------------------------------------------------------------- entry
    def analyse(self, f, cls=None, setup=None, this=('T',), args=None):
        """Analyse function f from an arbitrary state. Returns (normal, thrown):
        normal = [(state, value)], thrown = [(state, type, info)]."""
        st = St()
        self.throws = [[]]
        cls = cls or f.get('cls')
        fr = Frame((f['id'],), this, cls, f, 0)
        self.dyn[this] = cls
        if isinstance(args, list):
            args = dict(enumerate(args))
        for i, p in enumerate(f['params']):
            l = ('L', fr.fid, p['id'], p['n'])
            a = ('A', p['n'] or 'arg%d' % i)
            if args and i in args:
                st.env[l] = args[i]
                continue
            if is_ref(p['t']):
                st.env[l] = ('ref', a)
            elif self.is_obj(p['t']):
                st.env[l] = ('in', a)
            else:
                v = ('in', a)
                self.note_type(v, p['t'])
                st.env[l] = v
        if setup:
            st = setup(self, st, fr) or st
        self.entry = st.clone()
        self.c.on_enter(self, st, f, this, [], fr)
        out = self.run_body(f, fr, st)
        res = []
        for s, v in out:
            res.append((s, v))
        return res, self.throws[0], fr


def atoms_of_loc(l):
    st = [l]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def any_elem_of(k, base):
    l = k
    while l is not None:
        if l[0] == 'e' and l[1] == base:
            return True
        l = loc_parent(l)
    return False
