"""Array readers (json2vector, json2array): on every path storing an element, and on every path ending normally for a
non-zero length, the entry was established to be an array of exactly the expected length; the other paths throw
JsonException. Every place a constructor from a document reads elements: the number of elements read fits the vector
or the allocation read into, and every element index - constant, counted by a loop, or bounded by a size found in the
document - is below the size of the member addressed. Allocation sizes computed from document integers cannot have
wrapped (the integer is bounded before). The message returned by an exception class does not point into a local."""
from common import *
from prog import walk
from c14 import Reader, has_json, short, doc_path, show_path, elem, rel, rangefor

LEVEL = 'proof'
EXPLANATION = ('Path-sensitive guards before every element store of the array readers; bound obligations at every '
               'element access of every constructor from a document, with sizes from the document unconstrained.')


MAPS = ('models', 'phrases_', 'class_parameters_', 'sub_training_sets_')


class Store(Client):
    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'e' and root_of(loc)[0] in ('A', 'd'):
            it.log(('ST', loc, val, st.clone(), node))

    def on_read(self, it, st, loc, node, fr):
        pass


class Bounds(Reader):
    def __init__(self, skip=()):
        super().__init__(skip)
        self.n = 0

    def on_call(self, it, st, node, callee, obj, args, fr):
        nm = short(callee or {})
        if nm == 'json2array' and len(args) == 3 and obj != ('T',):
            pv = args[1][1] if args[1][0] == 'val' else it.load(st, args[1][1])
            d = it.deref(pv)
            if d is not None:
                al = it.load(st, ('f', d, '#alloc'))
                it.log(('AR', it.load(st, args[0][1]), d, al, args[2][1] if args[2][0] == 'val' else
                        it.load(st, args[2][1]), st.clone(), fr.func, node))
        if nm == 'fromJson' and obj and obj != ('T',):
            self.access(it, st, elem(obj), node, fr)
        if nm == 'json2vector' and len(args) == 3:
            d = args[1]
            self.access(it, st, elem(d[1] if d[0] == 'loc' else it.deref(d[1])), node, fr)
        return super().on_call(it, st, node, callee, obj, args, fr)

    def on_write(self, it, st, loc, val, node, fr):
        self.access(it, st, elem(loc), node, fr)
        super().on_write(it, st, loc, val, node, fr)

    def access(self, it, st, e, node, fr):
        """element location about to be addressed"""
        if e is None or e[2][0] in ('s', 'mapkey') or root_of(e)[0] not in ('T', 'L', 'H'):
            return
        base, i = e[1], e[2]
        if loc_path(base) and loc_path(base)[0] in MAPS:
            return
        if not has_json(fr.func or {}) and "'json'" not in repr(i):
            return
        sz = st.env.get(('f', base, '#size'))
        if sz is None:
            v = st.env.get(base)
            sz = v[1] if v and v[0] == 'vec' else None
        if sz is None:
            sz = it.load(st, ('f', base, '#size'))
        if repr(i).count("'json'") == 0 and i[0] not in ('i', 'lv', 'poly'):
            return
        it.log(('AC', e, i, sz, st.clone(), fr.func, node))


def helper(r, f):
    ps = f['params']
    it = Interp(r.p, Store(), budget=200000)
    a = r.analyse(it, f)
    if a is None:
        return
    key = '%s(%s)' % (short(f), ps[1]['t'])
    doc = ('in', ('A', ps[0]['n']))
    n = it.load(it.entry, ('A', ps[2]['n']))

    def guarded(s):
        arr = any(x[0] == 'b' and x[1][:2] == ('op', 'isArray') and x[2] for x in s.facts)
        js = [x for x in all_ops(s.facts, 'jsize')]
        ln = any(same(it, s, x, n) for x in js)
        return arr, ln
    st = [j for j in it.journal if j[0] == 'ST']
    for _, l, v, s, node in st:
        arr, ln = guarded(s)
        r.ob(key + ': stores only from an array', arr, r.where(f, node), 'an element is stored before the entry is '
             'known to be an array')
        r.ob(key + ': stores only from an array of the expected length', ln, r.where(f, node),
             'an element is stored before the length was compared with the expected one')
    for s, _ in a[0]:
        if same(it, s, n, ZERO):
            continue
        s2 = it.assume(s.clone(), ('cmp', 'le', psub(ONE, n)), True)
        if s2 is None:
            continue
        arr, ln = guarded(s2)
        r.ob(key + ': anything else is refused', arr and ln, r.where(f), 'an entry that is not an array of the '
             'expected length is accepted')
    for s, t, w in a[1]:
        r.ob(key + ': refused with a format error', 'JsonException' in str(t) or t == '?', r.where(f, w[0]), str(t))


def same(it, s, x, y):
    d = psub(x, y)
    if d == ZERO or ('eq', d) in s.facts or ('eq', psub(y, x)) in s.facts:
        return True
    return bool(it.prove_le(s, d) and it.prove_le(s, psub(y, x)))


def all_ops(facts, nm):
    out = set()

    def go(v):
        if isinstance(v, tuple):
            if v[:2] == ('op', nm):
                out.add(v)
            for x in v:
                go(x)
    for f in facts:
        go(f)
    return out


def terms_known(v):
    for m in to_poly(v):
        for a in m:
            if a[0] == 'in' or a[0] == 'op' and a[1] in ('json', 'jsize') or a[0] == 'prj' and a[1][0] == 'jr':
                continue
            return False
    return True


def run(r):
    p = r.p
    hs = [f for f in p.funcs.values() if short(f) in ('json2vector', 'json2array') and f.get('body')
          and (f.get('q') or '').startswith('xmm::')]
    r.floor('array readers', len(hs), 8)
    for f in hs:
        helper(r, f)
    n = 0
    for cls in sorted(p.methods):
        if not cls.startswith('xmm::'):
            continue
        for f in [f for l in p.methods[cls].values() for f in l if f.get('ctor') and f.get('body') and has_json(f)]:
            n += 1
            reader(r, cls, f)
    r.floor('constructors from a document', n, 16)
    messages(r)


def reader(r, cls, f):
    skip = ('allocate',) if 'Model<' in cls or cls.endswith('HierarchicalHMM') else ()
    it = Interp(r.p, Bounds(skip), budget=1500000)
    if r.analyse(it, f, cls=cls) is None:
        return
    for j in it.journal:
        if j[0] in ('JR', 'AR'):
            if j[0] == 'JR' and j[2][0] != 'vec':
                continue
            k, cnt, sz, st, fn, node = j[1], j[3], j[4], j[5], j[6], j[7]
            if j[0] == 'AR':
                cnt, sz = j[4], j[3]
            if j[0] == 'AR' and sz[0] == 'in':
                continue
            ok = fits(it, st, cnt, sz)
            r.ob('%s: "%s" fits' % (cls, show_path(doc_path(k) or ())), ok, r.where(fn, node),
                 '%s elements into %s' % (show(cnt), show(sz)))
            if j[0] == 'AR':
                wraps(r, it, cls, k, st, cnt, fn, node)
        elif j[0] == 'AC':
            _, e, i, sz, st, fn, node = j
            ok = inside(it, st, i, sz)
            r.ob('%s: element of %s' % (cls, show(e[1])), ok, r.where(fn, node),
                 'index %s, size %s' % (show(i), show(sz)))


def fits(it, st, cnt, sz):
    if psub(cnt, sz) == ZERO or it.prove_le(st, psub(cnt, sz)):
        return True
    if terms_known(cnt) and terms_known(sz):
        s2 = it.assume(st.clone(), ('cmp', 'le', padd(psub(sz, cnt), ONE)), True)
        if s2 is not None:
            return False
    return None


def inside(it, st, i, sz):
    if it.prove_le(st, padd(psub(i, sz), ONE)):
        return True if it.prove_le(st, psub(ZERO, i)) else None
    x = rel(it, i) if i[0] != 'i' else None
    if x is not None and isinstance(x[1], int):
        # the loop runs over a container of the document: its size bounds the counter
        m = it.meta.get(x[0]) or {}
        js = {q for q in all_ops(st.facts, 'jsize')}
        his = list(js)
        for h in his:
            if it.prove_le(st, padd(psub(h, sz), ('i', x[1]))) and rangefor(x[0]):
                return True
        if any(f[0] == 'le' and lvs(f[1]) and any(q in [a for mm in to_poly(f[1]) for a in mm] for q in js)
               for f in st.facts) or rangefor(x[0]):
            if terms_known(sz) and (not related(st, sz) or all(
                    it.assume(st.clone(), ('cmp', 'le', padd(psub(sz, h), ONE)), True) is not None for h in js)):
                return False
    if i[0] == 'i' and terms_known(sz) and sz[0] != 'i':
        s2 = it.assume(st.clone(), ('cmp', 'le', psub(sz, i)), True)
        if s2 is not None and not st.tr.get('stk'):
            return None
    if terms_known(i) and i[0] != 'i' and terms_known(sz) and "'json'" in repr(i):
        s2 = it.assume(st.clone(), ('cmp', 'le', psub(sz, i)), True)
        if s2 is not None:
            return False
    return None


def related(st, sz):
    """some fact compares a size found in the document with the destination's size"""
    at = {a for m in to_poly(sz) for a in m}
    for f in st.facts:
        if f[0] in ('le', 'eq'):
            b = {a for m in to_poly(f[1]) for a in m}
            if any(x[0] == 'op' and x[1] == 'jsize' for x in b) and (at & b or not at):
                return True
    return False


def wraps(r, it, cls, k, st, cnt, fn, node):
    """a product of integers from the document must be bounded before it is used as a size"""
    for m in to_poly(cnt):
        js = [a for a in m if a[0] == 'op' and a[1] == 'json']
        if len(js) < 2:
            continue
        free = [a for a in js if not any(f[0] in ('le', 'eq') and any(a in q and (c > 0 or f[0] == 'eq')
                                                                     for q, c in to_poly(f[1]).items())
                                         for f in st.facts)]
        r.ob('%s: the length of "%s" was bounded' % (cls, show_path(doc_path(k) or ())), not free,
             r.where(fn, node), 'the product %s is used with %s unbounded' % (show(cnt), ', '.join(map(show, free))))


def messages(r):
    """what() and the like: the characters returned must outlive the call"""
    n = 0
    for f in r.p.funcs.values():
        if not f.get('body') or not (f.get('q') or '').startswith('xmm::') or 'const char *' not in (f.get('rt') or ''):
            continue
        n += 1
        r.ob('%s: the message outlives the call' % f['q'], dangling(f) is not True, r.where(f),
             'returns the characters of a string destroyed on return')
    r.floor('functions returning a message', n, 1)


def dangling(f):
    """a return of characters held by a string that dies with the call"""
    loc = {}
    for x in walk(f['body']):
        if x.get('k') == 'decl':
            for d in x.get('d') or []:
                loc[d.get('id')] = d
    for x in walk(f['body']):
        if x.get('k') != 'ret' or not x.get('e'):
            continue
        for c in walk(x['e']):
            if c.get('k') == 'call' and short(c.get('c') or {}) in ('c_str', 'data') and c.get('o'):
                o = c['o']
                if o.get('k') in ('ref', 'var', 'dre') and o.get('id') in loc:
                    d = loc[o['id']]
                    if not d.get('static') and '&' not in (d.get('t') or ''):
                        return True
                if o.get('k') in ('temp', 'ctor', 'call', 'new') and 'basic_string' in (o.get('t') or ''):
                    if '&' not in ((o.get('c') or {}).get('rt') or ''):
                        return True
    return None
