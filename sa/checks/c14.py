"""For every class that can be written to and read from a JSON document, the symbolic end states of toJson and of the
constructor from a document are compared key by key: a quantity written under a key is restored by the reader from
that key and from no other on every path consistent with the document the writer produces (optional entries that the
writer left out are excused); a floating-point quantity is not read through a conversion that loses precision; numeric
arrays are read with the number of elements written, or with the size the object's own allocation gives the vector;
arrays and maps of elements are written and read for every element, at the same position or under the same name; the
members listed in NEED are written. The generic array helpers copy element i to element i for every i. fromJson builds
a new object from the given document and assigns it (C15)."""
from common import *

LEVEL = 'other'
EXPLANATION = ('Key-by-key agreement of the symbolic end states of every writer and reader, including the element-wise '
               'loops and the array helpers; the required quantities are the options and the trained-state table.')

NEED = {
    'xmm::GaussianDistribution': ['dimension', 'dimension_input', 'covariance_mode', 'mean', 'covariance', 'bimodal_'],
    'xmm::SingleClassGMM': ['label', 'parameters', 'components', 'mixture_coeffs'],
    'xmm::SingleClassHMM': ['label', 'parameters', 'states', 'transition', 'exit_probabilities_'],
    'xmm::SingleClassProbabilisticModel': ['label'],
    'xmm::HierarchicalHMM': ['shared_parameters', 'configuration', 'models', 'prior', 'transition', 'exit_transition'],
    'xmm::KMeans': ['shared_parameters', 'configuration', 'initialization_mode'],
    'xmm::Phrase': ['bimodal_', 'length_', 'column_names', 'label', 'dimension', 'dimension_input', 'data_'],
    'xmm::TrainingSet': ['bimodal_', 'phrases_', 'dimension', 'dimension_input'],
}
for m in ('GMM', 'HMM'):
    NEED['xmm::Model<xmm::SingleClass%s, xmm::%s>' % (m, m)] = ['shared_parameters', 'configuration', 'models']
for m in ('GMM', 'HMM', 'KMeans'):
    NEED['xmm::Configuration<xmm::%s>' % m] = ['class_parameters_', 'multithreading',
                                               'multiClass_regression_estimator']
BIMODAL_ONLY = ('output_covariance', 'inverse_covariance_input_', 'covariance_determinant_input_')
LOSSY = {'double': ('asFloat', 'asInt', 'asUInt', 'asBool', 'asInt64', 'asUInt64'),
         'float': ('asInt', 'asUInt', 'asBool', 'asInt64', 'asUInt64'),
         'int': ('asBool',), 'unsigned int': ('asBool',)}


def has_json(f, prog=None):
    if prog is not None:
        f = prog.funcs.get(f.get('id')) or f
    return any('Json::Value' in (x.get('t') or '') for x in f.get('params') or [])


def short(f):
    return (f.get('q') or '').split('::')[-1].split('<')[0]


class Base(LoopTrack):
    """Loop bookkeeping plus the set of events of the current iteration in tr['ev']."""
    cls = None

    def on_loop(self, it, st, node, fr, phase, uid=None):
        super().on_loop(it, st, node, fr, phase, uid)
        if phase == 'body':
            st.tr['evs'] = ((uid, st.tr.get('ev', ())),) + st.tr.get('evs', ())
            st.tr['ev'] = ()
        elif phase in ('next', 'break', 'return'):
            if phase == 'next':
                it.log(('#it', uid, st.tr.get('ev', ()), node, fr.func))
            elif phase == 'break':
                it.log(('#brk', uid, node, fr.func))
            s = st.tr.get('evs', ())
            while s and s[0][0] != uid:
                s = s[1:]
            if s:
                st.tr['ev'], st.tr['evs'] = s[0][1], s[1:]
            if not st.tr.get('evs'):
                st.tr.pop('evs', None)

    def mark(self, st, what):
        if st.tr.get('evs') and what not in st.tr.get('ev', ()):
            st.tr['ev'] = st.tr.get('ev', ()) + (what,)


class Writer(Base):
    def on_call(self, it, st, node, callee, obj, args, fr):
        nm = short(callee or {})
        if obj != ('T',) and nm in ('vector2json', 'array2json', 'toJson'):
            return [(st, ('js', nm, obj, tuple(args)))]
        if nm == 'append' and obj is not None and 'Json' in (callee.get('q') or '') and len(args) == 1:
            at = ('f', obj, '#app')
            n = st.env.get(at, ZERO)
            v = args[0][1] if args[0][0] == 'val' else it.load(st, args[0][1])
            it.write(st, ('e', obj, n), v, node, fr)
            it.store(st, at, padd(n, ('i', 1)))
            return [(st, ('obj', ('e', obj, n)))]

    def on_write(self, it, st, loc, val, node, fr):
        p, root = keypath(loc)
        if val and val[0] == 'obj' and val[1][0] in ('L', 'tmp'):
            it.log(('CP', loc, val[1]))
        while val and val[0] == 'obj' and val[1] in st.env:
            val = st.env[val[1]]
        if loc[0] == 'e' and not p and loc[1][0] == 'L':
            it.log(('WL', loc[1], (loc[2],), val, st.clone(), fr.func, node))
        if p and root[0] == 'L':
            it.log(('W', root, p, val, st.clone(), fr.func, node))
            self.mark(st, p)


class Reader(Base):
    def __init__(self, skip=()):
        self.conv = {}
        self.skip = skip

    def on_call(self, it, st, node, callee, obj, args, fr):
        nm = short(callee or {})
        if nm in ('addListener', 'update', 'updateInverseCovariances', 'removeListeners') or nm in self.skip:
            return [(st, None)]
        if nm.startswith('as') and obj is not None and 'Json' in (callee.get('q') or ''):
            v = it.load(st, obj)
            self.conv.setdefault(v, set()).add(nm)
            return None
        if obj == ('T',):
            return None
        if nm in ('json2vector', 'json2array') and len(args) == 3:
            d = args[1]
            k = it.load(st, args[0][1])
            cnt = args[2][1] if args[2][0] == 'val' else it.load(st, args[2][1])
            if nm == 'json2vector':
                dl = d[1] if d[0] == 'loc' else it.deref(d[1])
                sz = it.load(st, ('f', dl, '#size'))
                it.log(('JR', k, ('vec', dl), cnt, sz, st.clone(), fr.func, node))
                if elem(dl) is not None:
                    it.log(('JV', k, dl, st.clone(), fr.func, node))
                    self.mark(st, ('JV', k))
                st.env[dl] = ('jr', k)
                st.env[('f', dl, '#size')] = sz
            else:
                pv = d[1] if d[0] == 'val' else it.load(st, d[1])
                it.log(('JR', k, ('arr', pv), cnt, None, st.clone(), fr.func, node))
                st.tr['ja'] = st.tr.get('ja', ()) + ((k, pv, cnt),)
            return [(st, None)]
        if nm == 'fromJson' and args and args[0][0] == 'loc':
            k = it.load(st, args[0][1])
            it.log(('FJ', k, obj, st.clone(), fr.func, node))
            self.mark(st, ('FJ', k))
            it.drop(st, obj)
            st.env[obj] = ('jr', k)
            return [(st, None)]
        if callee and (callee.get('q') or '').startswith('xmm::') and callee.get('id') in it.p.funcs \
                and it.p.funcs[callee['id']].get('ctor') and has_json(callee, it.p) and obj != ('T',):
            j = [a for a, x in zip(args, it.p.funcs[callee['id']]['params']) if 'Json::Value' in x['t']]
            if j and j[0][0] == 'loc' and obj:
                it.drop(st, obj)
                st.env[obj] = ('jr', it.load(st, j[0][1]))
                return [(st, None)]
        if nm in ('insert', 'emplace') and obj and root_of(obj) == ('T',):
            if len(args) == 1 and args[0][0] == 'loc':
                k, v = (it.load(st, ('f', args[0][1], x)) for x in ('first', 'second'))
            elif len(args) == 2:
                k, v = (a[1] if a[0] == 'val' else it.load(st, a[1]) for a in args)
            else:
                return None
            if v[0] in ('addr', 'obj') or v[0] == 'in':
                d = it.deref(v) if v[0] != 'obj' else v[1]
                v = it.load(st, d) if d else v
            if v[0] == 'jr':
                it.log(('IN', v[1], obj, k, st.clone(), fr.func, node))
                self.mark(st, ('IN', v[1]))


    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'e' and loc[2][0] != 's':
            p = doc_path(val)
            if p and any(x[0] != 's' for x in p):
                it.log(('RW', val, loc, st.clone(), fr.func, node))
                self.mark(st, ('RW', val))


def keypath(loc):
    """(path of keys, root) of a location inside a document, or (None, None)"""
    out = []
    l = loc
    while l is not None and l[0] == 'e':
        out.append(l[2])
        l = l[1]
    if not out or l is None or not any(isinstance(x, tuple) and x[0] == 's' for x in out):
        return None, None
    return tuple(reversed(out)), l


def doc_path(v):
    """key path of a value read from the document parameter, or None"""
    while v[0] == 'op' and v[1] == 'json':
        v = v[2]
    if v[0] == 'in':
        p, root = keypath(v[1])
        if p and root[0] == 'A':
            return p
    return None


def elem(l):
    """the innermost container element a location lies in (also through a pointer held by one)"""
    while l is not None and l[0] != 'e':
        if l[0] == 'd' and l[1][0] == 'in':
            l = l[1][1]
        else:
            l = loc_parent(l)
    return l


def names(p):
    return tuple(x[1] if x[0] == 's' else '*' for x in p)


def subst(v, w):
    """document values replaced by what the writer puts there"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'op' and v[1] == 'json':
        p = doc_path(v)
        return w[p] if p in w else v
    if v[0] == 'prj' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'jr':
        src = w.get(doc_path(v[1][1]))
        if src and src[0] == 'js' and src[1] == 'toJson':
            l = src[2]
            for x in v[2]:
                l = (x[0], l, x[1])
            return ('in', l)
        return v
    if v[0] == 'poly':
        acc = ZERO
        for m, c in to_poly(v).items():
            t = ('i', c)
            for a in m:
                t = pmul(t, subst(a, w))
            acc = padd(acc, t)
        return acc
    return tuple(subst(x, w) for x in v)


def consistent(it, base, facts, w):
    """can a document described by w take a reader path with these facts?"""
    s = base.clone()
    for f in sorted(facts, key=repr):
        g = tuple(subst(x, w) if isinstance(x, tuple) else x for x in f)
        if any(x in repr(g) for x in ("'json'", "'jsize'", "'jr'", "'lv'", "'isMember'")):
            continue
        if g[0] == 'b':
            if g[1][0] == 'in':
                it.boolset.add(g[1])
            s = it.assume(s, g[1], g[2]) if g[1] not in (TRUE, FALSE) else (s if (g[1] == TRUE) == g[2] else None)
        elif g[0] in ('le', 'eq', 'ne'):
            if g[1][0] == 'i':
                n = g[1][1]
                s = s if {'le': n <= 0, 'eq': n == 0, 'ne': n != 0}[g[0]] else None
            else:
                s = it.assume(s, ('cmp', 'le' if g[0] == 'le' else 'eq', g[1]), g[0] != 'ne')
        if s is None:
            return False
    return True


def source(v):
    """location a written value was taken from: ('loc', L) | ('arr', pointer, count) | None"""
    if v[0] == 'in':
        return ('loc', v[1])
    if v[0] == 'js':
        if v[1] == 'toJson' and v[2]:
            return ('loc', v[2])
        if v[1] == 'vector2json' and v[3] and v[3][0][0] == 'loc':
            return ('loc', v[3][0][1])
        if v[1] == 'array2json' and len(v[3]) == 2 and v[3][0][0] == 'val' and v[3][1][0] == 'val':
            return ('arr', v[3][0][1], v[3][1][1])
    return None


def moved(it, st, l):
    """the location of the writer's object, in the object the reader built"""
    if l[0] == 'd' and l[1][0] == 'in':
        v = it.load(st, moved(it, st, l[1][1]))
        return it.deref(v) or ('d', v)
    if l[0] in ('f', 'e'):
        b = moved(it, st, l[1])
        return (l[0], b, l[2])
    return l


def show_path(p):
    return '.'.join(names(p))


def ftype(p, cls, l):
    if l[0] == 'f' and l[2] == 'value_':
        l = l[1]
    if l[0] != 'f' or l[1] != ('T',):
        return None
    for _, x in p.fields(cls):
        if x['n'] == l[2]:
            t = x['t']
            return t[t.index('Attribute<') + 10:].rstrip('> ') if 'Attribute<' in t else t
    return None


def run(r):
    p = r.p
    n = 0
    for cls in sorted(p.methods):
        w = [f for f in p.methods[cls].get('toJson', []) if f.get('body')]
        c = [f for l in p.methods[cls].values() for f in l if f.get('ctor') and f.get('body') and has_json(f)]
        if not w or not cls.startswith('xmm::'):
            continue
        if not c:
            r.ob('%s: constructor from a document' % cls, None, r.where(w[0]), 'none found')
            continue
        n += pair(r, cls, w[0], c[0])
    r.floor('classes written and read', n, 16)
    helpers(r)


def table(it, st, root):
    out = {}
    for l, v in st.env.items():
        p, ro = keypath(l)
        if p and ro == root and v[0] not in ('lv',) and all(x[0] == 's' for x in p):
            out[p] = v
    return out


def pair(r, cls, wf, rf):
    p = r.p
    wc = Writer()
    wi = Interp(p, wc, budget=1500000)
    a = r.analyse(wi, wf, cls=cls)
    skip = ('allocate',) if 'Model<' in cls or cls.endswith('HierarchicalHMM') else ()
    rc = Reader(skip)
    ri = Interp(p, rc, budget=1500000)
    b = r.analyse(ri, rf, cls=cls)
    if a is None or b is None:
        return 0
    wtabs, fields = [], set()
    for s, v in a[0]:
        root = v[1] if v and v[0] == 'obj' else None
        t = table(wi, s, root)
        if root is None or not t:
            r.ob('%s: document written' % cls, None, r.where(wf), 'the returned document is not tracked')
            continue
        wtabs.append((s, t))
    dyn = [j for j in wi.journal if j[0] == 'W']
    # an array built on its own, then made part of the document
    for j in [j for j in wi.journal if j[0] == 'WL']:
        at, hops = {j[1]}, 0
        while hops < 4:
            at |= {k[1] for k in wi.journal if k[0] == 'CP' and k[2] in at}
            hops += 1
        for l in at:
            k, root = keypath(l)
            if k and root[0] == 'L':
                dyn.append(('W', root, k + j[2]) + j[3:])
    rdyn = [j for j in ri.journal if j[0] in ('FJ', 'IN', 'RW', 'JV')]
    # required quantities
    for _, t in wtabs:
        for v in t.values():
            s = source(v)
            if s:
                fields |= set(loc_names(s[1] if s[0] == 'loc' else ('d', s[1])))
    for j in dyn:
        s = source(j[3])
        if s:
            fields |= set(loc_names(s[1] if s[0] == 'loc' else ('d', s[1])))
        for m in mentions_in(j[3]):
            fields |= set(loc_names(m))
    need = set(NEED.get(cls, ()))
    need |= {x['n'] for c0, x in p.fields(cls) if 'Attribute<' in x['t'] and c0 == cls
             and cls.split('::')[-1] not in ('Phrase', 'TrainingSet')}
    need.discard('changed')
    for x in sorted(need):
        r.ob('%s: %s is written' % (cls, x), x in fields, r.where(wf), 'no entry of the document is taken from it')
    # fixed entries
    done = {}
    for ws, t in wtabs:
        for k, v in sorted(t.items(), key=repr):
            s = source(v)
            if s is None:
                continue
            for rs, _ in b[0]:
                if not consistent(ri, ws, rs.facts, t):
                    continue
                ok, msg = restored(ri, rs, k, s, t)
                done.setdefault((k, s[1]), []).append((ok, msg))
    for (k, l), res in sorted(done.items(), key=repr):
        bad = [m for o, m in res if o is False]
        und = [m for o, m in res if o is None]
        r.ob('%s: "%s" is restored' % (cls, show_path(k)), False if bad else None if und else True, r.where(rf),
             (bad or und or [''])[0])
        ty = ftype(p, cls, l) if l[0] in ('f',) else None
        conv = {m for v, ms in rc.conv.items() if doc_path(v) == k for m in ms}
        if ty in LOSSY and conv:
            r.ob('%s: "%s" is read at full precision' % (cls, show_path(k)), not conv <= set(LOSSY[ty]), r.where(rf),
                 'a %s is read with %s' % (ty, ', '.join(sorted(conv))))
    # counts
    for j in ri.journal:
        if j[0] == 'JR' and j[2][0] == 'vec':
            k = doc_path(j[1])
            d = psub(j[3], j[4])
            ok = True if d == ZERO or j[5] and ri.compare(j[5], '==', j[3], j[4], 'int') == TRUE else None
            if ok is None and definite(d):
                ok = False
            r.ob('%s: "%s" is read in full' % (cls, show_path(k or ())), ok, r.where(j[6], j[7]),
                 'reads %s elements into a vector of %s' % (show(j[3]), show(j[4])))
    loops(r, cls, wi, ri, dyn, rdyn, wf, rf, wtabs)
    return 1


def definite(d):
    def leaf(a):
        if a[0] in ('i', 'in'):
            return True
        if a[0] == 'op' and a[1] == 'json':
            return True
        return a[0] == 'prj' and a[1][0] == 'jr'
    return all(leaf(a) for m in to_poly(d) for a in m)


def loc_names(l):
    out = loc_path(l)
    while l is not None and root_of(l)[0] == 'd':
        v = root_of(l)[1]
        if v[0] != 'in':
            break
        l = v[1]
        out += loc_path(l)
    return out


def mentions_in(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'in':
            yield v[1]
        for x in v:
            yield from mentions_in(x)


def restored(it, s, k, src, w):
    """(verdict, message) for the entry k, written from src, at the reader's end state s"""
    if src[0] == 'arr':
        if src[1][0] != 'in':
            return None, 'source of the array is not tracked'
        pv = it.load(s, moved(it, s, src[1][1]))
        hit = [(x, c) for x, y, c in s.tr.get('ja', ()) if y == pv]
        own = [(x, c) for x, c in hit if doc_path(x) == k]
        if own:
            c = subst(own[-1][1], w)
            d = psub(c, src[2])
            if d == ZERO:
                return True, ''
            return (False if all(a[0] == 'in' for m in to_poly(d) for a in m) else None), \
                'writes %s elements, reads %s' % (show(src[2]), show(c))
        if hit:
            return False, 'the array is read from "%s"' % show_path(doc_path(hit[-1][0]) or ())
        some = [x for x, y, c in s.tr.get('ja', ()) if doc_path(x) == k]
        return False, 'the entry is read into another array' if some else 'the array is not read'
    l = moved(it, s, src[1])
    v = it.load(s, l)
    got = doc_path(v[1] if v[0] == 'jr' else v)
    if got == k:
        return True, ''
    if v[0] == 'prj' and v[1][0] == 'jr':       # part of an object read by its own reader
        want = [x for x in reversed(loc_path(l)) if x != 'value_']
        have = [x[1] for x in v[2] if x[0] == 'f' and x[1] != 'value_']
        if doc_path(v[1][1]) == k[:-1]:
            return (True, '') if have == want else (False, '%s becomes %s' % (show(src[1]), show(v)[:80]))
    if got is not None:
        return False, '%s is read from "%s"' % (show(src[1]), show_path(got))
    for f in s.facts:                       # an optional entry that is absent
        if f[0] == 'b' and f[1][0] == 'op' and f[1][1] == 'isMember' and f[2] is False and ('s', k[-1]) in f[1]:
            return True, ''
    if any(j[0] == 'JR' and doc_path(j[1]) == k for j in it.journal) and jabsent(s, k):
        return True, ''
    if loc_path(l) and loc_path(l)[0] in BIMODAL_ONLY and it.load(s, F('bimodal_')) == FALSE or \
            loc_path(l) and loc_path(l)[0] in BIMODAL_ONLY and \
            it.truth(s, it.load(s, F('bimodal_'))) is False:
        return True, ''
    if v[0] == 'i':                             # decoded by case analysis
        j = ('op', 'json', ('in', pathloc(k)))
        if repr(j) in repr(s.facts):
            s2 = it.assume(s.clone(), ('cmp', 'eq', psub(j, v)), True)
            return (True, '') if s2 is not None else (False, '%s is decoded wrongly' % show(src[1]))
    r = repr(v)
    if "'json'" in r or "'jr'" in r or v[0] in ('u', 'lv', 'vecm', 'prj'):
        return None, '%s becomes %s' % (show(src[1]), show(v)[:80])
    return False, '%s is not restored (becomes %s)' % (show(src[1]), show(v)[:60])


def pathloc(k):
    l = ('A', 'root')
    for x in k:
        l = ('e', l, x)
    return l


def jabsent(s, k):
    """the path took the entry as absent or empty"""
    for f in s.facts:
        x = repr(f)
        if repr(k[-1]) in x and ("'jsize'" in x or "'isMember'" in x or "'isNull'" in x or "'empty'" in x):
            return True
    return False


# ------------------------------------------------------------------ element-wise entries
def rel(it, i):
    """(loop, offset) of an index counting the iterations of a loop from a constant; offset 'map' for a map key"""
    if i[0] == 'mapkey':
        return i[1], 'map'
    if i[0] == 'prj' and i[2] and i[2][-1][0] == 'e':
        i = i[2][-1][1]
    ls = lvs(i)
    if len(set(ls)) != 1:
        return None
    a = ls[0]
    off = psub(i, a)
    if off[0] != 'i':
        return None
    if isinstance(a[2], tuple) and a[2][0] == 'idx':
        return a[1], off[1]
    m = it.meta.get(a[1])
    if not m or m['step'].get(a[2]) not in (1, -1):
        return None
    if m['step'].get(a[2]) == -1:
        return a[1], ('down', m['entry'].get(a[2]), off)
    e = m['entry'].get(a[2])
    if e is None or e[0] != 'i':
        return None
    return a[1], e[1] + off[1]


def aligned(it, a, b):
    if a == b:
        return True
    x, y = rel(it, a), rel(it, b)
    if x is not None and b[0] == 'i' or y is not None and a[0] == 'i':
        return False
    if x is None or y is None or x[0] != y[0]:
        return None
    if 'map' in (x[1], y[1]):
        o = y[1] if x[1] == 'map' else x[1]
        return True if o in (0, 'map') else False
    return x[1] == y[1]


def loops(r, cls, wi, ri, dyn, rdyn, wf, rf, wtabs):
    """entries that are arrays or maps of elements"""
    wel, rel_ = {}, {}
    for _, root, k, v, st, fn, node in dyn:
        idx = [x for x in k if x[0] != 's']
        if len(idx) != 1 or idx[0][0] == 'i' and not st.tr.get('stk'):
            continue
        if idx[0][0] == 'i':
            continue                      # first pass of a loop that is widened afterwards
        nm = names(k)
        src = source(v)
        e = elem(src[1]) if src and src[0] == 'loc' else None
        if v[0] == 'mapkey':
            ok = aligned(wi, idx[0], v)
            wel.setdefault(nm, []).append((ok, None, k, st, fn, node, v))
        elif e is not None:
            wel.setdefault(nm, []).append((aligned(wi, idx[0], e[2]), e, k, st, fn, node, v))
        else:
            wel.setdefault(nm, []).append((None, None, k, st, fn, node, v))
    for j in rdyn:
        if j[0] == 'RW':
            k, dst, st, fn, node = doc_path(j[1]), j[2], j[3], j[4], j[5]
            idx = [x for x in k if x[0] != 's']
            if len(idx) == 1 and idx[0][0] != 'i':
                rel_.setdefault(names(k), []).append((aligned(ri, idx[0], dst[2]), dst[1], k, st, fn, node, None))
        elif j[0] in ('FJ', 'JV'):
            k, dst, st, fn, node = doc_path(j[1]), j[2], j[3], j[4], j[5]
            idx = [x for x in k or () if x[0] != 's']
            e = elem(dst)
            if len(idx) == 1 and idx[0][0] != 'i' and e is not None:
                rel_.setdefault(names(k), []).append((aligned(ri, idx[0], e[2]), e[1], k, st, fn, node, None))
        else:
            k, dst, key, st, fn, node = doc_path(j[1]), j[2], j[3], j[4], j[5], j[6]
            idx = [x for x in k or () if x[0] != 's']
            kp = doc_path(key)
            if len(idx) != 1:
                continue
            subs = {names(d[2])[-1] for d in dyn if d[3][0] == 'mapkey' and d[2][-1][0] == 's'} or {'label'}
            ok = None
            if kp is not None:
                ok = kp[:-1] == k and kp[-1][0] == 's' and kp[-1][1] in subs
            rel_.setdefault(names(k), []).append((ok, dst, k, st, fn, node, None))
    for nm, es in sorted(wel.items()):
        for ok, e, k, st, fn, node, v in es:
            r.ob('%s: elements of "%s" are written in order' % (cls, '.'.join(nm)), ok, r.where(fn, node),
                 'element %s is written at %s' % (show(e[2]) if e else show(v), [show(x) for x in k if x[0] != 's']))
            whole(r, cls, wi, k, e, st, fn, node, '%s: every element of "%s" is written' % (cls, '.'.join(nm)), nm, True)
        if nm[-1] != '*':
            continue
        rs = rel_.get(nm)
        if not rs:
            r.ob('%s: elements of "%s" are read' % (cls, '.'.join(nm)), False if not touched(ri, nm) else None,
                 r.where(rf), 'written element by element but never read' )
            continue
        for ok, dst, k, st, fn, node, _ in rs:
            r.ob('%s: elements of "%s" are read in order' % (cls, '.'.join(nm)), ok, r.where(fn, node),
                 'element %s of the document goes to another element' % [show(x) for x in k if x[0] != 's'])
            whole(r, cls, ri, k, None, st, fn, node, '%s: every element of "%s" is read' % (cls, '.'.join(nm)), nm, False)
            we = [e for _, e, *_ in es if e is not None]
            if we and dst is not None and root_of(dst) == ('T',):
                r.ob('%s: "%s" is read into the member it was written from' % (cls, '.'.join(nm)),
                     set(loc_path(we[0][1])) == set(loc_path(dst)), r.where(fn, node),
                     'written from %s, read into %s' % (show(we[0][1]), show(dst)))


def touched(it, nm):
    return any(j[0] in ('FJ', 'IN', 'JR', 'RW', 'JV') and doc_path(j[1]) and names(doc_path(j[1]))[0] == nm[0]
               for j in it.journal) or nm[0] in repr([j[2] for j in it.journal if j[0] == '#exit'])


def whole(r, cls, it, k, e, st, fn, node, key, nm, writer):
    i = [x for x in k if x[0] != 's'][0]
    x = rel(it, i)
    if x is None:
        r.ob(key, None, r.where(fn, node), 'not a counted loop')
        return
    if i[0] == 'prj':
        i = i[2][-1][1]
    uid = x[0]
    its = [j for j in it.journal if j[0] == '#it' and j[1] == uid]
    miss = [j for j in its if not any(event(w, nm) for w in j[2])]
    ok = None
    if its and not miss:
        ok = True
    elif its:
        ok = False
    if any(j[0] == '#brk' and j[1] == uid for j in it.journal):
        ok = False if ok is False else None
    if x[1] != 'map' and not (isinstance(lvs(i)[0][2], tuple) and lvs(i)[0][2][0] == 'idx') and \
            not rangefor(uid):
        if isinstance(x[1], tuple):
            ok = None if ok else ok
        elif x[1] != 0:
            ok = False
        his = []
        if writer and e is not None:
            his = [it.load(it.entry, ('f', e[1], '#size'))] + [('in', F(n, 'value_')) for n in ('dimension',)] + \
                  [('in', F('parameters', n, 'value_')) for n in ('states', 'gaussians')] + \
                  [it.load(it.entry, F('models', '#size'))]
        elif not writer:
            his = [('op', 'jsize', ('in', ('e', ('A', a), ('s', nm[0])))) for a in ('root',)] + \
                  [it.load(st, F('dimension', 'value_')), it.load(st, F('models', '#size'))]
        vs = [spans(it, i, ZERO, h) for h in his]
        if True not in vs and ok:
            bound = any(repr(lvs(i)[0]) in repr(f) and len(to_poly(f[1])) > 1 for s in exits_of(it, uid)
                        for f in s.facts if f[0] in ('le', 'eq'))
            ok = False if bound and vs and all(v is False for v in vs) else None
    r.ob(key, ok, r.where(fn, node), 'some elements are skipped')


def rangefor(uid):
    return uid[-1] == 'rfor'


def event(w, nm):
    if w[0] in ('FJ', 'IN', 'RW', 'JV'):
        p = doc_path(w[1])
        return p is not None and names(p) == nm
    return isinstance(w, tuple) and all(isinstance(x, tuple) for x in w) and names(w) == nm


# ------------------------------------------------------------------ array helpers
def helpers(r):
    n = 0
    for f in r.p.funcs.values():
        nm = short(f)
        if nm not in ('json2vector', 'json2array', 'vector2json', 'array2json') or not f.get('body'):
            continue
        if not (f.get('q') or '').startswith('xmm::'):
            continue
        n += 1
        helper(r, f, nm)
    r.floor('array helpers', n, 10)


class Copy(Base):
    def __init__(self):
        self.ev = []

    def on_write(self, it, st, loc, val, node, fr):
        while val and val[0] == 'obj' and val[1] in st.env:
            val = st.env[val[1]]
        if loc[0] == 'e':
            it.log(('CP', loc, val, st.clone(), fr.func, node))
            if loc[2][0] != 's':
                self.mark(st, 'cp')


def helper(r, f, nm):
    c = Copy()
    it = Interp(r.p, c, budget=200000)
    ps = f['params']
    key = '%s(%s)' % (nm, ', '.join(x['t'] for x in ps))
    a = r.analyse(it, f)
    if a is None:
        return
    ev = [j for j in it.journal if j[0] == 'CP' and lvs(j[1][2])]
    if not ev:
        r.ob(key + ' copies', None, r.where(f), 'no element-wise loop found')
        return
    for _, l, v, st, fn, node in ev:
        s = v
        while s[0] == 'op' and s[1] == 'json':
            s = s[2]
        si = s[1][2] if s[0] == 'in' and s[1][0] == 'e' else None
        ok = aligned(it, l[2], si) if si is not None else None
        r.ob(key + ': element i goes to element i', ok, r.where(fn, node), '%s := %s' % (show(l), show(v)))
        ok = None
        x = rel(it, l[2])
        u = lvs(l[2])[0][1]
        if x is None and any('cp' not in j[2] for j in it.journal if j[0] == '#it' and j[1] == u):
            ok = False
        if x is not None and not isinstance(x[1], tuple):
            its = [j for j in it.journal if j[0] == '#it' and j[1] == x[0]]
            ok = bool(its) and all('cp' in j[2] for j in its) and x[1] == 0
            if any(j[0] == '#brk' and j[1] == x[0] for j in it.journal):
                ok = None if ok else False
            if ok and not rangefor(x[0]):
                if nm == 'vector2json':
                    hi = it.load(it.entry, ('f', it.deref(('in', ('A', ps[0]['n']))) or ('A', ps[0]['n']), '#size'))
                    his = [hi, ('in', ('f', ('A', ps[0]['n']), '#size'))]
                else:
                    his = [('in', ('A', x['n'])) for x in ps[-1:]]
                vs = [spans(it, l[2], ZERO, h) for h in his]
                ok = True if True in vs else False if all(v is False for v in vs) else None
        r.ob(key + ': every element', ok, r.where(fn, node), 'the loop does not cover all elements')
