"""Matrices. For every operation of a matrix, with symbolic shapes and contents, every access to an element lies below the
number of rows times columns of the matrix (of both, for the product). Shapes: a product of matrices whose shapes do not
match, the inversion of one that is not square never end normally; matching ones are accepted; results have the right
shape and their storage the matching size. Constructors, copies and assignment leave `data` at the start of the own storage
of rows*columns elements when the matrix owns it, at the source's (or the given) place otherwise; nothing of the source is
written or released. Ownership: on every path of every function, library or user, that obtains a matrix from new or from
an operation returning one, each such matrix is at a normal end either returned or released, once, and at an exception
released; nothing is used or returned after its release."""
from common import *
from prog import walk
import bounds

LEVEL = 'proof'
EXPLANATION = ('Symbolic index bounds over all shapes; ownership typestate of allocated matrices over normal and '
               'exceptional paths, in the matrix class and its users.')

M = 'xmm::Matrix<double>'
GIVE = ('transpose', 'product', 'pinv', 'gauss_jordan_inverse')


def dims(base):
    return ('in', F('nrows', base=base)), ('in', F('ncols', base=base))


class Own(LoopTrack):
    """tr: 'new' allocations of matrices, 'del' released, 'held' (smart pointer location, address)"""
    stub = False

    def __init__(self, r, f, key):
        self.r, self.f, self.key = r, f, key

    def w(self, fr, node):
        return self.r.where(fr.func if fr and fr.func and 'q' in fr.func else self.f, node)

    def bad(self, it, what, fr, node, msg):
        it.log(('#ob', '%s: %s' % (self.key, what), False, self.w(fr, node), msg))

    def on_new(self, it, st, loc, node, n, fr):
        a = ('addr', loc)
        st.tr['new'] = tuple(x for x in st.tr.get('new', ()) if x != a) + (a,)
        st.tr['del'] = tuple(x for x in st.tr.get('del', ()) if x != a)

    def free(self, it, st, a, fr, node):
        if a in st.tr.get('del', ()):
            return self.bad(it, 'released once', fr, node, 'releases %s twice' % show(a)[:60])
        if a in st.tr.get('new', ()):
            st.tr['del'] = st.tr.get('del', ()) + (a,)

    def on_delete(self, it, st, val, ar, node, fr):
        if val == NULL or it.truth(st, val) is False:
            return
        if ar and val in st.tr.get('new', ()):
            self.bad(it, 'released the way it was obtained', fr, node, 'delete[] of a single matrix')
        if any(v == val for _, v in st.tr.get('held', ())):
            self.bad(it, 'released once', fr, node, 'releases what a smart pointer holds')
        if val[0] == 'in' and val[1] == F('data'):
            self.bad(it, 'only owned storage is released', fr, node, 'releases its data')
        self.free(it, st, val, fr, node)

    def on_call(self, it, st, node, callee, obj, args, fr):
        if not callee:
            return None
        q = callee.get('q') or ''
        nm = callee.get('n')
        if 'unique_ptr' in q or 'unique_ptr' in (callee.get('cls') or ''):
            h = dict(st.tr.get('held', ()))
            if nm == 'reset' and obj:
                old = h.pop(obj, None)
                if old is not None:
                    self.free(it, st, old, fr, node)
                v = it.aval(st, args[0], '') if args else None
                if v is not None and v[0] == 'addr':
                    self.take(it, st, h, v, fr, node)
                    h[obj] = v
                st.tr['held'] = tuple(sorted(h.items(), key=repr))
            elif nm == 'release' and obj:
                v = h.pop(obj, None)
                st.tr['held'] = tuple(sorted(h.items(), key=repr))
                if v is not None:
                    it.write(st, obj, NULL, node, fr)
                    return [(st, v)]
        if callee.get('cls') == M:
            for a in st.tr.get('del', ()):
                if obj and ('addr', obj) == a:
                    self.bad(it, 'not used after release', fr, node, 'uses %s' % show(a)[:60])
            if self.stub and nm in GIVE:
                return self.result(it, st, node, nm, obj, args, fr)
        return None

    def take(self, it, st, h, v, fr, node):
        if v in h.values():
            self.bad(it, 'released once', fr, node, 'held by two smart pointers')

    def on_write(self, it, st, loc, val, node, fr):
        self.mem(it, st, loc, node, fr)
        if loc[0] == 'L' and loc[2] in self.smart(fr) and val[0] == 'addr':
            h = dict(st.tr.get('held', ()))
            if h.get(loc) == val:
                return
            self.take(it, st, h, val, fr, node)
            h[loc] = val
            st.tr['held'] = tuple(sorted(h.items(), key=repr))

    def on_read(self, it, st, loc, node, fr):
        self.mem(it, st, loc, node, fr)

    def smart(self, fr):
        f = fr.func
        c = f.get('#smart')
        if c is None:
            c = f['#smart'] = {v['id'] for x in walk([f.get('body')]) if x.get('k') == 'decl' for v in x['d']
                               if v.get('k') == 'var' and 'unique_ptr' in (v.get('t') or '')}
        return c

    def mem(self, it, st, loc, node, fr):
        if loc[0] != 'e':
            return
        b, i = loc[1], loc[2]
        size = None
        if b[0] == 'd' and b[1][0] == 'in' and b[1][1][0] == 'f' and b[1][1][2] == 'data':
            rr, cc = dims(b[1][1][1])
            size = pmul(rr, cc)
        elif b[0] == 'f' and b[2] == '_data':
            size = it.load(st, ('f', b, '#size'))
            if ('addr', b[1]) in st.tr.get('del', ()):
                self.bad(it, 'not used after release', fr, node, 'an element of %s' % show(('addr', b[1]))[:60])
        if size is None or i[0] in ('s',):
            return
        it.log(('AC', i, size, st.clone(), node, fr.func))

    def result(self, it, st, node, nm, obj, args, fr):
        rr, cc = it.load(st, ('f', obj, 'nrows')), it.load(st, ('f', obj, 'ncols'))
        shape = (cc, rr)
        if nm == 'product':
            v = it.aval(st, args[0], '')
            o = it.deref(v)
            for a in st.tr.get('del', ()):
                if v == a:
                    self.bad(it, 'not used after release', fr, node, 'uses %s' % show(a)[:60])
            r2, c2 = it.load(st, ('f', o, 'nrows')), it.load(st, ('f', o, 'ncols'))
            shape = (rr, c2)
            self.shape(it, st, node, nm, psub(cc, r2), fr)
        elif nm == 'gauss_jordan_inverse':
            self.shape(it, st, node, nm, psub(rr, cc), fr)
        if nm in ('pinv', 'gauss_jordan_inverse'):
            it.throw(st.clone(), 'std::runtime_error', node, fr)
            if args:
                d = it.deref(it.aval(st, args[0], ''))
                if d is not None:
                    it.write(st, d, it.fresh(st, ('det', node.get('l'))), node, fr)
        loc = ('H', (fr.fid, node.get('l'), it.tmpid(node)))
        for x, v in (('nrows', shape[0]), ('ncols', shape[1]), ('ownData', ONE), ('data', ('iter', ('f', loc, '_data'), ZERO))):
            it.store(st, ('f', loc, x), v)
        it.store(st, ('f', ('f', loc, '_data'), '#size'), pmul(*shape))
        self.on_new(it, st, loc, node, None, fr)
        return [(st, ('addr', loc))]

    def shape(self, it, st, node, nm, d, fr):
        ok = True if d == ZERO or it.truth(st, ('cmp', 'eq', d)) else False if d[0] == 'i' or plain(it, d) else None
        it.log(('#ob', '%s: shapes passed to %s match' % (self.key, nm), ok, self.w(fr, node), 'they differ by %s' % show(d)[:80]))
        if ok is not True:
            it.throw(st.clone(), 'std::runtime_error', node, fr)


def ends(r, it, f, key, a):
    w = r.where(f)
    for kind, lst in (('a normal end', [(s, v, w) for s, v in a[0]]), ('an exception', [(s, None, '%s:%s' % tuple(
            i[1:3]) if isinstance(i, tuple) and len(i) > 2 else w) for s, t, i in a[1]])):
        for s, v, wh in lst:
            dele = s.tr.get('del', ())
            held = {x for _, x in s.tr.get('held', ())}
            for n in s.tr.get('new', ()):
                if not (n[1][0] == 'H'):
                    continue
                t = it.load(s, ('f', n[1], 'ownData'))
                gone = n in dele or n in held
                back = v == n
                if back:
                    r.ob(key + ': what is returned exists', not gone, w, 'returns a matrix it released')
                    continue
                st_ = stored(s, n)
                r.ob(key + ': released at %s' % kind, True if gone else None if st_ else False, wh,
                     '%s is never released' % show(n)[:70])


def stored(s, n):
    """kept somewhere that outlives the call"""
    return any(x == n and root_of(l)[0] not in ('L', 'H') and l[0] != 'L' for l, x in s.env.items())


def checks(r, it, f, key, normal=True):
    for j in it.journal:
        if j[0] == 'AC':
            _, i, size, st, node, fn = j
            r.ob('%s: elements inside the matrix' % key, bounds.inside(it, st, i, size), r.where(fn, node),
                 'element %s of %s' % (show(i)[:70], show(size)[:70]))


def own_state(it, st, base, own=True):
    for x in dims(base):
        it.nonneg.add(x)
    return st


def matrix_op(r, f):
    n = f['n']
    key = 'Matrix::%s(%s)' % (n, ', '.join(x['t'] for x in f['params']))
    variants = [None]
    if n == 'product':
        variants = [True, False]
    if n in ('gauss_jordan_inverse', 'pinv'):
        variants = [True, False]
    for var in variants:
        c = Own(r, f, key)
        c.stub = n == 'pinv'
        it = Interp(r.p, c, budget=400000)
        R, C = dims(('T',))
        O = ('d', ('in', ('A', f['params'][0]['n']))) if n == 'product' else None

        def setup(it, st, fr):
            own_state(it, st, ('T',))
            if O:
                own_state(it, st, O)
                d = psub(C, ('in', F('nrows', base=O)))
                st = it.assume(st, ('cmp', 'eq', d), var)
            elif var is not None:
                st = it.assume(st, ('cmp', 'eq', psub(R, C)), var)
            lim = {'swap_lines': R, 'swap_columns': C}.get(n)
            if lim is not None:
                for x in f['params']:
                    v = ('in', ('A', x['n']))
                    it.nonneg.add(v)
                    st = it.assume(st, ('cmp', 'le', padd(psub(v, lim), ONE)), True)
            return st
        a = r.analyse(it, f, cls=M, setup=setup)
        if a is None:
            continue
        checks(r, it, f, key)
        ends(r, it, f, key, a)
        w = r.where(f)
        if var is False and n != 'pinv':
            r.ob(key + ': an incompatible shape is refused', not a[0], w, 'it is accepted')
            for s, t, i in a[1]:
                r.ob(key + ': refused with an error', True if t.startswith('std::') else None, w, t)
        elif var is True and n == 'product':
            r.ob(key + ': a compatible shape is accepted', bool(a[0]) and not a[1], w, 'it is refused')
        elif var is True:
            r.ob(key + ': a compatible shape is accepted', bool(a[0]), w, 'it is refused')
        want = {'transpose': (C, R), 'gauss_jordan_inverse': (R, C), 'pinv': (C, R),
                'product': (R, ('in', F('ncols', base=O)) if O else None)}.get(n)
        if want and var is not False or n == 'pinv':
            for s, v in a[0]:
                if v and v[0] == 'addr':
                    got = [it.load(s, ('f', v[1], x)) for x in ('nrows', 'ncols')]
                    for g, x, nm in zip(got, want, ('rows', 'columns')):
                        d = psub(g, x)
                        ok = d == ZERO or bool(it.truth(s, ('cmp', 'eq', d)))
                        r.ob(key + ': shape of the result', True if ok else (False if plain(it, d) else None), w,
                             '%s %s' % (show(g)[:50], nm))
                    z = it.load(s, ('f', ('f', v[1], '_data'), '#size'))
                    d = psub(z, pmul(*got))
                    ok = d == ZERO or bool(it.truth(s, ('cmp', 'eq', d)))
                    r.ob(key + ': storage of the result', True if ok else (False if plain(it, d) else None), w,
                         '%s elements' % show(z)[:50])
                elif v is not None:
                    r.ob(key + ': returns a matrix', False if v == NULL else None, w, show(v)[:60])


def special(r, f):
    key = 'Matrix::%s(%s)' % (f['n'], ', '.join(x['t'] for x in f['params']))
    src = ('A', f['params'][0]['n']) if len(f['params']) == 1 and 'Matrix' in f['params'][0]['t'] else None
    c = Own(r, f, key)
    it = Interp(r.p, c, budget=100000)

    def setup(it, st, fr):
        own_state(it, st, ('T',))
        if src:
            own_state(it, st, src)
            ow = ('in', F('ownData', base=src))
            # a matrix owning its storage has the elements it says
            st.facts = st.facts | {('eq', psub(('in', ('f', F('_data', base=src), '#size')), pmul(*dims(src))))}
            if f['n'] == 'operator=':
                e = ('cmp', 'eq', psub(('addr', ('T',)), ('addr', src)))
                st = it.assume(st, e, False) or st
        elif f['n'] == 'resize':
            st = it.assume(st, ('in', F('ownData')), True) or st
        return st
    a = r.analyse(it, f, cls=M, setup=setup)
    if a is None:
        return
    checks(r, it, f, key)
    ends(r, it, f, key, a)
    w = r.where(f)
    own0 = F('_data')
    for s, _ in a[0] if not f['n'].startswith('~') else ():
        ob = it.boolterm(s, it.load(s, F('ownData')))
        for b in (True, False):
            y = it.assume(s.clone(), ob, b)
            if y is None:
                continue
            R, C = it.load(y, F('nrows')), it.load(y, F('ncols'))
            D = it.load(y, F('data'))
            if b:
                n = pmul(R, C)
                if n == ZERO:
                    continue
                r.ob(key + ': data is the own storage', True if D in (('iter', own0, ZERO), ('addr', ('e', own0, ZERO))) else (
                    False if D[0] in ('in', 'iter', 'addr', 'undef') else None), w, 'data is %s' % show(D)[:80])
                z = it.load(y, ('f', own0, '#size'))
                d = psub(z, n)
                ok = d == ZERO or bool(it.truth(y, ('cmp', 'eq', d)))
                r.ob(key + ': the storage has the size of the matrix', True if ok else (
                    False if plain(it, d) else None), w, '%s elements' % show(z)[:60])
            elif src:
                r.ob(key + ': shares what its source shares', True if D == ('in', F('data', base=src)) else (
                    False if D[0] in ('in', 'iter', 'undef') else None), w, 'data is %s' % show(D)[:60])
        if src:
            for x in ('nrows', 'ncols', 'ownData'):
                v = it.load(s, F(x))
                r.ob(key + ': copies %s' % x, True if v == ('in', F(x, base=src)) or it.truth(s, ('cmp', 'eq', psub(v, ('in', F(
                    x, base=src))))) else (False if v[0] in ('i', 'in') else None), w, '%s is %s' % (x, show(v)[:50]))
            bad = changed_locs(it, s, root=src)
            r.ob(key + ': the source stays', not bad, w, 'changes its source')
    r.ob(key + ': succeeds', bool(a[0]), w, 'never ends normally')


def users(r):
    n = 0
    for f in r.p.src_funcs():
        if not f.get('body') or f.get('cls') == M:
            continue
        if not any(x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('cls') == M and x['c'].get('n') in GIVE
                   for x in walk([f['body']])):
            continue
        n += 1
        key = '%s::%s' % ((f.get('cls') or '').split('::')[-1], f['n'])
        c = Own(r, f, key)
        c.stub = True
        c.inline = lambda fn, depth: fn.get('cls') == M or fn.get('cls', '').startswith('xmm::Attribute')
        it = Interp(r.p, c, budget=200000)

        def setup(it, st, fr):
            for x in ('dimension', 'dimension_input'):
                v = ('in', ('f', F(x), 'value_'))
                it.nonneg.add(v)
            dd, di = (('in', ('f', F(x), 'value_')) for x in ('dimension', 'dimension_input'))
            return it.assume(st, ('cmp', 'le', psub(di, dd)), True)
        a = r.analyse(it, f, cls=f.get('cls'), setup=setup)
        if a is None:
            continue
        ends(r, it, f, key, a)
        for j in it.journal:
            if j[0] == 'AC' and j[1] is not None:
                r.ob('%s: elements inside the matrix' % key, bounds.inside(it, j[3], j[1], j[2]), r.where(j[5], j[4]),
                     'element %s of %s' % (show(j[1])[:70], show(j[2])[:70]))
    r.floor('users of matrices', n, 2)


def run(r):
    p = r.p
    n = 0
    for nm, fs in sorted(p.methods[M].items()):
        for f in fs:
            if not f.get('body') or f.get('static'):
                continue
            n += 1
            if f.get('ctor') or nm in ('operator=', 'resize') or nm.startswith('~'):
                special(r, f)
            else:
                matrix_op(r, f)
    r.floor('matrix operations', n, 13)
    for x in GIVE + ('swap_lines', 'operator='):
        r.floor('operation ' + x, len([f for f in p.methods[M].get(x, []) if f.get('body')]), 1)
    users(r)
