"""Derived covariance quantities. (A) A distribution's update function writes the determinant and the inverse on every
path, for bimodal distributions also those of the input and the conditional output covariance, in both covariance modes;
diagonal inverses are the reciprocals of the variances. (B) In the distribution itself, every other function that
changes the covariance (mode conversion, setting from an ellipse) updates all of them after the last change on every
normal path; loading gives each of them a value after the covariance was read. (C) The per-class update and offset
functions run over every component, with the configured offset, which takes the larger of the absolute value and the
relative value times the deviation of its own column. (D) Typestate of the covariances of every component (written,
offset added, copied, up to date) over all paths of the initialisation and re-estimation steps of each class model: none
is out of date at the end, and none is inverted between being written and being offset."""
from common import *
from prog import walk
from c05 import subterms
from slicer import Slicer

LEVEL = 'other'
EXPLANATION = ('Typestate of covariances and their derived quantities over all paths; must-write analysis of the update '
               'functions.')

G = 'xmm::GaussianDistribution'
DER = ('covariance_determinant_', 'inverse_covariance_')
DERB = ('covariance_determinant_input_', 'inverse_covariance_input_', 'output_covariance')


def short(cls):
    return cls.split('::')[-1]


def top(l):
    p = loc_path(l)
    return p[-1] if p else None


# ------------------------------------------------------------------------------- (A), (B): one distribution
class Dist(Client):
    """tr['new']: derived fields written since the covariance last changed"""

    def __init__(self, stub):
        self.stub = stub

    def mark(self, st, l):
        t = top(l)
        if root_of(l) != ('T',):
            return
        if t == 'covariance':
            st.tr['new'] = ()
            st.tr['chg'] = 1
        elif t in DER + DERB:
            st.tr['new'] = tuple(sorted(set(st.tr.get('new', ())) | {t}))

    def on_write(self, it, st, loc, val, node, fr):
        self.mark(st, loc)

    def on_bulk(self, it, st, loc, node=None, fr=None, *a):
        if loc is not None:
            self.mark(st, loc)

    def on_loop(self, it, st, node, fr, phase, uid=None):
        ran = st.tr.get('ran', ())
        if phase == 'body' and uid not in ran:
            st.tr['ran'] = tuple(sorted(ran + (uid,), key=repr))
        elif phase == 'exit':
            if uid not in ran and not it.may_skip(st, uid):
                st.tr['#dead'] = 1
        elif phase == 'next':
            it.log(('#nx', uid, st.clone()))
            st.tr.pop('wr', None)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if obj == ('T',) and nm == 'updateInverseCovariance' and self.stub:
            st.tr['new'] = tuple(sorted(DER + DERB))
            for k in DER + DERB:
                it.havoc(st, F(k), 'inv')
            s2 = st.clone()
            it.throw(s2, 'std::runtime_error', node, fr)
            return [(st, None)]
        if obj == ('T',) and nm == 'updateOutputCovariance' and self.stub:
            return [(st, None)]
        if nm in ('pinv', 'product', 'transpose', 'inverse'):
            it.throw(st.clone(), 'std::runtime_error', node, fr)
            v = it.fresh(st, (nm, fr.fid, (node or {}).get('l')))
            for a in args[:1]:
                if nm == 'pinv' and a[0] != 'loc' and a[1][0] == 'addr':
                    it.write(st, a[1][1], it.fresh(st, ('det', fr.fid, (node or {}).get('l'))), node, fr)
            return [(st, v)]
        if nm == 'json2vector' and len(args) > 1 and args[1][0] == 'loc':
            l = it.resolve(st, args[1][1])
            it.throw(st.clone(), 'xmm::JsonException', node, fr)
            it.havoc(st, l, 'json')
            self.mark(st, l)
            return [(st, None)]
        if nm == 'allocate' and obj == ('T',):
            return [(st, None)]
        return None


def sized(it, st, bi):
    """dimensions are at least one, and the input of bimodal data is a part of it"""
    dim, din = (it.load(st, F(k, 'value_')) for k in ('dimension', 'dimension_input'))
    st = it.assume(st, ('cmp', 'le', psub(ONE, dim)), True)
    if bi:
        st = it.assume(st, ('cmp', 'le', psub(ONE, din)), True)
        st = it.assume(st, ('cmp', 'le', padd(psub(din, dim), ONE)), True)
    return st


def dist(r):
    p = r.p
    E = next((e for q, e in p.enums.items() if q.endswith('GaussianDistribution::CovarianceMode')), None)
    M = {x['n']: x['v'] for x in E['e']}
    n = 0
    ups = p.methods[G].get('updateInverseCovariance', [])
    for f in ups:
        for mode in sorted(M):
            for bi in (False, True):
                it = Interp(p, Dist(False), budget=300000)

                def setup(it, st, fr):
                    seed_bool(it, st, F('bimodal_'), bi)
                    st.env[F('covariance_mode', 'value_')] = ('i', M[mode])
                    return sized(it, st, bi)
                a = r.analyse(it, f, cls=G, setup=setup)
                if a is None:
                    continue
                n += 1
                key = 'updateInverseCovariance, %s, %s' % (mode, 'bimodal' if bi else 'unimodal')
                r.ob(key + ': can succeed', bool(a[0]), r.where(f), 'no path ends normally')
                for s, v in a[0]:
                    new = s.tr.get('new', ())
                    for k in DER + (DERB if bi else ()):
                        some = any(k in x.tr.get('new', ()) for x, _ in a[0])
                        r.ob('%s: %s is updated' % (key, k), k in new or (None if mode == 'Diagonal' and some and k in DERB
                                                                          else False), r.where(f),
                             'a path leaves %s as it was' % k)
        diag(r, f, M)
    for nm in sorted(p.methods[G]):
        for f in p.methods[G][nm]:
            if not f.get('body') or f.get('static') or nm in ('updateInverseCovariance', 'updateOutputCovariance',
                                                              'regularize', 'allocate', 'operator=') or f.get('copy'):
                continue
            if not writes_cov(f):
                continue
            n += 1
            for bi in (False, True):
                one(r, f, bi, M)
    r.floor('functions changing a covariance', n, 7)


def writes_cov(f):
    for x in walk([f.get('body'), f.get('inits')]):
        if x.get('k') == 'mem' and x.get('n') == 'covariance':
            return True
    return False


def one(r, f, bi, M):
    it = Interp(r.p, Dist(True), budget=300000)

    def setup(it, st, fr):
        seed_bool(it, st, F('bimodal_'), bi)
        return st
    a = r.analyse(it, f, cls=G, setup=setup)
    if a is None:
        return
    what = 'Json constructor' if f.get('ctor') else f['n']
    for s, v in a[0]:
        if not s.tr.get('chg'):
            continue
        new = s.tr.get('new', ())
        bim = it.truth(s, it.load(s, F('bimodal_')))
        for k in DER + (DERB if bim and not (f.get('ctor')) else ()):
            r.ob('%s: %s follows the covariance' % (what, k), k in new, r.where(f),
                 'a path changes the covariance and leaves %s as it was' % k)


def diag(r, f, M):
    """diagonal mode: each inverse is the reciprocal of its own variance, the determinant the product of all"""
    got = []

    class C(Dist):
        def on_write(self, it, st, loc, val, node, fr):
            if loc[0] == 'e' and loc[1] in (F('inverse_covariance_'), F('inverse_covariance_input_')):
                got.append((loc[1][2], loc[2], val, node, it.load(st, ('e', F('covariance'), loc[2]))))
                st.tr['wr'] = tuple(sorted(set(st.tr.get('wr', ())) | {(loc[1][2], loc[2])}, key=repr))
            super().on_write(it, st, loc, val, node, fr)
    it = Interp(r.p, C(False), budget=300000)

    def setup(it, st, fr):
        seed_bool(it, st, F('bimodal_'), True)
        st.env[F('covariance_mode', 'value_')] = ('i', M['Diagonal'])
        return sized(it, st, True)
    a = r.analyse(it, f, cls=G, setup=setup)
    if a is None:
        return
    dim, din = (it.load(it.entry, F(k, 'value_')) for k in ('dimension', 'dimension_input'))
    for name, hi in (('inverse_covariance_', dim), ('inverse_covariance_input_', din)):
        cells = {(idx, x[1]) for nme, idx, val, node, cov in got if nme == name for x in [idx] if x[0] == 'lv'}
        for idx, uid in cells:
            inside = True
            for j in it.journal:
                if j[0] == '#nx' and j[1] == uid:
                    st = j[2]
                    if (name, idx) not in st.tr.get('wr', ()):
                        ok = True if it.prove_le(st, psub(hi, idx)) else False
                        if ok is False and any(x[0] == 'b' and idx in subterms(x) and 'covariance' not in repr(x)
                                                for x in st.facts):
                            ok = None
                        inside = False if False in (inside, ok) else inside and ok
            r.ob('diagonal: every entry of %s is written' % name, inside, r.where(f), 'an entry is left as it was')
            sp = [spans(it, idx, ZERO, h) for h in {dim, hi}]
            r.ob('diagonal: the entries of %s are all visited' % name, True if True in sp else False if all(
                x is False for x in sp) else None, r.where(f), 'an entry is not visited')
    r.ob('diagonal: inverses are written one by one', bool(got) or None, r.where(f))
    for name, idx, val, node, cov in got:
        st = subterms(val)
        same = cov in st
        other = [x for x in st if x[0] == 'in' and len(x) > 1 and isinstance(x[1], tuple) and x[1][:2] ==
                 ('e', F('covariance')) and x[1][2] != idx]
        r.ob('diagonal: %s is computed from its own variance' % name, True if same else False if other else None,
             r.where(f, node), 'element %s becomes %s' % (show(idx), show(val)))


# ------------------------------------------------------------------------------- (C): per-class loops
class Each(LoopTrack):
    def __init__(self, nm):
        self.nm = nm

    def on_loop(self, it, st, node, fr, phase, uid=None):
        if phase == 'body':
            st.tr['hit'] = ()
        super().on_loop(it, st, node, fr, phase, uid)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == self.nm and obj and obj[0] == 'e' and obj[1] == F('components'):
            st.tr['hit'] = st.tr.get('hit', ()) + (obj[2],)
            v = None
            if args:
                l = args[0][1] if args[0][0] == 'loc' else None
                v = it.load(st, l) if l else args[0][1]
                src = (l and it.resolve(st, l), v, v[1] if v and v[0] in ('in', 'obj') else None,
                       v and v[0] == 'op' and v[-1])
                ok = any(root_of(x) == ('T',) and F('current_regularization') in (x, v and v[-1]) for x in src
                         if isinstance(x, tuple) and x and x[0] in ('f', 'e'))
                ok = ok or F('current_regularization') in (subterms(v) if v else ())
                if not ok and v and v[0] == 'obj':
                    ok = it.load(st, ('e', v[1], ZERO)) == ('in', ('e', F('current_regularization'), ZERO))
                it.log(('#ob', 'the configured offset is added', ok or (False if v and v[0] == 'vec' else None), '%s:%s' % (
                    fr.func.get('file', '?'), (node or {}).get('l')), 'another value is added'))
            it.throw(st.clone(), 'std::runtime_error', node, fr)
            return [(st, None)]
        if q.startswith('xmm::') and obj is not None and obj[0] == 'e':
            return [(st, None if (callee.get('rt') or 'void') == 'void' else it.fresh(st, ('x', fr.fid, (node or {}).get('l'))))]
        return None


def per_class(r):
    p = r.p
    cls = 'xmm::SingleClassGMM'
    n = 0
    for fn, nm in (('updateInverseCovariances', 'updateInverseCovariance'), ('addCovarianceOffset', 'regularize')):
        for f in p.methods[cls].get(fn, []):
            it = Interp(p, Each(nm), budget=100000)
            a = r.analyse(it, f, cls=cls)
            if a is None:
                continue
            n += 1
            uids = {j[1] for j in it.journal if j[0] == '#next'}
            best = None
            for u in uids:
                hits = {h for s in nexts(it, u) for h in s.tr.get('hit', ())}
                idx = [h for h in hits if any(x[0] == 'lv' and x[1] == u for x in subterms(h))]
                if not idx:
                    continue
                ev = every(it, u, lambda s: any(h in s.tr.get('hit', ()) for h in idx))
                sz = it.load(it.entry, ('f', F('components'), '#size'))
                gz = it.load(it.entry, F('parameters', 'gaussians', 'value_'))
                sp = [True if x[2][0] == 'idx' else spans(it, x, ZERO, hi) for h in idx for x in [h] for hi in (sz, gz)
                      if x[0] == 'lv']
                ok = ev and (True if True in sp else False if sp and all(y is False for y in sp) else None)
                best = ok if best is None else best or ok
                r.ob('%s: every component is visited' % fn, ok, r.where(f), 'a component is left out')
            r.ob('%s: the components are visited' % fn, best if best is not None else False, r.where(f),
                 'no component is visited')
            for s, v in a[0]:
                r.ob('%s: no path skips the components' % fn, bool(s.tr.get('done')) or None, r.where(f))
    for f in p.methods[cls].get('initParametersToDefault', []):
        got = []

        class C(Client):
            def on_write(self, it, st, loc, val, node, fr):
                if loc[0] == 'e' and loc[1] == F('current_regularization'):
                    got.append((loc[2], val, node))

            def on_call(self, it, st, node, callee, obj, args, fr):
                nm = ((callee or {}).get('q') or '').split('::')[-1]
                return [(st, None)] if nm == 'regularize' else None
        it = Interp(p, C(), budget=200000)
        a = r.analyse(it, f, cls=cls)
        if a is None:
            continue
        n += 1
        r.ob('the offset is computed', bool(got) or None, r.where(f))
        sd = ('A', f['params'][0]['n']) if f['params'] else None
        whole = set()
        for idx, val, node in got:
            st = subterms(val)
            whole |= set(st)
            e = [x for x in st if isinstance(x, tuple) and len(x) > 1 and x[0] == 'in' and isinstance(x[1], tuple) and
                 x[1][0] == 'e' and x[1][1] == sd]
            for x in e:
                r.ob('the offset uses the deviation of its own column', x[1][2] == idx, r.where(f, node),
                     'element %s uses deviation %s' % (show(idx), show(x[1][2])))
        for k in ('absolute_regularization', 'relative_regularization'):
            v = it.load(it.entry, F('parameters', k, 'value_'))
            r.ob('the offset uses the %s' % k.replace('_', ' '), v in whole or (None if not got else False), r.where(f),
                 'it does not depend on it')
    r.floor('per-class functions', n, 3)


# ------------------------------------------------------------------------------- (D): estimation steps
RANK = {'c': 0, 'r': 1, 'w': 2}


class Est(Client):
    """tr['cv']: ((owner, component), mode); owner: location of the mixture or ('*', container)"""

    def __init__(self, p, rel):
        self.rel = rel
        self.key = ''

    def put(self, st, owner, comp, mode, force=False):
        d = dict(st.tr.get('cv', ()))
        k = (owner, comp)
        d[k] = mode if force or k not in d or RANK[mode] > RANK[d[k]] or mode == 'w' else d[k]
        st.tr['cv'] = tuple(sorted(d.items(), key=repr))

    def split(self, l):
        """location inside a covariance -> (owner, component index)"""
        while l is not None and l[0] in ('f', 'e'):
            if l[0] == 'f' and l[2] == 'covariance' and l[1][0] == 'e' and l[1][1][0] == 'f' and \
                    l[1][1][2] == 'components':
                return l[1][1][1], l[1][2]
            l = loc_parent(l)
        return None

    def on_write(self, it, st, loc, val, node, fr):
        k = self.split(loc)
        if k is None or root_of(k[0]) != ('T',):
            return
        whole = loc[0] == 'f' and loc[2] == 'covariance'
        copied = whole and val is not None and (isinstance(val[-1], tuple) and len(val[-1]) > 2
                                          and val[-1][0] == 'f' and val[-1][2] == 'covariance')
        if whole and not copied and val is not None and val[0] != 'vec':
            copied = any(isinstance(x, tuple) and len(x) > 2 and x[0] == 'f' and x[2] == 'covariance' for x in subterms(val))
        self.put(st, k[0], k[1], 'c' if copied else 'w', force=not copied and False)

    def on_bulk(self, it, st, loc, node=None, fr=None, *a):
        if loc is None:
            return
        k = self.split(loc)
        if k and root_of(k[0]) == ('T',):
            self.put(st, k[0], k[1], 'w')

    def starred(self, owner):
        return ('*', owner[1]) if owner[0] == 'e' else owner

    def norm(self, st, uid):
        d = {}
        for (o, c), m in st.tr.get('cv', ()):
            if any(x[0] in ('lv', 'mapkey') and x[1] == uid for x in subterms(o) if isinstance(x, tuple) and len(x) > 1):
                o = self.starred(o)
            if any(x[0] in ('lv', 'mapkey') and x[1] == uid for x in subterms(c) if isinstance(x, tuple) and len(x) > 1):
                c = ('*',)
            k = (o, c)
            d[k] = m if k not in d or RANK[m] > RANK[d[k]] else d[k]
        if 'cv' in st.tr:
            st.tr['cv'] = tuple(sorted(d.items(), key=repr))

    def on_loop(self, it, st, node, fr, phase, uid=None):
        if uid is None:
            return
        did = dict(st.tr.get('did', ()))
        acc = dict(st.tr.get('acc', ()))
        if phase == 'body':
            did[uid] = ()
        elif phase in ('next', 'break', 'return'):
            ops = did.pop(uid, ())
            if phase == 'next':
                for c, op in ops:
                    it.log(('DID', uid, c, op))
                acc[uid] = ops if uid not in acc else tuple(x for x in acc[uid] if x in ops)
            self.norm(st, uid)
        elif phase == 'exit':
            ops = acc.pop(uid, None)
            did.pop(uid, None)
            if ops is None:
                # numbers of states, components, dimensions and phrases are at least one here
                st.tr['#dead'] = 1
            else:
                for c, op in ops:
                    self.apply(st, ('*', c), op)
        for nm, d in (('did', did), ('acc', acc)):
            if d:
                st.tr[nm] = tuple(sorted(d.items(), key=repr))
            else:
                st.tr.pop(nm, None)

    def apply(self, st, owner, op):
        d = {}
        for (o, c), m in st.tr.get('cv', ()):
            if o == owner:
                if op == 'inv':
                    continue
                m = 'r'
            d[(o, c)] = m
        if op == 'reg' and not any(o == owner for o, c in d):
            d[(owner, ('*',))] = 'r'
        if d:
            st.tr['cv'] = tuple(sorted(d.items(), key=repr))
        else:
            st.tr.pop('cv', None)

    def op(self, it, st, owner, op, node, fr):
        w = '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l'))
        did = dict(st.tr.get('did', ()))
        ls = [x for x in subterms(owner) if isinstance(x, tuple) and len(x) > 1 and x[0] in ('lv', 'mapkey')] \
            if owner[0] == 'e' else []
        earlier = False
        for x in ls:
            if x[1] in did:
                earlier = (owner[1], 'reg') in did[x[1]]
                if op == 'inv' or (owner[1], op) not in did[x[1]]:
                    did[x[1]] = did[x[1]] + ((owner[1], op),) if (owner[1], op) not in did[x[1]] else did[x[1]]
                it.log(('IDX', x[1], owner[1], owner[2]))
        if did:
            st.tr['did'] = tuple(sorted(did.items(), key=repr))
        if op == 'inv':
            bad = [c for (o, c), m in st.tr.get('cv', ()) if m == 'w' and o == owner]
            if not earlier and owner[0] == 'e':
                bad += [c for (o, c), m in st.tr.get('cv', ()) if m == 'w' and o == ('*', owner[1])]
            it.log(('#ob', '%s: covariances are offset before they are inverted' % self.key, not bad, w,
                    'inverted after being estimated, without the offset'))
        self.apply(st, owner, op)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm in ('updateInverseCovariances', 'addCovarianceOffset') and obj and root_of(obj) == ('T',):
            if nm == 'updateInverseCovariances':
                it.throw(st.clone(), 'std::runtime_error', node, fr)
            self.op(it, st, it.resolve(st, obj), 'inv' if nm[0] == 'u' else 'reg', node, fr)
            return [(st, None)]
        if nm in ('updateInverseCovariance', 'regularize') and obj and root_of(obj) == ('T',):
            o = it.resolve(st, obj)
            k = self.split(('f', o, 'covariance'))
            if k:
                if nm == 'regularize':
                    self.put(st, k[0], k[1], 'r')
                    d = dict(st.tr['cv'])
                    d[k] = 'r'
                    st.tr['cv'] = tuple(sorted(d.items(), key=repr))
                else:
                    st.tr['odd'] = 1
            return [(st, None)]
        if nm == 'train' and obj is not None and root_of(obj) != ('T',):
            return [(st, None)]
        i = (callee or {}).get('id')
        if q.startswith('xmm::') and i in it.p.funcs and i not in self.rel and not callee.get('ctor'):
            rt = callee.get('rt') or 'void'
            if it.p.funcs[i].get('const') and not args and obj is not None and root_of(obj) != ('T',) and \
                    rt in ('bool', 'unsigned int', 'std::size_t', 'unsigned long', 'int'):
                # a query of an object that is not changed here
                return [(st, ('op', 'query', nm, obj))]
            if rt == 'void' or not it.is_obj(rt) and '*' not in rt and '&' not in rt and 'ttribute' not in q:
                it.throw(st.clone(), 'std::runtime_error', node, fr)
                return [(st, None if rt == 'void' else it.fresh(st, ('st', fr.fid, (node or {}).get('l'))))]
        return None


def relevant(p):
    names = {'updateInverseCovariances', 'updateInverseCovariance', 'addCovarianceOffset', 'regularize'}
    out = set()
    call = {}
    for f in p.src_funcs():
        call[f['id']] = set()
        for x in walk([f.get('body'), f.get('inits')]):
            if x.get('k') == 'mem' and x.get('n') == 'covariance':
                out.add(f['id'])
            if x.get('k') in ('call', 'construct') and isinstance(x.get('c'), dict):
                if x['c'].get('n') in names:
                    out.add(f['id'])
                call[f['id']].add(x['c'].get('id'))
    ch = True
    while ch:
        ch = False
        for i, cs in call.items():
            if i not in out and cs & out:
                out.add(i)
                ch = True
    return out


def estimate(r):
    p = r.p
    rel = relevant(p)
    names = {'updateInverseCovariances', 'updateInverseCovariance', 'addCovarianceOffset', 'regularize'}
    sl = Slicer(lambda x: x.get('k') == 'mem' and x.get('n') == 'covariance' or x.get('k') in ('call', 'construct') and
                isinstance(x.get('c'), dict) and (x['c'].get('n') in names or x['c'].get('id') in rel))
    for cls in p.methods:
        if cls == G:
            continue
        for nm, fs in p.methods[cls].items():
            for i, f in enumerate(fs):
                if f['id'] in rel and f.get('body') and not f.get('ctor'):
                    fs[i] = p.funcs[f['id']] = sl.function(f)
    n = 0
    for cls in sorted(p.methods):
        if not any(fd['n'] == 'training_status' for _, fd in p.fields(cls)):
            continue
        for nm in ('emAlgorithmInit', 'emAlgorithmUpdate'):
            for f in p.methods[cls].get(nm, []):
                if not f.get('body'):
                    continue
                n += 1
                c = Est(p, rel)
                c.key = '%s::%s' % (short(cls), nm)
                it = Interp(p, c, budget=900000)
                a = r.analyse(it, f, cls=cls)
                if a is None:
                    continue
                r.ob(c.key + ': can succeed', bool(a[0]) or None, r.where(f))
                inv = {}
                for j in it.journal:
                    if j[0] == 'IDX':
                        inv.setdefault((j[1], j[2]), set()).add(j[3])
                okspan = {}
                for (u, cont), idx in inv.items():
                    for x in idx:
                        if x[0] != 'lv':
                            continue
                        hi = [it.load(it.entry, ('f', cont, '#size'))]
                        if cont == F('states'):
                            hi.append(it.load(it.entry, F('parameters', 'states', 'value_')))
                        res = [True if isinstance(x[2], tuple) and x[2][0] == 'idx' else spans(it, x, ZERO, h) for h in hi]
                        okspan[(u, cont)] = True if True in res else False if all(y is False for y in res) else None
                        r.ob(c.key + ': every state is visited', okspan[(u, cont)], r.where(f), 'a state is left out')
                for s, v in a[0]:
                    left = []
                    for (o, cmp_), m in s.tr.get('cv', ()):
                        left.append((o, cmp_, m))
                    r.ob(c.key + ': inverses follow the covariances', not left if not s.tr.get('odd') else None, r.where(f),
                         'a path leaves the inverse of a changed covariance as it was: ' + str([(show(a[0]) if a[0][0]!='*' else a[0], m) for *a, m in left]))
    r.floor('initialisation and re-estimation functions', n, 4)


def run(r):
    dist(r)
    per_class(r)
    estimate(r)
