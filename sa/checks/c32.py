"""Class-list operations of a hierarchical model = its methods (final overriders, constructors and assignments) whose effect
set contains the class list or one of the class-level parameter arrays (prior, transition, exit_transition). Invariant: every
such array, and every row of the transition matrix, has one entry per class.
(A) From a model with the invariant, each operation ends with the invariant; operations called while it holds are used by
their own obligation, methods that cannot change these sizes are skipped (effect analysis), everything else is inlined.
(B) The update of the class-level parameters sizes all of them, every row included, whenever the number of classes differs.
(C) Removing a class erases the given label and no other; an unknown label is refused before anything changes; clearing
leaves no class; preparing a class adds at most its own label."""
from common import *
from effects import Effects
from prog import walk

LEVEL = 'proof'
EXPLANATION = ('Inductive size invariant over all operations that can change the class list (found by effect analysis), with '
               'case analysis of every path end; coverage of the transition rows by loop spans.')

CLS = 'xmm::HierarchicalHMM'
ARR = ('prior', 'transition', 'exit_transition')
ALL = ('models',) + ARR


def size(it, s, n, base=('T',)):
    return it.load(s, ('f', F(n, base=base), '#size'))


def same(it, s, a, b):
    if a == b:
        return True
    d = psub(a, b)
    if d[0] == 'i':
        return d[1] == 0
    return it.truth(s, ('cmp', 'eq', d))


def sized(it, s, base=('T',)):
    """one entry per class: (verdict, array, size, classes)"""
    n = size(it, s, 'models', base)
    res = (True, '', None, n)
    for a in ARR:
        m = size(it, s, a, base)
        ok = same(it, s, m, n)
        if ok is None:
            # sizes known up to entry values of different arrays: n classes on entry, and the array never resized
            ok = definite(it, s, m, n)
        if ok is False:
            return (False, a, m, n)
        if ok is None:
            res = (None, a, m, n)
    return res


def definite(it, s, m, n):
    """The two sizes are different expressions of sizes that vary independently."""
    d = psub(m, n)
    if d[0] == 'i':
        return d[1] == 0
    broke = getattr(it.c, 'broke', set())
    for a in atoms(d):
        if a[0] == 'in' and a[1][0] == 'f' or a[:2] == ('u', 'entries') or a[:2] == ('u', 'classes'):
            continue
        if a[0] == 'lv' and a[1] in broke:      # the number of classes after a loop that changes only it
            continue
        return None
    return False


def atoms(d):
    return [a for m in to_poly(d) for a in m]


def start(it, st, base=('T',)):
    n = size(it, st, 'models', base)
    it.nonneg.add(n)
    for a in ARR:
        st.env[('f', F(a, base=base), '#size')] = n
    return st


def agree(it, s, base=('T',)):
    """do the class-level arrays have the same size?"""
    m = [size(it, s, a, base) for a in ARR]
    for a, b in zip(m, m[1:]):
        ok = same(it, s, a, b)
        if ok is not True:
            return ok
    return True


def keeps_size(f, i):
    """the function only reads and writes elements of its parameter i"""
    if not f.get('body'):
        return False
    me = f['params'][i]['id']
    uses = sum(1 for n in walk(f['body']) if n.get('k') == 'ref' and n.get('id') == me)
    fine = 0
    for n in walk(f['body']):
        if n.get('k') == 'call' and (n.get('op') == '[]' or (n.get('c') or {}).get('n') in ('size', 'at', 'operator[]')):
            o = n.get('o') or (n.get('a') or [{}])[0]
            fine += o.get('k') == 'ref' and o.get('id') == me
    return uses == fine


class Ops(LoopTrack):
    """Loops are assumed to preserve what `level` claims of them (2: one entry per class, 1: arrays of one size), which is
    verified at the end of every iteration; a claim that fails is withdrawn and the analysis repeated."""

    def __init__(self, p, ef, ops, top, level):
        self.p, self.ef, self.ops, self.top, self.level = p, ef, ops, top, level
        self.weak = {}
        self.broke = set()

    def on_loop(self, it, st, node, fr, phase, uid=None):
        super().on_loop(it, st, node, fr, phase, uid)
        lv = self.level.get(uid, 2)
        if phase in ('body', 'exit') and uid in it.loop_entry:
            self.hold(it, it.loop_entry[uid], uid, lv)
        if phase == 'body' or phase == 'exit':
            if lv == 2:
                n = size(it, st, 'models')
                for a in ARR:
                    st.env[('f', F(a), '#size')] = n
            elif lv == 1:
                n = it.fresh(st, ('entries', uid))
                it.nonneg.add(n)
                for a in ARR:
                    st.env[('f', F(a), '#size')] = n
        elif phase == 'next':
            self.hold(it, st, uid, lv)

    def hold(self, it, st, uid, lv):
        ok = sized(it, st)[0]
        if ok is False and st is not it.loop_entry.get(uid):
            self.broke.add(uid)
        if lv == 2 and ok is not True:
            lv = 1
        if lv == 1 and agree(it, st) is not True:
            lv = 0
        if lv < self.level.get(uid, 2):
            self.weak[uid] = min(lv, self.weak.get(uid, 2))

    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'e' and loc[1] == F('models') and val == ('erased',):
            st.tr['gone'] = tuple(sorted(set(st.tr.get('gone', ())) | {loc[2]}, key=repr))
        if has_prefix(loc, F('transition')):
            st.tr['own'] = 1
        if loc[0] == 'e' and loc[1] == F('transition'):
            it.log(('row', loc[2], val, st.clone()))
        elif loc[0] == 'f' and loc[2] == '#size' and loc[1][0] == 'e' and loc[1][1] == F('transition'):
            it.log(('row', loc[1][2], ('vec', val, None), st.clone()))

    def target(self, it, callee, node, obj):
        g = self.p.funcs.get((callee or {}).get('id'))
        if g and (callee.get('virt') or g.get('virt')) and not node.get('qualified'):
            g = self.p.resolve_virtual(g['id'], CLS) or g
        return g

    def on_call(self, it, st, node, callee, obj, args, fr):
        c = callee or {}
        if obj is None:
            g = self.p.funcs.get(c.get('id'))
            if not g or not g.get('body') or not g['q'].startswith('xmm::'):
                return None
            sm = self.ef.of(g['id'], None)
            if sm.glob or any(x[0][0] != 'p' or x[1] or not keeps_size(g, x[0][1]) for x in sm.w):
                return None
            st = st.clone()
            for x in sm.w:
                k, l = args[x[0][1]][0], args[x[0][1]][1]
                if k not in ('ref', 'obj', 'loc', 'addr'):
                    return None
                l = it.resolve(st, l)
                n = it.load(st, ('f', l, '#size'))
                it.drop(st, l)
                it.havoc(st, l, (node.get('l'), x[0][1]))
                st.env[('f', l, '#size')] = n
            return [(st, self.result(it, st, g))]
        if c.get('ctor') or node.get('k') == 'construct':
            return self.built(it, st, node, c, obj)
        o = it.resolve(st, obj)
        if o != ('T',):
            if has_prefix(o, F('models')) and o[0] == 'e':
                return self.element(it, st, node, c)
            return None
        g = self.target(it, c, node, o)
        if not g or g['n'] in ('size', 'checkTraining'):
            return None
        sm = self.ef.of(g['id'], CLS)
        hit = {x[1][0] for x in sm.w if x[0] == 'this' and len(x[1]) == 1 and x[1][0] in ALL}
        if not g.get('body') or not g.get('cls', '').startswith(('xmm::Model<', CLS)):
            return None
        if g['id'] in self.ops and g['id'] != self.top and self.restores(g) and agree(it, st) is True:
            st = st.clone()
            n = size(it, st, 'models')
            self.forget(it, st, sm, node)
            st.tr.pop('own', None)
            for a in ARR:
                it.drop(st, F(a))
                st.env[('f', F(a), '#size')] = n
            return [(st, self.result(it, st, g))]
        if g['id'] in self.ops and g['id'] != self.top and sized(it, st)[0] is True and g['cls'] == CLS:
            st = st.clone()
            self.forget(it, st, sm, node)
            n = ZERO if g['n'] == 'clear' else it.fresh(st, ('classes', node.get('l'), g['n']))
            it.nonneg.add(n)
            st.tr.pop('own', None)
            for a in ALL:
                it.drop(st, F(a))
                st.env[('f', F(a), '#size')] = n
            if g['n'] == 'addModelForClass' and args:           # the class is there (C)
                k = it.aval(st, args[0], '')
                t = ('op', 'has', F('models'), k)
                it.boolset.add(t)
                st = it.assume(st, t, True) or st
            if g['n'] == 'removeClass' or g['n'] == 'clear':
                st.tr['gone'] = ()
            return [(st, self.result(it, st, g))]
        if not hit and not any(x[0] == 'this' and not x[1] for x in sm.w):
            st = st.clone()
            self.forget(it, st, sm, node)
            return [(st, self.result(it, st, g))]
        return None

    def restores(self, g):
        return restorer(self.ops[g['id']])

    def forget(self, it, st, sm, node):
        for f in sorted({x[1][0] for x in sm.w if x[0] == 'this' and x[1]}):
            if f not in ALL:
                it.drop(st, F(f))
                it.havoc(st, F(f), (node.get('l'), f))

    def result(self, it, st, g):
        return None if g.get('rt', 'void') == 'void' else it.fresh(st, ('r', g['n']))

    def element(self, it, st, node, c):
        """a method of one class: it cannot reach the list of classes"""
        g = self.p.funcs.get(c.get('id'))
        if not g or not (g.get('cls') or '').startswith('xmm::SingleClass'):
            return None
        return [(st, None if g.get('rt', 'void') == 'void' else it.fresh(st, ('r', g['n'])))]

    def inline(self, func, depth):
        # reading the classes themselves from a file is the matter of C14
        return not (func.get('ctor') and func['cls'].startswith('xmm::Model<') and 'Json' in func['params'][0]['t']
                    if func['params'] else False)

    def built(self, it, st, node, c, obj):
        cls = c.get('cls', '')
        o = it.resolve(st, obj)
        pt = ' '.join(c.get('pt', []))
        if cls == CLS and o != ('T',):              # a temporary: its own constructor is checked on its own
            st = st.clone()
            it.drop(st, o)
            return [(start(it, st, o), None)]
        if cls.startswith('xmm::Model<') and 'Json' in pt:
            st = st.clone()
            it.drop(st, o)
            for f in ('models', 'prior', 'transition', 'exit_transition'):
                if f != 'models':
                    st.env[('f', F(f, base=o), '#size')] = ZERO
            return [(st, None)]
        return None


def operations(p, ef):
    out = {}
    for c in sorted(p.bases(CLS)):
        for l in p.methods[c].values():
            for f in l:
                if not f.get('body') or f.get('const') or f.get('static') or f['n'].startswith('~'):
                    continue
                g = f if f.get('ctor') or f['n'] == 'operator=' else (p.resolve_virtual(f['id'], CLS) or f)
                if (f.get('ctor') or f['n'] == 'operator=') and c != CLS:
                    continue
                if g['id'] != f['id'] and g['cls'] == CLS:
                    continue
                hidden = [h for h in p.methods[CLS].get(f['n'], []) if h.get('body')]
                if c != CLS and hidden and [x['t'] for x in hidden[0]['params']] == [x['t'] for x in f['params']]:
                    continue
                sm = ef.of(f['id'], CLS)
                hit = {x[1][0] for x in sm.w if x[0] == 'this' and len(x[1]) == 1 and x[1][0] in ALL}
                if hit or f.get('ctor'):
                    out[f['id']] = (f, hit)
    return out


def restorer(op):
    f, hit = op
    return hit == set(ARR) and not f.get('ctor') and f['n'] != 'operator='


def run(r):
    p = r.p
    ef = Effects(p)
    ops = operations(p, ef)
    # a protected method none but its own class calls, and which alone does not set every array, is a part of its callers
    parts = {i for i, (f, hit) in ops.items() if f['acc'] != 'public' and 'models' not in hit and hit != set(ARR)}
    n = 0
    for i, (f, hit) in sorted(ops.items(), key=lambda x: (x[1][0]['n'], x[0])):
        if i in parts:
            continue
        n += 1
        one(r, p, ef, ops, f, hit)
    r.floor('operations on the list of classes', n, 8)
    removal(r, p, ef, ops)


def one(r, p, ef, ops, f, hit):
    src = None
    if f['params'] and CLS in f['params'][0]['t']:
        src = ('A', f['params'][0]['n'])

    def setup(it, st, fr):
        if restorer((f, hit)):
            n = it.fresh(st, 'entries')
            it.nonneg.add(n)
            for a in ARR:
                st.env[('f', F(a), '#size')] = n
        elif not f.get('ctor'):
            st = start(it, st)
        if src:
            v = st.env.get(src)
            base = it.resolve(st, src)
            for b in {src, base}:
                start(it, st, b)
            n = size(it, st, 'models', base)
            for a in ARR:
                st.env[('f', F(a, base=src), '#size')] = n
        return st
    it, cl, a = settle(r, p, ef, ops, f, setup)
    if a is None:
        return
    key = '%s(%s)' % (f['q'].replace(', xmm::HMM', ''), ', '.join(x['n'] for x in f['params']))
    w = r.where(f)
    r.ob(key + ': ends', True if a[0] else None, w, 'no path ends')
    for s, v in a[0]:
        ok, arr, m, n = sized(it, s)
        r.ob(key + ': one entry per class', ok, w, '%s has %s entries for %s classes' % (arr, show(m)[:60] if m else '?', show(n)[:60]))
        if s.tr.get('own') and ok is not False:
            k, why = rows(it, s, src)
            r.ob(key + ': every row of transition has one entry per class', k, w, why)


def settle(r, p, ef, ops, f, setup):
    level = {}
    while True:
        cl = Ops(p, ef, ops, f['id'], level)
        it = Interp(p, cl, budget=400000)
        quiet = len(r.obs) if hasattr(r, 'obs') else 0
        a = r.analyse(it, f, cls=CLS, setup=setup)
        if a is None or not cl.weak:
            return it, cl, a
        level.update(cl.weak)


def rows(it, s, src):
    """Has every row of the transition matrix as many entries as there are classes?"""
    T = F('transition')
    n = size(it, s, 'models')
    if n == ZERO or it.truth(s, ('cmp', 'eq', n)) is True:
        return True, ''
    v = s.env.get(T)
    if src and v is not None and v[0] in ('in', 'obj') and v[1][0] == 'f' and v[1][2] == 'transition' and root_of(v[1]) == src:
        return True, ''                        # the rows of a model that is consistent
    if v is None and ('f', T, '#size') in s.env and s.env[('f', T, '#size')] == it.load(it.entry, ('f', T, '#size')):
        return True, ''
    log = [j for j in it.journal if j[0] == 'row']
    done = s.tr.get('done', ())
    best = False if not log and v is not None and v[0] == 'vec' and v[2] is None else None
    why = 'no row is given its size'
    for _, idx, val, st in log:
        m = val[1] if val[0] in ('vec', 'resize') else val[2] if val[:2] == ('op', 'resize') else None
        if m is None:
            best = None
            continue
        ok = same(it, st, m, n)
        sp = spans(it, idx, ZERO, n)
        run = [u for u in done if any(x[1] == u for x in lvs(idx))] or not lvs(idx)
        if ok is True and sp is True and run:
            return True, ''
        why = 'rows %s get %s entries for %s classes' % (show(idx)[:30], show(m)[:40], show(n)[:40])
        if ok is False or sp is False:
            best = False if best is None and (log[0][1] == idx or True) else best
        else:
            best = None if best is not False else best
    return best, why


def removal(r, p, ef, ops):
    n = 0
    for i, (f, hit) in sorted(ops.items()):
        if f['n'] not in ('removeClass', 'clear', 'addModelForClass'):
            continue
        n += 1
        w = r.where(f)
        lab = ('in', ('A', f['params'][0]['n'])) if f['params'] else None
        for known in ((True, False) if lab else (None,)):
            has = ('op', 'has', F('models'), lab)

            def setup(it, st, fr):
                it.boolset.add(has)
                st = start(it, st)
                # no training runs: what happens to a class in training is the matter of C17 and C18
                t = it.load(st, F('is_training_'))
                seed_bool(it, st, F('is_training_'), False)
                return it.assume(st, has, known) or st if lab else st
            it, cl, a = settle(r, p, ef, ops, f, setup)
            if a is None:
                continue
            key = f['q'] + ('' if known is None else ', known class' if known else ', unknown class')
            if f['n'] == 'removeClass':
                if known:
                    r.ob(key + ': ends', bool(a[0]), w, 'never ends normally')
                else:
                    r.ob(key + ': is refused', not a[0], w, 'returns although there is no such class')
                    for s, t, where in a[1]:
                        ch = [x for x in changed_locs(it, s) if any(has_prefix(x, F(y)) for y in ALL)]
                        r.ob(key + ': nothing changes', not ch, w, 'changes ' + ', '.join(show(x) for x in ch[:3]))
                    continue
                for s, v in a[0]:
                    gone = set(s.tr.get('gone', ()))
                    other = [k for k in gone if k != lab]
                    r.ob(key + ': no other class is removed', not other and not whole(it, s), w, 'also removes %s' %
                         ', '.join(show(k) for k in other))
                    t = it.truth(s, has)
                    r.ob(key + ': the class is gone', True if lab in gone or t is False else (False if not other and not whole(it, s)
                                                                                           else None), w, 'the class remains')
            elif f['n'] == 'clear':
                for s, v in a[0]:
                    z = size(it, s, 'models')
                    r.ob(key + ': no class remains', True if z == ZERO else (False if z == size(it, it.entry, 'models') else None), w,
                         '%s classes remain' % show(z)[:60])
            else:
                for s, v in a[0]:
                    d = psub(size(it, s, 'models'), size(it, it.entry, 'models'))
                    want = ZERO if known else ONE
                    r.ob(key + ': the list grows by the new class only', d == want if d[0] == 'i' else None, w,
                         'the list grows by %s' % show(d)[:60])
                    t = it.truth(s, has)
                    r.ob(key + ': the class is there', True if known or t is True else t, w, 'the class is not added')
    r.floor('removals, clearings and preparations', n, 3)


def whole(it, s):
    return size(it, s, 'models') == ZERO
