"""Resetting. The running state of a class model or complete model is what filtering writes and reads (effects over the
whole call graph). `reset` and then `filter` twice are evaluated one after the other, in every mode, from a state with an
arbitrary history: no read of the running state, except for sizes, may still find the value from before the reset. At the
end of every reset of a complete model each result list with an entry per class has as many entries as classes, and
every class has been reset after the options it is reset with were set."""
from common import *
from effects import Effects
from prog import walk
from c24 import as_list
from c05 import subterms
from bounds import subst

LEVEL = 'proof'
EXPLANATION = ('Definite-assignment dataflow over the composition reset, filter, filter: reads of running state that still find '
               'the value from before the reset; sizes of the result lists at the end of reset.')

COMPOUND = ('+=', '-=', '*=', '/=', '%=')
BUF = 'xmm::CircularBuffer'


def under(path, sets):
    return any(path[:len(x)] == x for x in sets)


def path_of(loc, root=('T',)):
    """field names from the root down, without indices"""
    out = []
    l = loc
    while l != root:
        if not isinstance(l, tuple) or not l:
            return None
        if l[0] == 'f':
            out.append(l[2])
        elif l[0] not in ('e', 'd'):
            return None
        l = loc_parent(l)
        if l is None:
            return None
    return tuple(reversed(out))


class Restart(LoopTrack):
    """know[class][mode] = {'clean': paths every reset gives a new value, 'exposed': {method: paths it reads before writing}}"""

    def __init__(self, p, ef, cls, run, mode=None, know=None):
        self.p, self.ef, self.cls, self.run, self.mode, self.know = p, ef, cls, run, mode, know or {}
        self.phase = 'reset'
        self.reads = 0
        self.pieces = ()

    # -- does a location still hold what it held before the reset
    def old(self, it, st, loc):
        """True when on some history it definitely does"""
        act = tuple(u for u, _ in st.tr.get('stk', ()))
        return self.old_in(it, st, loc, act, 0)

    def old_in(self, it, st, loc, act, depth):
        if depth > 8 or loc is None:
            return False
        v = it.load(st, loc)
        if v == ('in', loc) or v == ('obj', loc):
            return True
        if v[0] == 'lv':
            B, l = v, v[2]
            if l != loc:
                return False
        elif v[0] == 'prj':
            B, l = v[1], loc
            for e in v[2]:
                l = loc_parent(l) if l is not None else None
            if l is None:
                return False
            if B == ('in', l) or B == ('obj', l):
                return True
            if B[0] != 'lv' or B[2] != l:
                return False
        else:
            return False
        uid = B[1]
        E = it.loop_entry.get(uid)
        if E is None:
            return False
        if uid in act:              # as the loop was entered (its first iteration)
            return any(self.old_in(it, E, x, act[act.index(uid) + 1:], depth + 1) for x in self.instances(it, st, loc, uid))
        ns = nexts(it, uid)
        if ns and all(self.kept(it, s, l, loc, uid, False) for s in ns) and self.old_in(it, E, loc, act, depth + 1):
            return True
        for x, t in self.feasible(it, st, loc):
            k = [s for s in ns if self.kept(it, s, l, x, uid, True)]
            if k and self.by_element(t, it, l, x, uid, k) and self.old_in(it, E, x, act, depth + 1):
                return True
        return False

    def feasible(self, it, st, loc):
        """the location, and with each index set to its first two values where that is possible"""
        out = [(loc, st)]
        for c in {c for c in subterms(loc) if isinstance(c, tuple) and c[:1] == ('lv',) and len(c) == 3}:
            e = it.meta.get(c[1], {}).get('entry', {}).get(c[2])
            if isinstance(c[2], tuple) and c[2][0] == 'idx':
                e = ZERO
            elif e is None and c[1] in it.loop_entry:
                e = it.load(it.loop_entry[c[1]], c[2])
            if e is None:
                continue
            for v in (e, padd(e, ONE)):
                for x, s in list(out):
                    t = it.assume(s.clone(), ('cmp', 'eq', psub(c, v)), True) if c in subterms(x) else None
                    if t is not None:
                        out.append((subst_loc(x, c, v), t))
        return out

    def by_element(self, st, it, l, loc, uid, ns):
        """a loop over the elements: one of them may be left as it was, whatever happens to the others"""
        e = element(loc)
        if e is None or l != e[1] or e[2][0] != 'mapkey':
            return False
        own = ('mapkey', uid)
        for s in ns:
            ok = True
            for f in s.facts:
                if f[0] == 'b' and own in subterms(f[1]):
                    ok = ok and it.truth(st, swap(f[1], own, e[2])) is not (not f[2])
                elif f[0] in ('eq', 'ne', 'le') and own in subterms(f[1]):
                    ok = ok and it.truth(st, ('cmp', f[0], swap(f[1], own, e[2]))) is not False
                elif f[0] == 'b':
                    ok = ok and it.truth(st, f[1]) is not (not f[2])
                elif f[0] in ('eq', 'ne', 'le'):
                    ok = ok and it.truth(st, ('cmp',) + f[:2]) is not False
            if ok:
                return True
        return False

    def instances(self, it, st, loc, uid):
        """the location in the first iteration; where every iteration only changes its own element, also in the second"""
        m = it.meta.get(uid, {})
        cs = [c for c in subterms(loc) if c[:2] == ('lv', uid) and len(c) == 3]
        if not cs:
            return [loc]
        out = []
        for add in (0, 1):
            x = loc
            for c in cs:
                e, k = m.get('entry', {}).get(c[2]), m.get('step', {}).get(c[2])
                if isinstance(c[2], tuple) and c[2][0] == 'idx':
                    e, k = ZERO, 1
                if e is None or k is None or add and k < 0:
                    return out
                x = subst_loc(x, c, padd(e, ('i', add * k)))
            if add:
                # only if each iteration keeps to its own element
                arr = {loc_parent(y) for y in (loc, loc_parent(loc)) if y and y[0] == 'e' and any(c in subterms(y[2]) for c in cs)}
                for s in nexts(it, uid):
                    for w in s.env:
                        if w[0] == 'e' and w[1] in arr and w != loc and not has_prefix(loc, w) and not (
                                w[2][0] == 'i' or s.env[w][0] == 'prj'):
                            return out
                if len(cs) != 1 or it.assume(st.clone(), ('cmp', 'le', psub(('i', add), cs[0])), True) is None:
                    return out
            out.append(x)
        return out

    def kept(self, it, s, l, loc, uid, exact):
        """this iteration leaves the location (of the element it examines) as it was"""
        steps = []
        x = loc
        while x != l:
            steps.append(x)
            x = loc_parent(x)
            if x is None:
                return False
        path = list(reversed(steps))
        for w in s.env:
            if w == l or not has_prefix(w, l) or s.env[w][0] == 'prj' or w == ('f', F('models'), '#size'):
                continue
            y, q = w, []
            while y != l:
                q.append(y)
                y = loc_parent(y)
            q = list(reversed(q))
            if all(self.same_step(a, b, exact) for a, b in zip(path, q)):
                return False
        return True

    def same_step(self, a, b, exact):
        if a[0] != b[0]:           # growing or shrinking keeps the entries
            return not exact or b[0] != 'f' or b[2] != '#size'
        if a[0] == 'f':
            return a[2] == b[2]
        if a[0] == 'e':
            return not (exact and a[2][0] == 'i' and b[2][0] == 'i' and a[2] != b[2])
        return True

    # -- hooks
    def on_loop(self, it, st, node, fr, phase, uid=None):
        if phase == 'body':         # another element from now on
            for k in [k for k in st.tr if k[0] in ('reset', 'late') and ('mapkey', uid) in subterms(k)]:
                del st.tr[k]
        super().on_loop(it, st, node, fr, phase, uid)

    def on_read(self, it, st, loc, node, fr):
        if self.phase != 'filter' or loc[0] == 'f' and loc[2] == '#size' or it.is_obj(node.get('t', '')):
            return
        self.read(it, st, loc, node, fr)

    def read(self, it, st, loc, node, fr, by=''):
        q = path_of(loc)
        if q is None or not under(q, self.run):
            return
        self.reads += 1
        if self.old(it, st, loc):
            it.log(('stale', q, loc, node, fr.func, by))

    def on_write(self, it, st, loc, val, node, fr):
        e = element(loc)
        if self.phase == 'filter' and isinstance(node, dict) and node.get('k') == 'bin' and node.get('op') in COMPOUND:
            self.read(it, st, loc, node, fr)
        if self.phase == 'filter' and isinstance(val, tuple) and val[:1] == ('obj',) and isinstance(node, dict):
            self.read(it, st, val[1], node, fr)
        if self.phase == 'reset' and e and st.tr.get(('reset', e)):
            st.tr[('late', e)] = st.tr.get(('late', e), ()) + ((path_of(loc), node.get('l'), fr.func['id']),)
        if loc[0] == 'e':
            q = path_of(loc)
            if q and q[0] == 'results':
                it.log(('entry', q, loc, node, fr.func))

    def on_call(self, it, st, node, callee, obj, args, fr):
        g = self.p.funcs.get((callee or {}).get('id'))
        cls = (g or {}).get('cls') or ''
        if not g or not g['q'].startswith('xmm::') or g.get('ctor') or cls.startswith('xmm::Attribute'):
            return None
        o = it.resolve(st, obj) if obj is not None else None
        if cls.startswith(BUF):
            st = st.clone()
            if g['n'] == 'clear':
                st.tr[('clean', o)] = True
            elif g['n'] != 'resize' and self.phase == 'filter':
                q = path_of(o) if o else None
                if q and any(x[:len(q)] == q for x in self.run):
                    self.reads += 1
                    if not st.tr.get(('clean', o)):
                        it.log(('stale', q, o, node, fr.func, ''))
            return [(st, self.res(it, st, g, node))]
        if g['n'] in ('check_training', 'checkTraining'):
            return [(st, None)]
        if g['n'] == 'size':
            return None
        e = element(o) if o else None
        k = self.know.get(self.elem_class(cls), {}).get(self.mode) if e == o and e else None
        own = o == ('T',) and cls in self.p.bases(self.cls)
        if not cls or g.get('static') or own and g['n'] not in self.pieces:
            return None
        st = st.clone()
        if k is not None and g['n'] == 'reset':
            it.log(('reset', o, node, fr.func))
            st.tr[('reset', o)] = True
            st.tr.pop(('late', o), None)
            for q in sorted(k['clean']):
                self.change(it, st, o, q, node)
            return [(st, None)]
        if k is not None and self.phase == 'filter':
            def at(q):
                l = o
                for c in q:
                    l = ('f', l, c)
                return l
            fresh = not any(self.old(it, st, at(q)) for q in k['clean'])
            for q in sorted(k['after' if fresh else 'exposed'].get(g['n'], ())):
                self.read(it, st, at(q), node, fr, g['q'])
        sm = self.ef.of(g['id'], cls or None)
        if o is not None:
            for x in sorted({x[1] for x in sm.w if x[0] == 'this' and x[1]}, key=repr):
                self.change(it, st, o, x, node)
        for x in sm.w:
            if x[0][0] == 'p' and x[0][1] < len(args):
                a, l = args[x[0][1]][0], args[x[0][1]][1]
                if a in ('ref', 'obj', 'loc', 'addr'):
                    l = it.resolve(st, l)
                    it.drop(st, l)
                    it.havoc(st, l, (node.get('l'), x[0][1]))
        return [(st, self.res(it, st, g, node))]

    def elem_class(self, cls):
        for c in self.know:
            if cls in self.p.bases(c):
                return self.target
        return None

    def change(self, it, st, o, path, node):
        l = o
        for c in path:
            l = ('f', l, c)
        it.drop(st, l)
        it.havoc(st, l, (node.get('l'), path))

    def res(self, it, st, g, node):
        rt = g.get('rt', 'void')
        return None if rt == 'void' else it.fresh(st, ('r', g['n'], node.get('l')))


def swap(t, a, b):
    if t == a:
        return b
    return tuple(swap(x, a, b) for x in t) if isinstance(t, tuple) else t


def subst_loc(l, c, v):
    if l[0] == 'e':
        return ('e', subst_loc(l[1], c, v), subst(l[2], c, v) if c in subterms(l[2]) else l[2])
    if l[0] == 'f':
        return ('f', subst_loc(l[1], c, v), l[2])
    return l


def element(loc):
    """the class model a location lies in"""
    l = loc
    while l is not None:
        if l[0] == 'e' and l[1] == F('models'):
            return l
        l = loc_parent(l)
    return None


def carry(S):
    def go(it, st, fr):
        n = S.clone()
        for l, v in st.env.items():
            n.env[l] = v
        return n
    return go


def one(l):
    l = [f for f in as_list(l) if f.get('body')]
    return l[0] if len(l) == 1 else None


def run(r):
    p = r.p
    ef = Effects(p)
    know = {}
    n = 0
    models = []
    for cls in sorted(p.classes):
        if not cls.startswith('xmm::') or '<' in cls or cls.startswith('xmm::Configuration'):
            continue
        f, g = one(p.find(cls, 'filter')), one(p.find(cls, 'reset'))
        if not f or not g:
            continue
        if any(x['n'] == 'models' for _, x in p.fields(cls)):
            models.append((cls, g, f))
            continue
        k = [x['n'] for _, x in p.fields(cls) if x['n'] == MODE]
        for mode in (True, False) if k else (None,):
            n += Chain(r, ef, cls, g, f, mode, know).go()
    r.floor('classes with running state', len(know), 3)
    for cls, g, f in models:
        t = next((x['t'] for _, x in p.fields(cls) if x['n'] == 'models'), '')
        el = next((c for c in sorted(know, key=len, reverse=True) if c in t or c.split('::')[-1] in t), None)
        if el is None:
            r.ob(cls + ': class models', None, r.where(g), 'class of the models not found')
            continue
        for mode in sorted(know[el], key=repr):
            n += Chain(r, ef, cls, g, f, mode, know, el).go()
    r.floor('complete models', len(models), 2)
    r.floor('reads of the running state', n, 100)


MODE = 'is_hierarchical_'
CMODE = 'hierarchical'


class Chain:
    def __init__(self, r, ef, cls, g, f, mode, know, el=None):
        self.r, self.p, self.ef, self.cls, self.g, self.f, self.mode, self.know, self.el = r, r.p, ef, cls, g, f, mode, know, el
        sm = ef.of(f['id'], cls)
        self.running = {x[1] for x in sm.w if x[0] == 'this' and x[1] and 'states' not in x[1][:2]}
        self.name = cls.split('::')[-1] + ('' if mode is None else ', hierarchical' if mode else ', not hierarchical')

    def start(self, it, st, fr):
        names = {x['n'] for _, x in self.p.fields(self.cls)}
        if 'parameters' in names:
            least(it, st, it.load(st, F('parameters', 'states', 'value_')))
        if 'models' in names:
            least(it, st, it.load(st, ('f', F('models'), '#size')))
        if self.mode is not None:
            seed_bool(it, st, F('configuration', CMODE, 'value_') if self.el else F(MODE), self.mode)
        return st

    def interp(self, pieces=()):
        c = Restart(self.p, self.ef, self.cls, self.running, self.mode, self.know if self.el else {})
        c.target = self.el
        c.pieces = pieces
        return Interp(self.p, c, budget=500000), c

    def written(self, it, s):
        """paths of the running state given another value"""
        out = set()
        for l in s.env:
            q = path_of(l)
            if q is not None and under(q, self.running) and s.env[l] != ('in', l) and '#size' not in q:
                out.add(q)
        for k in s.tr:
            if k[0] == 'clean':
                q = path_of(k[1])
                if q is not None:
                    out.add(q)
        return frozenset(out)

    def go(self):
        r, g, f = self.r, self.g, self.f
        it, c = self.interp()
        a = r.analyse(it, g, cls=self.cls, setup=self.start)
        if a is None or not a[0]:
            return 0
        ends = [s for s, v in a[0]]
        if not self.el:
            self.learn(it, ends)
        else:
            self.classes(it, ends)
        heavy = [x for x in self.own() if x['n'] in ('regression',)]
        journal = list(it.journal)
        c.phase = 'filter'
        c.pieces = tuple(x['n'] for x in heavy)
        seen = {}
        todo, entries = ends, set()
        for k in ('first', 'second'):
            nxt = []
            for s in todo:
                it.journal[:] = journal
                b = r.analyse(it, f, cls=self.cls, setup=carry(s))
                if b is None:
                    r.ob('%s: %s observation' % (self.name, k), None, r.where(f), 'not analysed')
                    continue
                self.report(it, k, seen, entries)
                journal += [j for j in it.journal[len(journal):] if j[0] in ('#next', '#exit')]
                nxt += [x for x, v in b[0]]
            rep = {}
            for s in nxt:
                rep.setdefault((self.written(it, s), it.load(s, F('forward_initialized_'))), s)
            todo = list(rep.values())
            if not self.el:
                for h in heavy:
                    self.piece(it, c, h, todo, journal, k, seen)
        key = '%s: nothing from before the reset is used' % self.name
        r.ob(key, True if todo else None, r.where(f))
        for (q, by, w), k in sorted(seen.items(), key=repr):
            r.ob('%s: %s' % (key, '.'.join(q)), False, w, '%s is read%s by the %s observation, still as before the reset' % (
                '.'.join(q), ' (in %s)' % by if by else '', k))
        if self.el:
            self.sizes(it, ends, entries)
        return c.reads

    def own(self):
        ids = {n['c'].get('id') for n in walk(self.f['body']) if n.get('k') == 'call' and isinstance(n.get('c'), dict)}
        return [self.p.funcs[i] for i in sorted(x for x in ids if x in self.p.funcs) if self.p.funcs[i].get('body') and
                self.p.funcs[i].get('cls') in self.p.bases(self.cls)]

    def piece(self, it, c, h, todo, journal, k, seen):
        keep, c.pieces = c.pieces, ()
        for s in todo[:6]:
            it.journal[:] = journal
            b = self.r.analyse(it, h, cls=self.cls, setup=carry(s))
            if b is not None:
                self.report(it, k, seen, set())
        c.pieces = keep

    def report(self, it, k, seen, entries):
        for j in it.journal:
            if j[0] == 'stale':
                seen.setdefault((j[1], j[5], self.r.where(j[4], j[3])), k)
            elif j[0] == 'entry':
                entries.add((j[1], j[2], self.r.where(j[4], j[3])))

    def learn(self, it, ends):
        """what resetting gives a new value, and what each method reads before writing it"""
        exp, aft = {}, {}
        for m in sorted(self.p.methods.get(self.cls, {}).items()):
            for h in m[1]:
                if not h.get('body') or h.get('ctor') or h['n'] in ('reset', 'train') or h.get('static'):
                    continue
                sm = self.ef.of(h['id'], self.cls)
                if not any(q[0] == 'this' and under(q[1], self.running) for q in sm.r):
                    continue
                if h['n'] not in self.called():
                    continue
                i2, c2 = self.interp(tuple(x['n'] for x in self.own() if x['n'] == 'regression') if h['n'] == 'filter' else ())
                c2.phase = 'filter'
                b = self.r.analyse(i2, h, cls=self.cls, setup=self.start)
                if b is not None:
                    exp.setdefault(h['n'], set()).update(j[1] for j in i2.journal if j[0] == 'stale')
                for e in ends:
                    i2.journal[:] = [j for j in it.journal if j[0] in ('#next', '#exit')]
                    i2.meta.update(it.meta)
                    b = self.r.analyse(i2, h, cls=self.cls, setup=carry(e))
                    if b is not None:
                        aft.setdefault(h['n'], set()).update(j[1] for j in i2.journal if j[0] == 'stale')
        self.know.setdefault(self.cls, {})[self.mode] = {
            'clean': frozenset.intersection(*[self.written(it, s) for s in ends]), 'exposed': exp, 'after': aft}

    def called(self):
        """methods filtering with a complete model calls on its classes"""
        out = {'filter'}
        for cls in self.p.classes:
            if '<' in cls or not any(x['n'] == 'models' for _, x in self.p.fields(cls)):
                continue
            todo, seen = [f for f in as_list(self.p.find(cls, 'filter')) if f.get('body')], set()
            while todo:
                f = todo.pop()
                if f['id'] in seen:
                    continue
                seen.add(f['id'])
                for n in walk(f['body']):
                    c = n.get('c')
                    if n.get('k') == 'call' and isinstance(c, dict):
                        if c.get('cls') in self.p.bases(self.cls):
                            out.add(c['n'])
                        elif c.get('id') in self.p.funcs and self.p.funcs[c['id']].get('body') and \
                                not (c.get('cls') or '').startswith('std'):
                            todo.append(self.p.funcs[c['id']])
        return out

    def classes(self, it, ends):
        """every class is reset, with its final options"""
        r, w = self.r, self.r.where(self.g)
        calls = [j for j in it.journal if j[0] == 'reset']
        key = '%s: every class is reset' % self.name
        if not calls:
            r.ob(key, False, w, 'no class is reset')
            return
        for s in ends:
            ok = None
            for uid in flat(s.tr.get('done', ())):
                v = every(it, uid, lambda x: bool(x.tr.get(('reset', ('e', F('models'), ('mapkey', uid))))))
                if v is not None and any(('mapkey', uid) == j[1][2] for j in calls):
                    ok = v if ok is None else ok or v
            if ok is None and not any(s.tr.get(('reset', j[1])) for j in calls) and all(j[1][2][0] == 'mapkey' for j in calls):
                ok = False
            r.ob(key, ok, r.where(calls[0][3], calls[0][2]), 'a class is passed over')
        used = set()
        for m in self.know[self.el].values():
            for q in m['exposed'].values():
                used |= q
        rs = one(self.p.find(self.el, 'reset'))
        used |= {q[1] for q in self.ef.of(rs['id'], self.el).r if q[0] == 'this'} if rs else set()
        key = '%s: a class is reset with its final options' % self.name
        r.ob(key, True, w)
        last = [j[2] for j in it.journal if j[0] == '#next'] + ends
        for q, line, fid in {x for s in last for k, v in s.tr.items() if k[0] == 'late' for x in v}:
            if q and under(q[1:], used):
                h = self.p.funcs[fid]
                r.ob(key, False, r.where(h, {'l': line}), '%s is written after the class was reset' % '.'.join(q))

    def sizes(self, it, ends, entries):
        from c31 import span_of
        lists = {}
        for q, loc, w in entries:
            c = loc[2]
            if len(q) != 2 or c[0] != 'lv' or c[1] not in it.meta:
                continue
            sp = span_of(it, c)
            if sp and any(x == ('map', F('models')) for x in sp[2]) and sp[0] == ZERO:
                lists[q] = w
        self.r.floor('%s: result lists with an entry per class' % self.cls, len(lists), 1)
        for q, w in sorted(lists.items()):
            for s in ends:
                a, b = it.load(s, ('f', F(*q), '#size')), it.load(s, ('f', F('models'), '#size'))
                d = psub(a, b)
                self.r.ob('%s: %s has an entry per class after a reset' % (self.name, q[-1]),
                          True if d == ZERO else False if d[0] == 'i' or a == ('in', ('f', F(*q), '#size')) else None,
                          w, 'it has %s of %s' % (show(a), show(b)))


def flat(d):
    return [x for x in d]


def least(it, st, v):
    it.nonneg.add(v)
    st.facts |= {('le', psub(ONE, v))}
