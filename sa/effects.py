"""Effect analysis: which memory a function may write, as access paths from its parameters, over the whole call graph.
Path-insensitive; aliases of references, pointers, iterators and shared pointers are followed. Elements of containers
are not told apart. A path: (root, components); root: 'this', ('p', n), ('g', name), ('loc', id); a component '*' is the
target of a pointer or shared pointer held by the object so far."""
from prog import walk

ACCESS = {'operator[]', 'at', 'begin', 'end', 'rbegin', 'rend', 'find', 'data', 'front', 'back', 'cbegin', 'cend', 'crbegin',
          'crend', 'get', 'operator->', 'operator*', 'lower_bound', 'upper_bound', 'operator()', 'operator bool', 'size',
          'empty', 'count', 'c_str', 'load', 'operator+', 'operator-', 'owns_lock', 'lock', 'unlock', 'try_lock'}
GLOBAL_STATE = {'random', 'rand', 'srand', 'srandom', 'strtok', 'setlocale', 'drand48', 'srand48', 'std::rand', 'std::srand',
                'std::setlocale', 'putenv', 'setenv'}
MAXLEN = 8


def is_it(t):
    t = t or ''
    return '_iterator<' in t and not t.startswith('std::vector') and not t.startswith('std::map')


def is_ptr(t):
    return (t or '').replace('const', '').strip().endswith('*') or is_it(t)


def is_sp(t):
    t = (t or '').replace('const ', '').strip()
    return t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr', 'std::weak_ptr<'))


def is_refty(t):
    return (t or '').strip().endswith('&')


def const_ref(t):
    t = (t or '').strip()
    return t.endswith('&') and (t.startswith('const ') or ' const &' in t or 'const&' in t)


class Summary:
    def __init__(self):
        self.w = {}         # path -> (file, line, chain)
        self.ret = set()    # paths a returned reference / pointer may denote
        self.alias = set()  # (destination path of a pointer field, source path of its target)
        self.r = {}         # paths read (whole locations, not the objects they are in)
        self.glob = {}      # functions with hidden global state -> where

    def key(self):
        return (frozenset(self.w), frozenset(self.ret), frozenset(self.alias), frozenset(self.glob),
                frozenset(self.r))


class Effects:
    def __init__(self, p, skip=()):
        self.p = p
        self.skip = set(skip)       # qualified names not followed (announced as such)
        self.sum = {}
        self.skipped = {}

    def of(self, fid, cls=None):
        """summary of a function on an object of class cls, to a fixpoint over recursion"""
        for _ in range(12):
            before = {k: v.key() for k, v in self.sum.items()}
            self.done = set()
            s = self.calc(fid, cls)
            if before == {k: v.key() for k, v in self.sum.items()}:
                break
        return s

    def calc(self, fid, cls):
        k = (fid, cls)
        if k in self.done:
            return self.sum.setdefault(k, Summary())
        self.done.add(k)
        self.sum.setdefault(k, Summary())
        f = self.p.funcs.get(fid)
        if f is None or not (f.get('body') or f.get('inits')):
            return self.sum[k]
        w = Walk(self, f, cls, self.sum[k])
        w.run()
        return self.sum[k]

    def targets(self, c, cls, o, qualified=False):
        """functions a call may reach, with the class of the object"""
        i = c.get('id')
        y = o
        while y is not None and y.get('k') == 'cast' and y.get('ck') in ('base', 'derived', None, 'DerivedToBase'):
            y = y.get('e')
        t = None
        if y is not None:
            if y.get('k') == 'this':
                t = cls
            else:
                t = (y.get('t') or '').replace('const ', '').replace('*', '').replace('&', '').strip()
                t = t if t in self.p.classes else None
        elif cls and self.p.funcs.get(i, {}).get('cls'):
            t = cls
        f = self.p.funcs.get(i)
        virt = c.get('virt') or (f or {}).get('virt')
        if not virt or qualified:
            return [(i, t)]
        exact = y is not None and y.get('k') in ('this', 'ref', 'mem', 'call', 'idx') and t
        if exact and not (t or '').startswith('xmm::Model<'):
            g = self.p.resolve_virtual(i, t)
            if g is not None:
                return [(g['id'] if isinstance(g, dict) else g, t)]
        return [(x, None) for x in dict.fromkeys([i] + list(self.p.overriders.get(i, [])))]


class Walk:
    def __init__(self, E, f, cls, s):
        self.E, self.f, self.cls, self.s = E, f, cls, s
        self.pt = {}            # local id -> paths it refers to
        self.par = {q['id']: n for n, q in enumerate(f.get('params', []))}
        self.pty = {q['id']: q.get('t') for q in f.get('params', [])}
        self.lty = {}
        self.lal = {}           # local object id -> {(components of a pointer field): targets}
        self.copy = {}          # local object id -> objects it was copied from

    def run(self):
        for _ in range(8):
            k = (self.s.key(), repr(sorted(self.pt.items(), key=repr)), repr(sorted(self.lal.items(), key=repr)))
            for x in self.f.get('inits') or []:
                self.init(x)
            self.stmt(self.f.get('body'))
            if k == (self.s.key(), repr(sorted(self.pt.items(), key=repr)), repr(sorted(self.lal.items(), key=repr))):
                break

    # ---------------------------------------------------------------- statements
    def init(self, x):
        m, e = x.get('mem'), x.get('e')
        if e is None:
            return
        self.ev(e)
        if m:
            ft = self.ftype(m)
            if is_ptr(ft) or is_sp(ft):
                for t in self.target(e):
                    self.s.alias.add((('this', (m,)), t))
            elif is_refty(ft):
                for t in self.lv(e):
                    self.s.alias.add((('this', (m,)), t))

    def ftype(self, m):
        for _, fd in self.E.p.fields(self.f.get('cls')) if self.f.get('cls') in self.E.p.classes else []:
            if fd['n'] == m:
                return fd['t']
        return ''

    def stmt(self, n):
        if n is None or not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'decl':
            for v in n['d']:
                self.var(v)
        elif k == 'rfor':
            self.ev(n['r'])
            v = n['v']
            ps = self.lv(n['r'])
            self.lty[v['id']] = v.get('t')
            self.pt.setdefault(v['id'], set()).update(ps)
            self.stmt(n['b'])
        elif k == 'ret':
            if n.get('e') is not None:
                self.ev(n['e'])
                rt = self.f.get('rt')
                if is_refty(rt):
                    self.s.ret |= self.lv(n['e'])
                elif is_ptr(rt) or is_sp(rt):
                    self.s.ret |= self.target(n['e'])
        else:
            if k is not None and (k in EXPR):
                self.ev(n)
                return
            for q, v in n.items():
                if isinstance(v, dict):
                    if q == 'cv' or v.get('k') == 'var':
                        self.var(v)
                    else:
                        self.stmt(v)
                elif isinstance(v, list):
                    for y in v:
                        self.stmt(y)

    def var(self, v):
        if v.get('k') != 'var':
            return
        t = v.get('t')
        self.lty[v['id']] = t
        e = v.get('init')
        if e is None:
            return
        self.ev(e)
        if v.get('static'):
            self.s.glob.setdefault('static ' + v['n'], self.at(v))
        if is_refty(t):
            self.pt.setdefault(v['id'], set()).update(self.lv(e))
        elif is_ptr(t) or is_sp(t):
            self.pt.setdefault(v['id'], set()).update(self.target(e))
        else:
            self.build(('loc', v['id']), e)

    def build(self, root, e):
        """object at a local root constructed by e: where its pointers point to"""
        while e is not None and e.get('k') == 'cast':
            e = e.get('e')
        if e is None or e.get('k') not in ('construct', 'call'):
            return
        c = e.get('c') or {}
        if e['k'] == 'construct' and (c.get('copy') or c.get('copyctor') or c.get('move')) or (
                e['k'] == 'construct' and len(e.get('a', [])) == 1 and e['a'][0] is not None and
                (e['a'][0].get('t') or '').replace('const ', '') == e.get('t')):
            for q in self.lv(e['a'][0]):
                self.copy.setdefault(root[1], set()).add(q)
            return
        i = c.get('id')
        if i in self.E.p.funcs and e['k'] == 'construct':
            s = self.E.calc(i, e.get('t'))
            m = self.mapping(self.E.p.funcs[i], None, e.get('a', []))
            for d, src in list(s.alias):
                if d[0] == 'this':
                    for q in self.apply(src, {(root, ())}, m):
                        self.lal.setdefault(root[1], {}).setdefault(d[1], set()).add(q)

    # ---------------------------------------------------------------- locations
    def lv(self, e):
        """the objects an expression may denote"""
        if e is None:
            return set()
        k = e.get('k')
        if k == 'cast':
            return self.lv(e.get('e'))
        if k == 'this':
            return {('this', ())}
        if k == 'ref':
            i = e['id']
            if i in self.par:
                t = self.pty[i]
                if is_refty(t):
                    return {(('p', self.par[i]), ())}
                return {(('loc', i), ())}
            if is_refty(self.lty.get(i)):
                return set(self.pt.get(i, ()))
            return {(('loc', i), ())}
        if k == 'glob':
            return {(('g', e['n']), ())}
        if k == 'mem':
            b = e['b']
            base = self.target(b) if e.get('arrow') else self.lv(b)
            if (e.get('cls') or '').startswith('std::pair<'):
                return base
            out = set()
            for r, c in base:
                q = (r, (c + (e['n'],))[:MAXLEN])
                ft = e.get('t')
                out.add(q)
            return out
        if k == 'un' and e['op'] == '*':
            return self.target(e['x'])
        if k == 'un':
            return self.lv(e['x'])
        if k == 'idx':
            t = (e['b'] or {}).get('t') or ''
            return self.target(e['b']) if is_ptr(t) else self.lv(e['b'])
        if k == 'cond':
            return self.lv(e['x']) | self.lv(e['y'])
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            return self.lv(e['x'])
        if k == 'bin' and e['op'] == ',':
            return self.lv(e['y'])
        if k == 'call':
            c = e.get('c') or {}
            q, nm = c.get('q') or '', (c.get('n') or (c.get('q') or '').split('::')[-1])
            o = e.get('o')
            i = c.get('id')
            if i in self.E.p.funcs or i in self.E.p.overriders:
                out = set()
                for fid, cl in self.E.targets(c, self.cls, o, e.get('qualified')):
                    g = self.E.p.funcs.get(fid)
                    if g is None:
                        continue
                    s = self.E.calc(fid, cl)
                    m = self.mapping(g, o, e.get('a', []), e.get('arrow'))
                    ob = self.obj(e)
                    for r in list(s.ret):
                        out |= self.apply(r, ob, m)
                return out
            if o is not None:
                ot = o.get('t')
                if nm in ('operator*', 'operator->', 'operator[]') and (is_it(ot) or is_sp(ot)) or is_sp(q):
                    return self.target(o)
                return self.obj(e)
            out = set()
            for a in e.get('a', []):
                if e.get('op'):
                    out |= self.lv(a)
            return out
        return set()

    def obj(self, e):
        o = e.get('o')
        if o is None:
            return {('this', ())} if self.cls or self.f.get('cls') else set()
        if e.get('arrow'):
            return self.target(o)
        return self.lv(o)

    def target(self, e):
        """the objects a pointer, iterator or shared pointer expression may point to"""
        if e is None:
            return set()
        k = e.get('k')
        if k == 'cast':
            if 'ArrayToPointer' in (e.get('ck') or ''):
                return self.lv(e.get('e'))
            return self.target(e.get('e'))
        if k == 'this':
            return {('this', ())}
        if k == 'un' and e['op'] == '&':
            return self.lv(e['x'])
        if k == 'un' and e['op'] in ('++', '--'):
            return self.target(e['x'])
        if k == 'bin':
            return self.target(e['x']) | self.target(e['y'])
        if k == 'cond':
            return self.target(e['x']) | self.target(e['y'])
        if k == 'ref':
            i = e['id']
            if i in self.par:
                t = self.pty[i]
                if is_refty(t):
                    return {(('p', self.par[i]), ('*',))}
                return {(('p', self.par[i]), ())} | self.pt.get(i, set())
            if is_refty(self.lty.get(i)):
                return {(r, (c + ('*',))[:MAXLEN]) for r, c in self.pt.get(i, ())}
            return set(self.pt.get(i, ()))
        if k in ('mem', 'glob', 'idx'):
            out = set()
            for r, c in self.lv(e):
                out |= self.deref((r, (c + ('*',))[:MAXLEN]))
            return out
        if k == 'call':
            c = e.get('c') or {}
            q, nm = c.get('q') or '', (c.get('n') or '')
            o = e.get('o')
            i = c.get('id')
            if i in self.E.p.funcs or i in self.E.p.overriders:
                rt = c.get('rt') or self.E.p.funcs.get(i, {}).get('rt')
                if is_refty(rt):
                    return {(r, (cc + ('*',))[:MAXLEN]) for r, cc in self.lv(e)}
                return self.lv(e)
            if 'make_shared' in q or 'make_unique' in q:
                return set()
            if o is not None:
                ot = o.get('t')
                if is_it(ot) or is_sp(ot) or is_sp(q.rsplit('::', 1)[0]):
                    if nm in ('operator*', 'operator[]', 'operator->') and not is_sp(ot) and not (
                            nm == 'operator->' or is_it(e.get('t'))):
                        # an element that is itself a pointer
                        return {(r, (cc + ('*',))[:MAXLEN]) for r, cc in self.target(o)}
                    return self.target(o)
                l = self.obj(e)
                t = e.get('t') or ''
                if nm in ('operator[]', 'at', 'front', 'back', 'get') and (is_ptr(t) or is_sp(t)):
                    return {(r, (cc + ('*',))[:MAXLEN]) for r, cc in l}
                return l
            out = set()
            for a in e.get('a', []):
                out |= self.target(a)
            return out
        if k == 'construct':
            a = e.get('a', [])
            out = set()
            for y in a:
                if y is not None:
                    out |= self.target(y)
            return out
        return set()

    def deref(self, path):
        """a path through a pointer of a local object, followed to what it was made from"""
        r, c = path
        if r[0] != 'loc' if isinstance(r, tuple) else True:
            return {path}
        out = set()
        for pre, ts in self.lal.get(r[1], {}).items():
            n = len(pre)
            if c[:n] == pre and c[n:n + 1] == ('*',):
                out |= {(q[0], (q[1] + c[n + 1:])[:MAXLEN]) for q in ts}
        if '*' in c:
            for q in self.copy.get(r[1], ()):
                out.add((q[0], (q[1] + c)[:MAXLEN]))
        return out | {path}

    # ---------------------------------------------------------------- calls
    def mapping(self, g, o, args, arrow=False):
        m = {}
        for n, q in enumerate(g.get('params', [])):
            a = args[n] if n < len(args) else None
            if a is None:
                continue
            t = q.get('t')
            if is_refty(t):
                m[n] = ('ref', self.lv(a))
            elif is_ptr(t) or is_sp(t):
                m[n] = ('ptr', self.target(a))
            else:
                m[n] = ('val', self.lv(a))
        return m

    def apply(self, path, ob, m):
        r, c = path
        if r == 'this':
            src = ob
        elif r[0] == 'p':
            kind, src = m.get(r[1], ('ref', set()))
        elif r[0] == 'g':
            return {path}
        else:
            return set()
        out = set()
        for q in src:
            x = (q[0], (q[1] + c)[:MAXLEN])
            out |= self.deref(x)
        return out

    def at(self, e):
        return '%s:%s' % (self.f.get('file', '?'), e.get('l', '?'))

    def write(self, paths, e, chain=None):
        for q in paths:
            for x in self.deref(q):
                if isinstance(x[0], tuple) and x[0][0] == 'loc':
                    continue
                self.s.w.setdefault(x, chain or (self.at(e),))

    def read(self, paths, e, chain=None):
        for x in paths:
            if isinstance(x[0], tuple) and x[0][0] == 'loc':
                continue
            self.s.r.setdefault(x, chain or (self.at(e),))

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None or not isinstance(e, dict):
            return
        k = e.get('k')
        if k == 'bin':
            self.ev(e['x'])
            self.ev(e['y'])
            if e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                self.assign(e['x'], e['y'], e)
            return
        if k == 'un':
            self.ev(e['x'])
            if '++' in e['op'] or '--' in e['op']:
                self.write(self.lv(e['x']), e)
            return
        if k == 'delete':
            self.ev(e['e'])
            return
        if k in ('call', 'construct'):
            self.call(e)
            return
        if k == 'lambda':
            return
        if k == 'mem':
            self.read(self.lv(e), e)
            b = e
            while b is not None and b.get('k') in ('mem', 'cast'):
                b = b.get('b') if b['k'] == 'mem' else b.get('e')
            self.ev(b)
            return
        for q, v in e.items():
            if q == 'c' and k in ('fn',):
                continue
            if isinstance(v, dict):
                self.ev(v)
            elif isinstance(v, list):
                for y in v:
                    self.ev(y)

    def inner(self, o):
        """the object of a call is not read as a whole"""
        b = o
        while b is not None and b.get('k') in ('mem', 'cast'):
            b = b.get('b') if b['k'] == 'mem' else b.get('e')
        if b is not None and b is not o:
            self.inner(b)
        elif b is not None:
            self.ev(b)

    def assign(self, x, y, e):
        y0 = x
        while y0 is not None and y0.get('k') == 'cast':
            y0 = y0.get('e')
        t = x.get('t')
        if y0 is not None and y0.get('k') == 'ref' and (is_ptr(t) or is_sp(t)) and not is_refty(
                self.lty.get(y0['id'], self.pty.get(y0['id']))):
            self.pt.setdefault(y0['id'], set()).update(self.target(y))
            return
        ps = self.lv(x)
        self.write(ps, e)
        if is_ptr(t) or is_sp(t):
            tg = self.target(y)
            for q in ps:
                if isinstance(q[0], tuple) and q[0][0] == 'loc':
                    self.lal.setdefault(q[0][1], {}).setdefault(q[1], set()).update(tg)
                else:
                    for s in tg:
                        self.s.alias.add((q, s))
        elif y0 is not None and y0.get('k') == 'ref' and (t or '').startswith('xmm::'):
            for q in self.lv(y):
                self.copy.setdefault(y0['id'], set()).add(q)

    def call(self, e):
        c = e.get('c') or {}
        if not isinstance(c, dict):
            return
        q, nm = c.get('q') or '', (c.get('n') or (c.get('q') or '').split('::')[-1])
        o, args = e.get('o'), e.get('a', [])
        i = c.get('id')
        if o is not None:
            if i in self.E.p.funcs or i in self.E.p.overriders:
                self.inner(o)
            else:
                self.ev(o)
        for a in args:
            self.ev(a)
        base = q.split('<')[0]
        if base in self.E.skip or q in self.E.skip or nm in self.E.skip:
            self.E.skipped.setdefault(q, self.at(e))
            return
        if i in self.E.p.funcs or i in self.E.p.overriders:
            ob = self.obj(e) if e['k'] == 'call' else {(('loc', ('tmp', e.get('l'), i)), ())}
            for fid, cl in self.E.targets(c, self.cls, o, e.get('qualified')) if e['k'] == 'call' else [(i, e.get('t'))]:
                g = self.E.p.funcs.get(fid)
                if g is None:
                    continue
                s = self.E.calc(fid, cl)
                m = self.mapping(g, o, args, e.get('arrow'))
                for pth, wh in list(s.w.items()):
                    for x in self.apply(pth, ob, m):
                        if isinstance(x[0], tuple) and x[0][0] == 'p' and False:
                            continue
                        kind = m.get(pth[0][1], ('ref', ()))[0] if isinstance(pth[0], tuple) and pth[0][0] == 'p' else None
                        if kind == 'val' and '*' not in pth[1]:
                            continue
                        self.write({x}, e, (self.at(e),) + wh[:8])
                for pth, wh in list(s.r.items()):
                    self.read(self.apply(pth, ob, m), e, (self.at(e),) + wh[:8])
                for nme, wh in list(s.glob.items()):
                    self.s.glob.setdefault(nme, wh)
                for d, src in list(s.alias):
                    for dd in self.apply(d, ob, m):
                        for ss in self.apply(src, ob, m):
                            if isinstance(dd[0], tuple) and dd[0][0] == 'loc':
                                if dd[0][1] in self.lty or True:
                                    self.lal.setdefault(dd[0][1], {}).setdefault(dd[1], set()).add(ss)
                            elif not (isinstance(ss[0], tuple) and ss[0][0] == 'loc'):
                                self.s.alias.add((dd, ss))
            return
        if q in GLOBAL_STATE or nm in GLOBAL_STATE and o is None:
            self.s.glob.setdefault(nm, self.at(e))
            return
        if e['k'] == 'construct':
            return
        if c.get('defaulted') or nm == 'operator=' and o is not None and not is_it(o.get('t')):
            self.assign(o, args[0] if args else None, e) if args else None
            return
        if o is not None:
            ot = o.get('t')
            if is_it(ot):
                if nm in ('operator=', 'operator++', 'operator--', 'operator+=', 'operator-='):
                    y = o
                    while y is not None and y.get('k') == 'cast':
                        y = y.get('e')
                    if nm == 'operator=' and args:
                        self.assign(o, args[0], e)
                    elif y is not None and y.get('k') != 'ref':
                        self.write(self.lv(o), e)
                return
            if c.get('const') or nm in ACCESS:
                return
            self.write(self.obj(e), e)
            return
        # free functions of the library
        if nm == 'copy' and len(args) == 3:
            self.write(self.target(args[2]), e)
            return
        if nm in ('transform',) and len(args) >= 4:
            self.write(self.target(args[-2]), e)
            return
        if nm in ('fill', 'sort', 'fill_n', 'iota', 'reverse', 'stable_sort') and args:
            self.write(self.target(args[0]), e)
            return
        if nm in ('memcpy', 'memmove', 'memset') and args:
            self.write(self.target(args[0]), e)
            return
        if e.get('op') in ('=', '+=', '-=', '*=', '/=', '++', '--') and args:
            self.write(self.lv(args[0]), e)
            return
        pt = c.get('pt') or []
        for n, a in enumerate(args):
            t = pt[n] if n < len(pt) else ''
            if is_refty(t) and not const_ref(t) and not t.strip().endswith('&&'):
                self.write(self.lv(a), e)
            elif t.strip().endswith('*') and not t.strip().startswith('const '):
                self.write(self.target(a), e)


EXPR = {'ref', 'mem', 'call', 'this', 'cast', 'bin', 'int', 'construct', 'un', 'str', 'bool', 'fn', 'float', 'enum', 'idx', 'cond',
        'null', 'glob', 'delete', 'new', 'zero', 'throw', 'lambda', 'sizeof', 'ilist'}
