"""Isolation of class trainings. (A) Effects of training one class, over the whole call graph, for every class model:
every location it may write belongs to the object itself and is none of its links to what it shares (the shared
parameters, the configuration of the model, the data it is given, through any pointer or reference); no function with
hidden global state is called (a call that depends on a mode is evaluated for the mode the caller selects). (B) Wherever
a model trains a class - directly or in a thread - the data given are the phrases of that same class in the set it was
given, in every multithreading mode. (C) The same for the effects on the data of the functions that start a training."""
from common import *
from prog import walk
from effects import Effects, GLOBAL_STATE
import c17
import c22
from c19 import status_enum

LEVEL = 'proof'
EXPLANATION = ('Interprocedural effect analysis with access paths (aliases of references, pointers, iterators, shared '
               'pointers); dataflow from the class started to the data it is given.')


def short(c):
    return c.split('::')[-1]


def show_path(q):
    r = q[0] if isinstance(q[0], str) else ('argument %d' % (q[0][1] + 1) if q[0][0] == 'p' else q[0][1])
    return str(r) + ''.join('.' + c if c != '*' else '->' for c in q[1])


def effects(r):
    p = r.p
    n = 0
    E = Effects(p, {'notifyListeners'})
    for cls in sorted(p.classes):
        if not any(fd['n'] == 'training_status' for _, fd in p.fields(cls)):
            continue
        pure = [m for m in ('allocate', 'emAlgorithmInit', 'emAlgorithmUpdate') if not any(
            x.get('body') for x in ([p.find(cls, m)] if isinstance(p.find(cls, m), dict) else p.find(cls, m) or []))]
        if pure:
            continue
        fs = p.find(cls, 'train')
        for f in [fs] if isinstance(fs, dict) else fs or []:
            s = E.of(f['id'], cls)
            n += 1
            r.ob('%s::train: something is trained' % short(cls), bool(s.w), r.where(f), 'it writes nothing')
            own = 0
            for q, wh in sorted(s.w.items(), key=lambda x: repr(x[0])):
                root, c = q
                w = ' <- '.join(reversed(wh))
                if root == 'this' and 'shared_parameters' not in c:
                    own += 1
                    continue
                what = 'parameters shared by the classes' if root == 'this' else 'training data' if root[0] == 'p' else \
                    'global state'
                r.ob('%s::train: does not write %s' % (short(cls), what), False, w, 'writes %s' % show_path(q))
            for what in ('parameters shared by the classes', 'training data', 'global state'):
                r.ob('%s::train: does not write %s' % (short(cls), what), True, r.where(f))
            r.floor('locations of %s its training may write' % short(cls), own, 10)
            for nm, where in s.glob.items():
                v = seeded(r, E, nm) if nm in GLOBAL_STATE else False
                r.ob('%s::train: uses no hidden global state (%s)' % (short(cls), nm), v, where,
                     'the outcome depends on state shared by all threads')
    r.floor('class models', n, 2)
    return E


def seeded(r, E, nm):
    """calls of nm from a helper object in a chosen mode: not executed in that mode?"""
    p = r.p
    hot = {i for (i, c), s in E.sum.items() if nm in s.glob}
    res = []
    for f in p.src_funcs():
        if f['id'] not in hot:
            continue
        for x in walk([f.get('body')]):
            if x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('id') in hot and x.get('o'):
                g = p.funcs[x['c']['id']]
                o = x['o']
                while o.get('k') == 'cast':
                    o = o.get('e')
                if o.get('k') == 'ref' and g.get('cls') and g['cls'] != f.get('cls') and \
                        not any(fd['n'] == 'training_status' for _, fd in p.fields(g['cls'])):
                    res.append(modes(r, f, g, x, hot, nm))
    if not res:
        return False
    return False if False in res else None if None in res else True


def modes(r, f, g, x, hot, nm):
    """the object fields at the call in f, then g evaluated with them"""
    p = r.p
    found = []

    class At(Client):
        def on_call(self, it, st, node, callee, obj, args, fr):
            if node is x or (node or {}).get('l') == x.get('l') and (callee or {}).get('id') == g['id']:
                d = {}
                for c, fd in p.fields(g['cls']):
                    v = it.load(st, ('f', obj, fd['n'])) if obj else None
                    if v is not None and v[0] == 'i':
                        d[fd['n']] = v
                found.append(d)
                return [(st, None)]
            q = (callee or {}).get('q') or ''
            if q.startswith('xmm::') and not callee.get('ctor') and (callee.get('rt') or 'void') == 'void' and obj and \
                    root_of(obj) != ('T',):
                return [(st, None)]
            return None
    it = Interp(p, At(), budget=200000)
    if r.analyse(it, f, cls=f.get('cls')) is None or not found:
        return None
    out = []
    for d in found:
        hit = []

        class Run(Client):
            def on_call(self, it, st, node, callee, obj, args, fr):
                i = (callee or {}).get('id')
                if i in hot or (callee or {}).get('n') == nm or ((callee or {}).get('q') or '') == nm:
                    hit.append(node)
                    return [(st, None)]
                q = (callee or {}).get('q') or ''
                if q.startswith('xmm::') and i in it.p.funcs and not callee.get('ctor'):
                    rt = callee.get('rt') or 'void'
                    return [(st, None if rt == 'void' else it.fresh(st, ('x', fr.fid, (node or {}).get('l'))))] \
                        if '*' not in rt and '&' not in rt else None
                return None
        it = Interp(p, Run(), budget=300000)

        def setup(it, st, fr):
            for k, v in d.items():
                st.env[F(k)] = v
            return st
        if r.analyse(it, g, cls=g['cls'], setup=setup) is None:
            out.append(None)
        else:
            out.append(not hit)
    return False if False in out else None if None in out else True


class Data(c22.Start):
    def begin(self, it, st, el, node, fr, thread):
        pass

    def on_write(self, it, st, loc, val, node, fr):
        pass

    def on_loop(self, it, st, node, fr, phase, uid=None):
        pass

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'getPhrasesOfClass' and args:
            return [(st, ('op', 'phr', it.resolve(st, obj), it.aval(st, args[0], '')))]
        if nm == 'train' and obj and obj != ('T',) and q.startswith('xmm::') and 'Model<' not in q and args:
            self.pair(it, st, obj, it.aval(st, args[0], ''), node, fr)
            return [(st, None)]
        if obj == ('T',) and nm in ('addModelForClass', 'clear', 'joinTraining', 'cancelTraining'):
            return [(st, None)]
        return c17.Stop.on_call(self, it, st, node, callee, obj, args, fr)

    def on_make(self, it, st, cls, vals, node, fr):
        if cls == 'std::thread' and len(vals) > 2 and vals[0][0] == 'fn' and vals[1][0] == 'addr' and \
                (it.p.funcs.get(vals[0][1]) or {}).get('n') == 'train':
            self.pair(it, st, vals[1][1], vals[2], node, fr)

    def pair(self, it, st, el, v, node, fr):
        self.pairs += 1
        w = '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?'))
        ok = None
        if el[0] == 'e' and el[1] == F('models'):
            d = self.set_loc(it, st)
            if v[0] == 'op' and v[1] == 'phr':
                ok = v[3] == el[2] and v[2] == d
                if not ok and v[2] == d and (v[3][0] in ('u', 'op') or el[2][0] in ('u', 'op')):
                    ok = None
            elif v[0] in ('in', 'addr') and (v == ('in', ('A', self.ts)) or v == ('addr', d)):
                ok = False
            elif v == ('null',):
                ok = False
        it.log(('#ob', '%s on %s: a class is trained with its own phrases' % (self.f['q'], short(self.cls)), ok, w,
                'the class %s gets %s' % (show(el[2]) if el[0] == 'e' else '?', show(v))))


def data(r, E):
    n = m = 0
    seen = set()
    for cls in sorted(r.p.classes):
        if not any(fd['n'] == 'models_still_training_' for _, fd in r.p.fields(cls)):
            continue
        fs = r.p.find(cls, 'train')
        for f in [fs] if isinstance(fs, dict) else fs or []:
            if (f['id']) in seen or not f.get('body'):
                continue
            seen.add(f['id'])
            c = Data(status_enum(r.p))
            c.cls, c.f, c.pairs = cls, f, 0
            c.ts = f['params'][0]['n']
            lab = [x['n'] for x in f['params'] if 'string' in x['t']]
            c.one = ('in', ('A', lab[0])) if lab else None
            it = Interp(r.p, c, budget=900000)
            a = r.analyse(it, f, cls=cls)
            if a is None:
                continue
            n += 1
            m += c.pairs
            s = E.of(f['id'], cls)
            r.ob('%s on %s: the data are not written' % (f['q'], short(cls)), True, r.where(f))
            for q, wh in sorted(s.w.items(), key=lambda x: repr(x[0])):
                if q[0][0] == 'p' or q[0][0] == 'g':
                    r.ob('%s on %s: the data are not written' % (f['q'], short(cls)), False, ' <- '.join(reversed(wh)),
                         'writes %s' % show_path(q))
    r.floor('functions training classes', n, 2)
    r.floor('places where a class is trained', m, 4)


def run(r):
    data(r, effects(r))
