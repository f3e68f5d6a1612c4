"""Locks. Every function that operates on a mutex, a lock guard, or a flag that other operations wait for in a loop
(is_joining_), and every function calling one, is evaluated for each class of object it runs on. The calls that may fail
- event delivery to user listeners, allocation and the numerical steps of a training - are taken both to return and to
throw. At every end of the function, normal or exceptional, no lock is held and no wait flag that was clear on entry is
set. No lock is acquired while held or released while not held. While a lock needed by the delivery of training events
is held, no training is run, waited for or joined (the training could not deliver its events)."""
from common import *
from prog import walk

LEVEL = 'proof'
EXPLANATION = ('Typestate of every lock and wait flag over all paths, including the exceptional ones, of every function '
               'that can acquire one.')

GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
MUTEX = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex')
RISKY = ('notifyListeners', 'allocate', 'emAlgorithmInit', 'emAlgorithmUpdate')
STEPS = ('reset', 'addModelForClass', 'updateTransitionParameters', 'clear', 'set', 'getPhrasesOfClass', 'labels')


def spin_flags(p):
    """members read in the condition of a loop with an empty body, outside the classes that own no thread"""
    out = set()
    for f in p.src_funcs():
        for x in walk(f.get('body') or {}):
            if x.get('k') == 'while' and idle(x):
                out |= {y['n'] for y in walk(x.get('c') or {}) if y.get('k') == 'mem' and isinstance(y.get('n'), str)}
    return out


def idle(n):
    """a loop that only waits: nothing but its condition changes"""
    b = n.get('b')
    return not any(x.get('k') in ('call', 'bin', 'un', 'decl', 'ret', 'break') for x in walk(b or {})) or \
        all(x['c'].get('q', '').startswith(('std::this_thread', 'std::chrono')) for x in walk(b or {})
            if x.get('k') == 'call' and isinstance(x.get('c'), dict))


def calls_in(f):
    for x in walk(f.get('body') or {}):
        if x.get('k') in ('call', 'construct') and isinstance(x.get('c'), dict):
            yield x['c']


def sets(f, flags):
    for x in walk(f.get('body') or {}):
        if x.get('k') == 'bin' and x.get('op') == '=' and isinstance(x.get('x'), dict) and x['x'].get('n') in flags:
            return True
        if x.get('k') == 'call' and isinstance(x.get('o'), dict) and x['o'].get('k') == 'mem' and \
                x['o'].get('n') in flags and x['c'].get('n', '').startswith(('store', 'exch', 'compare', 'operator=')):
            return True
    return False


def locks_in(f):
    return any(base_cls(c.get('cls') or '') in MUTEX + GUARDS for c in calls_in(f))


class Locks(Client):
    def __init__(self, delivery, stub=(), inl=()):
        self.delivery = delivery
        self.stub = stub
        self.inl = inl
        self.seen = 0

    def acquires(self, p, i, seen):
        """names of the locks a function may take on its own object"""
        f = p.funcs.get(i)
        if f is None or i in seen:
            return set()
        seen.add(i)
        out = set()
        for x in walk(f.get('body') or {}):
            if x.get('k') in ('call', 'construct') and isinstance(x.get('c'), dict):
                if base_cls(x['c'].get('cls') or '') in MUTEX + GUARDS:
                    out |= {y['n'] for y in walk([x.get('o'), x.get('a')]) if y.get('k') == 'mem' and
                            (y.get('b') or {}).get('k') == 'this'}
                elif (x.get('o') or {}).get('k', 'this') == 'this':
                    for t in [x['c'].get('id')] + list(p.overriders.get(x['c'].get('id'), ())):
                        out |= self.acquires(p, t, seen)
        return out

    def on_lock(self, it, st, loc, op, node, fr):
        self.seen += 1
        held = dict(st.tr.get('held', ()))
        w = '%s:%s' % (fr.func.get('file', '?') if fr.func else '?', (node or {}).get('l', '?'))
        nm = show(loc)
        if op == 'lock':
            it.log(('#ob', '%s is not acquired while held [%s]' % (nm, fr.func.get('q', '')), not held.get(loc), w,
                    'acquired again on a path that already holds it'))
            held[loc] = held.get(loc, 0) + 1
        elif op == 'unlock':
            it.log(('#ob', '%s is not released while free [%s]' % (nm, fr.func.get('q', '')),
                    None if st.tr.get('try') else loc in held, w, 'released on a path that does not hold it'))
            held[loc] = held.get(loc, 0) - 1
            if held[loc] <= 0:
                held.pop(loc)
        else:
            st.tr['try'] = 1
        st.tr['held'] = tuple(sorted(held.items(), key=repr))

    def waits(self, it, st, what, node, fr):
        for l, _ in st.tr.get('held', ()):
            nm = loc_path(l)[:1]
            ok = not (nm and nm[0] in self.delivery)
            it.log(('#ob', '%s: no training is waited for under a lock its events need' % fr.func.get('q', ''), ok,
                    '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?')),
                    '%s while holding %s' % (what, show(l))))

    def on_loop(self, it, st, node, fr, phase, uid=None):
        if phase == 'body' and node and node.get('k') == 'while' and st.tr.get('held'):
            if idle(node):
                self.waits(it, st, 'a wait loop runs', node, fr)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm in RISKY and (q.startswith('xmm::') or nm == 'notifyListeners'):
            s2 = st.clone()
            it.throw(s2, 'std::runtime_error', node, fr)
            v = None
            if nm == 'emAlgorithmUpdate':
                v = it.fresh(st, ('upd', fr.fid, (node or {}).get('l')))
            return [(st, v)]
        ids = [callee.get('id')] + list(it.p.overriders.get(callee.get('id'), ())) if callee else []
        if any(i in self.stub for i in ids) and not any(i in self.inl for i in ids):
            got = set()
            for i in ids:
                got |= self.acquires(it.p, i, set())
            for l, _ in st.tr.get('held', ()):
                if obj == ('T',) and l[0] == 'f' and l[1] == ('T',):
                    it.log(('#ob', '%s is not acquired while held [%s]' % (show(l), fr.func.get('q', '')),
                            l[2] not in got, '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?')),
                            'the call of %s acquires it again' % nm))
            if nm == 'train' or nm.startswith(('cancelTraining', 'joinTraining')):
                self.waits(it, st, '%s is called' % nm, node, fr)
            rt = callee.get('rt') or 'void'
            it.throw(st.clone(), 'std::runtime_error', node, fr)
            return [(st, None if rt == 'void' else it.fresh(st, ('stub', fr.fid, (node or {}).get('l'))))]
        if nm in STEPS and q.startswith('xmm::') and obj is not None and nm != (fr.func or {}).get('n') and \
                not locks_in(it.p.funcs.get(callee.get('id')) or {}):
            if nm in ('getPhrasesOfClass', 'labels'):
                return None
            return [(st, None)]
        if nm == 'train' and q.startswith('xmm::') and obj and obj != ('T',):
            self.waits(it, st, 'a class is trained', node, fr)
            return [(st, None)]
        if q.startswith('std::thread::join') or nm == 'join' and 'thread' in q:
            self.waits(it, st, 'a training thread is joined', node, fr)
        return None


def run(r):
    p = r.p
    flags = {x for x in spin_flags(p) if any(fd['n'] == x and 'atomic' in fd['t']
                                             for c in p.classes for _, fd in p.fields(c))}
    flags.discard('is_training_')       # set for the whole training, cleared at its end (C19, C22)
    direct = {f['id'] for f in p.src_funcs() if locks_in(f) or sets(f, flags)}
    callers = {}
    for f in p.src_funcs():
        for c in calls_in(f):
            for t in [c.get('id')] + list(p.overriders.get(c.get('id'), ())):
                callers.setdefault(t, set()).add(f['id'])
    roots, work = set(direct), list(direct)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in roots:
                roots.add(c)
                work.append(c)
    # locks taken by the functions that deliver training events
    delivery = set()
    for f in p.src_funcs():
        if f['n'].startswith('on') and any('TrainingEvent' in x['t'] for x in f['params']) and f.get('body'):
            c = Locks(set())
            it = Interp(p, c, budget=200000)
            got = []
            c2 = c.on_lock
            c.on_lock = lambda it, st, loc, op, node, fr: (got.append(loc), c2(it, st, loc, op, node, fr))
            try:
                it.analyse(f, cls=f.get('cls'))
            except Exception:
                pass
            delivery |= {loc_path(l)[0] for l in got if loc_path(l)}
    n = k = 0
    opened = set()          # helpers that leave a lock held: judged where they are called
    work, done = sorted(direct, key=lambda i: (p.funcs[i]['file'], p.funcs[i]['line'], p.funcs[i]['q'])), set()
    while work:
        i = work.pop(0)
        f = p.funcs[i]
        if i in done or not f.get('body') or f.get('defaulted') or f.get('ctor'):
            continue
        done.add(i)
        cls = f.get('cls')
        for c in sorted(set([cls] + list(p.derived(cls)))) if cls in p.methods else [None]:
            res = one(r, f, c, flags, delivery, roots, opened)
            if res is None:
                continue
            n += 1
            k += res[0]
            if res[1] and f.get('acc') != 'public' and callers.get(i):
                opened.add(i)
                work += [x for x in callers[i] if x not in done]
                break
            for o in res[2]:
                r.ob(*o)
    r.floor('functions operating on locks', n, 8)
    r.floor('lock operations evaluated', k, 6)
    r.floor('locks needed by event delivery', len(delivery), 1)


def one(r, f, cls, flags, delivery, roots, opened):
    c = Locks(delivery, roots - opened - {f['id']}, opened)
    it = Interp(r.p, c, budget=300000)

    def setup(it, st, fr):
        for x in flags:
            if cls and any(fd['n'] == x for _, fd in r.p.fields(cls)):
                seed_bool(it, st, F(x), False)
        if f['n'] == 'operator=':
            st = it.assume(st, ('cmp', 'eq', psub(('addr', ('T',)), ('addr', ('A', f['params'][0]['n'])))), False) or st
        return st
    a = r.analyse(it, f, cls=cls, setup=setup)
    if a is None:
        return None
    key = '%s%s' % (f['q'], ' on ' + cls.split('::')[-1] if cls and cls != f.get('cls') else '')
    out, left = [], False
    for s, how, node in [(x[0], 'normally', None) for x in a[0]] + [(x[0], 'with %s' % x[1], x[2][0]) for x in a[1]]:
        held = s.tr.get('held', ())
        left = left or bool(held)
        out.append((key + ': no lock survives', not held if not s.tr.get('try') else (not held or None),
                    r.where(f, node), '%s still held when the function ends %s' % (
                        ', '.join(show(l) for l, _ in held), how)))
        for x in flags:
            l = F(x)
            if it.truth(it.entry, it.load(it.entry, l)) is False:
                v = it.truth(s, it.load(s, l))
                out.append(('%s: %s is clear again' % (key, x), True if v is False else False if v is True else None,
                            r.where(f, node), 'still set when the function ends %s' % how))
    return c.seen, left, out
