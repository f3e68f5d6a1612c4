"""End of training. (A) Every joinTraining is evaluated from a training state: a thread is removed from the list only
after it has been joined and none remains at the end; a class is erased only if its status is cancelled or error, and
the sweep over the classes passes over none with such a status; the announcement of the end (Alldone) is delivered
exactly once, after the training and joining flags are clear. (B) Every train function: each class it starts (a call, or
a thread) is counted as training once, the model is marked as training before, the end of a class cannot be handled
before all have been started (the event lock is held while threads are created), the place a thread is stored in is
free or was joined; unless in the background, the training is joined before returning. Training a set leaves exactly the
classes of its labels: every label is added, and the class list was emptied or swept of all others. Training one label
removes no class, adds that label only. A null or empty set, or a label without data, changes nothing.
(C) The handler of class events starts the end of a background training exactly when the last class has finished."""
from common import *
from c19 import status_enum
from c18 import idle
import c17

LEVEL = 'proof'
EXPLANATION = ('Typestate over all paths of the functions that start, monitor and join a training, with sweeps over the '
               'class list judged at the end of each iteration.')


def truth_eq(it, st, v, n):
    return it.truth(st, ('cmp', 'eq', psub(v, ('i', n))))


def name(l):
    return loc_path(l)[:1]


class Join(Client):
    """tr: joined - threads joined, swept - sweep loops completed, done - events, er - keys erased in this iteration"""

    def __init__(self, S):
        self.S = S

    def bad(self, it, st, el):
        v = it.load(st, ('f', ('f', el, 'training_status'), 'status'))
        t = [truth_eq(it, st, v, self.S[k]) for k in ('Cancel', 'Error')]
        return True if True in t else False if t == [False, False] else None

    def on_loop(self, it, st, node, fr, phase, uid=None):
        k = ('e', F('models'), ('mapkey', uid))
        if phase == 'body':
            st.tr['er'] = ()
        elif phase in ('next', 'break') and uid:
            gone = k[2] in st.tr.get('er', ())
            b = self.bad(it, st, k)
            it.log(('PASS', uid, gone or b is False, gone, phase, st.tr.get('er', ())))
            it.log(('JN', uid, k[2] in st.tr.get('joined', ())))
            if phase == 'break' and uid in st.tr.get('swept', ()):
                st.tr['swept'] = tuple(x for x in st.tr['swept'] if x != uid)
        elif phase == 'exit' and uid:
            st.tr['swept'] = tuple(sorted(set(st.tr.get('swept', ())) | {uid}, key=repr))

    def on_write(self, it, st, loc, val, node, fr):
        w = '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?'))
        key = '%s on %s' % (self.f['q'], self.cls.split('::')[-1])
        if loc[0] == 'e' and val == ('erased',):
            if loc[1] == F('models'):
                b = self.bad(it, st, loc)
                v = it.load(st, ('f', ('f', loc, 'training_status'), 'status'))
                it.log(('#ob', key + ': only failed or cancelled classes are removed', True if b else
                        False if b is False or plain(it, v) else None, w, 'a class is removed whatever its status'))
                st.tr['er'] = st.tr.get('er', ())[-2:] + (loc[2],)
                it.log(('ERASE', loc[2]))
            elif loc[1] == F('training_threads_'):
                it.log(('#ob', key + ': a thread is forgotten only after it was joined', loc[2] in st.tr.get('joined', ()),
                        w, 'a thread is removed without having been joined'))
                st.tr['joined'] = tuple(x for x in st.tr.get('joined', ()) if x != loc[2])
        elif loc == F('training_threads_') and val == ('vec', ZERO, None):
            it.log(('CLEAR', st.tr.get('swept', ()), w, st.tr.get('anyjoin')))

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm in ('join', 'detach') and 'thread' in q and obj and obj[0] == 'e' and obj[1] == F('training_threads_'):
            if nm == 'join':
                st.tr['joined'] = tuple(sorted(set(st.tr.get('joined', ())) | {obj[2]}, key=repr))[-3:]
                st.tr['anyjoin'] = 1
            return [(st, None)]
        if nm in ('reset', 'updateTransitionParameters'):
            st.tr[nm] = 1
            if nm == 'reset':
                st.tr['rst'] = st.tr.get('all', 0) == 0
            return [(st, None)]
        if nm == 'notifyListeners' and args and args[0][0] == 'loc':
            l = it.resolve(st, args[0][1])
            key = '%s on %s' % (self.f['q'], self.cls.split('::')[-1])
            w = '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?'))
            v = it.load(st, ('f', l, 'status'))
            it.log(('#ob', key + ': announces the end', v == ('i', self.S['Alldone']) if v[0] == 'i' else None, w,
                    'delivers another status'))
            it.log(('#ob', key + ': announces it as the model', it.load(st, ('f', l, 'model')) == ('addr', ('T',)), w,
                    'the event does not come from the model'))
            for x in ('is_training_', 'is_joining_'):
                t = it.truth(st, it.load(st, F(x)))
                it.log(('#ob', '%s: %s is clear when the end is announced' % (key, x), t is False if t is not None else None,
                        w, '%s is still set' % x))
            st.tr['all'] = min(2, st.tr.get('all', 0) + 1)
            return [(st, None)]
        return None


def run(r):
    p = r.p
    S = status_enum(p)
    n = m = k = h = 0
    for cls in c17.trainable(p):
        if not any(fd['n'] == 'models' for _, fd in p.fields(cls)):
            continue
        for f in c17.final(r, cls, 'joinTraining'):
            n += 1
            join(r, cls, f, S)
        for f in p.find(cls, 'train'):
            if f.get('body') and f['params']:
                m += 1
                k += start(r, cls, f)
        for l in p.methods[cls].values():
            for f in l:
                if f.get('body') and len(f['params']) == 1 and 'TrainingEvent' in f['params'][0]['t'] and \
                        not f.get('ctor') and f['n'] != 'operator=':
                    h += 1
                    handler(r, cls, f, S)
    r.floor('joining functions', n, 3)
    r.floor('training functions', m, 8)
    r.floor('started class trainings', k, 16)
    r.floor('event handlers', h, 2)


def join(r, cls, f, S):
    c = Join(S)
    c.cls, c.f = cls, f
    it = Interp(r.p, c, budget=300000)

    def setup(it, st, fr):
        seed_bool(it, st, F('is_training_'), True)
        seed_bool(it, st, F('is_joining_'), False)
        return st
    a = r.analyse(it, f, cls=cls, setup=setup)
    if a is None:
        return
    key = '%s on %s' % (f['q'], cls.split('::')[-1])
    w = r.where(f)
    passes = {}
    for j in it.journal:
        if j[0] == 'PASS':
            passes.setdefault(j[1], []).append(j)
    sweeps = {u for u, l in passes.items() if any(j[3] for j in l)}
    r.ob(key + ': failed classes are removed', any(j[0] == 'ERASE' for j in it.journal), w, 'no class is ever removed')
    jn = {}
    for j in it.journal:
        if j[0] == 'JN':
            jn[j[1]] = jn.get(j[1], True) and j[2]
    for j in it.journal:
        if j[0] == 'CLEAR':
            r.ob(key + ': a thread is forgotten only after it was joined', True if any(jn.get(u) for u in j[1]) else
                 False, j[2], 'the threads are removed without having been joined')
    for u in sweeps:
        for j in passes[u]:
            if j[4] == 'next':
                r.ob(key + ': no failed class is passed over', j[2] or None if j[5] and not j[3] else j[2], w,
                     'the sweep keeps a class whose status is cancelled or error')
    for s, v in a[0]:
        e = it.truth(s, ('cmp', 'eq', it.load(s, ('f', F('training_threads_'), '#size'))))
        emp = it.load(s, F('training_threads_')) == ('vec', ZERO, None)
        r.ob(key + ': no thread remains', True if e or emp else False if e is False or not s.tr.get('anyjoin') else None,
             w, 'a path leaves a training thread unjoined')
        r.ob(key + ': the sweep over the classes is complete', bool(sweeps & set(s.tr.get('swept', ()))) if sweeps else None,
             w, 'a path ends before all classes were looked at')
        r.ob(key + ': the end is announced once', s.tr.get('all', 0) == 1, w, 'announced %s times' % s.tr.get('all', 0))
        r.ob(key + ': recognition is reset', bool(s.tr.get('reset')), w, 'a path does not reset the model')
        for x in ('is_training_', 'is_joining_'):
            t = it.truth(s, it.load(s, F(x)))
            r.ob('%s: %s is clear at the end' % (key, x), t is False if t is not None else None, w, '%s is set' % x)
    for s, t, nd in a[1]:
        r.ob(key + ': does not fail', None, w, 'throws ' + t)


class Start(c17.Stop):
    n = 0

    def __init__(self, S):
        self.S = S
        self.wrote = False

    def on_lock(self, it, st, loc, op, node, fr):
        h = set(st.tr.get('held', ()))
        (h.add if op == 'lock' else h.discard)(loc)
        st.tr['held'] = tuple(sorted(h, key=repr))

    def on_loop(self, it, st, node, fr, phase, uid=None):
        if phase == 'body':
            st.tr['cnt'] = st.tr['beg'] = 0
            st.tr['er'] = st.tr['add'] = ()
        elif phase in ('next', 'break'):
            if st.tr.get('beg') or st.tr.get('cnt'):
                it.log(('CNT', st.tr.get('beg', 0), st.tr.get('cnt', 0)))
            mk = ('mapkey', uid)
            it.log(('PASS', uid, phase, mk in st.tr.get('er', ()), bool(st.tr.get('er')), self.label_known(it, st, mk),
                    st.tr.get('add', ()), st.tr.get('beg', 0)))
            st.tr['cnt'] = st.tr['beg'] = 0
        elif phase == 'exit':
            st.tr['loops'] = tuple(sorted(set(st.tr.get('loops', ())) | {uid}, key=repr))

    def label_known(self, it, st, k):
        d = self.set_loc(it, st)
        return None if d is None else it.truth(st, ('op', 'has', ('f', d, 'labels_'), k))

    def set_loc(self, it, st):
        d = it.deref(('in', ('A', self.ts)))
        return d

    def on_write(self, it, st, loc, val, node, fr):
        if loc == F('models_still_training_'):
            self.wrote = True
            old = it.load(st, loc)
            d = psub(val, old)
            if d == ONE:
                st.tr['cnt'] = min(3, st.tr.get('cnt', 0) + 1)
            elif st.tr.get('beg') is not None:
                st.tr['odd'] = 1
        w = '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?'))
        key = '%s on %s' % (self.f['q'], self.cls.split('::')[-1])
        if loc[0] == 'e' and loc[1] == F('models') and val == ('erased',):
            st.tr['er'] = st.tr.get('er', ())[-2:] + (loc[2],)
            known = self.label_known(it, st, loc[2])
            if self.one:
                it.log(('#ob', key + ': no class is removed', loc[2] == self.one or None if loc[2][0] == 'in' else False, w,
                        'another class is removed'))
            else:
                it.log(('#ob', key + ': only classes without data are removed', True if known is False else
                        False if known is True else None, w, 'a class of the set is removed'))
        if loc[0] == 'e' and loc[1] == F('training_threads_'):
            if val == ('erased',):
                st.tr['joined'] = tuple(x for x in st.tr.get('joined', ()) if x != loc[2])
            elif not st.tr.get('stk'):
                pass
        super().on_write(it, st, loc, val, node, fr)

    def slot(self, it, st, el, node, fr):
        """the place the thread of a class is stored in"""
        k = el[2] if el[0] == 'e' else None
        key = '%s on %s' % (self.f['q'], self.cls.split('::')[-1])
        w = '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?'))
        if k is None:
            return
        ok = st.tr.pop('slot', None)
        it.log(('#ob', key + ': the former thread of a class is joined before another is stored', ok, w,
                'a thread that may still be running is replaced'))

    def begin(self, it, st, el, node, fr, thread):
        self.n += 1
        st.tr['beg'] = min(3, st.tr.get('beg', 0) + 1)
        st.tr['started'] = 1
        st.tr['joinedall'] = 0
        key = '%s on %s' % (self.f['q'], self.cls.split('::')[-1])
        w = '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?'))
        t = it.truth(st, it.load(st, F('is_training_')))
        it.log(('#ob', key + ': the model is training when a class starts', t if t is not None else None, w,
                'a class starts while the model is not marked as training'))
        if thread:
            held = F('event_mutex_') in st.tr.get('held', ())
            it.log(('#ob', key + ': the end of a class cannot be handled before all are started', True if held else
                    None if st.tr.get('odd') or not any(fd['n'] == 'event_mutex_' for _, fd in it.p.fields(self.cls)) else
                    False, w, 'a class started first may end the training of the model before the others are started'))
            self.slot(it, st, el, node, fr)
            if self.one:
                it.log(('#ob', key + ': the class of the label is trained', el == ('e', F('models'), self.one) or None, w,
                        'another class is trained'))
        else:
            held = F('event_mutex_') in st.tr.get('held', ())
            it.log(('#ob', key + ': no class is trained under the lock of its events', not held, w,
                    'the training would wait for the lock its caller holds'))

    def on_make(self, it, st, cls, vals, node, fr):
        if cls == 'std::thread' and len(vals) > 1 and vals[0][0] == 'fn' and vals[1][0] == 'addr' and \
                (it.p.funcs.get(vals[0][1]) or {}).get('n') == 'train':
            self.begin(it, st, vals[1][1], node, fr, True)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'train' and obj and obj != ('T',) and q.startswith('xmm::') and 'Model<' not in q:
            self.begin(it, st, obj, node, fr, False)
            return [(st, None)]
        if nm == 'join' and 'thread' in q and obj and obj[0] == 'e' and obj[1] == F('training_threads_'):
            st.tr['joined'] = tuple(sorted(set(st.tr.get('joined', ())) | {obj[2]}, key=repr))[-3:]
            return [(st, None)]
        if nm == 'operator[]' and obj == F('training_threads_') and args:
            k = it.aval(st, args[0], '')
            t = it.truth(st, ('op', 'has', obj, k))
            st.tr['slot'] = True if t is False or k in st.tr.get('joined', ()) or st.tr.get('thr0') else \
                False if self.one else None
            return None
        if nm == 'joinTraining' and obj == ('T',):
            st.tr['joinedall'] = 1
            return [(st, None)]
        if nm == 'clear' and obj == ('T',):
            st.tr['emptied'] = 1
            it.write(st, F('models'), ('vec', ZERO, None), node, fr)
            it.drop(st, F('models'))
            st.env[('f', F('models'), '#size')] = ZERO
            return [(st, None)]
        if nm == 'cancelTraining' and obj == ('T',) and not args:
            st.tr['thr0'] = 1
        if nm == 'addModelForClass' and obj == ('T',):
            v = it.load(st, args[0][1]) if args[0][0] == 'loc' else args[0][1]
            l = args[0][1] if args[0][0] == 'loc' else None
            st.tr['add'] = st.tr.get('add', ()) + (v,)
            st.tr['adds'] = tuple(sorted(set(st.tr.get('adds', ())) | {v}, key=repr))[:3]
            it.log(('ADD', v, l))
            it.set_has(st, F('models'), v, True)
        return super().on_call(it, st, node, callee, obj, args, fr)


def start(r, cls, f):
    c = Start(status_enum(r.p))
    c.cls, c.f = cls, f
    c.ts = f['params'][0]['n']
    lab = [x['n'] for x in f['params'] if 'string' in x['t']]
    c.one = ('in', ('A', lab[0])) if lab else None
    it = Interp(r.p, c, budget=900000)
    a = r.analyse(it, f, cls=cls)
    if a is None:
        return 0
    key = '%s on %s' % (f['q'], cls.split('::')[-1])
    if lab:
        key += ' (label)'
    w = r.where(f)
    mt = F('configuration', 'multithreading')
    E = next((e for q, e in r.p.enums.items() if q.endswith('MultithreadingMode')), None)
    bg = next(x['v'] for x in E['e'] if x['n'] == 'Background')
    for j in it.journal:
        if j[0] == 'CNT':
            r.ob(key + ': each class started is counted once', True if j[1] == j[2] else None if j[1] == 0 or
                 (j[2] == 0 and any(i[0] == 'CNT' and i[1] == 0 and i[2] == 1 for i in it.journal)) else False, w, '%s started, %s counted' % (j[1], j[2]))
    adds = [j for j in it.journal if j[0] == 'ADD']
    r.ob(key + ': classes are added', bool(adds), w, 'no class is ever added')
    ts = it.deref(('in', ('A', c.ts)))
    labels = ('f', ts, 'labels_')
    if lab:
        for j in adds:
            r.ob(key + ': adds the class of that label', j[1] == c.one or j[2] == ('A', lab[0]) or None, w, 'adds %s' % show(j[1]))
    else:
        uids = set()
        for j in it.journal:
            if j[0] == 'PASS' and j[6]:
                uids.add(j[1])
        for j in it.journal:
            if j[0] == 'PASS' and j[1] in uids:
                own = [v for v in j[6] if ('mapkey', j[1]) in c05_sub(v)]
                r.ob(key + ': every label gets a class', True if own else False if j[2] == 'break' or not j[6] else None, w,
                     'a label is passed over')
    for s, v in a[0]:
        began = s.tr.get('started')
        if lab:
            hasl = it.truth(s, ('op', 'has', labels, c.one))
            if began or s.tr.get('adds'):
                r.ob(key + ': no class for a label without data', hasl is True or None if hasl is not False else False, w,
                     'a label without data is trained')
            if began:
                r.ob(key + ': each class started is counted once', s.tr.get('cnt') == s.tr.get('beg') or
                     (None if c.wrote and not s.tr.get('cnt') else False), w,
                     '%s started, %s counted' % (s.tr.get('beg'), s.tr.get('cnt')))
        if began:
            m = truth_eq(it, s, it.load(s, mt), bg)
            r.ob(key + ': joined before returning unless in the background', bool(s.tr.get('joinedall')) or
                 (True if m else False), w, 'a path returns without joining the training')
        r.ob(key + ': no lock is kept', not s.tr.get('held'), w, 'returns holding a lock')
        if not lab and s.tr.get('loops') and s.tr.get('stop'):
            sw = [j for j in it.journal if j[0] == 'PASS' and j[4]]
            swu = {j[1] for j in sw}
            ok = True if s.tr.get('emptied') else None
            if ok is None:
                done = swu & set(s.tr['loops'])
                ok = bool(done) and all(j[3] or j[5] is True for j in it.journal if j[0] == 'PASS' and j[1] in done
                                        and j[2] == 'next')
            r.ob(key + ': classes of other labels are removed', ok, w, 'a class without data may remain')
    ends = [x[0] for x in a[0]] + [x[0] for x in a[1]]
    r.ob(key + ': starts trainings', any(s.tr.get('started') for s in ends), w, 'no class is ever started')
    # nothing to train
    for what in ('null', 'empty' if not lab else 'unknown'):
        c2 = Start(c.S)
        c2.cls, c2.f, c2.ts, c2.one = cls, f, c.ts, c.one
        it2 = Interp(r.p, c2, budget=300000)

        def setup(it, st, fr):
            v = ('in', ('A', c.ts))
            st = it.assume(st, v, what != 'null') or st
            if what == 'empty':
                for l in ('phrases_', 'labels_'):
                    st.env[('f', ('f', ts, l), '#size')] = ZERO
            if what == 'unknown':
                t = ('op', 'has', labels, c.one)
                it.boolset.add(t)
                st = it.assume(st, t, False) or st
            return st
        b = r.analyse(it2, f, cls=cls, setup=setup)
        for s in ([x[0] for x in b[0]] + [x[0] for x in b[1]]) if b else []:
            ch = s.tr.get('stop') or s.tr.get('early') or s.tr.get('adds') or s.tr.get('started')
            r.ob('%s: nothing happens for %s' % (key, {'null': 'a null set', 'empty': 'a set without phrases',
                                                     'unknown': 'a label without data'}[what]), not ch, w,
                 'the model is changed')
        if what == 'unknown' and b:
            r.ob(key + ': a label without data is refused', not b[0], w, 'ends normally')
    return c.n


def c05_sub(v):
    from c05 import subterms
    return set(subterms(v))


class Last(Client):
    def on_make(self, it, st, cls, vals, node, fr):
        if cls == 'std::thread' and len(vals) > 1 and vals[0][0] == 'fn' and \
                (it.p.funcs.get(vals[0][1]) or {}).get('n') == 'joinTraining':
            st.tr['join'] = min(2, st.tr.get('join', 0) + 1)
            st.tr['on'] = vals[1]

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'notifyListeners':
            return [(st, None)]
        if nm == 'joinTraining':
            st.tr['inside'] = 1
            return [(st, None)]
        if nm == 'detach':
            st.tr['det'] = 1
        return None


def handler(r, cls, f, S):
    ev = ('A', f['params'][0]['n'])
    E = next((e for q, e in r.p.enums.items() if q.endswith('MultithreadingMode')), None)
    M = {x['n']: x['v'] for x in E['e']}
    key = f['q']
    for what, sn, mode, joining, cancel, cnt, want in (
            ('the last class of a background training', 'Done', 'Background', False, False, 1, True),
            ('the last class of a background training, failed', 'Error', 'Background', False, False, 1, True),
            ('an earlier class', 'Done', 'Background', False, False, 2, False),
            ('a class that goes on', 'Run', 'Background', False, False, 0, False),
            ('a parallel training', 'Done', 'Parallel', False, False, 1, False),
            ('a sequential training', 'Done', 'Sequential', False, False, 1, False),
            ('a cancelled training', 'Cancel', 'Background', False, True, 1, False),
            ('a training being joined', 'Done', 'Background', True, False, 1, False)):
        it = Interp(r.p, Last(), budget=100000)

        def setup(it, st, fr):
            st.env[('f', ev, 'status')] = ('i', S[sn])
            st.env[F('configuration', 'multithreading')] = ('i', M[mode])
            seed_bool(it, st, F('is_joining_'), joining)
            seed_bool(it, st, F('cancel_required_'), cancel)
            st.env[F('models_still_training_')] = ('i', cnt)
            return st
        a = r.analyse(it, f, cls=cls, setup=setup)
        for s, v in a[0] if a else []:
            n = s.tr.get('join', 0)
            r.ob('%s: %s %s' % (key, what, 'is joined' if want else 'is not joined here'), n == (1 if want else 0) if
                 not s.tr.get('odd') else None, r.where(f), 'the end of the training is started %s times' % n)
            r.ob(key + ': a class does not wait for itself', not s.tr.get('inside'), r.where(f),
                 'joinTraining is called by the thread of a class')
            if n:
                r.ob(key + ': the end runs by itself', bool(s.tr.get('det')), r.where(f), 'the thread is not detached')
