"""Cancellation. (A) The training function of each class model is evaluated with a cancellation arriving before it
starts, during any of its numerical steps or at any event it delivers: once it has arrived no further update of the
model begins, and the final event says cancelled (or error, when the step it arrived in failed). (B) cancelTraining of a
class being trained records the request on every path and takes no lock that the training holds. (C) cancelTraining of
the model, while training: each class is asked to stop and waited for, then the training is joined; with a label, the
class of that label and no other. The request of the model is withdrawn at the end. (D) A class whose training is
started (called, or given to a thread) is marked as training and carries no earlier request."""
from common import *
from prog import walk
from c19 import at_least, assume_limit, status_enum
from c18 import idle
from c05 import subterms
import c17

LEVEL = 'proof'
EXPLANATION = ('Typestate of the cancellation request over all paths of the training function, the requesting functions '
               'and the functions that start a training.')


class Arrive(LoopTrack):
    """tr: req - a request has arrived, upd - an update began after it, fin - final status, bad - a step failed"""

    def __init__(self, S):
        self.S = S
        self.held = set()

    def arrive(self, it, st):
        if st.tr.get('req') or st.tr.get('fin') is not None:
            return []
        s2 = st.clone()
        s2.tr['req'] = 1
        s2.tr['set'] = 1
        s2.env[F('cancel_training_')] = TRUE
        return [s2]

    def on_write(self, it, st, loc, val, node, fr):
        if loc == F('cancel_training_'):
            t = it.truth(st, val)
            st.tr['set'] = 1 if t else 0 if t is False else None

    def on_loop(self, it, st, node, fr, phase, uid=None):
        super().on_loop(it, st, node, fr, phase, uid)
        if phase == 'head' and st.tr.get('set') is not None:
            st.env[F('cancel_training_')] = TRUE if st.tr['set'] else FALSE

    def on_lock(self, it, st, loc, op, node, fr):
        if op == 'lock':
            self.held.add(loc)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'notifyListeners' and args:
            v = it.load(st, ('f', it.resolve(st, args[0][1]), 'status')) if args[0][0] == 'loc' else None
            if v is None or v[0] != 'i':
                st.tr['odd'] = 1
            elif v[1] != self.S['Run'] and st.tr.get('fin') is None:
                st.tr['fin'] = v[1]
            return [(s, None) for s in [st] + self.arrive(it, st)]
        if nm in ('allocate', 'emAlgorithmInit', 'emAlgorithmUpdate') and obj == ('T',):
            if nm == 'emAlgorithmUpdate':
                it.log(('#ob', 'no update begins after a cancellation [%s]' % self.cls.split('::')[-1],
                        not st.tr.get('req'), '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l')),
                        'an update begins although the training was asked to stop before'))
            out = []
            for s in [st] + self.arrive(it, st):
                s2 = s.clone()
                s2.tr['bad'] = 1
                it.throw(s2, 'std::runtime_error', node, fr)
                out.append((s, it.fresh(s, ('upd', fr.fid, (node or {}).get('l')))
                            if nm == 'emAlgorithmUpdate' else None))
            return out
        if nm == 'normalizeTransitions':
            return [(st, None)]
        return None


def run(r):
    p = r.p
    S = status_enum(p)
    lo = at_least(p, 'em_algorithm_min_iterations')
    n = 0
    for cls in sorted(p.methods):
        if not any(fd['n'] == 'training_status' for _, fd in p.fields(cls)):
            continue
        held = set()
        for f in p.find(cls, 'train'):
            if f.get('body'):
                n += 1
                training(r, cls, f, S, lo, held)
        for f in p.find(cls, 'cancelTraining'):
            if f.get('body'):
                request(r, cls, f, held)
    r.floor('training functions', n, 3)
    m = k = 0
    for cls in c17.trainable(p):
        if not any(fd['n'] == 'models' for _, fd in p.fields(cls)):
            continue
        for f in c17.final(r, cls, 'cancelTraining'):
            m += 1
            model(r, cls, f)
        for f in p.find(cls, 'train'):
            if f.get('body'):
                k += start(r, cls, f)
    r.floor('cancelling functions of the model', m, 4)
    r.floor('started trainings', k, 8)


def nan_path(s):
    return any(len(t) > 1 and t[0] == 'op' and 'nan' in str(t[1]) for fa in s.facts for t in subterms(fa))


def training(r, cls, f, S, lo, held):
    for early in (False, True):
        c = Arrive(S)
        c.cls = cls
        it = Interp(r.p, c, budget=600000)

        def setup(it, st, fr):
            seed_bool(it, st, F('is_training_'), True)
            seed_bool(it, st, F('cancel_training_'), early)
            st.tr['set'] = 1 if early else 0
            if early:
                st.tr['req'] = 1
            return assume_limit(it, st, 'em_algorithm_min_iterations', lo)
        a = r.analyse(it, f, cls=cls, setup=setup)
        if a is None:
            return
        held |= c.held
        name = {v: k for k, v in S.items()}
        key = '%s on %s' % (f['q'], cls.split('::')[-1])
        for s, v in a[0]:
            if not s.tr.get('req'):
                r.ob(key + ': cancelled only when asked to', s.tr.get('fin') != S['Cancel'], r.where(f),
                     'reports cancelled without a request')
                continue
            fin = name.get(s.tr.get('fin'))
            ok = fin == 'Cancel'
            if not ok and fin == 'Error' and (s.tr.get('bad') or nan_path(s)):
                ok = True
            if not ok and (s.tr.get('odd') or fin is None):
                ok = None
            r.ob(key + ': a cancelled training ends as cancelled', ok, r.where(f),
                 'ends as %s after a cancellation request' % fin)


def request(r, cls, f, held):
    got = []

    class L(Client):
        def on_lock(self, it, st, loc, op, node, fr):
            if op == 'lock':
                got.append(loc)
    it = Interp(r.p, L(), budget=50000)

    def setup(it, st, fr):
        seed_bool(it, st, F('is_training_'), True)
        seed_bool(it, st, F('cancel_training_'), False)
        return st
    a = r.analyse(it, f, cls=cls, setup=setup)
    if a is None:
        return
    key = '%s on %s' % (f['q'], cls.split('::')[-1])
    for s, v in a[0]:
        x = it.truth(s, it.load(s, F('cancel_training_')))
        r.ob(key + ': the request is recorded', x if x is not None else None, r.where(f), 'the request is not recorded')
    r.ob(key + ': no lock of the training is taken', not (set(got) & held), r.where(f),
         'takes %s, which the training holds' % ', '.join(show(x) for x in set(got) & held))


class Ask(LoopTrack):
    """tr['ask']: what happened in this iteration; tr['creq']: the last value given to the request of the model"""

    def on_write(self, it, st, loc, val, node, fr):
        if loc == F('cancel_required_'):
            st.tr['creq'] = it.truth(st, val)

    def on_loop(self, it, st, node, fr, phase, uid=None):
        super().on_loop(it, st, node, fr, phase, uid)
        if phase == 'body' and node and node.get('k') == 'while' and idle(node):
            return
        if phase == 'body':
            st.tr['ask'] = ()
        if phase == 'next':
            it.log(('IT', uid, st.tr.get('ask', ())))
        if phase == 'exit' and node and node.get('k') in ('while', 'do') and idle(node):
            st.tr['ask'] = st.tr.get('ask', ()) + ('waited',)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'cancelTraining' and obj and obj != ('T',) and 'SingleClass' in q:
            st.tr['ask'] = st.tr.get('ask', ()) + (('asked', obj),)
            st.tr['any'] = st.tr.get('any', ()) + (obj,) if len(st.tr.get('any', ())) < 3 else st.tr['any']
            it.log(('ASK', obj, (node or {}).get('l')))
            return [(st, None)]
        if nm == 'joinTraining':
            st.tr['joined'] = st.tr.get('done', ()) or ('*',)
            return [(st, None)]
        if nm == 'isTraining' and obj and obj != ('T',):
            return [(st, it.fresh(st, ('busy', fr.fid, (node or {}).get('l'))))]
        return None


def model(r, cls, f):
    it = Interp(r.p, Ask(), budget=200000)
    label = [x['n'] for x in f['params'] if 'string' in x['t']]

    def setup(it, st, fr):
        seed_bool(it, st, F('is_training_'), True)
        return st
    a = r.analyse(it, f, cls=cls, setup=setup)
    if a is None:
        return
    key = '%s(%s) on %s' % (f['q'].split('::')[-1], 'label' if label else '', cls.split('::')[-1])
    w = r.where(f)
    asks = [j for j in it.journal if j[0] == 'ASK']
    its = [j for j in it.journal if j[0] == 'IT']
    r.ob(key + ': asks a class to stop', bool(asks), w, 'no class is ever asked to stop')
    for s, v in a[0]:
        x = it.truth(s, it.load(s, F('cancel_required_')))
        if x is None:
            x = s.tr.get('creq')
        r.ob(key + ': the request of the model is withdrawn', x is False if x is not None else None, w,
             'cancel_required_ is still set at the end')
    if not label:
        loops = [j for j in its if any(e != 'waited' for e in j[2])]
        for j in its:
            if j[1] not in {x[1] for x in loops}:
                continue
            ev = j[2]
            i = [n for n, e in enumerate(ev) if e != 'waited']
            r.ob(key + ': every class is asked to stop', bool(i), w, 'an iteration passes over a class')
        # waits for each class: in the same iteration, or in another loop over them
        r.ob(key + ': waits for the classes', True if any('waited' in j[2] for j in its) else False, w,
             'does not wait for the classes to stop')
        for s, v in a[0]:
            r.ob(key + ': the training is joined', bool(s.tr.get('joined')), w, 'a path does not join the training')
    else:
        for j in asks:
            o = j[1]
            ok = None
            if o[0] == 'e' and loc_path(o)[:1] == ['models']:
                ok = o[2] == ('in', ('A', label[0])) or ('A', label[0]) in subterms(o[2])
                ok = ok or (False if o[2][0] in ('mapkey', 'first') and not any(
                    fa[0] == 'eq' for fa in ()) else None)
            r.ob(key + ': the class of that label is asked to stop', True if ok else ok, w, 'asks %s' % show(o))
        for s, v in a[0]:
            if s.tr.get('any'):
                r.ob(key + ': waits for the class', 'waited' in s.tr.get('ask', ()), w,
                     'does not wait for the class to stop')


class Start(c17.Stop):
    n = 0
    swept = ()

    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[1][0] == 'e' and loc[1][1] == F('models') and loc[1][2][0] == 'mapkey':
            self.swept = set(self.swept) | {(loc[2], it.truth(st, val))}
        super().on_write(it, st, loc, val, node, fr)

    def begin(self, it, st, el, node, fr):
        self.n += 1
        k = 'training started at %s' % fr.func.get('q', '')
        w = '%s:%s' % (fr.func.get('file', '?'), (node or {}).get('l', '?'))
        for x, want, msg in (('is_training_', True, 'is not marked as training'),
                             ('cancel_training_', False, 'may carry an earlier request')):
            v = it.load(st, ('f', el, x))
            t = it.truth(st, v)
            ok = True if t is want else False if t is not None or v == ('in', ('f', el, x)) or v[0] == 'prj' else None
            if t is None and (x, want) in self.swept:
                ok = None           # given to every class in a loop of its own
            it.log(('#ob', '%s: %s [%s]' % (k, x, self.cls.split('::')[-1]), ok, w,
                    'the class %s when its training starts' % msg))

    def on_make(self, it, st, cls, vals, node, fr):
        if cls == 'std::thread' and len(vals) > 1 and vals[0][0] == 'fn' and vals[1][0] == 'addr' and \
                (it.p.funcs.get(vals[0][1]) or {}).get('n') == 'train':
            self.begin(it, st, vals[1][1], node, fr)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        if q.endswith('::train') and obj and obj != ('T',) and 'Model<' not in q:
            self.begin(it, st, obj, node, fr)
            return [(st, None)]
        if q.split('::')[-1].split('<')[0] == 'clear' and obj == ('T',):
            it.drop(st, F('models'))
            return [(st, None)]
        return super().on_call(it, st, node, callee, obj, args, fr)


def start(r, cls, f):
    c = Start()
    c.cls = cls
    it = Interp(r.p, c, budget=900000)
    a = r.analyse(it, f, cls=cls)
    return c.n if a else 0
