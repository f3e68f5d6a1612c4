"""Final status. (A) The training function of each class model is evaluated with its numerical steps taken both to
succeed and to fail and a cancellation arriving at any of them, from a training set that may be absent or empty. On
every path it delivers exactly one event whose status is final (done, error or cancelled) and none after it; every event
before it says 'running'; at the end the training flag is clear and the status kept equals the one reported; the only
path reporting 'done' is one on which no step failed and no cancellation was seen; no exception of a step escapes.
(B) The model's handler of these events forwards each one exactly once with the same status, label, progress and figures
and with itself as the model; for a final status it clears the flag of the class that sent it and counts it as finished
once; for 'running' it does neither."""
from common import *
from prog import walk

LEVEL = 'proof'
EXPLANATION = ('Typestate of the sequence of events over all paths of the training function and of the event handler.')

STEPS = ('allocate', 'emAlgorithmInit', 'emAlgorithmUpdate')


def status_enum(p):
    for q, e in p.enums.items():
        if q.endswith('TrainingEvent::Status'):
            return {x['n']: x['v'] for x in e['e']}
    return {}


class Events(Client):
    """tr: fin - number of final events (capped), after - an event followed one, last - last status value, bad - a step
    failed, fail - which"""

    def __init__(self, status, cancel=True):
        self.S = status
        self.cancel = cancel
        self.n = 0

    def interrupt(self, it, st):
        """a cancellation arriving now"""
        if not self.cancel:
            return []
        c = it.truth(st, it.load(st, F('cancel_training_')))
        if c is True:
            return []
        s2 = st.clone()
        s2.env[F('cancel_training_')] = TRUE
        return [s2]

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'notifyListeners' and args:
            self.n += 1
            v = None
            if args[0][0] == 'loc':
                v = it.load(st, ('f', it.resolve(st, args[0][1]), 'status'))
            st.tr['src'] = loc_path(obj)[0] if obj and loc_path(obj) else '?'
            if st.tr.get('fin'):
                st.tr['after'] = 1
            if v is None or v[0] != 'i':
                st.tr['odd'] = 1
            elif v[1] != self.S['Run']:
                st.tr['fin'] = min(2, st.tr.get('fin', 0) + 1)
            st.tr['last'] = v
            return [(s, None) for s in [st] + self.interrupt(it, st)]
        if nm in STEPS and q.startswith('xmm::') and obj == ('T',):
            for t in ('std::runtime_error', 'std::bad_alloc'):
                s2 = st.clone()
                s2.tr['bad'] = 1
                it.throw(s2, t, node, fr)
            out = []
            for s in [st] + self.interrupt(it, st):
                out.append((s, it.fresh(s, ('upd', fr.fid, (node or {}).get('l')))
                            if nm == 'emAlgorithmUpdate' else None))
            return out
        if nm == 'normalizeTransitions':
            return [(st, None)]
        return None


def run(r):
    p = r.p
    S = status_enum(p)
    n = 0
    for cls in sorted(p.methods):
        if any(fd['n'] == 'training_status' for _, fd in p.fields(cls)):
            for f in p.find(cls, 'train'):
                if f.get('body'):
                    n += 1
                    training(r, cls, f, S)
    r.floor('training functions', n, 3)
    m = 0
    for cls in sorted(p.methods):
        for l in p.methods[cls].values():
            for f in l:
                if f.get('body') and len(f['params']) == 1 and 'TrainingEvent' in f['params'][0]['t'] and \
                        not f.get('ctor') and f['n'] != 'operator=' and cls.startswith('xmm::Model<'):
                    m += 1
                    handler(r, cls, f, S)
    r.floor('event handlers', m, 2)


def at_least(p, name):
    """lower limit given to a shared parameter by every constructor, if known"""
    out = []
    for f in p.methods['xmm::SharedParameters'].get('SharedParameters', []):
        if f.get('copy') or f.get('defaulted') or not f.get('body') or f['params']:
            continue
        it = Interp(p, Client(), budget=100000)
        for s, v in it.analyse(f, cls='xmm::SharedParameters')[0]:
            out.append(it.load(s, F(name, 'limit_min_')))
    return out[0] if out and all(x == out[0] for x in out) and out[0][0] == 'i' else None


def assume_limit(it, st, name, lo):
    d = it.deref(it.load(st, F('shared_parameters')))
    if d is None or lo is None:
        return st
    v = it.load(st, ('f', ('f', d, name), 'value_'), 'unsigned int')
    return it.assume(st, ('cmp', 'le', psub(lo, v)), True) or st


def training(r, cls, f, S):
    c = Events(S)
    lo = at_least(r.p, 'em_algorithm_min_iterations')
    it = Interp(r.p, c, budget=600000)

    def setup(it, st, fr):
        seed_bool(it, st, F('is_training_'), True)
        return assume_limit(it, st, 'em_algorithm_min_iterations', lo)
    a = r.analyse(it, f, cls=cls, setup=setup)
    if a is None:
        return
    key = '%s on %s' % (f['q'], cls.split('::')[-1])
    name = {v: k for k, v in S.items()}
    r.ob(key + ': events are delivered', c.n > 0, r.where(f), 'no event is ever delivered')
    for s, v in a[0]:
        fin, odd = s.tr.get('fin', 0), s.tr.get('odd')
        last = s.tr.get('last')
        ln = name.get(last[1]) if last and last[0] == 'i' else None
        r.ob(key + ': exactly one final status', True if fin == 1 and not odd else False if not odd else None, r.where(f),
             'a path delivers %s final events' % ('no' if not fin else 'several'))
        r.ob(key + ': nothing follows the final status', not s.tr.get('after'), r.where(f),
             'an event is delivered after the final one')
        fl = it.truth(s, it.load(s, F('is_training_')))
        r.ob(key + ': no longer training at the end', fl is False if fl is not None else None, r.where(f),
             'the training flag is still set (last event: %s)' % ln)
        kept = it.load(s, F('training_status', 'status'))
        r.ob(key + ': the status kept is the one reported', kept == last if kept[0] == 'i' and ln else None, r.where(f),
             'reported %s, kept %s' % (ln, name.get(kept[1]) if kept[0] == 'i' else show(kept)))
        if ln == 'Done':
            r.ob(key + ': done only if every step succeeded', not s.tr.get('bad'), r.where(f),
                 'reported done although a step failed')
        if ln == 'Error':
            pass
        for k in ('Run', 'Alldone'):
            if fin and ln == k:
                r.ob(key + ': the final status is done, error or cancelled', False, r.where(f), 'reports %s' % k)
    for s, t, w in a[1]:
        r.ob(key + ': no failure escapes', False, r.where(f, w[0]), '%s leaves the training without a status' % t)
    seen = {name.get(s.tr['last'][1]) for s, v in a[0] if s.tr.get('last') and s.tr['last'][0] == 'i'}
    for k in ('Done', 'Error', 'Cancel'):
        r.ob('%s: can end with %s' % (key, k), k in seen, r.where(f), 'no path reports it')


class Forward(Client):
    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'notifyListeners' and args and args[0][0] == 'loc':
            l = it.resolve(st, args[0][1])
            st.tr['n'] = min(2, st.tr.get('n', 0) + 1)
            st.tr['to'] = loc_path(obj)[0] if obj and loc_path(obj) else '?'
            for x in ('model', 'label', 'status', 'progression', 'log_likelihood', 'iterations'):
                st.tr['e_' + x] = it.load(st, ('f', l, x))
            return [(st, None)]
        if nm in ('joinTraining', 'detach', 'join'):
            return [(st, None)]
        return None


def handler(r, cls, f, S):
    ev = ('A', f['params'][0]['n'])
    key = f['q']
    for sn, sv in sorted(S.items()):
        if sn == 'Alldone':
            continue
        it = Interp(r.p, Forward(), budget=300000)

        def setup(it, st, fr):
            st.env[('f', ev, 'status')] = ('i', sv)
            return st
        a = r.analyse(it, f, cls=cls, setup=setup)
        if a is None:
            continue
        d = it.deref(it.load(it.entry, ('f', ev, 'model')))
        flag = ('f', d, 'is_training_')
        seed = it.load(it.entry, flag)
        cnt = F('models_still_training_')
        for s, v in a[0]:
            k = '%s, %s' % (key, sn)
            r.ob(k + ': forwarded once', s.tr.get('n') == 1, r.where(f), 'delivered %s times' % s.tr.get('n', 0))
            if s.tr.get('n') == 1:
                for x in ('label', 'status', 'progression', 'log_likelihood', 'iterations'):
                    w = it.load(it.entry, ('f', ev, x))
                    g = s.tr['e_' + x]
                    r.ob('%s: %s forwarded' % (k, x), g == w or (None if g[0] in ('u', 'op') else False), r.where(f),
                         'becomes %s' % show(g))
                g = s.tr['e_model']
                r.ob(k + ': forwarded as an event of the model', g == ('addr', ('T',)), r.where(f), 'model is %s' % show(g))
            fl = it.load(s, flag)
            delta = psub(it.load(s, cnt), it.load(it.entry, cnt))
            if sn == 'Run':
                r.ob(k + ': the class goes on training', fl == seed, r.where(f), 'its flag becomes %s' % show(fl))
                r.ob(k + ': not counted as finished', delta == ZERO, r.where(f), 'count changes by %s' % show(delta))
            else:
                r.ob(k + ': the class is marked as no longer training', it.truth(s, fl) is False if
                     it.truth(s, fl) is not None or fl == seed else None, r.where(f), 'its flag is %s' % show(fl))
                r.ob(k + ': counted as finished once', delta == ('i', -1) if delta[0] == 'i' else None, r.where(f),
                     'count changes by %s' % show(delta))
