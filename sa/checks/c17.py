"""Busy guards. (A) Every function filter, reset, toJson, fromJson, copy constructor and copy assignment of a trainable
class (Model<...>, GMM, HierarchicalHMM, SingleClassProbabilisticModel, SingleClassGMM, SingleClassHMM) is evaluated from
a state in which the object's training flag is set - for copying, in addition from a state in which the source's flag is
set: no path ends normally, and on every path leaving with an exception nothing reachable from the object has changed.
The query isTraining/training answers yes in that state, and no with the flag clear. (B) train, clear and removeClass
are evaluated from the same state: on every path, the first change to the models, the parameters or the class list comes
after a call to cancelTraining - for every class, or for the class concerned; a path that never stops the training has
changed nothing."""
from common import *
import c10

LEVEL = 'proof'
EXPLANATION = ('Evaluation of each operation with the training flag seeded: no normal end, no change before the refusal; '
               'order of the stop call and of the first change for the operations that interrupt a training.')

FLAG = 'is_training_'
GUARDED = ('filter', 'reset', 'toJson', 'fromJson')
EXEMPT = (FLAG, 'cancel_training_', 'cancel_required_', 'is_joining_', 'models_still_training_', 'training_mutex_',
          'event_mutex_')
KEPT = ('models', 'configuration', 'shared_parameters', 'components', 'states', 'parameters', 'results', 'prior',
        'transition', 'exit_transition', 'label')


def trainable(p):
    for cls in sorted(p.methods):
        if cls.startswith('xmm::') and any(fd['n'] == FLAG for _, fd in p.fields(cls)):
            yield cls


def busy(*bases):
    def setup(it, st, fr):
        for b in bases:
            seed_bool(it, st, F(FLAG, base=b), True)
        return st
    return setup


class Quiet(Client):
    """Counts what ran before the refusal."""

    def on_call(self, it, st, node, callee, obj, args, fr):
        f = it.p.funcs.get((callee or {}).get('id')) or callee or {}
        if f.get('ctor') and obj and root_of(obj)[0] != 'T' and any('Json::Value' in (x.get('t') or '')
                                                                  for x in f.get('params') or []) \
                and (f.get('q') or '').startswith('xmm::'):
            it.throw(st.clone(), 'xmm::JsonException', node, fr)
            it.drop(st, obj)
            it.write(st, obj, ('u', 'read', 0), node, fr)
            return [(st, None)]
        return None

    def inline(self, func, depth):
        return depth < 6


def final(r, cls, n):
    """the functions of that name which run for an object of class cls"""
    for f in r.p.methods[cls].get(n, []):
        if f.get('body') and not f.get('defaulted'):
            yield f


def run(r):
    p = r.p
    n = m = 0
    for cls in trainable(p):
        for nm in GUARDED:
            for f in final(r, cls, nm):
                if f.get('static'):
                    continue
                n += 1
                refuse(r, cls, f, busy(('T',)), '')
        for nm in ('isTraining', 'training'):
            for f in final(r, cls, nm):
                for flag in (True, False):
                    it = Interp(p, Client())
                    a = r.analyse(it, f, cls=cls, setup=lambda it, st, fr: (
                        seed_bool(it, st, F(FLAG), flag), st)[1])
                    for s, v in a[0] if a else []:
                        r.ob('%s::%s with the flag %s' % (cls, nm, 'set' if flag else 'clear'),
                             it.truth(s, v) == flag if it.truth(s, v) is not None else None, r.where(f),
                             'answers %s' % show(v))
    for cls, f in c10.copy_ops(p):
        if cls not in set(trainable(p)) or f.get('defaulted') or not f.get('body'):
            continue
        src = ('A', f['params'][0]['n'])
        n += 1
        refuse(r, cls, f, busy(src), ' of a training source', src)
        if f['n'] == 'operator=':
            refuse(r, cls, f, busy(('T',)), ' to a training object', src)
    r.floor('guarded operations', n, 26)
    for cls in trainable(p):
        if not any('models' == fd['n'] for _, fd in p.fields(cls)):
            continue
        for nm in ('train', 'clear', 'removeClass'):
            for f in final(r, cls, nm):
                m += 1
                stop(r, cls, f)
    r.floor('interrupting operations', m, 8)


def refuse(r, cls, f, setup0, what, src=None):
    it = Interp(r.p, Quiet(), budget=900000)

    def setup(it, st, fr):
        if f['n'] == 'operator=':
            st = it.assume(st, ('cmp', 'eq', psub(('addr', ('T',)), ('addr', src))), False) or st
        return setup0(it, st, fr)
    a = r.analyse(it, f, cls=cls, setup=setup)
    if a is None:
        return
    key = '%s::%s%s' % (cls, f['n'], what)
    flag = next((l for l in (F(FLAG), F(FLAG, base=src) if src else None) if l and it.truth(
        it.entry, it.load(it.entry, l)) is True), None)
    r.ob(key + ' is refused', not a[0], r.where(f), 'ends normally although a training is running' if a[0] else '')
    for s, t, w in a[1]:
        if f.get('ctor'):
            continue
        ch = changed_locs(it, s, skip=EXEMPT)
        r.ob(key + ' changes nothing', not ch, r.where(f, w[0]),
             '%s changed before the refusal' % ', '.join(sorted({show(l) for l in ch})[:3]))


class Stop(Client):
    """tr['stop']: what was stopped; tr['early']: first change made before that."""

    def on_write(self, it, st, loc, val, node, fr):
        self.change(it, st, loc, node, fr)

    def on_bulk(self, it, st, loc, node=None, fr=None, *a):
        self.change(it, st, loc, node, fr)

    def change(self, it, st, loc, node, fr):
        if loc is None or st.tr.get('stop') or st.tr.get('early'):
            return
        l, names = loc, []
        for _ in range(3):
            names = loc_path(l) + names if l else names
            ro = root_of(l) if l else None
            if ro and ro[0] == 'd' and ro[1][0] == 'in':
                l = ro[1][1]
            else:
                break
        if l and root_of(l) == ('T',) and names and any(x in KEPT for x in names):
            st.tr['early'] = ('/'.join(str(x) for x in names), it.p.funcs[fr.func['id']]['file'] if fr and fr.func and
                              fr.func.get('id') in it.p.funcs else '', (node or {}).get('l', 0) if isinstance(
                                  node, dict) else 0)

    def on_call(self, it, st, node, callee, obj, args, fr):
        q = (callee or {}).get('q') or ''
        nm = q.split('::')[-1].split('<')[0]
        if nm == 'cancelTraining' and obj == ('T',):
            who = 'all'
            if args:
                who = it.load(st, args[0][1]) if args[0][0] == 'loc' else args[0][1]
                st.tr['stop'] = st.tr.get('stop', ()) + (('one', args[0][1] if args[0][0] == 'loc' else None, who),)
            else:
                st.tr['stop'] = st.tr.get('stop', ()) + (('all',),)
                it.write(st, F(FLAG), FALSE, node, fr)
            return [(st, None)]
        if nm in ('addModelForClass', 'reset', 'updateTransitionParameters') and obj and root_of(obj) == ('T',):
            self.change(it, st, F('models'), node, fr)
            return [(st, None)]
        if nm in ('joinTraining', 'notifyListeners', 'checkTraining'):
            return [(st, None)]
        if obj and root_of(obj) == ('T',) and nm in ('erase', 'clear', 'insert', 'emplace', 'swap', 'set', 'assign'):
            self.change(it, st, obj, node, fr)
        if nm == 'set' and obj:
            self.change(it, st, obj, node, fr)
            return [(st, None)]
        if nm == 'train' and obj != ('T',):
            return [(st, None)]
        return None


def stop(r, cls, f):
    it = Interp(r.p, Stop(), budget=900000)
    a = r.analyse(it, f, cls=cls, setup=busy(('T',)))
    if a is None:
        return
    key = '%s::%s(%s)' % (cls, f['n'], ', '.join(x['t'].replace('const std::string &', 'label') for x in f['params']))
    one = [x['n'] for x in f['params'] if 'string' in x['t']]
    for s in [x[0] for x in a[0]] + [x[0] for x in a[1]]:
        e = s.tr.get('early')
        r.ob(key + ': nothing changes before the training is stopped', not e, r.where(f),
             '%s changes (line %s) while the training is still running' % (e[0], e[2]) if e else '')
        for g in s.tr.get('stop', ())[:1]:
            ok = True
            if one and g[0] == 'one':
                ok = g[1] == ('A', one[0]) or g[2] == ('in', ('A', one[0])) or None
            elif not one and g[0] == 'one':
                ok = None
            r.ob(key + ': stops the training concerned', ok, r.where(f), 'stops %s' % (g,))
    r.ob(key + ': can stop the training', any(s.tr.get('stop') for s in
                                              [x[0] for x in a[0]] + [x[0] for x in a[1]]), r.where(f),
         'no path stops the running training')
