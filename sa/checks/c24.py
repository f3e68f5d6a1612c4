"""Recognition leaves the model alone. Effects of filter, reset and the predictions they use, over the whole call graph of
every kind of model: no location is written that saving the model reads (the trained quantities, found from the paths
toJson reads), nor parameters, configuration, shared parameters, the observation, or anything global. The dimension of
data written back through pointers, references and iterators is followed."""
from common import *
from effects import Effects
from c23 import show_path, short

LEVEL = 'proof'
EXPLANATION = 'Interprocedural effect analysis: writes of recognition against reads of saving.'

ALWAYS = ('parameters', 'shared_parameters', 'configuration')


def as_list(x):
    return [x] if isinstance(x, dict) else list(x or [])


def run(r):
    p = r.p
    E = Effects(p, {'notifyListeners'})
    n = locs = 0
    for cls in sorted(p.classes):
        ops = [f for nm in ('filter', 'reset') for f in as_list(p.find(cls, nm)) if f.get('body')]
        js = [f for f in as_list(p.find(cls, 'toJson')) if f.get('body')]
        if not any(f['n'] == 'filter' for f in ops) or not js or '<' in cls:
            continue
        if cls.startswith('xmm::Configuration'):
            continue
        saved = set()
        for f in js:
            s = E.of(f['id'], cls)
            saved |= {q[1] for q in s.r if q[0] == 'this'}
            for q, wh in s.w.items():
                r.ob('%s::toJson: writes nothing' % short(cls), q[0] not in ('this',) and q[0][0] not in ('g',), ' <- '.join(
                    reversed(wh)), 'writes %s' % show_path(q))
            r.ob('%s::toJson: writes nothing' % short(cls), True, r.where(f))
        r.floor('locations of %s that are saved' % short(cls), len(saved), 2)
        for f in ops:
            n += 1
            s = E.of(f['id'], cls)
            locs += len(s.w)
            key = '%s::%s' % (short(cls), f['n'])
            r.ob(key + ': the trained model is not written', True, r.where(f))
            for q, wh in sorted(s.w.items(), key=lambda x: repr(x[0])):
                w = ' <- '.join(reversed(wh))
                if q[0] != 'this':
                    r.ob(key + ': only the model is written', False, w, 'writes %s' % show_path(q))
                    continue
                c = q[1]
                hit = [x for x in saved if x == c or x[:len(c)] == c]
                bad = bool(hit) or any(a in c for a in ALWAYS)
                r.ob(key + ': the trained model is not written', not bad, w, 'writes %s' % show_path(q))
            for nm, wh in s.glob.items():
                r.ob(key + ': nothing global is used', False, wh, nm)
    r.funcs |= {p.funcs[k[0]]['q'] for k in E.sum if k[0] in p.funcs}
    r.floor('recognition functions', n, 10)
    r.floor('locations they may write', locs, 60)
