"""After every copy constructor and assignment with a body: (a) a member that owns an object through a pointer (the
shared parameters of a complete model or clustering model, the sample arrays of a phrase owning its memory) addresses an
object made by the operation, not the source's; (b) the phrases of a copied training set are objects made by the
operation, none is the source's; (c) in a completed loop over the per-class models of a copied model, each - and, where
a per-class model itself consists of models, each of those in a completed inner loop - is given the copy's own shared
parameters, and no listener registered with the source's per-class models remains; (d) the status reported by a copied
per-class model names the copy."""
from common import *
import c10
from c10 import Track, analyse, copy_ops, definite, source_of

LEVEL = 'proof'
EXPLANATION = ('Ownership analysis: symbolic end state of every user-written copy operation; each pointer must address an '
               'object allocated by the operation, each element of a container of models is proved re-pointed by the '
               'statement over all iterations of a completed loop.')

SH = 'shared_parameters'


def run(r):
    p = r.p
    n = {'pointer': 0, 'set': 0, 'models': 0, 'phrase': 0, 'status': 0}
    for cls, f in copy_ops(p):
        names = {x['n']: x for _, x in p.fields(cls)}
        single = 'training_status' in names
        if cls == 'xmm::Phrase':
            n['phrase'] += phrase(r, cls, f)
            continue
        want = [x for x in names.values() if ('shared_ptr' in x['t'] or x['t'].rstrip().endswith('*')) and
                not cls.startswith('xmm::Attribute')]
        if not want and not single:
            continue
        it, src, res = analyse(r, cls, f, Track(cls))
        if res is None:
            continue
        w = r.where(f)
        op = cls[5:] + (' assignment' if f['n'] == 'operator=' else ' copy')
        r.ob(op + ' ends normally', bool(res[0]) or None, w)
        for s, _ in res[0]:
            for x in want:
                if 'std::map' in x['t'] or 'std::vector' in x['t']:
                    n['set'] += 1
                    r.ob('%s: %s holds objects of its own' % (op, x['n']), *elements(it, s, src, x['n'], w))
                elif not single:
                    n['pointer'] += 1
                    v = it.load(s, F(x['n']))
                    own = v[0] == 'addr' and v[1][0] == 'H' or v == NULL
                    r.ob('%s: %s addresses an object of its own' % (op, x['n']),
                         True if own else (False if definite(v) else None), w, 'is %s' % show(v)[:100])
            if 'models' in names and SH in names:
                n['models'] += 1
                for path in ways(p, names['models']['t']):
                    if len(path) > 1 and [d for d in p.derived(cls) if d != cls]:
                        continue        # completed by the derived class
                    r.ob('%s: %s of %s follows the copy' % (op, SH, '.'.join(path)),
                         *follow(it, s, it.load(s, F(SH)), F(path[0]), path[1:], src, w))
                r.ob('%s: per-class models do not notify the listeners of the source' % op,
                     *listeners(it, s, src, w))
            if single:
                n['status'] += 1
                v = it.load(s, F('training_status', 'model'))
                ok = v == ('addr', ('T',)) or f['n'] == 'operator=' and v == ('in', F('training_status', 'model'))
                r.ob('%s: status names the copy' % op, True if ok else (False if definite(v) else None), w,
                     'training_status.model is %s' % show(v)[:80])
    for k, least in (('pointer', 8), ('set', 2), ('models', 6), ('phrase', 2), ('status', 6)):
        r.floor(k, n[k], least)


def ways(p, t):
    """Member paths from the container of per-class models to every contained model."""
    out = [('models',)]
    for cls in p.classes:
        if cls in t and cls != 'xmm::Model' and any(x['n'] == SH for _, x in p.fields(cls)) and \
                't' and cls.startswith('xmm::SingleClass'):
            for _, x in p.fields(cls):
                if x['t'].startswith('std::vector<xmm::SingleClass'):
                    out.append(('models', x['n']))
    return out


def follow(it, s, own, L, rest, src, w):
    """Every element of the container L (and of the container `rest` in each) has the shared parameters `own`."""
    if own[0] != 'addr':
        return None, w, ''
    why = None
    for u in s.tr.get('done', ()):
        ns = nexts(it, u)
        if not ns:
            continue
        k = None
        for x in ns:
            for l in x.env:
                if has_prefix(l, L) and l != L:
                    while loc_parent(l) != L:
                        l = loc_parent(l)
                    if l[0] == 'e' and mentions_uid(l[2], u):
                        k = l[2]
        if k is None:
            continue
        res = []
        for x in ns:
            if rest:
                c = F(rest[0], base=('e', L, k))
                v = follow(it, x, own, c, rest[1:], src, w)[0]
                if v is None and not x.tr.get('done') and untouched(it.load(x, c), c):
                    v = False       # nothing happens to the inner models in such an iteration
                res.append(v)
            else:
                v = it.load(x, F(SH, base=('e', L, k)))
                res.append(True if v == own else (None if not settled(v, u) else False))
        if all(v is True for v in res) and k in (('mapkey', u), ('lv', u, ('idx', L))):
            return True, w, ''
        if all(v is True for v in res) and k[0] == 'lv':
            sp = spans(it, k, ZERO, it.load(s, ('f', L, '#size')))
            if sp is True:
                return True, w, ''
            why = (None, w, 'a loop which may not meet every element')
            continue
        if not why:
            why = (False, w, 'an iteration leaves the shared parameters of the element as they were') \
                if False in res else (None, w, 'not decided')
    if why and why[0] is None:
        return why
    touched = [j for j in it.journal if j[0] == 'elem' and j[2] and j[2][-1] == SH and (len(j[2]) > 1) == bool(rest or len(loc_path(L)) > 1)]
    if touched and not why:
        return None, w, 'changed in a way not analysed'
    if touched and why:
        return why
    m = s.tr.get('mdl')
    if m and m[0] in ('obj', 'in') and root_of(m[1]) == src:
        return False, w, 'the elements keep the shared parameters of the source'
    return None, w, 'elements made in a way not analysed'


def mentions_uid(v, u):
    return v == ('mapkey', u) or v[0] == 'lv' and v[1] == u or isinstance(v, tuple) and \
        any(isinstance(x, tuple) and x and mentions_uid(x, u) for x in v if isinstance(x, tuple) and x and isinstance(x[0], str))


def settled(v, u):
    """The value is what the element held before (of the source's object), not something lost track of."""
    return v[0] in ('in', 'obj', 'prj', 'addr') or v[0] == 'lv'


def listeners(it, s, src, w):
    L = F('models')
    seen = None
    for u in s.tr.get('done', ()):
        ok = []
        for x in nexts(it, u):
            k = ('mapkey', u)
            c = F('training_events', 'callbacks_', base=('e', L, k))
            if not any(has_prefix(l, ('e', L, k)) for l in x.env):
                continue
            v = it.load(x, c)
            ok.append(True if v[:2] == ('vec', ZERO) else (False if untouched(v, c) or v[0] in ('prj', 'in') else None))
        if ok and all(ok):
            return True, w, ''
        if ok and seen is not False:
            seen = None if None in ok else False
    if seen is False and any(j[0] == 'elem' and 'training_events' in j[2] for j in it.journal):
        return False, w, 'an iteration leaves the listeners copied from the source'
    m = s.tr.get('mdl')
    if m and m[0] in ('obj', 'in') and root_of(m[1]) == src and \
            not any(j[0] == 'elem' and 'training_events' in j[2] for j in it.journal):
        return False, w, 'the listeners copied from the source remain'
    return None, w, ''


def elements(it, s, src, name, w):
    S, D = F(name, base=src), F(name)
    v = it.load(s, D)
    if v in (('in', S), ('obj', S)):
        return False, w, 'the pointers themselves are copied'
    seen = None
    for j in it.journal:
        if j[0] != 'put' or j[2] == ('kept',):
            continue
        x = j[2]
        if x[0] == 'addr' and x[1][0] == 'H':
            seen = True if seen is None else seen
        elif mentions(x, ('e', S, j[1])) or root_has(x, src):
            return False, w, 'holds %s' % show(x)[:80]
        else:
            seen = None
    return seen, w, 'how the elements are made is not analysed'


def root_has(x, src):
    return x == src or isinstance(x, tuple) and any(root_has(y, src) for y in x)


def phrase(r, cls, f):
    for bim in (True, False):
        def extra(it, st, src):
            seed_bool(it, st, F('own_memory_', base=src), True)
            seed_bool(it, st, F('bimodal_', base=src), bim)
        it, src, res = analyse(r, cls, f, Track(cls), extra)
        if res is None:
            continue
        w = r.where(f)
        op = 'Phrase %s, %s source' % ('assignment' if f['n'] == 'operator=' else 'copy', 'bimodal' if bim else 'unimodal')
        for s, _ in res[0]:
            v = it.load(s, F('data_'))
            own = v[0] == 'addr' and v[1][0] == 'H'
            r.ob(op + ': array table of its own', True if own else (False if definite(v) else None), w,
                 'data_ is %s' % show(v)[:80])
            if not own:
                continue
            for c in range(2 if bim else 1):
                x = it.load(s, ('e', v[1], ('i', c)))
                mine = x == NULL or x[0] == 'addr' and x[1][0] == 'H'
                r.ob('%s: samples of its own, modality %d' % (op, c),
                     True if mine else (False if definite(x) and not x[0] == 'undef' else None), w,
                     'array is %s' % show(x)[:80])
            if bim and len(res[0]):
                a, b = (it.load(s, ('e', v[1], ('i', c))) for c in (0, 1))
                r.ob(op + ': the modalities do not share an array',
                     False if a == b and a[0] == 'addr' else True, w, 'both are %s' % show(a)[:60])
    return 1
