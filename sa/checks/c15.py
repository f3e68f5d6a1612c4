"""For every fromJson with a body: each reader of the document it calls (constructor from a document, nested fromJson,
array readers) is taken to fail or succeed. On every path leaving with an exception nothing reachable from the object
has changed; no path on which a reader failed ends normally; every path ending normally has replaced the object by one
built from the given document. For every assignment operator used that way, a path leaving with an exception has not
changed the object either (allocation failures apart)."""
from common import *
from prog import walk
from c14 import has_json, short

LEVEL = 'proof'
EXPLANATION = ('Exceptional paths of every fromJson and of the assignment it commits with: no write to the object before '
               'the last failure point, no failure swallowed, commit on every success path.')


class Load(Client):
    def __init__(self, cls):
        self.cls = cls
        self.readers = 0

    def on_call(self, it, st, node, callee, obj, args, fr):
        nm = short(callee or {})
        if nm in ('check_training', 'checkTraining'):
            return None
        f = it.p.funcs.get((callee or {}).get('id')) or callee or {}
        doc = any(a[0] == 'loc' and 'Json::Value' in (x.get('t') or '') for a, x in zip(args, f.get('params') or []))
        q = f.get('q') or ''
        if q.startswith('xmm::') and doc and (f.get('ctor') or nm in ('fromJson', 'json2vector', 'json2array')):
            self.readers += 1
            src = [it.load(st, a[1]) for a, x in zip(args, f['params']) if 'Json::Value' in (x.get('t') or '')][0]
            for t in ('xmm::JsonException', 'std::runtime_error'):
                s2 = st.clone()
                s2.tr['failed'] = 1
                it.throw(s2, t, node, fr)
            dst = obj if f.get('ctor') or nm == 'fromJson' else next((a[1] for a in args[1:] if a[0] == 'loc'), None)
            if dst is not None:
                it.drop(st, dst)
                it.write(st, dst, ('jr', src), node, fr)
                if dst == ('T',):
                    st.tr['asg'] = ('jr', src)
            return [(st, None)]
        if nm.startswith('as') and 'Json' in q:
            s2 = st.clone()
            s2.tr['failed'] = 1
            it.throw(s2, 'Json::LogicError', node, fr)
            return None
        if nm == 'operator=' and obj == ('T',) and args and args[0][0] == 'loc':
            v = it.load(st, args[0][1])
            it.drop(st, obj)
            it.write(st, ('T',), v, node, fr)
            st.tr['asg'] = v
            return [(st, ('ref', obj))]
        return None


def mine(it, st):
    """what of the object, or of things it points to, differs from entry"""
    out = changed_locs(it, st)
    for l in st.env:
        r = root_of(l)
        if r[0] == 'd' and r[1][0] == 'in' and root_of(r[1][1]) == ('T',) and it.load(it.entry, l) != st.env[l]:
            out.append(l)
    return out


def run(r):
    p = r.p
    n = m = 0
    for cls in sorted(p.methods):
        if not cls.startswith('xmm::'):
            continue
        for f in p.methods[cls].get('fromJson', []):
            if f.get('body'):
                n += 1
                one(r, cls, f)
                for g in p.methods[cls].get('operator=', []):
                    if g.get('body') and not g.get('defaulted'):
                        m += 1
                        assign(r, cls, g)
    r.floor('fromJson functions', n, 16)
    r.floor('assignment operators', m, 12)


def one(r, cls, f):
    c = Load(cls)
    it = Interp(r.p, c, budget=600000)
    a = r.analyse(it, f, cls=cls)
    if a is None:
        return
    normal, thrown = a
    key = '%s::fromJson' % cls
    r.ob(key + ' reads the document', True if c.readers else None, r.where(f), 'no reader of the document found')
    for s, t, w in thrown:
        ch = mine(it, s)
        real = [l for l in ch if not l[-1:] == ('changed',)]
        r.ob(key + ': a failed load changes nothing', not real, r.where(f, w[0]),
             '%s already changed when the load fails' % ', '.join(sorted({show(l) for l in real})[:3]))
    root = ('in', ('A', f['params'][0]['n']))
    for s, v in normal:
        r.ob(key + ': a failure is reported', not s.tr.get('failed'), r.where(f),
             'a failed read ends like a successful load')
        g = s.tr.get('asg')
        ok = None if g is None else g == ('jr', root) or g[0] == 'jr' and root_ref(g[1]) == root[1]
        if g is None and not mine(it, s):
            ok = False
        if ok is False and g and g[0] != 'jr':
            ok = None
        r.ob(key + ': a successful load replaces the object', ok, r.where(f), 'the object becomes %s' % show(g or ZERO))


def root_ref(v):
    if v[0] in ('in', 'obj'):
        return v[1]
    return None


class Plain(Client):
    def on_call(self, it, st, node, callee, obj, args, fr):
        nm = short(callee or {})
        if nm in ('addListener', 'removeListeners', 'onAttributeChange') and nm != 'onAttributeChange':
            return [(st, None)]

    def inline(self, func, depth):
        return depth < 5


def assign(r, cls, f):
    it = Interp(r.p, Plain(), budget=400000)
    a = r.analyse(it, f, cls=cls)
    if a is None:
        return
    key = '%s::operator=' % cls
    for s, t, w in a[1]:
        if t in ('std::bad_alloc', '?', None) or not any(x is w[0] for x in walk(f['body'])):
            continue
        real = [l for l in changed_locs(it, s) if not l[-1:] == ('changed',)]
        r.ob(key + ': a refused assignment changes nothing', not real, r.where(f, w[0]),
             '%s changed before %s is thrown' % (', '.join(sorted({show(l) for l in real})[:3]), t))
    r.ob(key + ' analysed', True)
