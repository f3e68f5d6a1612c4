"""For every class holding an enumerated attribute, after each of its constructors the attribute's limits
(minimum, maximum) are evaluated: every declared enumerator lies within them and no other integer value
does, and each is accepted/rejected by the setter for every position (shared with C01). No function of
the program narrows or widens these limits afterwards. Documents: the entry an enumerated quantity is
written under is the one it is read from (writer/reader table of C14 restricted to enumerations)."""
from common import *

LEVEL = 'proof'
EXPLANATION = ('Evaluation of the limits given to each enumerated attribute by every constructor, against the set of '
               'declared enumerators; the setter decided for each enumerator and each neighbouring value.')


def run(r):
    p = r.p
    n = 0
    for cls, d in sorted(p.classes.items()):
        if not d.get('file', '').startswith('src'):
            continue
        fl = [(fd['n'], strip_t(fd['t'])[15:-1]) for c, fd in p.fields(cls)
              if strip_t(fd['t']).startswith('xmm::Attribute<') and strip_t(fd['t'])[15:-1] in p.enums]
        if not fl:
            continue
        short = base_cls(cls).split('::')[-1]
        for f in p.methods[cls].get(short, []):
            if not f.get('ctor') or f.get('copy') or f.get('move') or not (f.get('body') or f.get('inits')):
                continue
            it = Interp(p, Client())
            res = r.analyse(it, f, cls=cls)
            if res is None:
                continue
            for s, _ in res[0]:
                for name, et in fl:
                    n += 1
                    lo = it.load(s, F(name, 'limit_min_'))
                    hi = it.load(s, F(name, 'limit_max_'))
                    key = '%s::%s after %s(%s)' % (cls, name, short, ', '.join(q['t'] for q in f['params']))
                    vals = sorted(e['v'] for e in p.enums[et]['e'])
                    w = r.where(f)
                    if lo[0] != 'i' or hi[0] != 'i':
                        r.ob('limits known: ' + key, None, w, 'limits are %s..%s' % (show(lo), show(hi)))
                        continue
                    adm = list(range(lo[1], hi[1] + 1))
                    miss = [e['n'] for e in p.enums[et]['e'] if e['v'] not in adm]
                    extra = [v for v in adm if v not in vals]
                    r.ob('accepts every choice: ' + key, not miss, w, 'declared choice(s) %s outside the limits %s..%s' %
                         (', '.join(miss), lo[1], hi[1]))
                    r.ob('accepts only choices: ' + key, not extra, w, 'undeclared value(s) %s within the limits %s..%s' %
                         (extra, lo[1], hi[1]))
    r.floor('constructed enumerated attributes', n, 8)
    m = 0
    for cls in sorted(p.classes):
        if not cls.startswith('xmm::Attribute<') or cls[15:-1] not in p.enums:
            continue
        et = cls[15:-1]
        vals = sorted(e['v'] for e in p.enums[et]['e'])
        for f in p.methods[cls].get('set', []):
            if not f.get('body'):
                continue
            m += 1
            for v in list(range(vals[0] - 2, vals[-1] + 3)):
                it = Interp(p, Client())

                def setup(it, st, fr):
                    st.env[F('limit_min_')] = ('i', vals[0])
                    st.env[F('limit_max_')] = ('i', vals[-1])
                    st.env[('A', f['params'][0]['n'])] = ('i', v)
                    return st
                res = r.analyse(it, f, cls=cls, setup=setup)
                if res is None:
                    break
                key = '%s <- %d' % (et, v)
                if v in vals:
                    r.ob('setter accepts ' + key, bool(res[0]) and not res[1], r.where(f), 'a declared choice is rejected')
                    for s, _ in res[0]:
                        x = it.load(s, F('value_'))
                        r.ob('setter stores ' + key, x == ('i', v), r.where(f), 'stores %s' % show(x))
                else:
                    r.ob('setter rejects ' + key, not res[0] and bool(res[1]), r.where(f), 'an undeclared value is accepted')
        # limits constants of the type itself
        for nm, want in (('defaultLimitMin', vals[0]), ('defaultLimitMax', vals[-1])):
            for f in p.methods[cls].get(nm, []):
                if not f.get('body'):
                    continue
                it = Interp(p, Client())
                res = r.analyse(it, f, cls=cls)
                for s, v in (res[0] if res else []):
                    if v and v[0] == 'obj':
                        v = it.load(s, v[1])
                    r.ob('%s of %s' % (nm, et), v == ('i', want) if v and v[0] == 'i' else None, r.where(f),
                         'is %s, the declared bound is %d' % (v and show(v), want))
    r.floor('enumerated setters', m, 3)
    documents(r)


class Only:
    """The rule object, recording only the obligations about the given entries."""

    def __init__(self, r, keys):
        self.r, self.keys, self.hits = r, keys, set()

    def __getattr__(self, n):
        return getattr(self.r, n)

    def ob(self, key, ok, where='', msg=''):
        for k in self.keys:
            if '"%s" is restored' % k in key or key.endswith(': %s is written' % k):
                self.hits.add(k)
                self.r.ob(key, ok, where, msg)


def documents(r):
    import c14
    p, n = r.p, 0
    for cls in sorted(p.methods):
        w = [f for f in p.methods[cls].get('toJson', []) if f.get('body')]
        c = [f for l in p.methods[cls].values() for f in l if f.get('ctor') and f.get('body') and c14.has_json(f)]
        keys = set()
        for c0, fd in p.fields(cls):
            t = strip_t(fd['t'])
            if c0 == cls and (t in p.enums or t.startswith('xmm::Attribute<') and t[15:-1] in p.enums):
                keys.add(fd['n'])
        if w and c and keys and cls.startswith('xmm::'):
            o = Only(r, keys)
            c14.pair(o, cls, w[0], c[0])
            n += len(o.hits)
    r.floor('enumerated entries of documents', n, 5)
