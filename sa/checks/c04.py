"""(a) For every class with a parameter-change handler and every attribute it registers anywhere: at every normal end of
every constructor, copy constructor, loading constructor, assignment and load, the attribute's listener is that handler
bound to this very object (assignments and loads may instead leave the object's own listener alone). (b) For every
attribute type: registering stores the given method bound to the given owner; copy construction and assignment of an
attribute never store the source's listener, and assignment keeps the own one; a change passes the attribute itself to
the listener. (c) The handler of class parameters marks the parameters as changed for every attribute."""
from common import *

LEVEL = 'proof'
EXPLANATION = ('Value of the listener of every registered attribute at the end of every path of every way an object comes '
               'to be or is overwritten; effects of attribute copies on listeners.')


class C(Client):
    def on_write(self, it, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] == 'callback_' and loc[1][0] == 'f' and loc[1][1] == ('T',):
            d = dict(st.tr.get('cb', ()))
            d[loc[1][2]] = val
            st.tr['cb'] = tuple(sorted(d.items(), key=repr))


class A(Client):
    def callback(self, it, st, fval, loc, args, node, fr):
        st.tr['arg'] = st.tr.get('arg', ()) + (tuple(args),)
        return [(st, None)]


def terms(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        out.add(v)
        for x in v:
            terms(x, out)
    return out


def bound(v):
    """(is a bound method, object) of a listener value"""
    if v and v[0] == 'bind':
        objs = [a for a in terms(v) if a[:1] == ('addr',)]
        return objs[0] if len(objs) == 1 else None
    return None


def attrs(p, cls):
    return [x['n'] for c, x in p.fields(cls) if 'Attribute<' in x['t']]


def run(r):
    p = r.p
    ncls = nsite = 0
    for cls in sorted(p.classes):
        hs = [f for f in p.methods.get(cls, {}).get('onAttributeChange', []) if len(f.get('params') or ()) == 1 and
              'AttributeBase' in f['params'][0]['t']]
        if not hs:
            continue
        ncls += 1
        fs = [f for n, l in p.methods[cls].items() for f in l
              if f.get('body') and (f.get('ctor') or n in ('operator=', 'fromJson'))]
        ends = {}
        for f in fs:
            it = Interp(p, C(), budget=1000000)

            def setup(it, st, fr):
                if f['n'] == 'operator=' and f['params']:
                    e = ('cmp', 'eq', psub(('addr', ('T',)), ('addr', ('A', f['params'][0]['n']))))
                    return it.assume(st, e, False) or st
                return st
            res = r.analyse(it, f, cls=cls, setup=setup)
            if res is not None:
                ends[f['id']] = (f, it, res[0])
        reg = set()
        short = cls.split('::', 1)[1]
        for f, it, res in ends.values():
            for s, _ in res:
                for a, v in s.tr.get('cb', ()):
                    if v[0] == 'bind':
                        reg.add(a)
        r.floor('registered attributes of ' + short, len(reg), 3)
        for f, it, res in ends.values():
            nsite += 1
            k = '%s::%s(%s)' % (short, f['n'], ', '.join(x['t'] for x in f['params']))
            for a in sorted(reg):
                for s, _ in res:
                    d = dict(s.tr.get('cb', ()))
                    v = d.get(a)
                    fin = s.env.get(F(a, 'callback_'))
                    if fin is not None and fin[0] not in ('u', 'prj'):
                        v = fin
                    own = ('in', F(a, 'callback_'))
                    if v is None or v == own:
                        v = it.load(s, F(a, 'callback_')) if v is None else v
                        ok = True if not f.get('ctor') and (v == own or v[0] in ('prj', 'u') and a not in d) else \
                            (None if v[0] in ('u', 'prj') else False)
                    elif v[0] == 'bind':
                        o = bound(v)
                        ok = None if o is None else o == ('addr', ('T',)) and hs[0]['id'] in repr(v)
                    else:
                        ok = None if v[0] in ('u', 'prj') else False
                    r.ob('%s: %s reports to the own object' % (k, a), ok, r.where(f), 'its listener is %s' % show(v)[:120])
        if 'ClassParameters' in cls:
            for h in hs:
                for a in sorted(reg):
                    it = Interp(p, Client())
                    res = r.analyse(it, h, cls=cls, args=[('addr', F(a))])
                    for s, _ in (res[0] if res else ()):
                        v = it.load(s, F('changed'))
                        r.ob('%s: a change of %s marks the parameters as changed' % (short, a),
                             True if it.truth(s, v) else (False if v[0] in ('i', 'in') else None), r.where(h), show(v))
    r.floor('classes reacting to their parameters', ncls, 7)
    r.floor('ways such objects come to be or are overwritten', nsite, 30)
    attributes(r)


def attributes(r):
    p = r.p
    n = 0
    for cls in sorted(p.classes):
        if not cls.startswith('xmm::Attribute<'):
            continue
        t = cls[len('xmm::Attribute<'):-1][:60]
        for name, fs in p.methods[cls].items():
            for f in fs:
                if not f.get('body'):
                    continue
                CBL = F('callback_')
                if name == 'onAttributeChange':
                    it = Interp(p, Client())
                    res = r.analyse(it, f, cls=cls)
                    own = ('in', ('A', f['params'][0]['n']))
                    m = ('in', ('A', f['params'][1]['n']))
                    for s, _ in (res[0] if res else ()):
                        n += 1
                        if it.truth(s, own) is False:
                            continue
                        v = it.load(s, CBL)
                        ts = terms(v)
                        r.ob('registering binds the method to the owner (%s)' % t, v[0] == 'bind' and own in ts and m in ts
                             if v[0] not in ('u', 'prj') else None, r.where(f), 'stores %s' % show(v)[:100])
                elif f.get('copy') or name == 'operator=':
                    it = Interp(p, Client())
                    res = r.analyse(it, f, cls=cls)
                    src = ('A', f['params'][0]['n'])
                    for s, _ in (res[0] if res else ()):
                        n += 1
                        v = it.load(s, CBL)
                        r.ob('%s does not take the listener of the source (%s)' % ('copy' if f.get('ctor') else 'assignment', t),
                             not any(x == src for x in terms(v)), r.where(f), 'listener %s' % show(v)[:100])
                        if not f.get('ctor'):
                            r.ob('assignment keeps the own listener (%s)' % t, v == ('in', CBL), r.where(f), show(v)[:100])
                elif name == 'set':
                    it = Interp(p, A())
                    res = r.analyse(it, f, cls=cls)
                    for s, _ in (res[0] if res else ()):
                        n += 1
                        for args in s.tr.get('arg', ()):
                            r.ob('a change passes the attribute itself to the listener (%s)' % t,
                                 any(('addr', ('T',)) in terms(a) for a in args), r.where(f), 'passes %s' % (args,))
    r.floor('attribute operations concerning listeners', n, 20)
