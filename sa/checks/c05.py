"""(a) The event generator, for each event type: registering a listener puts exactly one entry under its owner, holding the
given method bound to that owner; removing takes exactly that entry away; removing all empties the table; sending makes one
complete pass over the table, calling exactly the entry's own callback once per entry with the event, and calls nothing
outside that pass. (b) Every operation of a training set: each phrase stored is given this set as a listener (and not taken
away again) before the operation ends; each phrase taken out or replaced, unless it was held nowhere, has this set removed
from its listeners, except when the set still holds the same phrase elsewhere; before all phrases are dropped at once a
complete pass has removed the listener from each; the destructor drops all phrases that way. A listener is not removed from
a phrase the set still holds."""
from common import *
from c12 import PH, CLS, mentions_u

LEVEL = 'proof'
EXPLANATION = ('Effects of the event generator on its table on every path; typestate of phrase membership against listener '
               'registration over every path of every operation of the training set.')

CB = F('callbacks_')


def argval(it, st, a):
    if a[0] == 'loc':
        return it.load(st, it.resolve(st, a[1]))
    return a[1]


def run(r):
    p = r.p
    n = 0
    for cls in sorted(p.classes):
        if not cls.startswith('xmm::EventGenerator<'):
            continue
        t = cls[len('xmm::EventGenerator<'):-1].split('::')[-1]
        for name, fs in p.methods[cls].items():
            for f in fs:
                if f.get('body') and not f.get('ctor') and name[0] != '~' and not name.startswith('operator'):
                    n += 1
                    generator(r, cls, t, f)
    r.floor('event generator operations', n, 6)
    k = a = 0
    for name, fs in sorted(p.methods[CLS].items()):
        for f in fs:
            if f.get('body') and not f.get('const') and (f['acc'] == 'public' or f.get('ctor') or name[0] == '~'):
                k += 1
                a += member(r, f)
    r.floor('operations of a training set', k, 15)
    r.floor('places where a phrase enters', a, 5)


# ------------------------------------------------------------------ event generator
class G(LoopTrack):
    def on_write(self, it, st, loc, val, node, fr):
        if has_prefix(loc, CB):
            st.tr['w'] = st.tr.get('w', ()) + ((loc, val),)
            it.log(('w', loc, val, node, fr.func))

    def on_loop(self, it, st, node, fr, phase, uid=None):
        if phase == 'body':
            st.tr['outer'] = st.tr.get('calls', ())
            st.tr['calls'] = ()
        super().on_loop(it, st, node, fr, phase, uid)
        if phase in ('next', 'break', 'return'):
            st.tr['calls'] = st.tr.get('outer', ())

    def callback(self, it, st, fval, loc, args, node, fr):
        st.tr['calls'] = st.tr.get('calls', ()) + ((loc, tuple(args)),)
        it.log(('call', loc, node, fr.func))
        return [(st, None)]


def generator(r, cls, t, f):
    it = Interp(r.p, G())
    it.mapset = it.mapset | {CB} if hasattr(it, 'mapset') else frozenset({CB})
    res = r.analyse(it, f, cls=cls)
    if res is None:
        return
    w = r.where(f)
    name = '%s of %s' % (f['n'], t)
    r.ob(name + ' ends normally', bool(res[0]) or None, w)
    own = ('in', ('A', f['params'][0]['n'])) if f['params'] else None
    for s, _ in res[0]:
        ws = s.tr.get('w', ())
        if f['n'] == 'addListener':
            ks = [(l[2], v) for l, v in ws if l[0] == 'e' and l[1] == CB]
            r.ob(name + ' puts one entry under the owner', bool(ks) and all(k == own for k, _ in ks) and
                 it.truth(s, ('op', 'has', CB, own)) is True, w, 'writes %s' % [show(k)[:60] for k, _ in ks])
            meth = f['params'][1]['n']
            for k, v in ks:
                if v in (('kept',), ('inserted', k)):
                    continue
                ok = v[0] in ('fn', 'bind') or 'bind' in repr(v)[:40] or None
                if ok:
                    tx = repr(v)
                    ok = repr(own) in tx and repr(('A', meth)) in tx
                r.ob(name + ' binds the method to the owner', ok, w, 'stores %s' % show(v)[:100])
        elif f['n'] == 'removeListener':
            r.ob(name + ' removes the owner', True if it.truth(s, ('op', 'has', CB, own)) is False else False, w,
                 'the owner can still be registered')
            for l, v in ws:
                r.ob(name + ' removes nobody else', l == ('e', CB, own), w, 'removes %s' % show(('in', l))[:80])
        elif f['n'] == 'removeListeners':
            r.ob(name + ' empties the table', it.load(s, CB)[:2] == ('vec', ZERO), w, 'entries remain')
        elif f['n'] == 'notifyListeners':
            got = False
            for u in s.tr.get('done', ()):
                k = ('mapkey', u)

                def pred(x):
                    cs = x.tr.get('calls', ())
                    return it.truth(x, ('op', 'has', CB, k)) is True and len(x.tr.get('calls_at_next', ())) == 1
                v = check_pass(it, u, f)
                got = got or v
            r.ob(name + ' calls every listener exactly once', got, w, 'no completed pass calls each entry exactly once')
            r.ob(name + ' calls nobody outside the pass', not s.tr.get('calls'), w, 'an additional call')
            r.ob(name + ' leaves the table alone', not ws, w, 'changes the table')


def check_pass(it, u, f):
    k = ('mapkey', u)
    ok = True
    n = 0
    for j in it.journal:
        if j[0] == '#next' and j[1] == u:
            n += 1
            x = j[2]
            cs = x.tr.get('calls', ())
            if it.truth(x, ('op', 'has', CB, k)) is not True:
                return False
            if len(cs) != 1:
                return False
            loc, args = cs[0]
            if loc is not None and k not in all_keys(loc):
                return False
            for a in args:
                if ('A', f['params'][0]['n']) not in subterms(a):
                    ok = None if ok else ok
    return ok if n else False


def subterms(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        out.add(v)
        for x in v:
            subterms(x, out)
    return out


def all_keys(v):
    return {x for x in subterms(v) if x[:1] == ('mapkey',)}


# ------------------------------------------------------------------ training set
class M(LoopTrack):
    """pend: phrases stored and not listened to yet; left: phrases taken out and still listened to;
    rem: phrases the listener was removed from"""

    def __init__(self):
        self.n = 0

    def on_loop(self, it, st, node, fr, phase, uid=None):
        super().on_loop(it, st, node, fr, phase, uid)
        if phase in ('next', 'return', 'break'):
            self.settle(it, st)
        if phase == 'next':
            for k in ('rem', 'new', 'lis'):
                st.tr.pop(k, None)

    def settle(self, it, st):
        if st.tr.get('left'):
            st.tr['left'] = frozenset(x for x in st.tr['left'] if not still_held(it, st, x[0]))

    def on_leave(self, it, st, func, obj, val, fr):
        self.settle(it, st)

    def on_call(self, it, st, node, callee, obj, args, fr):
        if not callee:
            return None
        nm = callee['n']
        if nm == 'update' and obj == ('T',):
            return [(st, None)]
        if nm in ('addListener', 'removeListener', 'removeListeners') and obj and obj[0] == 'f' and obj[2] == 'events':
            ph = obj[1]
            me = nm == 'removeListeners' or argval(it, st, args[0]) == ('addr', ('T',))
            if me and nm == 'addListener':
                st.tr['pend'] = frozenset(x for x in st.tr.get('pend', frozenset()) if not is_obj(it, st, x[0], ph))
                st.tr['rem'] = frozenset(x for x in st.tr.get('rem', frozenset()) if x != ph)
                st.tr['lis'] = st.tr.get('lis', frozenset()) | {ph}
            elif me:
                st.tr['left'] = frozenset(x for x in st.tr.get('left', frozenset()) if not is_obj(it, st, x[0], ph))
                st.tr['rem'] = st.tr.get('rem', frozenset()) | {ph}
                st.tr['lis'] = frozenset(x for x in st.tr.get('lis', frozenset()) if x != ph)
                for l, v in list(st.env.items()):       # taken away from a phrase that was stored here
                    if l[0] == 'e' and l[1] == PH and is_obj(it, st, v, ph):
                        st.tr['pend'] = st.tr.get('pend', frozenset()) | {(v, '%s:%s' % (fr.func['n'], node.get('l')))}
                if ph[0] == 'd' and ph[1][0] == 'in' and ph[1][1][0] == 'e' and ph[1][1][1] == PH and \
                        it.truth(st, ('op', 'has', PH, ph[1][1][2])) is True and nm == 'removeListener' \
                        and st.env.get(ph[1][1]) is None:
                    st.tr['lost'] = st.tr.get('lost', frozenset()) | {(ph[1][1][2], '%s:%s' % (fr.func['n'], node.get('l')))}
            return [(st, None)]
        if nm == 'operator[]' and obj == PH:
            k = argval(it, st, args[0])
            if it.truth(st, ('op', 'has', PH, k)) is False:
                st.tr['new'] = st.tr.get('new', frozenset()) | {k}
        return None

    def on_write(self, it, st, loc, val, node, fr):
        at = '%s:%s' % (fr.func['n'], node.get('l'))
        if loc == PH:
            if val[:2] == ('vec', ZERO):
                if it.load(st, PH)[:2] != ('vec', ZERO):
                    ok = False
                    for u in st.tr.get('done', ()):
                        k = ('mapkey', u)

                        def pred(x):
                            return it.truth(x, ('op', 'has', PH, k)) is True and any(
                                is_obj(it, x, ('in', ('e', PH, k)), q) for q in x.tr.get('rem', frozenset()))
                        if nexts(it, u) and every(it, u, pred):
                            ok = True
                    st.tr['drop'] = st.tr.get('drop', ()) + ((at, ok),)
                    st.tr['lost'] = frozenset()
            elif st.env.get(PH) is None or val[0] == 'u':
                st.tr['swap'] = at
            return
        if loc[0] != 'e' or loc[1] != PH or val == ('kept',):
            return
        k = loc[2]
        old = it.load(st, loc)
        held = it.truth(st, ('op', 'has', PH, k))
        if k in st.tr.get('new', frozenset()):
            held = False
        fresh = it.load(it.entry, PH)[:2] == ('vec', ZERO) or st.tr.get('ctor')
        st.tr['lost'] = frozenset(x for x in st.tr.get('lost', frozenset()) if x[0] != k)
        if held is not False and old != NULL and not fresh and old != val:
            if not any(is_obj(it, st, old, q) for q in st.tr.get('rem', frozenset())) and \
                    not any(x[0] == old for x in st.tr.get('pend', frozenset())):
                st.tr['left'] = st.tr.get('left', frozenset()) | {(old, at)}
        if val != ('erased',):
            self.n += 1
            if not any(is_obj(it, st, val, q) for q in st.tr.get('lis', frozenset())):
                st.tr['pend'] = st.tr.get('pend', frozenset()) | {(val, at)}


def is_obj(it, st, ptr, ph):
    """does this pointer value point to this object?"""
    return ptr == ('addr', ph) or ph == ('d', ptr) or ptr[0] == 'in' and ph == ('d', ('in', ptr[1]))


def member(r, f):
    c = M()
    it = Interp(r.p, c)
    ctor = f.get('ctor')

    def setup(it, st, fr):
        if ctor:
            st.tr['ctor'] = True
        return st
    res = r.analyse(it, f, cls=CLS, setup=setup)
    if res is None:
        return c.n
    w = r.where(f)
    key = '%s(%s)' % (f['n'], ', '.join(x['t'].split('<')[0] if not ctor else x['t'] for x in f['params']))
    for s, _ in res[0]:
        sw = s.tr.get('swap')
        if sw:
            r.ob(key + ': listeners follow the phrases', None, w, 'phrases changed as a whole at ' + sw)
        pend = s.tr.get('pend', frozenset())
        pend = {x for x in pend if it.truth(s, x[0]) is not False}
        r.ob(key + ': every phrase stored is listened to', not pend or (False if not sw else None), w,
             'stored at %s without registering this set' % [x[1] for x in pend])
        left = {x for x in s.tr.get('left', frozenset()) if not still_held(it, s, x[0])}
        r.ob(key + ': a phrase that leaves is not listened to any more', not left or (False if not sw else None), w,
             'taken out at %s without removing this set' % [x[1] for x in left])
        lost = s.tr.get('lost', frozenset())
        r.ob(key + ': a phrase still held is listened to', not lost or (False if not sw else None), w,
             'listener removed at %s while the phrase stays' % [x[1] for x in lost])
        for at, ok in s.tr.get('drop', ()):
            r.ob(key + ': listeners removed before all phrases are dropped', ok, w, 'dropped at ' + at)
        if f['n'].startswith('~'):
            r.ob('destructor drops every phrase', it.load(s, PH)[:2] == ('vec', ZERO), w, 'phrases keep this set as a listener')
    return c.n


def still_held(it, s, old):
    """a fact on this path says another entry holds the same phrase"""
    for fct in s.facts:
        ts = subterms(fct)
        for x in ts:
            if x[:1] == ('in',) and len(x) == 2 and isinstance(x[1], tuple) and x[1][:2] == ('e', PH) and x != old and old in ts:
                return True
    return False
