"""(A) Preparing the class of a label for training (Model::addModelForClass and its overrides), case analysis on whether
parameters are configured for that label: at the end every option of that class equals the one configured for the label
if there is one, else the default; the configuration itself and every other class are untouched. (B) Configuration:
asking for a label's parameters leaves existing ones as they are and starts missing ones from the defaults; `includes`
answers whether there are any; resetting a label or all labels removes exactly those; none of these changes a default.
(C) Copying and assigning a configuration or a parameter object carries every option and the per-label parameters, and
what saving writes of them is what loading reads (the rules of C10 and C14 on these classes). (D) The states of a hidden
Markov model are allocated with its own options: every option both have is handed on unchanged before they are sized."""
from common import *
from prog import walk
from bounds import subst
import c10
import c14
from c05 import subterms

LEVEL = 'proof'
EXPLANATION = ('Case analysis over configured / not configured labels with member-wise comparison of the parameters at the '
               'end of every path; copy and save/load agreement of the configuration classes.')


def configs(p):
    return [c for c in sorted(p.methods) if c.startswith('xmm::Configuration<')]


def pclass(p, cls):
    """the class holding the parameters of one class"""
    for c in [cls] + sorted(p.bases(cls)):
        if c.startswith('xmm::ClassParameters<'):
            return c
    return None


def has(it, st, m, key, val):
    t = ('op', 'has', m, key)
    it.boolset.add(t)
    return it.assume(st, t, val) or st


def others(it, s, skip):
    return [l for l in changed_locs(it, s) if not any(under(l, k) for k in skip)]


def under(l, k):
    while isinstance(l, tuple) and l:
        if l == k:
            return True
        l = l[1] if l[0] in ('f', 'e', 'd') else None
    return False


def run(r):
    p = r.p
    n = 0
    for cls in ('xmm::GMM', 'xmm::HierarchicalHMM'):
        for f in p.find(cls, 'addModelForClass'):
            if f.get('body'):
                n += 1
                prepare(r, cls, f)
    r.floor('preparations of a class', n, 2)
    cs = configs(p)
    n = 0
    for cls in cs:
        for f in [g for gs in p.methods[cls].values() for g in gs]:
            if f.get('body') and f['n'] in ('operator[]', 'includes', 'reset'):
                n += 1
                access(r, cls, f)
    r.floor('configuration operations', n, 4)
    n = 0
    par = sorted({pclass(p, c) for c in cs} - {None})
    for cls, f in c10.copy_ops(p):
        if cls in cs or cls in par:
            n += 1
            c10.one(r, cls, f)
    for cls in cs + par:
        w = [f for f in p.methods[cls].get('toJson', []) if f.get('body')]
        c = [f for l in p.methods[cls].values() for f in l if f.get('ctor') and f.get('body') and c14.has_json(f)]
        if w and c:
            n += 1
            c14.pair(r, cls, w[0], c[0])
    r.floor('configuration classes copied, saved and loaded', n, 8)
    states(r)


class Quiet(c10.Track):
    def on_call(self, it, st, node, callee, obj, args, fr):
        nm = ((callee or {}).get('q') or '').split('::')[-1].split('<')[0]
        if nm in ('updateTransitionParameters', 'addListener', 'isTraining', 'removeListeners', 'updateExitProbabilities'):
            g = it.p.funcs.get((callee or {}).get('id'))
            return [(st, None if not g or g.get('rt', 'void') == 'void' else it.fresh(st, ('q', nm)))]
        return super().on_call(it, st, node, callee, obj, args, fr) if hasattr(c10.Track, 'on_call') else None


def prepare(r, cls, f):
    p = r.p
    w = r.where(f)
    lab = ('in', ('A', f['params'][0]['n']))
    conf, models = F('configuration'), F('models')
    table = F('configuration', 'class_parameters_')
    ct = next(fd['t'] for _, fd in p.fields(cls) if fd['n'] == 'configuration')
    pc = pclass(p, c10.class_of(ct))
    for known in (True, False):
        for there in (True, False):
            it = Interp(p, Quiet(cls), budget=400000)

            def setup(it, st, fr):
                st = has(it, st, table, lab, known)
                return has(it, st, models, lab, there)
            a = r.analyse(it, f, cls=cls, setup=setup)
            if a is None:
                continue
            key = '%s on %s, %s, %s class' % (f['q'], cls.split('::')[-1], 'configured' if known else 'not configured',
                                              'existing' if there else 'new')
            r.ob(key + ': ends', bool(a[0]), w, 'never ends normally')
            S = ('e', table, lab) if known else conf
            D = F('parameters', base=('e', models, lab))
            for s, v in a[0]:
                for _, x in p.fields(pc):
                    if x['n'] in c10.SKIP or 'Attribute<' not in x['t']:
                        continue
                    ok, path, val = c10.eq(it, s, F(x['n'], base=D), F(x['n'], base=S), x['t'], S)
                    r.ob('%s: %s' % (key, x['n']), ok, w, 'the %s of the class is %s' % (x['n'], show(val)[:90] if val else '?'))
                ch = [l for l in others(it, s, [('e', models, lab)]) if under(l, conf) or under(l, models)]
                ch = [l for l in ch if l[-1] != '#size']
                r.ob(key + ': changes only this class', not ch, w, 'also changes ' + ', '.join(show(x) for x in ch[:3]))


def access(r, cls, f):
    p = r.p
    w = r.where(f)
    table = F('class_parameters_')
    pc = pclass(p, cls)
    opts = [x for _, x in p.fields(pc) if 'Attribute<' in x['t']]
    lab = ('in', ('A', f['params'][0]['n'])) if f['params'] else None
    for known in ((True, False) if lab else (None,)):
        cl = Tab()
        it = Interp(p, cl, budget=300000)

        def setup(it, st, fr):
            return has(it, st, table, lab, known) if lab else st
        a = r.analyse(it, f, cls=cls, setup=setup)
        if a is None:
            continue
        key = '%s%s' % (f['q'] + ('(label)' if lab else '()'), '' if known is None else ', configured' if known else ', not configured')
        r.ob(key + ': ends normally', bool(a[0]) and not a[1], w, 'throws or never ends')
        for s, v in a[0]:
            ch = [l for l in changed_locs(it, s) if not under(l, table)]
            r.ob(key + ': defaults untouched', not ch, w, 'changes ' + ', '.join(show(x) for x in ch[:3]))
            if f['n'] == 'operator[]':
                E = ('e', table, lab)
                if v and v[0] in ('ref', 'obj', 'addr'):
                    r.ob(key + ': answers the parameters of the label', it.resolve(s, v[1]) == E, w, 'answers %s' % show(v)[:80])
                for x in opts:
                    if known:
                        val, old = (it.load(q, F(x['n'], 'value_', base=E)) for q in (s, it.entry))
                        ok = True if val == old else (None if val[0] in ('u', 'op', 'poly') else False)
                    else:
                        ok, path, val = c10.eq(it, s, F(x['n'], base=E), F(x['n']), x['t'], ('T',))
                    r.ob('%s: %s' % (key, x['n']), ok, w, 'becomes %s' % (show(val)[:90] if val else '?'))
            elif f['n'] == 'includes':
                t = truth(it, s, v)
                if t is None and not known and ('in', ('f', table, '#size')) in subterms(v) and \
                        not any(x[:2] == ('op', 'has') for x in subterms(v)):
                    t = True                # the number of configured labels says nothing about this one
                r.ob(key + ': answers', None if t is None else t == known, w, 'answers %s' % t)
                ch = [l for l in changed_locs(it, s)]
                r.ob(key + ': only asks', not ch and not s.tr.get('tab'), w, 'changes the configuration')
            elif lab:
                t = it.truth(s, ('op', 'has', table, lab))
                wr = s.tr.get('tab', ())
                r.ob(key + ': the label is gone', None if t is None and ('erase' not in wr or known) else t is not True and
                     (not known or t is False or 'erase' in wr), w, 'the parameters of the label remain')
                r.ob(key + ': other labels stay', not set(wr) - {'erase'}, w, 'removes ' + ', '.join(wr))
            else:
                sz = it.load(s, ('f', table, '#size'))
                r.ob(key + ': nothing is left', True if sz == ZERO else (False if sz == it.load(it.entry, ('f', table, '#size'))
                                                                        else None), w, 'the per-label parameters remain')


class Tab(c10.Track):
    """tr['tab']: what happened to the table of per-label parameters"""

    def __init__(self):
        super().__init__('')

    def on_write(self, it, st, loc, val, node, fr):
        T = F('class_parameters_')
        if loc[0] == 'e' and loc[1] == T and val == ('erased',):
            k = loc[2]
            nm = 'erase' if k[0] == 'in' and k[1][0] == 'A' else 'other labels'
            st.tr['tab'] = tuple(sorted(set(st.tr.get('tab', ())) | {nm}))
        elif loc == T or loc == ('f', T, '#size') and val == ZERO:
            st.tr['tab'] = tuple(sorted(set(st.tr.get('tab', ())) | {'all labels'}))
        super().on_write(it, st, loc, val, node, fr)

    def on_bulk(self, it, st, loc, *a):
        if loc == F('class_parameters_'):
            st.tr['tab'] = tuple(sorted(set(st.tr.get('tab', ())) | {'all labels'}))


def truth(it, s, v):
    for x in [x for x in s.facts if x[0] == 'b' and x[1][:2] == ('op', 'has')]:
        if v and v[0] == 'cmp':
            v = v[:2] + (subst(v[2], x[1], ONE if x[2] else ZERO),)
    if not v:
        return None
    return v[1] != 0 if v[0] == 'i' else it.truth(s, v)


# ------------------------------------------------------------------------------------------ (D)
class Build(Client):
    """tr['own']: options of the state prototype set from the model's own"""

    def on_call(self, it, st, node, callee, obj, args, fr):
        g = it.p.funcs.get((callee or {}).get('id'))
        if g and g['n'] == 'allocate' and g['id'] != (fr.func or {}).get('id'):
            it.log(('alloc', st.clone(), obj))
            return [(st, None)]
        return None


def states(r):
    p = r.p
    n = 0
    cls = 'xmm::SingleClassHMM'
    for f in p.methods.get(cls, {}).get('allocate', []):
        if not f.get('body'):
            continue
        n += 1
        it = Interp(p, Build(), budget=400000)
        a = r.analyse(it, f, cls=cls)
        if a is None:
            continue
        mine = {x['n']: x['t'] for _, x in p.fields(pclass(p, 'xmm::ClassParameters<xmm::HMM>')) if 'Attribute<' in x['t']}
        their = {x['n']: x['t'] for _, x in p.fields('xmm::ClassParameters<xmm::GMM>') if 'Attribute<' in x['t']}
        done = [j for j in it.journal if j[0] == 'alloc']
        r.ob('the states are allocated', True if done else None, r.where(f), 'no state is allocated')
        for _, s, obj in done:
            L = it.resolve(s, obj) if obj else None
            for o in sorted(set(mine) & set(their)):
                if mine[o] != their[o] or not L:
                    continue
                v = it.load(s, F('parameters', o, 'value_', base=L))
                if v[0] == 'in' and v[1] != L and root_of(v[1])[0] in ('L', 'tmp'):
                    v = it.load(s, v[1])               # the local the states are copies of
                want = it.load(it.entry, F('parameters', o, 'value_'))
                ok = True if v == want else (None if v[0] not in ('in', 'i', 'f64') and not (v[0] == 'vec') else False)
                r.ob('states get the %s of their model' % o, ok, r.where(f), 'a state has %s' % show(v)[:90])
    r.floor('allocations of states', n, 1)
