"""Inductive invariant of each bimodal-capable class: bimodal => dimension minimum >= 2, dimension_input
minimum >= 1 (distributions excepted), dimension_input maximum and value <= current dimension - 1. Shown to hold at every normal end of
every constructor (copy and document constructors included), of assignment, of loading, and of the reaction
to a change of each attribute (value of the changed attribute arbitrary within its limits, other state
arbitrary within the invariant)."""
from common import *

LEVEL = 'proof'
EXPLANATION = ('Inductive invariant over all entry points that set the dimension, the modality or their limits, by '
               'abstract interpretation with linear entailment.')

CLASSES = {'xmm::Phrase': F('bimodal_'), 'xmm::TrainingSet': F('bimodal_'),
           'xmm::SharedParameters': F('bimodal', 'value_'), 'xmm::GaussianDistribution': F('bimodal_')}


def at(base, l):
    """Relocate a this-location to another object."""
    if l == ('T',):
        return base
    return (l[0], at(base, l[1]), l[2])


def attr_inv(it, st, base, d):
    """value within limits, as established by C01"""
    v = it.load(st, F(d, 'value_', base=base))
    lo = it.load(st, F(d, 'limit_min_', base=base))
    hi = it.load(st, F(d, 'limit_max_', base=base))
    it.nonneg |= {v, lo, hi}
    st.facts = st.facts | {('le', psub(lo, v)), ('le', psub(v, hi))}


def inv(it, st, base, bi):
    """(what, p): p <= 0 must hold; bi: the object is bimodal"""
    dv = it.load(st, F('dimension', 'value_', base=base))
    dlo = it.load(st, F('dimension', 'limit_min_', base=base))
    ilo = it.load(st, F('dimension_input', 'limit_min_', base=base))
    ihi = it.load(st, F('dimension_input', 'limit_max_', base=base))
    iv = it.load(st, F('dimension_input', 'value_', base=base))
    out = [('input dimension limited below the total dimension', padd(psub(ihi, dv), ONE)),
           ('input dimension below the total dimension', padd(psub(iv, dv), ONE))]
    if bi:
        out.append(('total dimension below two refused', psub(('i', 2), dlo)))
        out.append(('input dimension of one admitted', psub(ilo, ONE)))
        if it.short != 'GaussianDistribution':   # a distribution with no input dimension yet is admitted by design
            out.append(('input dimension of zero refused', psub(ONE, ilo)))
    else:
        out.append(('total dimension of zero refused', psub(ONE, dlo)))
        out.append(('unimodal object admits having no input dimension', ilo))
    return out


class C(Client):
    recursion = 2

    def on_call(self, it, st, node, callee, obj, args, fr):
        # the modality read from a document: analysed apart for both answers
        if callee and callee['n'] == 'asBool':
            a, b = st.clone(), st.clone()
            a.tr['bool:%s' % node.get('l')] = True
            b.tr['bool:%s' % node.get('l')] = False
            return [(a, TRUE), (b, FALSE)]
        return None


def assume_inv(it, st, base, flag, val):
    fl = at(base, flag)
    it.boolset.add(('in', fl))
    it.nonneg.add(('in', fl))
    if val is not None:
        st.env[fl] = TRUE if val else FALSE
    for d in ('dimension', 'dimension_input'):
        attr_inv(it, st, base, d)
    if val is not None:
        for _, q in inv(it, st, base, val):
            st.facts = st.facts | {('le', q)}


def run(r):
    p = r.p
    n = 0
    for cls, flag in CLASSES.items():
        short = cls.split('::')[-1]
        jobs = []
        for f in p.methods[cls].get(short, []):
            if f.get('body') is not None and f.get('ctor'):
                jobs.append((f, 'ctor', None))
        for f in p.methods[cls].get('operator=', []):
            if f.get('body') is not None:
                jobs.append((f, 'assign', None))
        for f in p.methods[cls].get('fromJson', []):
            jobs.append((f, 'load', None))
        for f in p.methods[cls].get('onAttributeChange', []):
            if f.get('body') is None:
                continue
            for c, fd in p.fields(cls):
                if strip_t(fd['t']).startswith('xmm::Attribute<'):
                    jobs.append((f, 'change', fd['n']))
        for f, kind, attr in jobs:
            n += 1
            check(r, cls, flag, f, kind, attr)
    r.floor('entry points', n, 25)


def check(r, cls, flag, f, kind, attr):
    p = r.p
    for tb in ((True, False) if kind != 'ctor' else (None,)):
        for sb in ((True, False) if kind == 'assign' or f.get('copy') or attr == 'bimodal' else (None,)):
            it = Interp(p, C())
            it.short = cls.split('::')[-1]
            args = {}

            def setup(it, st, fr):
                if kind == 'change':
                    l = ('L', fr.fid, f['params'][0]['id'], f['params'][0]['n'])
                    st.env[l] = ('addr', F(attr))
                if kind != 'ctor':
                    if attr == 'dimension':
                        # the new value is arbitrary within the limits; the invariant held for the old one
                        fl = flag
                        st.env[fl] = TRUE if tb else FALSE
                        for d in ('dimension', 'dimension_input'):
                            attr_inv(it, st, ('T',), d)
                        for what, q in inv(it, st, ('T',), tb):
                            if 'below the total' not in what:
                                st.facts = st.facts | {('le', q)}
                    elif attr == 'bimodal':
                        st.env[flag] = TRUE if tb else FALSE
                        for d in ('dimension', 'dimension_input'):
                            attr_inv(it, st, ('T',), d)
                        for what, q in inv(it, st, ('T',), sb):
                            st.facts = st.facts | {('le', q)}
                        # the maximum of the dimension stays at its default
                        hi = it.load(st, F('dimension', 'limit_max_'))
                        st.facts = st.facts | {('le', psub(('i', 2), hi))}
                    else:
                        assume_inv(it, st, ('T',), flag, tb)
                if kind == 'assign' or f.get('copy'):
                    assume_inv(it, st, ('A', f['params'][0]['n']), flag, sb)
                return st
            res = r.analyse(it, f, cls=cls, setup=setup)
            if res is None:
                continue
            if kind == 'change' and attr in ('dimension', 'bimodal') and it.short != 'TrainingSet':
                # (a training set also changes its phrases, whose own invariants are theirs)
                key = '%s: change of %s accepted' % (it.short, attr)
                r.ob(key, not res[1], res[1] and '%s:%s' % res[1][0][2][1:] or r.where(f),
                     'an admissible change ends with %s' % (res[1] and res[1][0][1]))
            for s, _ in res[0]:
                b = it.load(s, flag)
                it.boolset.add(b)
                it.nonneg.add(b)
                for bi in (True, False):
                    s2 = it.assume(s.clone(), b, bi)
                    if s2 is None:
                        continue
                    for what, q in inv(it, s2, ('T',), bi):
                        key = '%s%s: %s after %s%s' % (it.short, '' if bi else ' (unimodal)', what, f['n'] + '(' + ', '.join(
                            x['n'] for x in f['params']) + ')', ' of ' + attr if attr else '')
                        ok = it.prove_le(s2, q)
                        if not ok and not definite(it, s2, q):
                            ok = None
                        r.ob(key, ok, r.where(f), 'not established: %s <= 0 on a path where the object is %s' % (
                            show(q), 'bimodal' if bi else 'unimodal'))


def definite(it, s, q):
    """The terms of q are plain values of the program (nothing was lost by joins or opaque calls)."""
    return not any(a[0] == 'u' and len(a) > 1 and a[1] in ('join', 'alias', 'h') for a in atoms(q) if a)
