"""Is an index inside its array? Proof from the facts of the path (products of facts with non-negative terms included);
refutation by the largest value the index takes: every loop counter in it is replaced by the last value its loop bound
lets it have. Undecided when terms of unknown origin are involved."""
from common import *


def uppers(st, a, skip=()):
    """upper bounds of the counter a known on this path"""
    out = []
    for f in st.facts:
        if f[0] in ('le', 'eq'):
            d = to_poly(f[1])
            if d.get((a,)) == 1 and not any(a in m and m != (a,) for m in d):
                out.append(psub(a, f[1]))
            elif f[0] == 'eq' and d.get((a,)) == -1 and not any(a in m and m != (a,) for m in d):
                out.append(padd(a, f[1]))
    return out


def subst(v, a, b):
    out = ZERO
    for m, c in to_poly(v).items():
        k = m.count(a)
        t = from_poly({tuple(x for x in m if x != a): c})
        for _ in range(k):
            t = pmul(t, b)
        out = padd(out, t)
    return out


def counters(it, v):
    return sorted({a for a in lvs(v)}, key=repr)


def steps(it, a):
    return it.meta.get(a[1], {}).get('step', {}).get(a[2])


def known(it, v, ok=None):
    """every term is a value on entry (or one the caller accepts)"""
    for m in to_poly(v):
        for a in m:
            if a[0] == 'in' or ok and ok(a):
                continue
            return False
    return True


def inside(it, st, i, size, ok=None):
    """0 <= i < size: True / False / None"""
    if it.prove_le(st, padd(psub(i, size), ONE)):
        if it.prove_le(st, psub(ZERO, i)):
            return True
        low = lowest(it, st, i)
        return False if low is not None and low[0] == 'i' and low[1] < 0 else None
    # i = a*q + r with q a factor of the size: a below size/q and 0 <= r < q
    for a in counters(it, i):
        q = ZERO
        for m, c in to_poly(i).items():
            if m.count(a) == 1:
                l = list(m)
                l.remove(a)
                q = padd(q, from_poly({tuple(l): c}))
        q = from_poly({m: c for m, c in to_poly(q).items() if m != ()}) if pdiv(size, q) is None else q
        if q[0] == 'i' or pdiv(size, q) is None:
            continue
        rows, rest = pdiv(size, q), psub(i, pmul(a, q))
        if it.prove_le(st, padd(psub(a, rows), ONE)) and it.prove_le(st, padd(psub(rest, q), ONE)) and \
                it.prove_le(st, psub(ZERO, a)) and it.prove_le(st, psub(ZERO, rest)) and it.prove_le(st, psub(ZERO, q)):
            return True
    g = padd(psub(i, size), ONE)           # must be <= 0
    seen = 0
    while True:
        cs = [a for a in counters(it, g)]
        if not cs:
            break
        seen += 1
        if seen > 12:
            return None
        # innermost first: a counter whose bound mentions other counters
        done = False
        for a in cs:
            st_ = steps(it, a)
            if isinstance(a[2], tuple) and a[2][0] == 'idx':
                st_ = 1
            d = to_poly(g)
            sign = {c > 0 for m, c in d.items() if a in m}
            if len(sign) != 1:
                continue
            if sign == {False}:
                if st_ != 1:
                    return None
                e = it.meta.get(a[1], {}).get('entry', {}).get(a[2])
                if isinstance(a[2], tuple) and a[2][0] == 'idx':
                    e = ZERO
                if e is None:
                    return None
                g = subst(g, a, e)
                done = True
                break
            if st_ == -1:
                e = it.meta.get(a[1], {}).get('entry', {}).get(a[2])
                if e is None:
                    return None
                g = subst(g, a, e)
                done = True
                break
            if st_ != 1:
                return None
            us = [u for u in uppers(st, a) if a not in counters(it, u)]
            inner = [u for u in us if all(b == a or order(b, a) for b in counters(it, u))]
            us = inner or us
            if not us:
                return False if not mentions_ne(st, a) else None
            # the tightest: one that is provably below the others, else any
            best = us[0]
            for u in us[1:]:
                if it.prove_le(st, psub(u, best)):
                    best = u
            g = subst(g, a, best)
            done = True
            break
        if not done:
            return None
    if it.prove_le(st, g):
        return True
    if not known(it, g, ok):
        return None
    if g[0] == 'i':
        return g[1] <= 0
    x = it.assume(st.clone(), ('cmp', 'le', psub(ONE, g)), True)
    return True if x is None else False


def mentions_ne(st, a):
    """something unanalysed about the counter is known"""
    return any(f[0] == 'ne' and any(a in m for m in to_poly(f[1])) for f in st.facts)


def order(b, a):
    return True


def lowest(it, st, i):
    v = i
    for a in counters(it, v):
        d = to_poly(v)
        sign = {c > 0 for m, c in d.items() if a in m}
        e = it.meta.get(a[1], {}).get('entry', {}).get(a[2])
        if sign != {True} or steps(it, a) != 1 or e is None:
            return None
        v = subst(v, a, e)
    return v
