"""Program slices: the statements of a function that can touch what a rule is about, with everything they are control-
or index-dependent on. A slice has every path of the function that matters to the rule (it may have more)."""
import copy
from prog import walk

SIMPLE = ('unsigned', 'int', 'double', 'float', 'bool', 'long', 'size_t', 'char')


def is_class(t):
    t = (t or '').replace('const ', '').strip()
    return t.startswith('xmm::') and not t.endswith('*') and not t.endswith('&')


def ids(x):
    return {y['id'] for y in walk([x]) if y.get('k') == 'ref' and y.get('id') is not None}


class Slicer:
    def __init__(self, hot, values=False):
        self.values = values    # are the values of assignments and returns wanted
        self.hot = hot          # expression -> does the rule care about it

    def target(self, e):
        """the local a simple expression statement changes"""
        while e is not None and e.get('k') == 'cast':
            e = e.get('e')
        if e is None:
            return None
        x = None
        if e.get('k') == 'bin' and e.get('op', '').endswith('=') and e['op'] not in ('==', '<=', '>=', '!='):
            x = e.get('x')
        elif e.get('k') == 'un' and ('++' in e.get('op', '') or '--' in e.get('op', '')):
            x = e.get('x')
        elif e.get('k') == 'call' and e.get('op') in ('=', '+=', '-=', '++', '--', '*=', '/='):
            x = e.get('o') or (e.get('a') or [None])[0]
        while x is not None and x.get('k') in ('cast', 'mem', 'idx'):
            x = x.get('e') or x.get('b')
        return x.get('id') if x is not None and x.get('k') == 'ref' else None

    def strip(self, e):
        """the right hand side of an assignment the rule does not care about is dropped"""
        if not self.values and e.get('k') == 'bin' and e.get('op', '').endswith('=') and e['op'] not in (
                '==', '<=', '>=', '!=') and e.get('y') and not any(self.hot(y) for y in walk([e['y']])) and self.target(e) is None:
            e = dict(e)
            e['y'] = {'k': 'unk', 't': e.get('t'), 'l': e.get('l')}
        return e

    def cond(self, c):
        """methods of local objects are unknown: their contents are not followed"""
        if not isinstance(c, dict):
            return c
        if c.get('k') == 'call' and isinstance(c.get('o'), dict):
            o = c['o']
            while o.get('k') in ('cast', 'mem'):
                o = o.get('e') or o.get('b') or {}
            if o.get('k') == 'ref' and is_class(o.get('t')):
                return {'k': 'unk', 't': c.get('t'), 'l': c.get('l')}
        return {k: (self.cond(v) if isinstance(v, dict) else [self.cond(y) if isinstance(y, dict) else y for y in v]
                    if isinstance(v, list) else v) for k, v in c.items()}

    def function(self, f):
        self.need = set()
        for _ in range(20):
            before = set(self.need)
            b = self.stmt(f['body'])
            if self.need == before:
                break
        g = dict(f)
        g['body'] = b or {'k': 'block', 's': [], 'l': f.get('line'), 'el': f.get('line')}
        return g

    def anyhot(self, x):
        return any(self.hot(y) for y in walk([x]))

    def stmt(self, n):
        if n is None:
            return None
        k = n.get('k')
        if k == 'block':
            n = dict(n)
            n['s'] = [y for y in (self.stmt(x) for x in n['s']) if y is not None]
            return n if n['s'] else None
        if k == 'decl':
            d = []
            for v in n['d']:
                if v.get('k') == 'var' and v.get('init') is not None and self.anyhot(v['init']):
                    self.need.add(v['id'])
                if v.get('k') != 'var' or v['id'] in self.need:
                    if is_class(v.get('t')):
                        v = dict(v)
                        v['init'] = None
                    elif v.get('init') is not None:
                        self.need |= ids(v['init'])
                    d.append(v)
            return dict(n, d=d) if d else None
        if k == 'expr':
            if self.anyhot(n.get('e')):
                e = self.strip(n['e'])
                self.need |= ids(e)
                return dict(n, e=e)
            t = self.target(n.get('e'))
            if t is not None and t in self.need:
                self.need |= ids(n['e'])
                return n
            return None
        if k == 'if':
            x, y = self.stmt(n.get('x')), self.stmt(n.get('y'))
            if x is None and y is None and not self.anyhot(n.get('c')):
                return None
            c = self.cond(n['c'])
            self.need |= ids(c)
            return dict(n, c=c, x=x or {'k': 'block', 's': [], 'l': n.get('l'), 'el': n.get('l')}, y=y)
        if k in ('for', 'while', 'do', 'rfor'):
            b = self.stmt(n.get('b'))
            own = self.target((n.get('inc') or {})) if k == 'for' else None
            if b is None and not any(self.anyhot(n.get(q)) for q in ('init', 'c', 'inc', 'r')):
                return None
            if b is not None and not self.anyhot(b) and not any(
                    y.get('k') in ('ret', 'throw', 'expr', 'decl') for y in walk([b])):
                return None
            m = dict(n, b=b or {'k': 'block', 's': [], 'l': n.get('l'), 'el': n.get('l')})
            for q in ('init', 'c', 'inc', 'r'):
                if n.get(q) is not None:
                    self.need |= ids(n[q])
            return m
        if k == 'ret':
            if self.values and n.get('e') is not None:
                self.need |= ids(n['e'])
                return n
            return dict(n, e={'k': 'float', 'v': 0.0, 't': 'double', 'l': n.get('l')}) if n.get('e') is not None and \
                not self.anyhot(n['e']) else n
        if k in ('break', 'continue'):
            return n
        if k == 'try':
            m = dict(n)
            for q, v in n.items():
                if q in ('b', 'body') and isinstance(v, dict):
                    m[q] = self.stmt(v) or {'k': 'block', 's': [], 'l': n.get('l'), 'el': n.get('l')}
            return m
        if k == 'throw':
            return n
        return n if self.anyhot(n) else None
