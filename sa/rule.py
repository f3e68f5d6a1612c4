"""Obligation bookkeeping shared by every rule: instances, verdicts, evidence, known findings."""
import json
import os
import re
import sys
import time

from prog import VERIF, AnalysisError, Prog
from engine import Interp, Client, Bailout, show

KNOWN = os.path.join(VERIF, 'known_findings.txt')
EVID = os.environ.get('XMM_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Rule:
    """Collects obligations. Verdicts: True (holds on every path analysed), False
    (definite violation), None (undecided: reported in the evidence, no alarm)."""

    def __init__(self, pid, tier, prog):
        self.pid = pid
        self.tier = tier
        self.p = prog
        self.t0 = time.time()
        self.obs = {}
        self.bad = {}
        self.und = {}
        self.funcs = set()
        self.calls = 0
        self.paths = 0
        self.notes = []
        self.unmodelled = {}
        self.floors = []
        self.text = ''

    # -- verdicts
    def ob(self, key, ok, where='', msg=''):
        """Record one obligation; a violated verdict is sticky, undecided beats held."""
        if ok is False:
            if key not in self.bad:
                self.bad[key] = (where, msg)
            self.obs[key] = False
        elif ok is None:
            self.und.setdefault(key, (where, msg))
            if self.obs.get(key) is not False:
                self.obs[key] = None
        else:
            self.obs.setdefault(key, True)

    def floor(self, what, n, least):
        """A rule that matched fewer instances than confirmed by hand is broken, not passing."""
        self.floors.append((what, n, least))

    def where(self, f, node=None):
        if f is None:
            return ''
        l = (node or {}).get('l') or f.get('line') or 0
        return '%s:%s (%s)' % (f.get('file', '?'), l, f.get('q', '?'))

    def note_run(self, it, f=None):
        self.calls += it.stats['calls']
        if f is not None:
            self.funcs.add(f['q'])
        for k, v in it.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    def analyse(self, it, f, **kw):
        """Interp.analyse with undecided-on-bailout; returns (normal, thrown) or None."""
        try:
            r, th, fr = it.analyse(f, **kw)
        except Bailout as e:
            self.ob('analysis of ' + f['q'], None, self.where(f), 'not analysed: %s' % e)
            return None
        for j in it.journal:
            if j[0] == '#ob':           # verdicts of hooks; those of rejected loop rounds are gone
                self.ob(*j[1:])
        self.note_run(it, f)
        self.paths += len(r) + len(th)
        return r, th

    # -- end of run
    def finish(self, level, explanation):
        for what, n, least in self.floors:
            if n < least:
                raise AnalysisError('rule matched %d instance(s) of "%s", expected at least %d' % (n, what, least))
        known, fixed = load_known(self.pid)
        viol = []
        for key, (where, msg) in sorted(self.bad.items()):
            if key in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, key, known[key]))
            else:
                viol.append((key, where, msg))
        os.makedirs(EVID, exist_ok=True)
        n = len(self.obs)
        held = sum(1 for v in self.obs.values() if v is True)
        cov = {
            'explanation': explanation,
            'rule': self.text.strip(),
            'obligations': n,
            'discharged': held,
            'undecided': {k: '%s %s' % v for k, v in sorted(self.und.items()) if self.obs.get(k) is None},
            'violated': {k: '%s %s' % v for k, v in sorted(self.bad.items())},
            'functions_analysed': sorted(self.funcs),
            'functions_count': len(self.funcs),
            'call_sites_visited': self.calls,
            'path_ends_examined': self.paths,
            'translation_units': len(self.p.units),
            'program_functions': len(self.p.funcs),
            'instance_floors': [{'what': w, 'found': k, 'least': l} for w, k, l in self.floors],
            'samples': [k for k in list(self.obs)[:400:max(1, len(self.obs) // 12)]],
            'checker_cmd': 'python3 check.py %s --tier %s' % (self.pid, self.tier),
            'trusted_base': ['clang 18 front end (parsing, overload and template resolution)',
                             'tools/xmmdump.cpp', 'sa/engine.py transfer functions and standard-library models',
                             'the rule in sa/checks'],
            'unmodelled_calls': self.unmodelled,
        }
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
        print('%s: %d obligations, %d hold, %d undecided, %d violated (%d known); %d functions, %d path ends, %.1fs' % (
            self.pid, n, held, sum(1 for v in self.obs.values() if v is None), len(self.bad),
            len(self.bad) - len(viol), len(self.funcs), self.paths, time.time() - self.t0))
        for k, (w, m) in sorted(self.und.items()):
            if self.obs.get(k) is None:
                print('  undecided: %s  [%s] %s' % (k, w, m))
        if viol:
            rp = os.path.join(EVID, self.pid + '.violations.txt')
            with open(rp, 'w') as fh:
                for k, w, m in viol:
                    fh.write('%s\n  at %s\n  %s\n' % (k, w, m))
                fh.write('\nrule:\n%s\nrerun: python3 check.py %s\n' % (self.text, self.pid))
            for k, w, m in viol:
                print('violated: %s\n   at %s\n   %s' % (k, w, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r'finding: property=(\w+) key=\[(.*?)\] (.*)$', line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
            m = re.match(r'fixed: property=(\w+) (\w+) (.*)$', line)
            if m and m.group(1) == pid:
                fixed.append(m.groups())
    return known, fixed
