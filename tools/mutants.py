"""Development aid: apply small edits to a scratch copy of the sources and show what a check says.
usage: mutants.py C07 [C08 ...]   (reads tools/mutants.txt; V = should be reported, Q = must stay quiet)"""
import os, re, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
items = []
for blk in open(os.environ.get('MUTANTS') or os.path.join(V, 'tools', 'mutants.txt')).read().split('\n====\n'):
    blk = blk.strip('\n')
    if not blk:
        continue
    head, rest = blk.split('\n', 1)
    kind, checks, f = head.split()[:3]
    edits = []
    for e in rest.split('\n++++\n'):
        old, new = e.split('\n----', 1)
        edits.append((old, new[1:]))
    items.append((kind, checks.split(','), f, edits, ' '.join(head.split()[3:])))


def run(i):
    kind, checks, f, edits, name = items[i]
    cs = [c for c in checks if c in want] if want else checks
    if os.environ.get('ONLY') and not re.search(os.environ['ONLY'], name):
        return None
    if not cs:
        return None
    d = '/tmp/mut/%d' % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('src', 'dependencies'):
        shutil.copytree('/repo/' + x, d + '/' + x)
    shutil.copy('/repo/xmm.h', d) if os.path.exists('/repo/xmm.h') else None
    p = os.path.join(d, f)
    s = open(p).read()
    for old, new in edits:
        if s.count(old) < 1:
            return 'BAD EDIT %s %r' % (name, old)
        s = s.replace(old, new, 1)
    open(p, 'w').write(s)
    out = []
    for c in cs:
        e = dict(os.environ, XMM_REPO=d, XMM_EVIDENCE=d + '/ev')
        r = subprocess.run([sys.executable, 'check.py', c], cwd=V, env=e, capture_output=True, text=True)
        ok = (r.returncode == 1) == (kind == 'V') and r.returncode in (0, 1)
        first = next((l for l in r.stdout.split('\n') if l.startswith('violated')), r.stdout.strip().split('\n')[0][:150] + r.stderr[-300:])
        und = sum(l.strip().startswith('undecided') for l in r.stdout.split('\n'))
        out.append('%s %s %s %s [%s] rc=%d und=%d %s' % ('ok  ' if ok else 'MISS' if kind == 'V' else 'FALSE-ALARM', c, kind, f.split('/')[-1], name, r.returncode, und, first[:140] if not ok or kind == 'V' else ''))
    shutil.rmtree(d, ignore_errors=True)
    return '\n'.join(out)


with cf.ThreadPoolExecutor(6) as ex:
    for o in ex.map(run, range(len(items))):
        if o:
            print(o, flush=True)
