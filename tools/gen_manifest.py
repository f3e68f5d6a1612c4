"""Write MANIFEST.json: a property is claimed when sa/checks/<id>.py exists and it is not listed in NA."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'sa'), os.path.join(V, 'sa', 'checks')]
NA = {
    'C40': 'monotone likelihood under EM is a theorem about real-number optimisation over the training data; no static argument in reach bounds the floating-point trajectory',
    'C41': 'whether printed numbers read back identically is decided by the floating-point formatting of the bundled JSON library and the C library, for runtime values; no structural rule of this code base decides it (that the same fields are written and read is C14)',
    'C42': 'equality of the regression output with a conditional expectation is an algebraic identity over runtime matrices and sums; a static rule could only compare formula text',
    'C43': 'run time and memory are quantitative resource bounds over allocator and container behaviour; sizes of the running state are covered by C25/C26',
    'C44': 'the code uses unsynchronised flags and detached threads by design; absence of deadlock and races over all interleavings of user calls needs an interleaving exploration (another family); lock balance and per-class write isolation are covered by C18 and C23',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    f = os.path.join(V, 'sa', 'checks', i.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    m = importlib.import_module(i.lower())
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': getattr(m, 'TECHNIQUE', 'static analysis: ' + m.EXPLANATION.rstrip('.')),
                   'level': m.LEVEL,
                   'level_note': getattr(m, 'NOTE', 'decided on the type-checked syntax tree of the current sources; the abstract '
                                         'interpreter, its standard-library models and the clang front end are trusted')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
