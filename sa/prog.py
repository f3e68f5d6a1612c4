"""Front end driver: builds xmmdump when needed, parses every translation unit of
/repo/src (plus the synthetic instantiation unit) and merges the results."""
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XMM_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis could not be carried out: neither a pass nor a violation."""


def tool_path():
    src = os.path.join(VERIF, 'tools', 'xmmdump.cpp')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'xmmdump-' + tag)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = subprocess.check_output(['llvm-config', '--cxxflags'], text=True).split()
    tmp = out + '.tmp%d' % os.getpid()
    so = glob.glob(LLVM + '/lib/libclang-cpp.so.18*')
    if not so:
        raise AnalysisError('libclang-cpp not found')
    cmd = ['clang++'] + flags + ['-O1', '-fno-rtti', src, '-o', tmp, sorted(so)[0],
                                 '-L' + LLVM + '/lib', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('cannot build xmmdump: ' + r.stderr[-800:])
    os.rename(tmp, out)
    return out


def std_class(cls):
    """'std::vector<double, ...>' -> 'std::vector'."""
    if not cls:
        return ''
    i = cls.find('<')
    return cls if i < 0 else cls[:i]


class Prog:
    def __init__(self, root=None, include_inst=True):
        self.root = root or REPO
        self.funcs = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self._load(include_inst)
        self._index()

    # ------------------------------------------------------------------ loading
    def flags(self):
        r = self.root
        dirs = ['src'] + [os.path.relpath(d, r) for d in
                          sorted(glob.glob(r + '/src/core/*') + glob.glob(r + '/src/models/*')) if os.path.isdir(d)]
        inc = ['-I%s/%s' % (r, d) for d in dirs]
        return ['-std=c++11', '-DUSE_PTHREAD', '-DNDEBUG', '-w'] + inc + ['-I%s/dependencies/jsoncpp/include' % r]

    def _load(self, include_inst):
        tool = tool_path()
        tus = sorted(glob.glob(self.root + '/src/**/*.cpp', recursive=True))
        if len(tus) < 5:
            raise AnalysisError('only %d translation units under src/' % len(tus))
        if include_inst:
            tus.append(os.path.join(VERIF, 'tools', 'inst.cpp'))
        tmp = tempfile.mkdtemp(prefix='xmmsa')
        flags = self.flags()

        def one(i):
            out = os.path.join(tmp, '%d.json' % i)
            r = subprocess.run([tool, self.root, out, tus[i], '--'] + flags, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                return 'parse of %s failed: %s' % (tus[i], r.stderr[-600:])
            return None
        try:
            with ThreadPoolExecutor(8) as ex:
                errs = [e for e in ex.map(one, range(len(tus))) if e]
            if errs:
                raise AnalysisError('; '.join(errs))
            for i, tu in enumerate(tus):
                with open(os.path.join(tmp, '%d.json' % i)) as fh:
                    d = json.load(fh)
                self.units.append(tu)
                for f in d['funcs']:
                    if not f['file'].startswith('src/') and f['id'] not in self.funcs:
                        f['ext'] = True
                    old = self.funcs.get(f['id'])
                    if old is None or (old.get('body') is None and f.get('body') is not None):
                        self.funcs[f['id']] = f
                for c in d['classes']:
                    old = self.classes.get(c['n'])
                    if old is None:
                        self.classes[c['n']] = c
                for e in d['enums']:
                    self.enums[e['n']] = e
                for g in d['globals']:
                    self.globals[g['n']] = g
        finally:
            for p in glob.glob(tmp + '/*.json'):
                os.unlink(p)
            os.rmdir(tmp)

    # ------------------------------------------------------------------ indexing
    def _index(self):
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f['q'], []).append(f)
        self.methods = {}       # cls -> name -> [func]
        for f in self.funcs.values():
            if f.get('cls'):
                self.methods.setdefault(f['cls'], {}).setdefault(f['n'], []).append(f)
        self.subs = {}
        for c in self.classes.values():
            for b in c['bases']:
                self.subs.setdefault(b, []).append(c['n'])
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get('ov', []):
                self.overriders.setdefault(o, []).append(f['id'])

    def bases(self, cls, seen=None):
        out = [cls]
        for b in self.classes.get(cls, {}).get('bases', []):
            out += self.bases(b)
        return out

    def derived(self, cls):
        out = [cls]
        for d in self.subs.get(cls, []):
            out += self.derived(d)
        return out

    def fields(self, cls):
        """All (class, field) incl. inherited ones, base first."""
        out = []
        for b in self.classes.get(cls, {}).get('bases', []):
            out += self.fields(b)
        for f in self.classes.get(cls, {}).get('fields', []):
            out.append((cls, f))
        return out

    def field(self, cls, name):
        for c, f in self.fields(cls):
            if f['n'] == name:
                return f
        return None

    def src_funcs(self):
        return [f for f in self.funcs.values() if f['file'].startswith('src/')]

    def find(self, cls, name):
        """Methods called `name` declared in `cls` or inherited (nearest first)."""
        if cls in self.methods and name in self.methods[cls]:
            return self.methods[cls][name]
        for b in self.classes.get(cls, {}).get('bases', []):
            r = self.find(b, name)
            if r:
                return r
        return []

    def resolve_virtual(self, fid, cls):
        """Final overrider of function id `fid` for dynamic class `cls`."""
        def chain(c):
            yield c
            for b in self.classes.get(c, {}).get('bases', []):
                for x in chain(b):
                    yield x
        targets = {fid}
        # all overriders transitively
        work = [fid]
        while work:
            x = work.pop()
            for o in self.overriders.get(x, []):
                if o not in targets:
                    targets.add(o)
                    work.append(o)
        for c in chain(cls):
            for ms in self.methods.get(c, {}).values():
                for m in ms:
                    if m['id'] in targets and m.get('cls') == c:
                        return m
        return None

    def line(self, f):
        return '%s:%s' % (f['file'], f['line'])


def walk(n):
    """Pre-order over all dict nodes of an AST fragment."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))


if __name__ == '__main__':
    p = Prog()
    print(len(p.units), 'units', len(p.funcs), 'functions', len(p.classes), 'classes')
    for c in sorted(p.classes):
        print(' ', c, [f['n'] for f in p.classes[c]['fields']])
