"""Runs the extractor on /repo's current tree and merges the translation units."""
import glob, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VG_REPO', '/repo')
TOOL = os.path.join(HERE, 'build', 'vgx')
CLANGXX = '/usr/bin/clang++-18'
LLVMLIB = '/usr/lib/llvm-18/lib'


class Broken(Exception):
    """The analysis cannot be made (exit 2)."""


def build_tool(force=False):
    src = os.path.join(HERE, 'tool', 'vgx.cc')
    if not force and os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    cpp = subprocess.run(['llvm-config-18', '--cppflags'], capture_output=True, text=True).stdout.split()
    if not cpp:
        cpp = ['-I/usr/lib/llvm-18/include']
    tmp = TOOL + '.%d' % os.getpid()
    r = subprocess.run([CLANGXX, '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions'] + cpp +
                       [src, '-o', tmp, LLVMLIB + '/libclang-cpp.so.18.1', LLVMLIB + '/libLLVM-18.so'],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('cannot build the extractor: ' + r.stderr[-2000:])
    os.replace(tmp, TOOL)


def main_dir():
    return os.path.join(REPO, 'core/src/main/cpp')


def flags():
    m = main_dir()
    return ['-std=c++14', '-w', '-include', 'cstdint', '-include', 'iostream', '-include', 'limits', '-include',
            'algorithm', '-I' + m + '/algorithm', '-I' + m + '/interfaces', '-I' + os.path.join(REPO, 'core'),
            '-I' + m, '-I' + os.path.join(HERE, 'stubs')]


def units():
    m = main_dir()
    us = sorted(glob.glob(m + '/algorithm/**/*.cc', recursive=True)) + \
        sorted(glob.glob(m + '/interfaces/**/*.cc', recursive=True))
    # templates that nothing instantiates; they do not name a complete program
    b = os.path.join(REPO, 'binding/src/main/cpp')
    for f in sorted(glob.glob(b + '/*.cc')):
        if os.path.basename(f) != 'test.cc':     # refers to headers that do not exist
            us.append(f)
    return us


class Program:
    def __init__(self):
        self.functions, self.records, self.globals = {}, {}, {}
        self.units, self.files, self.errors = [], set(), {}

    def rel(self, loc):
        p = REPO.rstrip('/') + '/'
        if not loc:
            return '-'
        return loc[len(p):] if loc.startswith(p) else loc


def extract():
    build_tool()
    hdr = os.path.join(HERE, 'tool', 'tu', 'headers.cc')
    us = units()
    if len(us) < 5:
        raise Broken('only %d source files found under %s' % (len(us), main_dir()))
    tmp = tempfile.mkdtemp(prefix='vgx')
    try:
        def one(a):
            i, u = a
            out = os.path.join(tmp, '%d.json' % i)
            cmd = [TOOL, '-root=' + REPO, '-root=' + hdr, '-skip=' + main_dir() + '/interfaces/json.h', '-o', out, u,
                   '--'] + flags()
            if u == hdr:
                cmd.append('-I' + main_dir() + '/algorithm')
            r = subprocess.run(cmd, capture_output=True, text=True)
            if not os.path.exists(out):
                return u, None, r.stderr
            return u, json.load(open(out)), r.stderr
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate([*us, hdr])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P = Program()
    for u, d, err in res:
        if d is None or d['errors']:
            P.errors[P.rel(u)] = (err or '')[-800:]
            if d is None:
                continue
        P.units.append(P.rel(u) if u != hdr else 'tool/tu/headers.cc')
        P.files.update(P.rel(f) for f in d['files'])
        for k, f in d['functions'].items():
            f['unit'] = u
            o = P.functions.get(k)
            if o is None or ('body' not in o and 'body' in f):
                P.functions[k] = f
        for k, r in d['records'].items():
            P.records.setdefault(k, r)
        for k, g in d['globals'].items():
            if k not in P.globals or ('init' in g and 'init' not in P.globals[k]):
                P.globals[k] = g
    bad = {u: e for u, e in P.errors.items() if not u.startswith('binding/')
           and os.path.basename(u) not in ('vgram_builder.cc',)}
    if bad:
        raise Broken('the sources do not parse: %s' % bad)
    return P
