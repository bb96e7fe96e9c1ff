"""Runs the checks on edited copies of /repo: bugs they must report and rewrites they must accept.
python3 selftest/run.py [-p C01] [-n name] [-c] (-c: also compile the edited file)"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
A = 'core/src/main/cpp/algorithm/'
IF = 'core/src/main/cpp/interfaces/'


def load():
    vs = []
    for f in sorted(glob.glob(HERE + '/v_*.py')):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        vs += m.V
    return vs


def one(v):
    """v: (name, expect, checks, [(file, old, new), ...]); expect: 'ok' | list of properties that must alarm"""
    name, expect, checks, edits = v
    d = tempfile.mkdtemp(prefix='vgself')
    try:
        for s in ('core', 'binding'):
            shutil.copytree('/repo/' + s, d + '/' + s, ignore=shutil.ignore_patterns('build*', '.git', 'cmake-build*'))
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if old is None:
                t = new
            elif old not in t:
                return name, 'EDIT DOES NOT APPLY: ' + f + ': ' + old[:60], ''
            else:
                t = t.replace(old, new, 1)
            open(p, 'w').write(t)
        if '-c' in sys.argv:
            for f in sorted({e[0] for e in edits}):
                if f.endswith('.cc'):
                    r = subprocess.run(['g++', '-std=c++14', '-w', '-fsyntax-only', '-include', 'cstdint', '-include', 'iostream', '-include', 'limits',
                                        '-include', 'algorithm', '-I' + d + '/' + A, '-I' + d + '/' + IF, '-I' + d + '/core/src/main/cpp', '-I/verif/stubs',
                                        d + '/' + f], capture_output=True, text=True)
                    if r.returncode:
                        return name, 'DOES NOT COMPILE', r.stderr[:600]
        ev = os.path.join(d, 'ev')
        r = subprocess.run([sys.executable, '-m', 'vg.check', '-v'] + checks, cwd=os.path.dirname(HERE),
                           env=dict(os.environ, VG_REPO=d, VG_EVIDENCE=ev), capture_output=True, text=True)
        got = [l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        brk = [l for l in r.stdout.splitlines() if 'analysis broken' in l]
        if brk:
            return name, 'BROKEN', r.stdout[-1500:] + r.stderr[-1500:]
        if expect == 'ok':
            ok = not got
        else:
            ok = all(p in got for p in expect)
        return name, 'fine' if ok else ('FALSE ALARM %s' % got if expect == 'ok' else 'MISSED (got %s)' % got), '' if ok and '-v' not in sys.argv else r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    vs = load()
    a = sys.argv
    if '-n' in a:
        vs = [v for v in vs if a[a.index('-n') + 1] in v[0]]
    if '-p' in a:
        p = a[a.index('-p') + 1]
        vs = [(n, e, [p], d) for n, e, c, d in vs if e == 'ok' and '-bugs' not in a or p in e]
    if '-all' in a:
        mods = sorted(f[:-3].upper() for f in os.listdir(os.path.dirname(HERE) + '/vg/rules') if f.startswith('c') and f.endswith('.py'))
        vs = [(n, e, mods, d) for n, e, c, d in vs if e == 'ok' or '-ok' not in a]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for n, r, o in ex.map(one, vs):
            if r != 'fine' or '-v' in a:
                print('%-40s %s' % (n, r))
                if o:
                    print('    ' + '\n    '.join(l for l in o.strip().splitlines()[-25:]))
                bad += r != 'fine'
    print('%d variants, %d not as expected' % (len(vs), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
