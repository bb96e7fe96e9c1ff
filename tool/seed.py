"""Makes /verif/seeded/<id>/ from a description and confirms it: python3 tool/seed.py FILE.py [id ...]
FILE.py has SEEDS = [dict(id, property, edits=[(file, old, new)], demo=C++ text, units=[...], needs, breaks)]."""
import importlib.util, json, os, subprocess, sys, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
# exit 0 when the library behaves, nonzero when it does not
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD/core/src/main/cpp"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
g++ -std=c++14 -O1 -w -include cstdint -include iostream -include limits -include algorithm -include numeric -include vector -include string -include memory%(flags)s \\
  -I"$D" -I"$R" -I"$R/algorithm" -I"$R/interfaces" -I"$R/interfaces/tokenizers" -I"$R/interfaces/vgram_builders" -I"$PWD/binding" -I"$PWD/core" \\
  "$D/demo.cc" %(units)s -o "$W/demo" || exit 3
cd "$W" && timeout 120 ./demo
'''
ALG = ['algorithm/int_dict.cc', 'algorithm/int_dict_p.cc', 'algorithm/stat_dict_p.cc', 'algorithm/int_vgram_builder_p.cc', 'algorithm/fast_random.cc']
VB = ['interfaces/vgram_builders/int_stream_vgram.cc', 'interfaces/vgram_builders/int_vgram.cc', 'interfaces/vgram_builders/string_stream_vgram.cc',
      'interfaces/vgram_builders/string_vgram.cc']
TOK = ['interfaces/tokenizers/base_tokenizer.cc', 'interfaces/tokenizers/char_tokenizer.cc', 'interfaces/tokenizers/word_tokenizer.cc']
CODER = ['interfaces/seq_coder.cc']
SETS = {'alg': ALG, 'tok': TOK, 'coder': CODER, 'list': ['algorithm/list_dict.cc', 'algorithm/vgram_builder.cc'], 'all': ALG + VB + TOK + CODER}


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def main():
    sp = importlib.util.spec_from_file_location('s', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    want = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in m.SEEDS:
        if want and not any(w in s['id'] for w in want):
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
        us = []
        for u in s.get('units', ['all']):
            us += SETS.get(u, [u])
        open(d + '/demo.sh', 'w').write(DEMO % {'units': ' '.join('"$R/%s"' % u for u in us), 'flags': ' ' + s['flags'] if s.get('flags') else ''})
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cc', 'w').write(s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        try:
            r = sh('bash %s/demo.sh' % d, cwd=R)
            if r.returncode:
                print(s['id'], 'DEMO FAILS ON UNCHANGED TREE', r.returncode, (r.stdout + r.stderr)[-1500:])
                continue
            for f, o, n in s['edits']:
                p = R + '/' + f
                t = open(p).read()
                assert o in t, (s['id'], f, o)
                open(p, 'w').write(t.replace(o, n, 1))
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                print(s['id'], 'DOES NOT BUILD', b.stdout[-1500:])
                continue
            sh('bash /opt/vp/test.sh /tmp/w/out.json')
            o = json.load(open('/tmp/w/out.json'))
            failed = bad_tests(base, o)
            r = sh('bash %s/demo.sh' % d, cwd=R)
            if failed:
                print(s['id'], 'TESTS NOTICE IT', failed)
            if r.returncode == 0 or r.returncode == 3:
                print(s['id'], 'DEMO DOES NOT NOTICE', r.returncode, (r.stdout + r.stderr)[-800:])
            if failed or r.returncode in (0, 3):
                continue
            c = sh('%s -m vg.check %s' % (sys.executable, s['property']), cwd=HERE, env=dict(os.environ, VG_EVIDENCE='/tmp/w/sev')) \
                if os.path.exists(HERE + '/vg/rules/%s.py' % s['property'].lower()) else None
            print(s['id'], 'OK (demo %d)' % r.returncode, 'check:', None if c is None else
                  [l for l in c.stdout.splitlines() if l.startswith('VIOLATION') or 'broken' in l or 'obligations' in l])
        finally:
            sh('git -C %s checkout -- .' % R)
    sh('bash /opt/vp/build.sh')


def bad_tests(base, o):
    def passed(x):
        if isinstance(x, dict):
            for k in ('passed', 'pass', 'stable'):
                if k in x:
                    return set(map(str, x[k]))
            return {k for k, v in x.items() if v in ('pass', 'passed', True)}
        return set(map(str, x))
    return sorted(passed(base) - passed(o))


if __name__ == '__main__':
    main()
