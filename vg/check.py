"""python3 -m vg.check C01 [--tier quick|thorough] [-v]"""
import importlib, os, signal, sys, traceback
from . import cx as C


LIMIT = int(os.environ.get('VG_LIMIT', '600'))      # seconds; a check has 900


class Late(BaseException):
    pass


def late(*a):
    raise Late()


def main(argv):
    ids = [a for a in argv if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    P = None
    rc = 0
    for pid in ids:
        try:
            cx = C.Cx(pid, P)
            if len(ids) > 1:
                P = cx.P
            cx.tier = tier
            signal.signal(signal.SIGALRM, late)
            signal.alarm(LIMIT)
            try:
                importlib.import_module('vg.rules.' + pid.lower()).check(cx)
            except Late:
                # what was decided so far counts, the rest is not decided
                cx.ob('time', (None, pid), None, 'the analysis was stopped after %d s' % LIMIT)
            except C.Broken:
                raise
            except Exception as x:
                # code of a shape the rule does not know: what was decided so far counts
                if not cx.obs:
                    raise
                traceback.print_exc()
                cx.ob('time', (None, pid), None, 'the analysis stopped at code it does not understand: %r' % (x,))
            finally:
                signal.alarm(0)
            cx.finish_check()
        except C.Broken as e:
            print('%s: analysis broken: %s' % (pid, e))
            rc = max(rc, 2)
            continue
        except Exception:
            traceback.print_exc()
            print('%s: analysis broken' % pid)
            rc = max(rc, 2)
            continue
        if '-v' in argv or '-vv' in argv:
            for o in cx.obs:
                if o['status'] != 'holds' or '-vv' in argv:
                    print('   %-12s %-34s %s [%s] %s' % (o['status'], o['at'].rsplit('/', 1)[-1], o['fn'], o['rule'], o['what']))
        rc = max(rc, C.report(cx, tier))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
