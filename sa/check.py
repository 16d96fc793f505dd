"""python3 /verif/sa/check.py <PROPERTY> [--thorough]"""
import importlib
import os
import pkgutil
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)

from sa import core, pit                # noqa
from sa.project import AnalysisError    # noqa
import sa.rules                         # noqa


class Late(BaseException):
    """The time of a check has run out."""


def late(signum, frame):
    raise Late()


def table():
    out = {}
    for m in pkgutil.iter_modules(sa.rules.__path__):
        mod = importlib.import_module('sa.rules.' + m.name)
        for k, v in getattr(mod, 'CHECKS', {}).items():
            out[k] = v
    return out


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    checks = table()
    if prop not in checks:
        print('ERROR: no check for', prop)
        return 2
    signal.signal(signal.SIGALRM, late)
    signal.alarm(3000 if tier == 'thorough' else 700)
    if tier == 'thorough':
        pit.DEEP = 5
    try:
        c = core.Check(prop, tier)
        try:
            checks[prop](c)
            signal.alarm(0)
        except Late:
            c.undecided('analysis', 'rest of the rules', '',
                        'the time of the check ran out')
        except AnalysisError as e:
            if not any(o[2] == 'ok' for o in c.obl):
                raise
            c.undecided('analysis', 'rest of the rules', '', str(e))
        except Exception as e:
            # a construct the rules do not foresee: no verdict on the rest
            c.undecided('analysis', 'rest of the rules', '',
                        traceback.format_exc()[-190:])
        signal.alarm(0)
        return c.finish(int(os.environ.get('VERIF_SEED', '1') or 1))
    except AnalysisError as e:
        print('ERROR: analysis broken: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
