"""Concrete execution of a harness on the untouched package.  Reads one JSON case per line on stdin
(or a replay file as argument) and prints one JSON result per line."""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(1, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True

import warnings  # noqa: E402
warnings.simplefilter('ignore')
import logging  # noqa: E402
logging.disable(logging.CRITICAL)

from symex.core import Infeasible, Violated, Abort  # noqa: E402
from symex import env, sx as SX  # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


STATE = None


def load(prop):
    global STATE
    if STATE is None:
        STATE = env.State()
    mod = importlib.import_module('props.' + prop.lower())
    STATE.snapshot()
    return mod


def run_case(case, mod=None):
    mod = mod or load(case['property'])
    fn, params = mod.get(case['harness'], case['tier'])
    STATE.restore()
    s = SX.ConcreteSX(case['inputs'])
    out = {'status': 'ok'}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(case.get('timeout', 20)))
    try:
        fn(s, **params)
    except Violated as e:
        out = {'status': 'violation', 'label': e.label, 'info': {k: repr(v)[:400] for k, v in e.info.items()}}
    except Infeasible as e:
        out = {'status': 'infeasible', 'label': str(e)}
    except Timeout:
        out = {'status': 'violation', 'label': 'timeout',
               'info': {'what': 'no result within %s s' % case.get('timeout', 20)}}
    except RecursionError as e:
        out = {'status': 'violation', 'label': 'exception:RecursionError', 'info': {}}
    except Abort as e:
        out = {'status': 'error', 'label': repr(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out = {'status': 'violation', 'label': 'exception:' + type(e).__name__,
               'info': {'message': str(e)[:400],
                        'where': ['%s:%d' % (f.filename, f.lineno) for f in tb[-3:]]}}
    finally:
        signal.alarm(0)
        s.cleanup()
    out['observations'] = s.observations
    return out


def main():
    if len(sys.argv) > 1:
        case = json.load(open(sys.argv[1]))
        r = run_case(case)
        r.pop('observations', None)
        print(json.dumps(r, indent=1, ensure_ascii=False))
        sys.exit(1 if r['status'] == 'violation' else 0)
    mods = {}
    for line in sys.stdin:
        case = json.loads(line)
        p = case['property']
        if p not in mods:
            mods[p] = load(p)
        r = run_case(case, mods[p])
        sys.stdout.write(json.dumps(r) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
