"""Native runs of units: the uninstrumented code of /repo on CPython.

  native.py replay UNIT < {"inputs": [..]}     run the unit on given inputs
  native.py random SECONDS SEED UNIT...        random inputs

The output is one JSON object on the last line of stdout."""
import json
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
if __name__ == '__main__':
    sys.path[0] = VERIF
    sys.path.insert(0, f'{REPO}/pyee')
    sys.dont_write_bytecode = True
    sys.set_int_max_str_digits(0)

from pv import engine, harness           # noqa: E402
from pv.enc import enc_inputs, dec_inputs  # noqa: E402


def constants(u):
    """literals of the modules a unit is about, as seeds of random inputs"""
    import ast
    words, nums = set(), set()
    for m in sorted({t.split(':')[0] for t in u.targets}):
        p = f'{REPO}/pyee/{m.replace(".", "/")}'
        p = p + '.py' if os.path.exists(p + '.py') else p + '/__init__.py'
        try:
            with open(p) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 24:
                    words.add(v)
                elif isinstance(v, int) and not isinstance(v, bool):
                    nums.add(v)
    return sorted(words), sorted(nums)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_once(u, inputs=None, rng=None, limit=20, seeds=None):
    """-> dict(status, failures, used)"""
    h = harness.NativeH(inputs, rng)
    if seeds is not None:
        h.words, h.nums = seeds
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    st, detail = 'pass', ''
    try:
        u.func(h)
    except harness.Skip:
        st = 'skip'
    except Timeout:
        st = 'timeout'
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if engine.structural(e):
            st = 'mismatch'
            detail = ''.join(traceback.format_exception_only(type(e), e)).strip()
        else:
            h.failures.append(f'no unexpected exception ({type(e).__name__})')
            detail = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if h.skipped:
        st = 'skip'
    elif h.failures:
        st = 'fail'
    return {'status': st, 'failures': h.failures, 'checks': h.checks, 'detail': detail, 'used': enc_inputs(h.used)}


def main():
    import logging
    logging.disable(logging.CRITICAL)
    real = os.dup(1)
    devnull = os.open('/dev/null', os.O_WRONLY)
    os.dup2(devnull, 1)
    mode = sys.argv[1]
    args = sys.argv[2:]
    data = json.load(sys.stdin) if mode == 'replay' else None
    errors = engine.load_units()
    out = {'errors': errors}
    snap = engine.Snapshot()
    if mode == 'replay':
        u = harness.UNITS.get(args[0])
        out['runs'] = []
        if u is not None:
            for inp in data['inputs']:
                out['runs'].append(run_once(u, dec_inputs(inp)))
                snap.restore()
    else:
        secs, seed = float(args[0]), int(args[1])
        out['units'] = {}
        for name in args[2:]:
            u = harness.UNITS.get(name)
            if u is None or u.opts.get('no_native'):
                continue
            r = {'runs': 0, 'skips': 0, 'checks': 0, 'timeouts': 0, 'mismatch': None, 'fail': None, 'distinct': 0,
                 'sample': None}
            seen = set()
            t0 = time.time()
            rng = random.Random(f'{seed}:{name}')
            seeds = constants(u)
            while time.time() - t0 < secs:
                x = run_once(u, None, random.Random(rng.getrandbits(64)), seeds=seeds)
                snap.restore()
                r['runs'] += 1
                r['checks'] += x['checks']
                if x['status'] == 'skip':
                    r['skips'] += 1
                    continue
                if len(seen) < 200000:
                    seen.add(hash(json.dumps(x['used'], sort_keys=True)))
                if r['sample'] is None and x['checks']:
                    r['sample'] = x['used'] if len(json.dumps(x['used'])) < 1500 else None
                if x['status'] == 'timeout':
                    r['timeouts'] += 1
                    if r['timeouts'] > 1:
                        break
                elif x['status'] == 'mismatch':
                    r['mismatch'] = x['detail']
                    break
                elif x['status'] == 'fail':
                    # an input counts only if it fails again from a clean start
                    y = run_once(u, dec_inputs(x['used']))
                    snap.restore()
                    if y['status'] == 'fail':
                        r['fail'] = {'inputs': x['used'], 'failures': y['failures'], 'detail': y['detail']}
                        break
                if len(seen) >= 1 and not x['used'] and r['runs'] > 3:
                    break
            r['distinct'] = len(seen)
            out['units'][name] = r
    os.write(real, (json.dumps(out) + '\n').encode())
    sys.stdout = open(os.devnull, 'w')


if __name__ == '__main__':
    main()
