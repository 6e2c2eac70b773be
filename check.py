#!/usr/bin/env python3
"""Checks one property:  python3-vt check.py --property C01 [--tier quick|thorough]

Every unit (contract) that the property depends on is explored by the
verification condition generator on the source in /repo as it is now; failed
obligations are replayed on the uninstrumented code; the same units also run
natively on random inputs (cross-check of the semantics of the generator and
search for failing inputs where an obligation is not discharged)."""
import argparse
import fnmatch
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from pv import engine, frame, harness    # noqa: E402
from pv.enc import enc_inputs            # noqa: E402

NATIVE_PY = '/opt/venv/bin/python'
NATIVE = os.path.join(VERIF, 'pv', 'native.py')
JOBS = int(os.environ.get('PV_JOBS', '8'))

TRUSTED = [
    'pv/ (instrumentation, path enumeration, models of the Python builtins used by the code)',
    'z3 (every obligation that is not closed by its simplifier)',
    'CPython 3.12 semantics of the operations on concrete values',
    'C extensions msgpack, coincurve, hashlib: modelled as the functions they document',
    'the peer process: answers requests in order (the IPC connection is a FIFO byte stream)',
]


def run_unit(name, tier, out):
    """in a forked child"""
    u = harness.UNITS[name]
    budget = u.opts.get('budget', 150.0)
    dumps = []
    dump = None
    if tier == 'thorough':
        budget *= 4
        ddir = out + '.smt'
        os.makedirs(ddir)

        def dump(ob, text):
            if len(dumps) < 300:
                p = os.path.join(ddir, f'{len(dumps)}.smt2')
                with open(p, 'w') as f:
                    f.write(text)
                dumps.append((ob, p))
    r = engine.explore(u, budget_s=budget, max_paths=u.opts.get('max_paths', 20000), dump=dump)
    failed = []
    for f in r.failed:
        m = f['model']
        ok = isinstance(m, dict) and '__error__' not in m
        failed.append({'name': f['name'], 'status': f['status'], 'inputs': enc_inputs(m) if ok else None,
                       'imprecise': f['imprecise'], 'detail': f['detail'], 'trace': f['trace']})
    cv = {'checked': 0, 'agreed': 0, 'unknown': 0, 'disagreed': []}
    t0 = time.time()
    for ob, p in dumps:
        if time.time() - t0 > 120:
            break
        try:
            x = subprocess.run(['cvc5', '--tlimit=4000', p], capture_output=True, text=True, timeout=10).stdout.strip()
        except subprocess.TimeoutExpired:
            x = 'unknown'
        cv['checked'] += 1
        if x == 'unsat':
            cv['agreed'] += 1
        elif x == 'sat':
            cv['disagreed'].append(ob)
        else:
            cv['unknown'] += 1
    if tier == 'thorough':
        for ob, p in dumps:
            os.unlink(p)
        os.rmdir(ddir)
    d = dict(name=name, obligations=r.obligations, failed=failed, paths=r.paths, unsupported=r.unsupported,
             bounded=sorted(r.bounded), imprecise=sorted(r.imprecise), assumptions=sorted(r.assumptions),
             covered=sorted(r.covered), contract_uses=r.contract_uses, solver_s=r.solver_s, queries=r.queries,
             proved_by=r.proved_by, wall=r.wall, exhausted=r.exhausted, discharged=r.discharged, total=r.total,
             cvc5=cv)
    with open(out + '.tmp', 'w') as f:
        json.dump(d, f)
    os.rename(out + '.tmp', out)


def pool(jobs, limit):
    """jobs: list of (key, callable run in a forked child); JOBS at a time"""
    todo = list(jobs)
    live = {}
    end = time.time() + limit
    while todo or live:
        while todo and len(live) < JOBS:
            key, fn = todo.pop(0)
            pid = os.fork()
            if pid == 0:
                st = 1
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    fn()
                    st = 0
                except BaseException:
                    try:
                        traceback.print_exc(limit=6)
                    except BaseException:
                        pass
                finally:
                    os._exit(st)
            live[pid] = key
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in live:
            del live[pid]
        elif pid == 0:
            if time.time() > end:
                for p in live:
                    try:
                        os.kill(p, 9)
                    except OSError:
                        pass
                for p in list(live):
                    os.waitpid(p, 0)
                return
            time.sleep(0.01)


def native(args, inp=None, timeout=120):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([NATIVE_PY, NATIVE] + args, input=inp, capture_output=True, text=True, timeout=timeout,
                           env=env)
        return json.loads(p.stdout.strip().split('\n')[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError):
        return None


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('status', 'open') == 'open']


def contract_units(names):
    """units that prove the contracts which the given units rely on"""
    provers = {}
    for u in harness.UNITS.values():
        for t in u.opts.get('proves', ()):
            provers.setdefault(t, []).append(u.name)
    return provers


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    engine.setup_symbolic()
    errors = engine.load_units()
    provers = contract_units(None)
    results, natives = {}, {}
    tmp = tempfile.mkdtemp(prefix=f'pv_{prop}_')
    try:
        wave = [u.name for u in harness.UNITS.values() if prop in u.props]
        done = set()
        while wave:
            done |= set(wave)
            # the longest first
            wave.sort(key=lambda n: -harness.UNITS[n].opts.get('cost', 1))
            pool([(n, (lambda n=n: run_unit(n, tier, os.path.join(tmp, n)))) for n in wave],
                 600 if tier == 'quick' else 6000)
            nxt = set()
            for n in wave:
                p = os.path.join(tmp, n)
                if os.path.exists(p):
                    results[n] = json.load(open(p))
                    for c in results[n]['contract_uses']:
                        nxt |= set(provers.get(c, ()))
            wave = sorted(nxt - done)
        names = sorted(done)
        # native random runs
        secs = 1.5 if tier == 'quick' else 30
        groups = [names[i::JOBS] for i in range(JOBS)]

        def nat(i):
            r = native(['random', str(secs), str(seed)] + groups[i], timeout=60 + len(groups[i]) * (secs + 45))
            with open(os.path.join(tmp, f'nat{i}'), 'w') as f:
                json.dump(r, f)
        pool([(i, (lambda i=i: nat(i))) for i in range(JOBS) if groups[i]], 200 if tier == 'quick' else 3000)
        for i in range(JOBS):
            p = os.path.join(tmp, f'nat{i}')
            if os.path.exists(p):
                r = json.load(open(p))
                if r:
                    natives.update(r['units'])
        # where the proof does not reach, search longer
        more = [n for n in names if n not in results or results[n]['unsupported'] or not results[n]['exhausted']
                or results[n]['bounded'] or any(f['status'] != 'failed' for f in results[n]['failed'])]
        more = [n for n in more if not (natives.get(n) or {}).get('fail')]

        def deep(n):
            r = native(['random', '12' if tier == 'quick' else '120', str(seed + 1), n], timeout=200)
            with open(os.path.join(tmp, 'more.' + n), 'w') as f:
                json.dump(r, f)
        pool([(n, (lambda n=n: deep(n))) for n in more], 120 if tier == 'quick' else 2000)
        for n in more:
            p = os.path.join(tmp, 'more.' + n)
            r = json.load(open(p)) if os.path.exists(p) else None
            if r and r['units'].get(n):
                x = r['units'][n]
                if n not in natives or x.get('fail'):
                    natives[n] = x
                else:
                    natives[n]['runs'] += x['runs']
                    natives[n]['checks'] += x['checks']
        rc = report(prop, tier, seed, t0, names, results, natives, errors)
    finally:
        for r, ds, fs in os.walk(tmp, topdown=False):
            for f in fs:
                os.unlink(os.path.join(r, f))
            os.rmdir(r)
    sys.exit(rc)


def report(prop, tier, seed, t0, names, results, natives, errors):
    violations, known, notes, undischarged = [], [], [], []
    findings = [k for k in known_findings() if k['property'] == prop]
    units = []
    tot = dis = bnd = 0
    solver_s = 0.0
    queries = 0
    by = {}
    functions, assumptions = set(), set()
    bounded = {}
    for n in names:
        u = harness.UNITS[n]
        r = results.get(n)
        nat = natives.get(n)
        hits = []        # (obligation, inputs or None, reproduced, text)
        if nat and nat.get('fail'):
            f = nat['fail']
            for ob in dict.fromkeys(f['failures']):
                hits.append((ob, f['inputs'], True, f['detail']))
        if nat and nat.get('mismatch'):
            notes.append(f'{n}: native run does not fit the code: {nat["mismatch"]}')
        if r is None:
            notes.append(f'{n}: exploration ended without a result')
            undischarged.append(f'{n}: no result')
        else:
            for f in r['failed']:
                if f['status'] != 'failed':
                    undischarged.append(f'{n}: {f["name"]} ({f["status"]})')
            sat = [f for f in r['failed'] if f['status'] == 'failed']
            withm = [f for f in sat if f['inputs'] is not None]
            reps = []
            if withm:
                x = native(['replay', n], json.dumps({'inputs': [f['inputs'] for f in withm]}),
                           timeout=30 + 25 * len(withm))
                reps = x['runs'] if x else []
            repro = set()
            for f, x in zip(withm, reps):
                if x['status'] == 'fail':
                    for ob in dict.fromkeys(x['failures']):
                        repro.add(ob)
                        hits.append((ob, f['inputs'], True, x['detail']))
            if sat and not any(h[2] for h in hits):
                # search harder for a failing input
                x = native(['random', '20', str(seed + 1), n], timeout=90)
                x = x and x['units'].get(n)
                if x and x.get('fail'):
                    for ob in dict.fromkeys(x['fail']['failures']):
                        hits.append((ob, x['fail']['inputs'], True, x['fail']['detail']))
                else:
                    mm = [x for x in reps if x['status'] == 'mismatch']
                    for f in sat:
                        if f['imprecise'] or mm:
                            undischarged.append(f'{n}: {f["name"]} (over-approximated: {f["imprecise"][:2]})')
                        else:
                            hits.append((f['name'], f['inputs'], False, f['detail']))
            for w, k in r['unsupported'].items():
                undischarged.append(f'{n}: {k} path(s) outside the modelled subset: {w}')
            if not r['exhausted']:
                undischarged.append(f'{n}: not all paths explored within the budget')
            solver_s += r['solver_s']
            queries += r['queries']
            for k, v in r['proved_by'].items():
                by[k] = by.get(k, 0) + v
            assumptions |= set(r['assumptions'])
            if r['total'] == 0:
                undischarged.append(f'{n}: no obligation was generated')
            isb = bool(r['bounded']) or not r['exhausted'] or u.opts.get('bounded')
            why = [x for x in (frame.check(os.path.join(engine.REPO, "pyee"), f) for f in u.opts.get('frame', '').split()) if x]
            if u.opts.get('frame') and not why:
                assumptions.add(f'{n}: any length and depth by the frame rule (pv/frame.py) on '
                                + ', '.join(u.opts['frame'].split()))
            if isb or why:
                bnd += r['discharged']
                bounded[n] = r['bounded'] or ['frame rule: ' + x for x in why] or [u.opts.get('bounded') or 'path budget']
            else:
                tot += r['total']
                dis += r['discharged']
        functions |= set(u.targets)
        # one report per unit: reproduced first, by obligation
        hits.sort(key=lambda h: not h[2])
        new = []
        for hh in hits:
            k = next((k for k in findings if k['unit'] == n and fnmatch.fnmatch(hh[0], k['obligation'])), None)
            if k is not None:
                if k['what'] not in known:
                    known.append(k['what'])
            else:
                new.append(hh)
        if new:
            violations.append((n, new))
        units.append({
            'unit': n, 'functions_under_contract': u.targets,
            'status': 'failed' if new else ('none' if r is None else
                      ('bounded' if n in bounded else
                       ('proved' if r['total'] and r['discharged'] == r['total'] and not r['unsupported']
                        else 'undischarged'))),
            'obligations': 0 if r is None else r['total'], 'discharged': 0 if r is None else r['discharged'],
            'paths': 0 if r is None else r['paths'], 'solver_s': 0 if r is None else round(r['solver_s'], 2),
            'wall_s': 0 if r is None else round(r['wall'], 2),
            'contracts_used': {} if r is None else r['contract_uses'],
            'bounds': bounded.get(n, []),
            'unsupported': {} if r is None else r['unsupported'],
            'cvc5': None if r is None or tier == 'quick' else r['cvc5'],
            'native_runs': (natives.get(n) or {}).get('runs', 0),
            'native_checks': (natives.get(n) or {}).get('checks', 0),
        })
    rc = 0
    for w in known:
        print(f'KNOWN-FINDING: property={prop} {w}')
    for n, hs in violations:
        rc = 1
        rdir = os.environ.get('PV_REPLAYS') or os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{n}.json')
        ob, inputs, reproduced, detail = hs[0]
        with open(path, 'w') as f:
            json.dump({
                'property': prop, 'unit': n, 'functions': harness.UNITS[n].targets,
                'failed_obligation': ob, 'reproduced_on_the_real_code': reproduced, 'inputs': inputs,
                'output': detail,
                'others': [{'obligation': h[0], 'inputs': h[1], 'reproduced': h[2]} for h in hs[1:12]],
                'replay_with': f"{NATIVE_PY} -c \"import json;print(json.dumps({{'inputs':[json.load(open('{path}'))"
                               f"['inputs']]}}))\" | {NATIVE_PY} {NATIVE} replay {n}",
            }, f, indent=1)
        print(f'{n}: obligation "{ob}" fails' + (f' on {json.dumps(inputs)[:600]}' if reproduced else ''))
        print(f'VIOLATION property={prop} replay={path}' + ('' if reproduced else ' no-failing-input-found'))
    level = 'proof'
    try:
        man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        level = next(c['level'] for c in man['checks'] if c['property'] == prop)
    except (OSError, StopIteration, ValueError):
        pass
    nat_runs = sum((x or {}).get('runs', 0) for x in natives.values())
    samples = [{'unit': n, 'inputs': x['sample']} for n, x in sorted(natives.items()) if x and x.get('sample')][:4]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': tot, 'discharged': dis,
            'checker_cmd': f'python3-vt check.py --property {prop} --tier {tier}',
            'trusted_base': TRUSTED,
            'bounded_obligations_discharged': bnd,
            'bounded_units': bounded,
            'functions_under_contract': sorted(functions),
            'units': units,
            'discharged_by': by, 'solver_s': round(solver_s, 2), 'solver_queries': queries,
            'undischarged': undischarged[:60],
            'harness_errors': errors,
            'notes': notes[:40],
            'native_cross_check_runs': nat_runs,
            'evaluations': nat_runs,
            'distinct_nontrivial': sum((x or {}).get('distinct', 0) for x in natives.values()),
            'rule': 'native cross-check: each unit is run on random inputs on the uninstrumented code; distinct input '
                    'vectors whose assumptions hold are counted',
            'samples': samples or ['none'],
            'explanation': 'see DESIGN.md; obligations = verification conditions generated from the current source '
                           'on unbounded units; bounded units are counted apart',
        },
        'assumptions': sorted(assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    edir = os.environ.get('PV_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {len(names)} units, {dis}/{tot} obligations discharged, {bnd} bounded, '
          f'{len(undischarged)} undischarged, {nat_runs} native runs, {time.time() - t0:.1f} s')
    for x in undischarged[:8]:
        print('  undischarged:', x[:200])
    for m, e in errors.items():
        print('  harness module not loaded:', m, e[:200])
    return rc


if __name__ == '__main__':
    main()
