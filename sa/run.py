"""Command line: decide one property from the current source of the package.

    python3 sa/run.py C03 [--tier quick|thorough] [--repo /repo]

Every obligation is a pair of functions in sa/spec: a scenario driving the package's public entry points with symbolic inputs,
and the value the property demands. Neither is executed; both are turned into gated value graphs from the source and compared.

exit 0  every decided obligation holds      exit 1  VIOLATION lines were printed      exit 2  an anchor is gone / internal error
"""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.setrecursionlimit(30000)

from sa import scenario, terms as T  # noqa: E402
from sa.project import AnchorMissing, Project  # noqa: E402

TRUSTED = ('the analyser in /verif/sa (parser: CPython ast), its models of builtins/numpy/pandas/datetime/copy in sa/models.py, '
           'exact-rational reading of float arithmetic, user-supplied equations treated as uninterpreted functions of their '
           'arguments, names inside one iterated collection taken as distinct')
RULE = ('value graph of the code reached from the scenario must equal, under every outcome of its branch gates, the value graph '
        'of the stated expectation; exceptions compared by the condition under which each class is raised')


class Timeout(Exception):
    pass


def spec_modules():
    out = {}
    for f in sorted(os.listdir(os.path.join(HERE, 'spec'))):
        if f.endswith('.py'):
            out['spec.' + f[:-3]] = os.path.join(HERE, 'spec', f)
    return out


def load(repo):
    mods = spec_modules()
    p = Project(repo, extra=mods)
    return p, [(m, c) for m in mods for c in scenario.collect(p, m)]


def all_functions(p):
    for m in p.modules.values():
        for b in m.bind.values():
            if b[0] == 'func':
                yield b[1]
            elif b[0] == 'cls':
                yield from b[1].methods.values()


def decide(job):
    repo, module, name, cross, limit, secs = job
    sys.setrecursionlimit(30000)

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(secs)
    t0 = time.time()
    try:
        scenario.CROSS[0] = cross
        p, cases = load(repo)
        c = next(c for m, c in cases if m == module and c.name == name)
        o = scenario.run_case(p, c, limit)
        r = o.row()
        table = {f.qual: f.where() for f in all_functions(p)}
        r['where'] = sorted(table.get(k, k) for k in o.visited if k.startswith('gerabaldi'))
        r['prop'] = c.opts.get('prop')
        r['unmodelled'] = list(o.unknown)
        return r
    except AnchorMissing as e:
        return {'scenario': f'{module}.{name}', 'status': 'anchor', 'detail': str(e), 'functions': [], 'where': [],
                'statements': 0, 'call_sites': 0, 'wall_s': 0}
    except Timeout:
        return {'scenario': f'{module}.{name}', 'status': 'undecided', 'detail': f'no decision within {secs} s', 'functions': [],
                'where': [], 'statements': 0, 'call_sites': 0, 'wall_s': time.time() - t0}
    except Exception as e:
        return {'scenario': f'{module}.{name}', 'status': 'undecided', 'functions': [], 'where': [], 'statements': 0,
                'detail': f'analyser stopped: {type(e).__name__}: {e} ' + traceback.format_exc()[-600:], 'call_sites': 0, 'wall_s': 0}
    finally:
        signal.alarm(0)


def run_jobs(jobs, workers):
    if len(jobs) == 1 or workers == 1:
        return [decide(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(workers, len(jobs)), maxtasksperchild=1) as pool:
        return pool.map(decide, jobs, chunksize=1)


def known():
    f = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k.get('status') == 'open']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--repo', default=os.environ.get('SA_REPO', '/repo'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--cross', type=int, default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    thorough = a.tier == 'thorough'
    cross = a.cross if a.cross is not None else (60 if thorough else 0)
    try:
        p, cases = load(a.repo)
    except (AnchorMissing, SyntaxError) as e:
        print(f'ANCHOR-MISSING {e}')
        return 2
    if a.property and a.property != 'all':
        cases = [(m, c) for m, c in cases if a.property in c.opts['prop'].split()]
    if a.only:
        cases = [(m, c) for m, c in cases if a.only in c.name or a.only in m]
    if not cases:
        print('no obligation selected')
        return 2
    limit, secs = (3000000, 700) if thorough else (800000, 240)
    rows = run_jobs([(a.repo, m, c.name, cross, limit, secs) for m, c in cases], a.jobs)
    rc = 0
    listing = not a.property or a.property == 'all'
    for r in rows:
        if listing or a.v:
            print(f'{r["status"]:10} {r["scenario"]} {r["wall_s"]:.2f}s statements={r["statements"]}')
            if r['status'] != 'proved' or a.v:
                print('      ' + r['detail'])
    if listing:
        return int(any(r['status'] != 'proved' for r in rows))
    return report(a, rows, t0)


def report(a, rows, t0):
    prop = a.property
    open_ = [k for k in known() if k['property'] == prop]
    bad = [r for r in rows if r['status'] in ('violation', 'crossfail')]
    violations, rc = [], 0
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    for r in bad:
        k = next((k for k in open_ if k['scenario'] == r['scenario'] and k['signature'] in r['detail']), None)
        if k:
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
            continue
        path = os.path.join(ROOT, 'replay', f'{prop}-{r["scenario"]}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'rule': RULE, 'scenario': r['scenario'], 'difference': r['detail'],
                       'code_analysed': r['where'],
                       'rerun': f'python3 {HERE}/run.py {prop} --only {r["scenario"].split(".")[-1]} -v'}, f, indent=1)
        violations.append({'scenario': r['scenario'], 'replay': path, 'difference': r['detail'][:800]})
        print(f'VIOLATION property={prop} replay={path}')
        print(f'      obligation {r["scenario"]}; package code analysed: {", ".join(r["where"][:12])}')
        print('      ' + r['detail'])
        rc = 1
    und = [r for r in rows if r['status'] == 'undecided']
    for r in und:
        print(f'UNDECIDED property={prop} obligation={r["scenario"]}: the analysis reached no answer, nothing is claimed for it '
              f'({r["detail"][:160]!r})')
    anchors = [r for r in rows if r['status'] == 'anchor']
    for r in anchors:
        print(f'ANCHOR-MISSING property={prop} obligation={r["scenario"]}: {r["detail"]}')
    if anchors and not rc and not any(r['status'] == 'proved' for r in rows):
        rc = 2
    funcs = sorted({f for r in rows for f in r['functions']})
    proved = sum(r['status'] == 'proved' for r in rows)
    print(f'{prop}: {proved}/{len(rows)} obligations discharged, {len(funcs)} package functions and '
          f'{sum(r["statements"] for r in rows)} statement visits analysed in {time.time() - t0:.1f} s')
    if not a.no_evidence:
        ev = {'property': prop, 'tier': 'thorough' if a.tier == 'thorough' else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proof',
              'coverage': {'obligations': len(rows), 'discharged': proved, 'undecided': [r['scenario'] for r in und],
                           'checker_cmd': f'python3 sa/run.py {prop} --tier {a.tier}', 'trusted_base': TRUSTED, 'rule': RULE,
                           'violating': violations, 'functions_analysed': funcs, 'statement_visits': sum(r['statements'] for r in rows),
                           'call_sites': sum(r['call_sites'] for r in rows),
                           'per_obligation': [{k: r[k] for k in ('scenario', 'status', 'statements', 'call_sites', 'wall_s')}
                                              for r in rows]},
              'assumptions': [TRUSTED], 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    return rc


if __name__ == '__main__':
    sys.exit(main())
