#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--case PATTERN] [-v]

Decides one property on the current tree of /repo: imports the real modules from /repo/src, executes the functions under
contract symbolically, discharges the resulting obligations and cross-checks every contract on concrete runs of the real code.
"""
from __future__ import annotations
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ONV_REPO', '/repo')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(REPO, 'src'), REPO]
warnings.simplefilter('ignore')

REGISTRY = {}
for _m, _ps in {'pkspec': 'C01 C02 C03 C04 C05', 'pkspec2': 'C06 C07 C16 C17 C21', 'hodspec': 'C08 C09 C10', 'addspec': 'C13',
                'hmispec': 'C06 C20', 'valspec': 'C18', 'iaspec': 'C15', 'bnlspec': 'C14', 'updspec': 'C11', 'updspec2': 'C11', 'framespec': 'C12', 'cosmospec': 'C19',
                'ctorspec': 'C02 C03 C04 C05 C07 C10 C13 C15 C16 C17 C20 C21'}.items():
    for _p in _ps.split():
        REGISTRY.setdefault(_p, []).append(_m)

TRUSTED = [
    'CPython executing the real functions on symbolic tensors; the numpy/scipy stand-ins of onv/shim.py (each one is a contract on that external function)',
    'the term normaliser onv/norm.py and the SMT encoding onv/smt.py; z3',
    'floating-point numbers treated as real numbers; no NaN/inf/overflow',
]


def load(prop):
    out = []
    for m in REGISTRY[prop]:
        out += getattr(importlib.import_module('contracts.' + m), 'cases_' + prop)()
    return out


def _summ(prop, i, seed, tier, out):
    from onv import core, smt
    case = load(prop)[i]
    nnum = case.nnum * (1 if tier == 'quick' else 6)
    r = core.run_case(case, seed, nnum)
    d = dict(i=i, name=case.name, functions=list(case.functions), bounded=case.bounded, note=case.note, paths=r.paths, time=r.time,
             obl=[(o[0], o[1], o[2], o[3], str(o[4])[:400]) for o in r.obl], unsupported=r.unsupported,
             num=[(n[0], n[1], n[2] if isinstance(n[2], int) else str(n[2])) for n in r.num], skipped=r.skipped,
             suspect=r.suspect, undecided=r.undecided, utb=getattr(r, 'utb', ''),
             exc=(str(r.exc[2])[-800:] if r.exc else None),
             violations=[(v[0], _js(v[1]), [str(x)[-1500:] for x in v[2]]) for v in r.violations],
             z3=dict(smt.STATS))
    out.put(d)


def _js(k):
    o = {}
    for a, b in k.items():
        if a == 'over' and b:
            b = {n: [[list(i), v] for i, v in m.items()] for n, m in b.items()}
        o[a] = b
    return o


def _unjs(k):
    o = dict(k)
    if o.get('over'):
        o['over'] = {n: {tuple(i): v for i, v in m} for n, m in o['over'].items()}
    return o


def _child(prop, i, seed, tier, conn):
    class Q:
        @staticmethod
        def put(d):
            conn.send(d)
    try:
        _summ(prop, i, seed, tier, Q)
    except BaseException as e:  # noqa
        conn.send(dict(i=i, crash=f'{type(e).__name__}: {e}\n' + traceback.format_exc(limit=-8)))
    conn.close()


def run_all(prop, cases, seed, tier, jobs, limit, enough=lambda res: False):
    """every case in its own forked process, with a time limit"""
    ctx = mp.get_context('fork')
    todo = list(range(len(cases)))
    live = {}
    res = {}
    while todo or live:
        if enough(res):
            # plenty of failing inputs at hand: the remaining units are not needed to reject this tree
            for i, (p, a, t0) in live.items():
                p.kill()
                p.join()
            for i in todo + list(live):
                res[i] = dict(i=i, stopped=True)
            break
        while todo and len(live) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(prop, i, seed, tier, b), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        for i, (p, a, t0) in list(live.items()):
            if a.poll(0.02):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dict(i=i, crash='worker ended without a result')
                p.join()
                del live[i]
            elif not p.is_alive() and not a.poll(0.1):
                res[i] = dict(i=i, crash=f'worker exit code {p.exitcode}')
                del live[i]
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                res[i] = dict(i=i, timeout=limit)
                del live[i]
    return [res[i] for i in range(len(cases))]


def known():
    f = os.path.join(HERE, 'known_findings.json')
    return json.load(open(f)).get('findings', []) if os.path.exists(f) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--case', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import onepower
    src = os.path.dirname(os.path.abspath(onepower.__file__))
    if not src.startswith(os.path.abspath(REPO) + os.sep):
        print(f'onepower imported from {src}, not from {REPO}', file=sys.stderr)
        return 2
    if a.replay:
        return replay(a)
    cases = load(a.prop)
    if a.case:
        cases_idx = [i for i, c in enumerate(cases) if a.case in c.name]
    else:
        cases_idx = None
    kn = [k for k in known() if k['property'] == a.prop and k.get('status') == 'known']

    def listed(name, ob):
        return next((k for k in kn if k['case'] == name and k['obligation'] == ob), None)
    limit = 240 if a.tier == 'quick' else 1500
    if cases_idx is not None:
        rs = []
        for i in cases_idx:
            class Q:
                @staticmethod
                def put(d):
                    rs.append(d)
            _summ(a.prop, i, seed, a.tier, Q)
    else:
        rs = run_all(a.prop, cases, seed, a.tier, a.jobs, limit,
                     lambda res: sum(any(not listed(r['name'], v[2][0]) for v in r['violations']) for r in res.values() if r.get('violations')) >= 6)
    viol, susp, undec, crash, bounded = [], [], [], [], []
    hit = {}
    nobl = nproved = nnum = nruns = nbo = nbp = 0
    backends = {}
    fns = set()
    skipped = []
    z3t = z3q = 0
    percase = []
    for r in rs:
        if r.get('stopped'):
            crash.append((cases[r['i']].name, 'not run: violations already found'))
            continue
        if r.get('crash') or r.get('timeout'):
            crash.append((cases[r['i']].name, r.get('crash') or f"time limit {r['timeout']} s"))
            continue
        fns |= set(r['functions'])
        z3t += r['z3']['time']
        z3q += r['z3']['queries']
        skipped += [f"{r['name']}: {s}" for s in r['skipped']]
        for o in r['obl']:
            if r['bounded']:
                nbo += 1
                nbp += o[2] == 'proved'
                continue
            nobl += 1
            if o[2] == 'proved':
                nproved += 1
                backends[o[3]] = backends.get(o[3], 0) + 1
        nruns += len(r['num'])
        nnum += sum(n[1] for n in r['num'])
        st = 'proved'
        for v in r['violations']:
            k = listed(r['name'], v[2][0])
            if k:
                hit[k['id']] = k
            else:
                viol.append((r['name'], v))
                st = 'violated'
        for s in r['suspect']:
            k = listed(r['name'], s[0])
            if k:
                hit[k['id']] = k
            else:
                susp.append((r['name'], s))
                st = 'violated'
        if st == 'proved':
            if r['bounded'] or r['unsupported']:
                bounded.append((r['name'], ('declared bounded: ' + r['note']) if r['bounded'] else r['unsupported']))
                if r['bounded'] and r['undecided']:
                    undec.append((r['name'], r['undecided']))
                st = 'bounded'
            elif r['undecided']:
                undec.append((r['name'], r['undecided']))
                st = 'undecided'
        percase.append(dict(case=r['name'], outcome=st, paths=r['paths'], obligations=len(r['obl']),
                            discharged=sum(o[2] == 'proved' for o in r['obl']), concrete_runs=len(r['num']), seconds=round(r['time'], 2)))
        if a.v:
            print(percase[-1], r['unsupported'] or '', r['exc'] or '')
            if r['unsupported']:
                print(r['utb'])
            for o in r['obl']:
                if o[2] != 'proved':
                    print('    ', o)
            for v in r['violations'][:3]:
                print('    VIOL', v)
            for v in r['suspect']:
                print('    SUSPECT', v)
    edir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(edir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    out = {}
    for name, v in viol:
        out.setdefault((name, v[2][0]), dict(property=a.prop, case=name, obligation=v[2][0], seed=v[0], args=v[1], message=v[2][1], trace=v[2][2],
                                             failing_input=True, how='check.py %s --replay <this file>' % a.prop))
    for name, s in susp:
        out.setdefault((name, s[0]), dict(property=a.prop, case=name, obligation=s[0], verifier_output=s, failing_input=False))
    for j, (k, d) in enumerate(list(out.items())[:20]):
        f = os.path.join(rdir, f'{a.prop}-{j}.json')
        json.dump(d, open(f, 'w'), indent=1, default=str)
        if d['failing_input']:
            lines.append(f'VIOLATION property={a.prop} replay={f}')
            print(f"# {d['case']}: {d['obligation']}: {d['message']}"[:400])
        else:
            lines.append(f'VIOLATION property={a.prop} replay={f} no-failing-input-found')
            print(f"# {d['case']}: {d['obligation']}: obligation refuted: {d['verifier_output'][3]}"[:400])
    # violations with a replayed input first
    lines.sort(key=lambda l: l.endswith('found'))
    allproved = not viol and not susp and not undec and not bounded and not crash
    total_cases = len(rs)
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='proof' if nobl else 'other',
              coverage=dict(obligations=nobl, discharged=nproved, checker_cmd=f'/opt/venv/bin/python check.py {a.prop} --tier {a.tier}',
                            trusted_base=TRUSTED, functions_under_contract=sorted(fns), back_ends=backends, solver_queries=z3q,
                            solver_seconds=round(z3t, 2), proof_units=total_cases, per_unit=percase,
                            undischarged=[dict(unit=n, obligations=u) for n, u in undec],
                            bounded_units=[dict(unit=n, reason=u) for n, u in bounded],
                            unfinished_units=[dict(unit=n, reason=u) for n, u in crash],
                            bounded_obligations=nbo, bounded_obligations_discharged=nbp, concrete_cross_checks=nnum, concrete_runs=nruns, skipped=skipped,
                            all_obligations_discharged=allproved,
                            explanation='each unit executes the real functions symbolically for arbitrary array lengths and values'),
              assumptions=TRUSTED, wall_s=round(time.time() - t0, 2), violations=len(out))
    if a.case == '':
        json.dump(ev, open(os.path.join(edir, a.prop + '.json'), 'w'), indent=1, default=str)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for n, u in bounded:
        print(f'BOUNDED {n}: {u}')
    for n, u in undec:
        print(f'UNDISCHARGED {n}: {[x[0] for x in u][:6]}')
    for n, u in crash:
        print(f'UNFINISHED {n}: {u[-700:]}')
    for l in lines:
        print(l)
    print(f'{a.prop}: {nproved}/{nobl} obligations discharged in {total_cases} units, {nbp}/{nbo} bounded obligations, {nnum} concrete cross-checks in {nruns} runs, {time.time()-t0:.1f} s')
    if lines:
        return 1
    if crash and len(crash) == len(rs) or nobl + nbo + nnum == 0:
        print('nothing was decided', file=sys.stderr)
        return 2
    return 0


def replay(a):
    from onv import core
    d = json.load(open(a.replay))
    case = next(c for c in load(a.prop) if c.name == d['case'])
    if not d.get('failing_input'):
        print(json.dumps(d, indent=1))
        return 1
    bad, n, E = core.run_numeric(case, d['seed'], **_unjs(d['args']))
    for b in bad:
        print(b[0], b[1])
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
