#!/opt/venv/bin/python
"""decides one property: check.py --property C01 --tier quick|thorough   (or --replay FILE)"""

import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
SCRATCH = os.environ.get('VERIF_SCRATCH', ROOT)  # evidence and replay files go here
KNOWN = os.path.join(ROOT, 'known-findings.json')

BASE_ASSUMPTIONS = [
    'machine floats are treated as mathematical reals with a NaN flag (no rounding, overflow or signed zero); fixed width '
    'integers are treated as mathematical integers',
    'numpy, math and numba are replaced by vcpy models (njit compiles python semantics; prange is range); the models are '
    'trusted, cross-checked by executing every contract concretely against the unmodified code with the real numpy',
    'the mechanical source rewriting of vcpy.loader preserves python semantics; the z3 and cvc5 solvers are sound',
    'axioms for sqrt, sin, cos, acos, asin, atan2 (and pi bounds); prefix sums and order extrema axiomatised as documented '
    'in DESIGN.md',
]


def run(mod, *args, timeout):
    env = dict(os.environ)
    env['PYTHONPATH'] = ROOT
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['OMP_NUM_THREADS'] = '1'
    env['OPENBLAS_NUM_THREADS'] = '1'
    env['NUMBA_NUM_THREADS'] = '1'
    p = subprocess.Popen([PY, '-m', mod] + list(args), env = env, cwd = '/', stdout = subprocess.PIPE,
                         stderr = subprocess.STDOUT, text = True, start_new_session = True)
    try:
        out, _ = p.communicate(timeout = timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
    return p.returncode, out


def concrete(prop, rqs, tmp, tag):
    if not rqs:
        return []
    req, out = os.path.join(tmp, f'{tag}.req'), os.path.join(tmp, f'{tag}.out')
    with open(req, 'w') as fp:
        json.dump(rqs, fp)
    rc, txt = run('vcpy.conc_main', prop, req, out, timeout = 600)
    if not os.path.exists(out):
        print(txt[-3000:])
        return None
    if txt.strip() and os.environ.get('VC_VERBOSE'):
        print(txt[-2000:])
    with open(out) as fp:
        return json.load(fp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', nargs = '*', default = [])
    ap.add_argument('--replay')
    ap.add_argument('-v', action = 'store_true')
    a = ap.parse_args()
    sys.path.insert(0, ROOT)
    if a.replay:
        with open(a.replay) as fp:
            rp = json.load(fp)
        with tempfile.TemporaryDirectory() as tmp:
            r = concrete(rp['property'], [{'name': rp['harness'], 'mode': 'replay', 'values': rp.get('values') or {}}], tmp, 'r')
        print(json.dumps(r, indent = 1))
        sys.exit(1 if r and r[0].get('fail') else 0)
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    with tempfile.TemporaryDirectory() as tmp:
        code = decide(prop, tier, seed, tmp, a, t0)
    sys.exit(code)


def decide(prop, tier, seed, tmp, a, t0):
    quick = tier != 'thorough'
    out = os.path.join(tmp, 'sym')
    rc, txt = run('vcpy.sym_main', prop, out, tier, *a.only, timeout = 800 if quick else 3000)
    if not os.path.exists(out):
        print(txt[-6000:])
        print(f'ERROR: verifier did not complete for {prop} (exit {rc})')
        # the code could not even be loaded: see whether it fails concretely
        return 2
    if txt.strip() and a.v:
        print(txt[-3000:])
    with open(out) as fp:
        sym = json.load(fp)
    sym = {r['name']: r for r in sym}
    env = dict(os.environ)
    # concrete pass: vacuity guard and cross-check of the verifier, longer for harnesses which are not fully proved
    rqs = []
    for n, r in sorted(sym.items()):
        full = not r['failures'] and not r['unsupported'] and not r['unrolled'] and r['obligations']
        if full:
            trials, tm = (150, 6) if quick else (3000, 45)
        elif not r['failures']:
            trials, tm = 20000, (20 if quick else 90)
        else:
            trials, tm = 60, 8
        rqs.append({'name': n, 'mode': 'search', 'trials': trials, 'time': tm, 'seed': seed})
        k = 0
        for f in r['failures']:
            if f['model'] is not None and k < 4:
                k += 1
                rqs.append({'name': n, 'mode': 'replay', 'values': f['model'], 'label': f['label']})
    rqs.sort(key = lambda q: (q['mode'] == 'search', -q.get('time', 0)))
    conc = concrete(prop, rqs, tmp, 'c')
    if conc is not None:
        # failed obligations whose counterexample is missing or did not replay: directed random search on the real code
        rest = [n for n, r in sorted(sym.items()) if r['failures'] and
                not any(c.get('fail') for q, c in zip(rqs, conc) if q['name'] == n)]
        more = [{'name': n, 'mode': 'search', 'trials': 40000, 'time': 45 if quick else 150, 'seed': seed + 7 + k}
                for n in rest for k in (range(2) if len(rest) <= 4 else range(1))]
        conc2 = concrete(prop, more, tmp, 'd')
        if conc2 is not None:
            rqs, conc = rqs + more, conc + conc2
    if conc is None:
        print(f'ERROR: concrete execution did not complete for {prop}')
        return 2
    known = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fp:
            known = [k for k in json.load(fp)['findings'] if k['property'] == prop and k.get('status') == 'known']
    violations, errors, bounded = [], [], []
    for n, r in sorted(sym.items()):
        mine = [(q, c) for q, c in zip(rqs, conc) if q['name'] == n]
        hits = [(q, c) for q, c in mine if c.get('fail')]
        accepted = sum(c['ok'] for q, c in mine)
        r['accepted'] = accepted
        r['rejected'] = sum(c['reject'] for q, c in mine)
        r['mismatch'] = [c.get('detail') for q, c in mine if c.get('mismatch')]
        if hits:
            q, c = hits[0]
            lab = next((f['label'] for f in r['failures']), None)
            violations.append((n, lab or c['fail']['detail'], c['fail'], r))
        elif r['failures']:
            if all(f['label'] in ENGINE for f in r['failures']) and accepted:
                # such an exception is an artefact of the verifier unless the real code raises it too
                r['unsupported'].append(f'{r["failures"][0]["label"]}: {r["failures"][0]["detail"]}; not so on the real code')
                r['failures'] = []
            else:
                violations.append((n, r['failures'][0]['label'], None, r))
        if r['unsupported'] or r['unrolled']:
            bounded.append((n, accepted, r))
        if not hits and not accepted and not r['mismatch']:
            errors.append(f'{n}: no concrete input satisfies the preconditions within the trials (vacuous?) '
                          f'{[{k: v for k, v in c.items() if k != "fail"} for q, c in mine]}')
        if not r['obligations'] and not r['unsupported'] and not hits:
            errors.append(f'{n}: no obligations generated')
    code = 0
    os.makedirs(os.path.join(SCRATCH, 'replays'), exist_ok = True)
    nviol = 0
    for n, lab, hit, r in violations:
        kf = next((k for k in known if k['harness'] == n and k['label'] in (lab, '*')), None)
        if kf:
            print(f'KNOWN-FINDING: property={prop} {kf["what"]}')
            continue
        nviol += 1
        path = os.path.join(SCRATCH, 'replays', f'{prop}-{n}.json')
        f = r['failures'][0] if r['failures'] else None
        with open(path, 'w') as fp:
            json.dump({'property': prop, 'harness': n, 'obligation': lab, 'values': hit['values'] if hit else None,
                       'failing': hit['detail'] if hit else None,
                       'verifier': [{k: g[k] for k in ('label', 'status', 'backend', 'detail', 'model')}
                                    for g in r['failures']],
                       'rerun': f'{ROOT}/check.py --replay {path}'}, fp, indent = 1)
        print(f'obligation failed: {prop}/{n}: {lab}')
        if hit:
            print(f'  on the real code: {hit["detail"]}')
            print(f'VIOLATION property={prop} replay={path}')
        else:
            print(f'  verifier: {f["status"]} ({f["backend"]}): {str(f["detail"])[:400]}')
            print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        code = 1
    for n, acc, r in bounded:
        why = (r['unsupported'] or [f'a loop without invariant was unrolled'])[0]
        print(f'BOUNDED {prop}/{n}: not proved: {why[:300]}; bounded stand-in: {acc} concrete inputs passed')
    write_evidence(prop, tier, seed, sym, conc, rqs, nviol, time.time() - t0)
    nob = sum(len(r['obligations']) for r in sym.values())
    nd = sum(1 for r in sym.values() for o in r['obligations'] if o[1] == 'proved')
    print(f'{prop} {tier}: {len(sym)} contracts, {nd}/{nob} obligations discharged, {nviol} violations, '
          f'{time.time() - t0:.1f} s')
    if a.v:
        for n, r in sorted(sym.items()):
            print(f'  {n}: {r["paths"]} paths ({r["infeasible"]} infeasible), {len(r["obligations"])} obligations, '
                  f'wall {r["wall"]} s, max ob {max([o[3] for o in r["obligations"]] or [0])} s, branch {r["branch_time"]} s, '
                  f'accepted {r["accepted"]} rejected {r["rejected"]} unrolled {r["unrolled"]}')
            for f in r['failures'][:1]:
                print('     FAIL', f['label'], f['status'], str(f['detail'])[:700], 'MODEL', str(f['model'])[:500])
            for u in r['unsupported'][:4]:
                print('     UNSUPPORTED', u[:1500])
            for u in r['mismatch'][:2]:
                print('     MISMATCH', u)
            for u in r['notes'][:5]:
                print('     note', u)
    if code == 0 and errors:
        for e in errors:
            print('ERROR:', e)
        return 2
    return code


ENGINE = [f'no {e} escapes' for e in ('TypeError', 'AttributeError', 'NameError', 'KeyError', 'RecursionError')]


def write_evidence(prop, tier, seed, sym, conc, rqs, nviol, wall):
    from vcpy import harness
    hs = {h.name: h for h in harness.load_contracts(prop)}
    ev_path = os.path.join(SCRATCH, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok = True)
    backends = {}
    for r in sym.values():
        for l, st, be, tm in r['obligations']:
            b = backends.setdefault(be, {'obligations': 0, 'discharged': 0, 'time_s': 0.0})
            b['obligations'] += 1
            b['discharged'] += st == 'proved'
            b['time_s'] = round(b['time_s'] + tm, 3)
    proved = {n for n, r in sym.items() if r['obligations'] and not r['failures'] and not r['unsupported'] and
              not r['unrolled']}
    funcs = sorted({f for n in proved for f in sym[n]['functions']})
    assumptions = list(BASE_ASSUMPTIONS)
    for n, r in sorted(sym.items()):
        for s in hs[n].assumptions:
            if s not in assumptions:
                assumptions.append(s)
        for s in r['notes']:
            if s not in assumptions:
                assumptions.append(s)
    nob = sum(len(r['obligations']) for r in sym.values())
    nd = sum(1 for r in sym.values() for o in r['obligations'] if o[1] == 'proved')
    allproved = len(proved) == len(sym)
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': level_of(prop),
        'coverage': {
                'obligations': nob, 'discharged': nd, 'checker_cmd': f'/verif/check.py --property {prop} --tier {tier}',
                'trusted_base': assumptions,
                'back_ends': backends,
                'branch_queries': sum(r['branch_queries'] for r in sym.values()),
                'branch_query_time_s': round(sum(r['branch_time'] for r in sym.values()), 2),
                'functions_under_contract': funcs,
                'contracts': [{
                    'contract': n, 'statement': hs[n].doc, 'status': 'proved' if n in proved and not hs[n].bounded else
                    'bounded' if not r['failures']
                    else 'failed', 'paths': r['paths'], 'obligations': len(r['obligations']),
                    'loop_invariant_iterations': r['iterations'],
                    'concrete_cross_check_inputs': r.get('accepted', 0),
                    'why_not_proved': ((r['unsupported'] or (['loop unrolled'] if r['unrolled'] else []) + ([hs[n].bounded] if hs[n].bounded else [])) + [None])[0],
                } for n, r in sorted(sym.items())],
        },
        'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': nviol,
    }
    with open(ev_path, 'w') as fp:
        json.dump(ev, fp, indent = 1)


def level_of(prop):
    with open(os.path.join(ROOT, 'MANIFEST.json')) as fp:
        for c in json.load(fp)['checks']:
            if c['property'] == prop:
                return c['level']
    return 'proof'


if __name__ == '__main__':
    main()
