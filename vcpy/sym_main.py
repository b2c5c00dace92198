"""runs the harnesses of a property symbolically: python -m vcpy.sym_main PROP OUT.json TIER [names...]"""

import importlib
import json
import os
import re
import resource
import sys
import time
import traceback

from vcpy import core, loader, harness, prover  # before resqpy

loader.install()


def work(h, tier, path):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(2, 'vcpy')

    def start(code, off):
        f = code.co_filename
        if f.startswith(loader.REPO) and not code.co_name.startswith('<'):
            seen.add((os.path.relpath(f, loader.REPO), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(2, mon.events.PY_START, start)
    mon.set_events(2, mon.events.PY_START)
    opts = dict(h.opts)
    thorough = opts.pop('thorough', {})
    opts.setdefault('budget_s', 200.0)
    if tier == 'thorough':
        opts['budget_s'] = max(opts['budget_s'], 500.0)
        opts['timeout_ms'] = 60000
        opts.update(thorough)
    res = {'name': h.name}

    def explore(invariants):
        ex = prover.Explorer(h.name, harness.SymC(), **opts)
        ex.use_invariants = invariants
        if not invariants:
            ex.max_unroll = 3
            ex.deadline = time.time() + 60
        try:
            ex.run(h.fn)
        except BaseException as e:
            ex.unsupported.append(f'verifier error {e!r}: ' + ''.join(traceback.format_tb(e.__traceback__)[-4:]))
        return ex

    ex = explore(True)
    if ex.failures and (ex.completed_iterations or any(o.label.startswith('loop ') for o in ex.failures)):
        # the loop invariants may not suit the code: a failure without them (loops unrolled) is a failure of the property
        first = ex
        ex = explore(False)
        why = f'loop invariant no longer suits the code: {first.failures[0].label}: {str(first.failures[0].detail)[:300]}'
        ex.unsupported.insert(0, why)
        if not ex.obligations:
            ex.obligations = first.obligations
    mon.set_events(2, 0)
    res.update(paths = ex.paths, infeasible = ex.infeasible, restarts = ex.restarts, unrolled = ex.unrolled,
               unsupported = ex.unsupported, notes = ex.notes, iterations = ex.completed_iterations,
               branch_time = round(ex.branch_time, 2), branch_queries = ex.branch_queries,
               obligations = [[o.label, o.status, o.backend, round(o.time, 3)] for o in ex.obligations],
               failures = [{'label': o.label, 'status': o.status, 'backend': o.backend, 'detail': o.detail,
                            'model': o.model} for o in ex.failures],
               functions = sorted(f'{f}:{q}' for f, q in seen), wall = round(time.time() - t0, 2))
    with open(path, 'w') as fp:
        json.dump(res, fp)


def preload(prop):
    """imports the modules of the code which the contracts name, once for all the worker processes"""
    d = os.path.join(harness.ROOT, 'contracts')
    for f in os.listdir(d):
        if f.startswith(prop + '_') and f.endswith('.py'):
            with open(os.path.join(d, f)) as fp:
                for m in sorted(set(re.findall(r"'(resqpy(?:\.\w+)*)", fp.read()))):
                    while m:
                        try:
                            importlib.import_module(m)
                            break
                        except Exception:
                            m = m.rpartition('.')[0]


def main():
    prop, out, tier = sys.argv[1:4]
    names = sys.argv[4:]
    hs = harness.load_contracts(prop)
    hs = [h for h in hs if (not names or h.name in names) and (tier == 'thorough' or not h.thorough_only)]
    preload(prop)
    jobs = list(hs)
    jobs.sort(key = lambda h: -h.opts.get('budget_s', 200.0))
    running = {}
    done = []
    maxw = int(os.environ.get('VERIF_JOBS', '8'))
    while jobs or running:
        while jobs and len(running) < maxw:
            h = jobs.pop(0)
            path = f'{out}.{h.name}'
            pid = os.fork()
            if pid == 0:
                try:
                    work(h, tier, path)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            b = h.opts.get('budget_s', 200.0)
            running[pid] = (h, path, time.time() + (max(b, 500) if tier == 'thorough' else b) * 1.2 + 40)
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, (h, path, dl) in running.items():
                if time.time() > dl:
                    os.kill(p, 9)
            time.sleep(0.05)
            continue
        h, path, dl = running.pop(pid)
        if os.path.exists(path):
            with open(path) as fp:
                done.append(json.load(fp))
            os.unlink(path)
        else:
            done.append({'name': h.name, 'paths': 0, 'infeasible': 0, 'restarts': 0, 'unrolled': 0,
                         'unsupported': [f'verification process ended with status {st}'], 'notes': [], 'iterations': 0,
                         'branch_time': 0, 'branch_queries': 0, 'obligations': [], 'failures': [], 'functions': [],
                         'wall': 0})
    with open(out, 'w') as fp:
        json.dump(done, fp)


if __name__ == '__main__':
    main()
