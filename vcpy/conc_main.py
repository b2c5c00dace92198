"""runs harnesses concretely against the unmodified code: python -m vcpy.conc_main PROP REQUESTS.json OUT.json

each request: {'name': harness, 'mode': 'replay', 'values': {...}} or
              {'name': harness, 'mode': 'search', 'trials': n, 'time': seconds, 'seed': s}
"""

import json
import os
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

from vcpy import harness


class Hang(BaseException):
    pass


def alarm(*a):
    raise Hang()


def work(h, rq, path):
    import logging
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGALRM, alarm)
    t0 = time.time()
    res = {'name': h.name, 'mode': rq['mode'], 'ok': 0, 'reject': 0, 'mismatch': 0, 'fail': None}
    try:
        if rq['mode'] == 'replay':
            signal.alarm(120)
            st, detail, used, checks = harness.run_concrete(h, rq['values'])
            res[st] = 1
            res['fail'] = {'detail': detail, 'values': used} if st == 'fail' else None
            if st == 'mismatch':
                res['detail'] = detail
        else:
            n = 0
            # beyond the time, some more where none was accepted yet (on a busy machine)
            while n < rq['trials'] and (time.time() - t0 < rq['time'] or (not res['ok'] and n < 60 and time.time() - t0 < 150)):
                signal.alarm(120)
                n += 1
                size = (1, 2, 3, 3, 4, 5, 6, 8)[n % 8]
                st, detail, used, checks = harness.run_concrete(h, None, seed = rq['seed'] * 1000003 + n, size = size)
                if st == 'fail':
                    res['fail'] = {'detail': detail, 'values': used}
                    break
                res[st] += 1
                if st == 'mismatch':
                    res['detail'] = detail
                    break
            res['trials'] = n
    except Hang:
        res['hang'] = True
    signal.alarm(0)
    res['wall'] = round(time.time() - t0, 2)
    with open(path, 'w') as fp:
        json.dump(res, fp)


def main():
    prop, req, out = sys.argv[1:4]
    hs = {h.name: h for h in harness.load_contracts(prop)}
    with open(req) as fp:
        rqs = json.load(fp)
    import resqpy.olio.xml_et  # common imports shared by the forked workers
    jobs = list(enumerate(rqs))
    running, results = {}, [None] * len(rqs)
    maxw = int(os.environ.get('VERIF_JOBS', '8'))
    while jobs or running:
        while jobs and len(running) < maxw:
            k, rq = jobs.pop(0)
            path = f'{out}.{k}'
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    work(hs[rq['name']], rq, path)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            running[pid] = (k, path, time.time() + rq.get('time', 120) + 300)
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, (k, path, dl) in running.items():
                if time.time() > dl:
                    os.kill(p, 9)
            time.sleep(0.02)
            continue
        k, path, _ = running.pop(pid)
        if os.path.exists(path):
            with open(path) as fp:
                results[k] = json.load(fp)
            os.unlink(path)
        else:
            results[k] = {'name': rqs[k]['name'], 'mode': rqs[k]['mode'], 'ok': 0, 'reject': 0, 'mismatch': 0, 'fail': None,
                          'died': st}
    with open(out, 'w') as fp:
        json.dump(results, fp)


if __name__ == '__main__':
    main()
