#!/usr/bin/env python3
"""Run the check of one property: check.py PROPERTY [quick|thorough] | check.py --replay FILE.

Exit 0: held on everything explored; 1: VIOLATION line printed; 3: harness error.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VF_PYTHON', '/opt/venv/bin/python')
WORKER = os.path.join(HERE, 'vflib', 'worker.py')
NPROC = int(os.environ.get('VF_JOBS', '8'))


def env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PROJ_NETWORK='OFF', TZ='UTC',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH='', LC_ALL='C.UTF-8')
    return e


def facets_of(check):
    code = (
        'import sys; sys.path.insert(0, %r)\n'
        'from vflib import boot\nimport importlib, json\n'
        'm = importlib.import_module("checks." + %r)\n'
        'print("FACETS" + json.dumps([[f.name, f.quick, f.thorough, f.rule] for f in m.FACETS]))\n'
    ) % (HERE, check.lower())
    p = subprocess.run([PY, '-c', code], env=env(), cwd=HERE, capture_output=True, text=True)
    for line in p.stdout.splitlines():
        if line.startswith('FACETS'):
            return json.loads(line[6:])
    sys.stderr.write(p.stdout + p.stderr)
    print(f'ERROR property={check}: the check could not be loaded')
    sys.exit(3)


def known_findings(check):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                rec = json.loads(line)
                if rec.get('property') == check and rec.get('status') == 'open':
                    out.append(rec)
    return out


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        sys.exit(subprocess.call([PY, WORKER, 'replay', sys.argv[2]], env=env(), cwd=HERE))
    check = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scale = float(os.environ.get('VF_SCALE', '1'))
    t0 = time.time()
    facets = facets_of(check)
    work = tempfile.mkdtemp(prefix=f'vf-{check}-')
    try:
        jobs = []
        for name, quick, thorough, _rule in facets:
            total = quick if tier == 'quick' else thorough
            per = 60 if tier == 'quick' else 250
            nsh = max(1, min(NPROC, total // per))
            for sh in range(nsh):
                jobs.append((name, sh, nsh, os.path.join(work, f'{name}.{sh}.json')))
        running, results, errors = [], {}, []
        limit = 800 if tier == 'quick' else 6 * 3600
        pending = list(jobs)
        stop = False
        while pending or running:
            while pending and len(running) < NPROC and not stop:
                name, sh, nsh, out = pending.pop(0)
                scratch = os.path.join(work, f'scratch-{name}-{sh}')
                os.mkdir(scratch)
                e = env()
                e['VF_SCRATCH'] = scratch
                log = open(out + '.log', 'w')
                p = subprocess.Popen(
                    [PY, WORKER, 'run', check, name, str(sh), str(nsh), tier, str(seed), out],
                    env=e, cwd=HERE, stdout=log, stderr=subprocess.STDOUT)
                running.append((p, name, sh, out))
            if stop:
                pending = []
            time.sleep(0.03)
            still = []
            for p, name, sh, out in running:
                rc = p.poll()
                if rc is None:
                    if time.time() - t0 > limit:
                        p.kill()
                        errors.append(f'{name}.{sh}: time limit')
                    else:
                        still.append((p, name, sh, out))
                    continue
                if rc != 0 or not os.path.exists(out):
                    tail = open(out + '.log').read()[-3000:]
                    errors.append(f'{name}.{sh}: worker exit {rc}\n{tail}')
                else:
                    r = json.load(open(out))
                    results.setdefault(name, []).append((sh, r))
                    if r['failure']:
                        stop = True
            running = still
        failures = []
        cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'facets': {}}
        rules = []
        for name, quick, thorough, rule in facets:
            ev, nts, labels = 0, set(), {}
            for sh, r in sorted(results.get(name, []), key=lambda x: x[0]):
                ev += r['evaluations']
                nts.update(r['nt'])
                for k, v in r['labels'].items():
                    labels[k] = labels.get(k, 0) + v
                if r['samples'] and sum(1 for s in cov['samples'] if s.startswith(name)) < 2:
                    cov['samples'].append(f'{name}: {r["samples"][0]}')
                if r['failure']:
                    failures.append((name, r['failure']))
            cov['evaluations'] += ev
            cov['distinct_nontrivial'] += len(nts)
            cov['facets'][name] = {'evaluations': ev, 'distinct_nontrivial': len(nts),
                                   'classes': dict(sorted(labels.items()))}
            rules.append(f'{name}: {rule}')
        cov['rule'] = ' | '.join(rules)
        # known findings: re-run their exact recorded cases
        known = known_findings(check)
        for k in known:
            rp = os.path.join(work, 'known.json')
            with open(rp, 'w') as f:
                json.dump({'property': check, 'facet': k['facet'], 'case': k['case']}, f)
            e = env()
            e['VF_SCRATCH'] = work
            p = subprocess.run([PY, WORKER, 'replay', rp], env=e, cwd=HERE,
                               capture_output=True, text=True)
            if p.returncode == 1:
                print(f'KNOWN-FINDING: property={check} {k["what"]}')
            elif p.returncode == 0:
                print(f'note: listed finding no longer occurs: {k["what"]}')
            else:
                errors.append('known finding replay failed: ' + p.stdout[-800:] + p.stderr[-800:])
        ev = {
            'property': check, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(failures),
            'assumptions': [
                'cases are generated by Hypothesis inside the domains described in DESIGN.md',
                'oracles are the independent reference models in /verif/vflib and the check module',
            ],
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{check}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if failures:
            name, fl = failures[0]
            rdir = os.path.join(HERE, 'evidence', 'replays')
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f'{check}-{name}.json')
            with open(rp, 'w') as f:
                json.dump({'property': check, 'facet': name, 'message': fl['message'],
                           'case': fl['case']}, f, indent=1)
            print(f'{check}/{name}: {fl["message"]}')
            print(f'VIOLATION property={check} replay={rp}')
            sys.exit(1)
        if errors:
            for x in errors[:1]:
                print(f'HARNESS ERROR ({len(errors)} in all)', x[:80] + ' ... ' + x[-1000:])
            sys.exit(3)
        print(f'OK property={check} tier={tier} seed={seed} cases={cov["evaluations"]} '
              f'nontrivial={cov["distinct_nontrivial"]} wall={ev["wall_s"]}s')
        sys.exit(0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
