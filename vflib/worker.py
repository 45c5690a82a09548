"""One shard of one facet, or one replay, in its own process.

usage: worker.py run CHECK FACET SHARD NSHARDS TIER SEED OUT
       worker.py replay FILE
Exit code 0: ran to the end (result in OUT); anything else: harness error.
"""

import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vflib import boot  # noqa: E402,F401
from vflib import core  # noqa: E402

import importlib  # noqa: E402


def load(check):
    return importlib.import_module(f'checks.{check.lower()}')


class Hang(core.Violation):
    """The code under test did not come back."""


def _alarm(signum, frame):
    raise Hang('no result after the time given to a case, many times what one takes')


def run_case(facet, case):
    """Run one case; returns None or (kind, message)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(facet.patience)
    try:
        facet.test(case)
    finally:
        signal.alarm(0)


def describe(exc):
    if isinstance(exc, core.Violation):
        return str(exc) or 'property violated'
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(boot.SRC):
            where = f' at {os.path.relpath(fr.filename, boot.SRC)}:{fr.lineno} in {fr.name}'
            break
    else:
        fr = tb[-1]
        where = f' at {fr.filename}:{fr.lineno}'
    return f'unexpected {type(exc).__name__}: {exc}{where}'


def shard_seed(seed, check, facet, shard):
    import hashlib

    h = hashlib.sha256(f'{seed}/{check}/{facet}/{shard}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def run(check, fname, shard, nshards, tier, seed, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 30
    mod = load(check)
    facet = {f.name: f for f in mod.FACETS}[fname]
    total = facet.quick if tier == 'quick' else facet.thorough
    n = total // nshards + (1 if shard < total % nshards else 0)
    res = {
        'evaluations': 0, 'nt': [], 'labels': {}, 'samples': [], 'failure': None,
    }
    nt = set()
    state = {'last': None, 'failed': None}

    class Reporter(Exception):
        pass

    def body(case):
        res['evaluations'] += 1
        if state['failed'] is None:
            labels = set(facet.classify(case))
            for lb in labels:
                res['labels'][lb] = res['labels'].get(lb, 0) + 1
            if 'nt' in labels:
                d = core.digest(case)
                if d not in nt:
                    nt.add(d)
                    if len(res['samples']) < 2 and len(nt) in (3, 12, 30):
                        res['samples'].append(core.short(case))
        try:
            run_case(facet, case)
        except (core.HarnessError, MemoryError, KeyboardInterrupt):
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as exc:
            state['failed'] = (case, describe(exc))
            raise

    if n > 0:
        test = given(facet.strategy)(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
        )(test)
        test = hypothesis.seed(shard_seed(seed, check, fname, shard))(test)
        try:
            test()
        except (core.HarnessError, MemoryError):
            raise
        except BaseException as exc:
            if state['failed'] is None:
                raise
            case, msg = state['failed']
            note = ''
            if type(exc).__name__ in ('Flaky', 'FlakyFailure', 'FlakyReplay'):
                note = ' (depends on earlier cases in the same process)'
            res['failure'] = {'case': core.enc(case), 'message': msg + note}
    res['nt'] = sorted(nt)
    with open(out, 'w') as f:
        json.dump(res, f)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec['property'])
    facet = {f.name: f for f in mod.FACETS}[rec['facet']]
    case = core.dec(rec['case'])
    print('replaying', rec['property'], rec['facet'])
    print(core.short(case, 4000))
    try:
        run_case(facet, case)
    except core.HarnessError:
        raise
    except Exception as exc:
        print('FAILS:', describe(exc))
        traceback.print_exc()
        return 1
    print('passes')
    return 0


if __name__ == '__main__':
    if sys.argv[1] == 'run':
        _, _, check, fname, shard, nshards, tier, seed, out = sys.argv
        t0 = time.time()
        run(check, fname, int(shard), int(nshards), tier, int(seed), out)
        sys.exit(0)
    sys.exit(replay(sys.argv[2]))
