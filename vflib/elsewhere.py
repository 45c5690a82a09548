"""The same calls made in other processes: started once per environment, asked over pipes.

usage (by Elsewhere only): elsewhere.py CHECK
"""

import json
import os
import subprocess
import sys

# In the zone of 'daylight saving', 2 January (the date of most cases) does not exist and the night of 29 June happens twice.
# name: (environment, options of the interpreter)
PLACES = {
    'half-hour zone': ({'PYTHONHASHSEED': '1', 'TZ': 'XXX-5:30', 'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, ['-O']),
    'daylight saving': ({'PYTHONHASHSEED': '31337', 'TZ': 'XXX12YYY-12,J2/0,J180/0', 'LC_ALL': 'POSIX'}, ['-OO']),
    'far east': ({'PYTHONHASHSEED': '777', 'TZ': 'YYY-14', 'LC_ALL': 'C.UTF-8'}, ['-X', 'dev']),
}


def canon(x):
    """Text that is equal for equal results (order of mappings and sequences included)."""
    import numpy as np

    if isinstance(x, dict):
        return '{' + ', '.join(f'{canon(k)}: {canon(v)}' for k, v in x.items()) + '}'
    if isinstance(x, list | tuple):
        return '[' + ', '.join(map(canon, x)) + ']'
    if isinstance(x, set | frozenset):
        return 'set' + canon(sorted(map(canon, x)))
    if isinstance(x, np.ndarray):
        return canon(x.tolist()) if x.dtype.kind != 'M' else canon(x.astype('M8[ns]').astype(str).tolist())
    if isinstance(x, np.generic):
        return canon(x.item())
    if x is None or isinstance(x, bool | int | float | complex | str | bytes) or type(x).__module__ == 'datetime':
        return repr(x)
    return f'{type(x).__name__} {x}' if type(x).__str__ is not object.__str__ else type(x).__name__


class Elsewhere:
    """The answers function of a check, run in every place of PLACES."""

    def __init__(self, check):
        self.check = check
        self.procs = {}

    def start(self, place):
        env, options = PLACES[place]
        scratch = os.path.join(os.environ.get('VF_SCRATCH', '/tmp'), 'elsewhere ' + place)
        os.makedirs(scratch, exist_ok=True)
        e = {**os.environ, **env, 'VF_TZ': env['TZ'], 'VF_SCRATCH': '.' if place == 'daylight saving' else scratch}
        p = subprocess.Popen([sys.executable, '-B', *options, os.path.abspath(__file__), self.check], env=e, cwd=scratch,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding='ascii')
        self.procs[place] = p
        return p

    def ask(self, place, facet, case):
        from vflib.core import HarnessError, enc

        for attempt in (1, 2):
            p = self.procs.get(place)
            if p is None or p.poll() is not None:
                p = self.start(place)
            try:
                p.stdin.write(json.dumps([facet, enc(case)]) + '\n')
                p.stdin.flush()
                line = p.stdout.readline()
            except BaseException:
                p.kill()
                p.wait()
                del self.procs[place]
                if attempt == 2:
                    raise
                if not isinstance(sys.exception(), OSError):
                    raise
                continue
            if line:
                return json.loads(line)
            p.kill()
            p.wait()
        raise HarnessError(f'the process elsewhere ({place}) ended without an answer')


def answers(check, facet, case):
    """[(what, canonical text of the answer)]; a failure is an answer."""
    import importlib

    from vflib.core import HarnessError

    fn = importlib.import_module(f'checks.{check.lower()}').ANSWERS[facet]
    out = []
    try:
        for what, x in fn(case):
            out.append([what, canon(x)])
    except (HarnessError, MemoryError):
        raise
    except Exception as e:
        out.append(['failure', f'{type(e).__name__}: {e}'])
    return out


def serve(check):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = os.fdopen(os.dup(1), 'w', encoding='ascii')
    os.dup2(2, 1)
    from vflib import boot  # noqa: F401
    from vflib.core import dec

    import time

    time.tzset()
    for line in sys.stdin:
        facet, case = json.loads(line)
        out.write(json.dumps(answers(check, facet, dec(case))) + '\n')
        out.flush()


if __name__ == '__main__':
    serve(sys.argv[1])
