"""Facets, violations, serialisation of generated cases and replay."""

import base64
from datetime import date, datetime, time
import hashlib
import json
import math


class Violation(AssertionError):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """Something is wrong with the check itself, not with the code under test."""


def need(cond, msg, *args):
    """Assert the property: raise a Violation with a message unless cond."""
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


QUICK_FACTOR = 2  # the numbers of the facets were chosen for half the time a quick check may take


class Facet:
    """One executable statement over generated cases.

    strategy : Hypothesis strategy producing plain Python data
    test     : callable(case) raising on violation
    classify : callable(case) -> iterable of class labels; a case is
               non-trivial iff 'nt' is among them
    quick / thorough : number of generated cases in the tiers
    patience : seconds after which a case counts as hanging (one normally takes milliseconds)
    """

    def __init__(self, name, strategy, test, classify, quick, thorough, rule, patience=60):
        self.name = name
        self.strategy = strategy
        self.test = test
        self.classify = classify
        self.quick = int(quick * QUICK_FACTOR)
        self.patience = patience
        self.thorough = thorough
        self.rule = rule


# ---- plain-data JSON encoding with tags -----------------------------------

def enc(o):
    if o is None or isinstance(o, bool | str):
        return o
    if isinstance(o, int):
        return int(o)
    if isinstance(o, float):
        if math.isfinite(o):
            return float(o)
        return {'~f': repr(float(o))}
    if isinstance(o, bytes | bytearray):
        return {'~b': base64.b64encode(bytes(o)).decode()}
    if isinstance(o, datetime):
        return {'~dt': o.isoformat()}
    if isinstance(o, date):
        return {'~d': o.isoformat()}
    if isinstance(o, time):
        return {'~tm': o.isoformat()}
    if isinstance(o, tuple):
        return {'~t': [enc(x) for x in o]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, set | frozenset):
        return {'~s': sorted((enc(x) for x in o), key=lambda x: json.dumps(x, sort_keys=True))}
    if isinstance(o, dict):
        return {'~m': [[enc(k), enc(v)] for k, v in o.items()]}
    raise HarnessError(f'cannot serialise {type(o)}')


def dec(o):
    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        (k, v), = o.items()
        if k == '~f':
            return float(v)
        if k == '~b':
            return base64.b64decode(v)
        if k == '~dt':
            return datetime.fromisoformat(v)
        if k == '~d':
            return date.fromisoformat(v)
        if k == '~tm':
            return time.fromisoformat(v)
        if k == '~t':
            return tuple(dec(x) for x in v)
        if k == '~s':
            return set(dec(x) for x in v)
        if k == '~m':
            return {dec(a): dec(b) for a, b in v}
    return o


def digest(case):
    return hashlib.sha1(json.dumps(enc(case), sort_keys=True).encode()).hexdigest()[:16]


def short(case, n=700):
    s = repr(case)
    return s if len(s) <= n else s[:n] + f'... ({len(s)} chars)'
