"""Common parts of all checks: verdict collection, evidence, numerics."""
import json
import os
import sys
import time
import traceback
import numbers

import numpy as np

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
EVID = os.path.join(VERIF, 'evidence')


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []      # (key, detail)
        self.known_hits = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            self.known = [k for k in json.load(f)['findings'] if k['property'] == pid]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- recording -----------------------------------------------------------
    def model(self, r, what=None):
        """Account for a TLC run; a violated design property is a machinery
        error (the specification itself is inconsistent)."""
        if r.violated:
            raise RuntimeError(f'specification violates {r.violated}:\n' + r.out[-3000:])
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.states
        if what:
            self.cov.setdefault('models', {})[what] = dict(states=r.distinct, transitions=r.states)

    def trace(self, n=1):
        self.cov['traces_validated_against_impl'] += n

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, x, limit=4):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(jsonable(x))

    def violation(self, key, detail):
        """key: stable identification of what failed (for known findings)."""
        for k in self.known:
            if k['key'] == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                return
        if len(self.violations) < 200:
            self.violations.append((key, jsonable(detail)))

    # -- end -------------------------------------------------------------------
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            if k['key'] in self.known_hits:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            p = os.path.join(EVID, self.pid + '.replay.json')
            with open(p, 'w') as f:
                json.dump([dict(what=k, detail=d) for k, d in self.violations], f, indent=1)
            for k, d in self.violations[:5]:
                print('  ', k, '::', json.dumps(d)[:600])
            print(f'VIOLATION property={self.pid} replay={p}')
            return 1
        c = self.cov
        print(f"OK property={self.pid} tier={self.tier} states={c['states']} transitions={c['transitions']} "
              f"traces={c['traces_validated_against_impl']} wall={ev['wall_s']}s")
        return 0


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Real):
        return float(x)
    if isinstance(x, numbers.Complex):
        return [complex(x).real, complex(x).imag]
    return repr(x)


class Violation(Exception):
    """Raised by a replay when the code's result contradicts the specification."""


# exceptions of the harness itself that mean: what the code returned does not
# have the form the specification prescribes (a name or an entry missing, a
# value of another type); others (memory, operating system, TLC) are errors of
# the machinery
FORM = (Violation, AssertionError, KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError)


def from_wilson(exc):
    """Was the exception raised inside wilson's own code, or by a replay that
    met a result which contradicts the specification?"""
    if isinstance(exc, FORM):
        return True
    tb = exc.__traceback__
    hit = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if 'wilson_overlay_' in fn or fn.startswith('/repo/'):
            hit = True
        tb = tb.tb_next
    return hit


# -- numerics ------------------------------------------------------------------

def dict_diff(a, b, rtol=1e-8, atol=0.0, missing_zero=True):
    """Largest violation between two coefficient dictionaries; None if they
    agree.  Tolerance: atol + rtol * max(|a_k|,|b_k|) + rtol*1e-3*max|.|"""
    keys = set(a) | set(b)
    if not keys:
        return None
    big = max([abs(v) for v in a.values()] + [abs(v) for v in b.values()] + [0.0])
    worst = None
    for k in keys:
        if not missing_zero and ((k in a) != (k in b)):
            return k, a.get(k), b.get(k)
        x, y = a.get(k, 0), b.get(k, 0)
        try:
            d = abs(x - y)
        except TypeError:
            return k, x, y
        tol = atol + rtol * max(abs(x), abs(y)) + rtol * 1e-3 * big
        if not d <= tol:
            if worst is None or d > worst[0]:
                worst = (d, k, x, y)
    return None if worst is None else worst[1:]


def close(x, y, rtol=1e-9, atol=0.0):
    try:
        x, y = complex(x), complex(y)
    except (TypeError, ValueError):
        return False
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


# -- parallel ------------------------------------------------------------------

def _call(args):
    f, x = args
    try:
        return ('ok', f(x))
    except Exception as e:   # reported by the parent
        return ('err', (from_wilson(e), ''.join(traceback.format_exception(e))[-3000:]))


def pmap(f, xs, procs=None, fresh=False):
    """Fork-based parallel map (wilson must have been booted before); with
    `fresh` every element is handled in a process of its own."""
    import multiprocessing as mp
    xs = list(xs)
    procs = min(procs or 8, len(xs) or 1, os.cpu_count() or 1)
    if procs <= 1 and not fresh:
        return [_call((f, x)) for x in xs]
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=1 if fresh else None) as pool:
        return pool.map(_call, [(f, x) for x in xs], chunksize=1)


class WilsonCrash(Exception):
    """wilson's code raised where the specification expects a result."""


def results(check, key, res):
    """Unpack pmap results; a crash inside wilson is a violation."""
    out = []
    for kind, v in res:
        if kind == 'ok':
            out.append(v)
        elif v[0]:
            check.violation(key + '/crash', v[1])
            out.append(None)
        else:
            raise RuntimeError('harness error in worker:\n' + v[1])
    return out
