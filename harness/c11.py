"""C11: running coupling and masses."""
import os
import random
import rundec
import tlc
from lib import pmap, results, close
from wilsonlib import tla
from wilson.util import qcd

Q = ['alpha_s', 'm_b', 'm_c', 'm_s']
# initial values, by quantity
INIT = {'i1': dict(alpha_s=0.1185, m_b=4.2, m_c=1.27, m_s=0.095),
        'i2': dict(alpha_s=0.1130, m_b=4.8, m_c=1.3, m_s=0.080),
        'i3': dict(alpha_s=0.1250, m_b=3.9, m_c=1.1, m_s=0.110)}
SCALES = ['1.3', '4.8', '170', '91.1876', '2', '1.2', '4.2', '1.27', '5', '10', '80.4', '1000', '160', '3', '0', '-1', '-91.1876']
BAD = ['0', '-1', '-91.1876']
RTOL = 1e-6


def cfg(q, fl, sc, bad, init, loops, memo):
    fl = '{' + ', '.join(str(f) for f in fl) + '}'
    return (f'CONSTANTS\n Quantities = {tla(set(q))}\n Flavours = {fl}\n Scales = {tla(set(sc))}\n BadScales = {tla(set(bad))}\n'
            f' Inits = {tla(set(init))}\n Loops = {{{", ".join(map(str, loops))}}}\n MaxMemo = {memo}\n')


class Oracle:
    """Evaluates a plan with elementary RunDec operations."""
    def __init__(self, plans):
        self.plans = plans            # alpha_s plans: nf -> steps without the last scale
        self.memo = {}

    def couple(self, nf, mu, amz, loop):
        """alpha_s at mu with nf flavours."""
        k = (nf, mu, amz, loop)
        if k not in self.memo:
            self.memo[k] = self.run('alpha_s', self.plans[nf][:-1] + [dict(op='run', nf=nf, to=mu)], amz, amz, loop)
        return self.memo[k]

    def run(self, q, steps, init, amz, loop):
        crd = rundec.CRunDec()
        if q == 'alpha_s':
            a, mu, m = init, 91.1876, None
        else:
            a, m = None, init
            mu = 2.0 if q == 'm_s' else init
        for s in steps:
            if s['op'] == 'couple':
                at = init if s['at'] == 'self' else float(s['at'])
                a = self.couple(s['nf'], at, amz, loop)
                mu = at
            elif s['op'] == 'run':
                to = float(s['to'])
                a2 = crd.AlphasExact(a, mu, to, s['nf'], loop) if to != mu else a
                if m is not None:
                    m = crd.mMS2mMS(m, a, a2, s['nf'], loop)
                a, mu = a2, to
            else:
                t = float(s['at'])
                up = s['dir'] == 'up'
                if m is not None:
                    m = (crd.DecMqUpOS if up else crd.DecMqDownOS)(m, a, t, t, s['nf'], loop)
                a = (crd.DecAsUpOS if up else crd.DecAsDownOS)(a, t, t, s['nf'], loop)
        return a if m is None else m


def call(r, rnd, plain=False):
    f = getattr(qcd, r['q'])
    nf = r['f'] if isinstance(r['f'], int) else float(r['f'])
    if r['scale'].startswith('i'):
        scale = INIT[r['scale']][r['q']]
    else:
        scale = float(r['scale'])
        if scale == int(scale) and rnd.random() < .5:
            scale = int(scale)
    init, amz = INIT[r['init']][r['q']], INIT[r['amz']]['alpha_s']
    if r['q'] == 'alpha_s':
        init = amz
    loop = r['loop']
    names = dict(alphasMZ=amz, loop=loop)
    if amz == 0.1185 and rnd.random() < .4:
        del names['alphasMZ']
    if loop == 3 and rnd.random() < .4:
        del names['loop']
    pos = [scale, nf]
    if r['q'] != 'alpha_s':
        pos = [init] + pos
    if len(names) == 2 and rnd.random() < .3:
        return f(*pos, amz, loop), init, amz
    return f(*pos, **names), init, amz


def quiet():
    # RunDec prints warnings
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)


def replay(args):
    quiet()
    beh, plans, seed = args
    rnd = random.Random(seed)
    oracle = Oracle(plans)
    bad = []
    for n, h in enumerate(beh):
        r, a = h['r'], h['a']
        init, amz = INIT[r['init']][r['q']], INIT[r['amz']]['alpha_s']
        if r['q'] == 'alpha_s':
            init = amz
        info = dict(r=r, at=n)
        try:
            x, _, _ = call(r, rnd)
            err = None
        except Exception as e:
            err = e
        if a['kind'] == 'ValueError':
            if not isinstance(err, ValueError):
                bad.append(('qcd: no ValueError', dict(info, got=repr(err) if err else x)))
            continue
        if err is not None:
            bad.append(('qcd: exception', dict(info, err=repr(err))))
            continue
        if a['kind'] == 'input':
            if x != init:
                bad.append(('qcd: starting value', dict(info, want=init, got=x)))
            continue
        steps = [dict(s, to=str(INIT[s['to']][r['q']])) if s.get('to', '').startswith('i') else s for s in a['steps']]
        want = oracle.run(r['q'], steps, init, amz, r['loop'])
        if not close(x, want, RTOL):
            bad.append(('qcd: value', dict(info, want=want, got=x)))
    return bad


def arbitrary(args):
    quiet()
    steps, plans, seed, n = args
    rnd = random.Random(seed)
    oracle = Oracle(plans)
    bad = []
    for i in range(n):
        (q, f), st = rnd.choice(sorted(steps.items(), key=str))
        s = 1.2 * 10 ** (rnd.random() * 3.5)
        if rnd.random() < .3:
            s = rnd.choice([1.2, 1.299999, 1.300001, 1.4, 2.0, 1.999999, 4.79999, 4.80001, 4.19, 4.21, 91.19, 91.18, 169.9, 170.1, 173.])
        amz = rnd.choice([0.1185, 0.118, 0.11 + 0.015 * rnd.random()])
        init = {'alpha_s': amz, 'm_b': 4.0 + rnd.random(), 'm_c': 1.15 + .25 * rnd.random(), 'm_s': .08 + .04 * rnd.random()}[q]
        loop = rnd.choice([1, 2, 3, 3, 4])
        want = oracle.run(q, st[:-1] + [dict(op='run', nf=f, to=s)], init, amz, loop)
        args = (s, f) if q == 'alpha_s' else (init, s, f)
        try:
            got = getattr(qcd, q)(*args, alphasMZ=amz, loop=loop)
        except Exception as e:
            bad.append(('qcd: exception', dict(q=q, args=args, amz=amz, loop=loop, err=repr(e))))
            continue
        # RunDec's integrator is inexact (some 1e-5) over very short intervals
        near = any(abs(s / t - 1) < 1e-2 for t in (1.3, 4.8, 170, 91.1876, 2, init))
        if not close(got, want, 2e-4 if near else RTOL):
            bad.append(('qcd: value', dict(q=q, args=args, amz=amz, loop=loop, want=want, got=got)))
    return bad


def fix(beh):
    """alpha_s has no initial value but alpha_s(MZ)."""
    out = []
    for h in beh:
        r = h['r']
        if r['q'] in ('m_c', 'm_s') and r['f'] == 6:
            continue             # not provided by the library
        out.append(h)
    return out


def run(c):
    r = tlc.run('QcdPlan', 'SPECIFICATION Spec\nINVARIANT HistoryFree\n'
                + cfg(['alpha_s', 'm_s'], [2, 3, 5], ['91.1876', '2', '0'], ['0'], ['i1', 'i2'], [3], 2), workers=8)
    c.model(r, 'small')
    # the plans of alpha_s
    depth, n = 40, c.n(160, 3000)
    sc = SCALES
    r = tlc.run('QcdPlanGen', 'SPECIFICATION GSpec\nINVARIANTS Emit HistoryFree\n'
                + cfg(Q, [2, 3, 4, 5, 6, 7], sc, BAD, list(INIT), [1, 2, 3, 4], 32) + f' Depth = {depth}\n',
                workers=1, simulate=n, depth=depth + 3, seed=c.seed * 23 + 1, timeout=800)
    c.model(r)
    behs = tlc.printed(r.out, 'BEH')
    plans = {}
    for b in behs:
        for h in b:
            if h['r']['q'] == 'alpha_s' and h['a']['kind'] == 'plan':
                plans[h['r']['f']] = h['a']['steps']
            # alpha_s does not take an initial value apart from alpha_s(MZ)
    behs = [fix(b) for b in behs]
    res = results(c, 'qcd', pmap(replay, [(b, plans, c.seed * 1000 + i) for i, b in enumerate(behs)]))
    c.trace(len(behs))
    c.count('calls', sum(map(len, behs)))
    c.sample(behs[0][:6])
    for x in res:
        for k, d in x or []:
            c.violation(k, d)
    # arbitrary scales, between and beyond the tokens, in one long history
    steps = {}
    for b in behs:
        for h in b:
            if h['a']['kind'] == 'plan':
                steps[h['r']['q'], h['r']['f']] = h['a']['steps']
    c.cov['plans'] = len(steps)
    k = c.n(16, 64)
    per = c.n(2400, 48000) // k
    for x in results(c, 'qcd', pmap(arbitrary, [(steps, plans, c.seed * 77 + i, per) for i in range(k)])):
        for key, d in x or []:
            c.violation(key, d)
    c.count('calls', k * per)
    # flavour numbers and scales that are refused
    for q in Q:
        pre = () if q == 'alpha_s' else (INIT['i1'][q],)
        for s, f in [(0, 5), (-1, 3), (-91.1876, 5), (0.0, 4), (-1e-9, 6), (10, 2), (10, 7), (10, 0), (10, -1), (10, 1), (91.1876, 7),
                     (91.1876, 2), (4.2, 2), (2, 2), (10, 3.5), (10, 4.5), (10, 5.5), (10, 2.999), (10, 6.001)]:
            try:
                x = getattr(qcd, q)(*pre, s, f)
                c.violation('qcd: no ValueError', dict(q=q, scale=s, f=f, got=x))
            except ValueError:
                pass
            except Exception as e:
                c.violation('qcd: no ValueError', dict(q=q, scale=s, f=f, got=repr(e)))
