"""C09: dispatch of translate and match."""
import copy
import random
import numpy as np
import tlc
from lib import pmap, results
from wilsonlib import tla
from wilson import wcxf

EFTS, BASES = ['DE1', 'DE2'], ['Da', 'Db', 'Dc']
PARS = ['None', 'empty', 'p1', 'p2']
SECS = ['None', 's0', 's1', 's2']
PV = {'None': None, 'empty': {}, 'p1': {'a': 1.5}, 'p2': {'a': -1, 'b': [2]}}
SV = {'None': None, 's0': (), 's1': ('x',), 's2': ['x', 'y']}


def random_dict(r, zeros=True):
    nums = [1.0, -2.5e-9, 1e-300, 3, 1j, 1e-9 - 2e-9j, 2 + 0j, np.float64(0.25), np.complex128(1 + 1e-20j), -0.5j]
    if zeros:
        nums += [0, 0.0, 0j, -0.0, np.float64(0), np.complex128(0)]
    return {f'c{i}': r.choice(nums) for i in r.sample(range(12), r.randrange(0, 9))}


def replay(args):
    beh, seed = args
    r = random.Random(seed)
    calls = []
    objs = []       # (WC, snapshot)
    nfun = 0
    outs = {}

    def function(fid, with_sectors):
        # what the function returns depends on the function only
        out = random_dict(random.Random(seed * 1000 + fid))
        outs[fid] = out
        if with_sectors:
            def f(d, scale, parameters, sectors=None):
                calls.append((fid, copy.deepcopy(d), scale, parameters, sectors))
                return dict(out)
        else:
            def f(d, scale, parameters, **kw):
                calls.append((fid, copy.deepcopy(d), scale, parameters, kw.get('sectors'), bool(kw)))
                return dict(out)
        return f

    def snapshot(w):
        return copy.deepcopy((w.eft, w.basis, w.scale, dict(w.values)))

    def bad(what, **kw):
        return [(what, dict(kw, beh=beh[:n + 1]))]
    for n, h in enumerate(beh):
        a = h['a']
        resp = h['resp']
        if a == 'new':
            vals = wcxf.WC.dict2values(random_dict(r))
            if r.random() < .3:
                vals['cs'] = r.choice(['0.5', {'Im': '2'}, {'Re': 1}])
            w = wcxf.WC(h['e'], h['b'], h['s'] if r.random() < .5 else float(h['s']), vals)
            objs.append((w, snapshot(w)))
        elif a in ('tr', 'ma'):
            nfun += 1
            f = function(nfun, a == 'tr')
            cls, deco = (wcxf.Translator, wcxf.translator) if a == 'tr' else (wcxf.Matcher, wcxf.matcher)
            if r.random() < .5:
                cls(*h['n'], f)
            elif deco(*h['n'])(f) is not f:
                return bad('decorator does not return the function')
        elif a in ('deltr', 'delma'):
            cls = wcxf.Translator if a == 'deltr' else wcxf.Matcher
            del cls[tuple(h['n'])]
        else:
            w, _ = objs[h['i'] - 1]
            del calls[:]
            par, err, out = PV[h['p']], None, None
            par0 = copy.deepcopy(par)
            kw = {} if par is None and r.random() < .5 else {'parameters': par}
            sec = None
            if a == 'translate':
                sec = SV[h['s']]
                if sec is not None or r.random() < .3:
                    kw['sectors'] = sec
            direct = resp['kind'] == 'call' and r.random() < .3
            try:
                if a == 'translate' and direct:
                    out = wcxf.Translator[w.eft, w.basis, h['b']].translate(w, **kw)
                elif a == 'translate':
                    out = w.translate(h['b'], **kw)
                elif direct:
                    out = wcxf.Matcher[w.eft, w.basis, h['e'], h['b']].match(w, **kw)
                else:
                    out = w.match(h['e'], h['b'], **kw)
            except Exception as e:
                err = e
            if resp['kind'] == 'ValueError':
                if not isinstance(err, ValueError):
                    return bad('no ValueError for an unregistered pair', got=repr(err or out))
            elif err is not None:
                return bad('exception', err=repr(err))
            elif resp['kind'] == 'self':
                if out is not w or calls:
                    return bad('request for the own basis', got=repr(out), calls=calls)
            else:
                if len(calls) != 1:
                    return bad('number of calls', calls=calls)
                c = calls[0]
                if c[0] != resp['f']:
                    return bad('wrong function', want=resp['f'], got=c[0])
                if c[1] != w.dict or c[2] != w.scale or c[3] != par0 or (par is not None and c[3] is None) \
                        or (c[4] is None) != (sec is None) or (sec is not None and list(c[4]) != list(sec)):
                    return bad('wrong arguments', want=[w.dict, w.scale, par0, sec], got=c)
                if len(c) == 6 and c[5]:
                    return bad('matcher called with extra arguments')
                if par != par0:
                    return bad('parameters modified', want=par0, got=par)
                want = {k: complex(v) for k, v in outs[resp['f']].items() if v != 0}
                if not isinstance(out, wcxf.WC) or (out.eft, out.basis, out.scale) != (resp['eft'], resp['basis'], w.scale):
                    return bad('wrong type of result', want=resp, got=[out.eft, out.basis, out.scale])
                got = {k: complex(v) for k, v in out.dict.items()}
                if got != want or set(out.values) != set(want):
                    return bad('wrong coefficients', want=want, got=got)
                if out is w:
                    return bad('result is the input object')
                objs.append((out, snapshot(out)))
        for x, s in objs:
            if snapshot(x) != s:
                return bad('an input object was modified', want=s, got=snapshot(x))
            if x.dict != wcxf.WC(x.eft, x.basis, x.scale, x.values).dict:
                return bad('numbers of an input object were modified')
    return []


def run(c):
    def cfg(e, b, p, s, mo, mf, more=''):
        return (f'CONSTANTS\n Efts = {tla(set(e))}\n Bases = {tla(set(b))}\n Pars = {tla(set(p))}\n Secs = {tla(set(s))}\n'
                f' MaxObj = {mo}\n MaxFun = {mf}\n{more}')
    r = tlc.run('Dispatch', 'SPECIFICATION Spec\n' + cfg(['DE1', 'DE2'], ['Da', 'Db'], ['None'], ['None'], 2, c.n(1, 2))
                + 'PROPERTIES InputsConstant RightType\n', workers=8)
    c.model(r, 'small')
    n, depth = c.n(500, 8000), 30
    r = tlc.run('DispatchGen', 'SPECIFICATION GSpec\n' + cfg(EFTS, BASES, PARS, SECS, 12, 20,
                f' Depth = {depth}\n Scales = {{"91.1876", "4.2", "1000"}}\n') + 'INVARIANTS Emit\n',
                workers=1, simulate=n, depth=depth + 3, seed=c.seed * 19 + 1, timeout=800)
    c.model(r)
    behs = tlc.printed(r.out, 'BEH')
    res = results(c, 'dispatch', pmap(replay, [(b, c.seed * 10000 + i) for i, b in enumerate(behs)], fresh=True))
    c.trace(len(behs))
    c.count('calls', sum(h['resp']['kind'] == 'call' for b in behs for h in b))
    c.sample(behs[0][:12])
    for x in res:
        for k, d in x or []:
            c.violation(k, d)
