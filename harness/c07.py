"""C07: coefficient values mean the same in every representation."""
import random
import numpy as np
import tlc
from lib import pmap, results
from wilsonlib import tla
from wilson import wcxf, Wilson

PARTS = ['0', '1', '-2.5', '1e-9', '3', '-7', '0.1', '-4.25e-12', '6.02e23']
INTS = ['0', '1', '3', '-7']
KNOWN = ['k1', 'k2', 'k3', 'k4']
UNKNOWN = ['u1', 'u2']
BASES = [('VE', 'Vb'), ('VF', 'Vb'), ('VF', 'Vc')]      # registered
ALL = BASES + [('VE', 'Vc'), ('VE', 'nob'), ('noE', 'Vb')]


def register():
    wcxf.EFT(eft='VE', sectors={'s': {}, 't': {}})
    wcxf.EFT(eft='VF', sectors={'s': {}, 't': {}})
    for e, b in BASES:
        wcxf.Basis(eft=e, basis=b, sectors={'s': {'k1': None, 'k2': {'real': True}}, 't': {'k3': {}, 'k4': None}})


def consts(parts, ints, known, unknown, maxobj, kb=BASES, ab=ALL):
    body = f'MC_KB == {tla(set())[:-1]}{", ".join(tla(list(p)) for p in kb)}}}\n' \
           f'MC_AB == {{{", ".join(tla(list(p)) for p in ab)}}}\n'
    return body, (f'CONSTANTS\n Parts = {tla(set(parts))}\n IntParts = {tla(set(ints))}\n KnownKeys = {tla(set(known))}\n'
                  f' UnknownKeys = {tla(set(unknown))}\n KnownEfts = {{"VE", "VF"}}\n Efts = {{"VE", "VF", "noE"}}\n'
                  f' KnownBases <- MC_KB\n Bases <- MC_AB\n MaxObj = {maxobj}\n')


def num(n):
    re, im = float(n[0]), float(n[1])
    return complex(re, im)


def value(v):
    f = v['f']
    if f == 'float':
        return float(v['re'])
    if f == 'int':
        return int(v['re'])
    if f == 'str':
        return v['re']
    if f == 'Re':
        return {'Re': float(v['re'])}
    if f == 'Im':
        return {'Im': float(v['im'])}
    if f == 'ReIm':
        return {'Re': float(v['re']), 'Im': float(v['im'])}
    if f == 'ReImStr':
        return {'Re': v['re'], 'Im': v['im']}
    if f == 'ImRe':
        return {'Im': int(v['im']), 'Re': float(v['re'])}
    return {}


def replay(args):
    beh, seed = args
    rnd = random.Random(seed)
    register()
    objs, given = [], []

    def bad(what, **kw):
        return [(what, dict(kw, beh=beh[:n + 1]))]
    for n, h in enumerate(beh):
        op = h['op']
        if op == 'new':
            o = h['o']
            vals = {x['k']: value(x['v']) for x in o['vals']}
            scale = rnd.choice([160, '160', 160.0, 4.2])
            objs.append(wcxf.WC(o['eft'], o['basis'], scale, vals))
            given.append(({k: (dict(v) if isinstance(v, dict) else v) for k, v in vals.items()}, float(scale), o))
            # the high-level class reports the same numbers
            numbers = {x['k']: num([x['v']['re'].replace('-', '0') if x['v']['re'] == '-' else x['v']['re'],
                                    '0' if x['v']['im'] == '-' else x['v']['im']]) for x in o['vals']}
            ok = [o['eft'], o['basis']] in [list(b) for b in BASES] and all(x['k'] in KNOWN for x in o['vals'])
            try:
                d = {k: (z.real if z.imag == 0 and rnd.random() < .5 else z) for k, z in numbers.items()}
                w = Wilson(dict(d), float(scale), o['eft'], o['basis'])
                if not ok:
                    return bad('Wilson accepts invalid input', o=o)
                if w.wc.dict != numbers or w.wc.scale != float(scale) or (w.wc.eft, w.wc.basis) != (o['eft'], o['basis']):
                    return bad('Wilson input changed', o=o, got=w.wc.dict, want=numbers)
                w2 = Wilson.from_wc(w.wc)
                if w2.wc.dict != numbers:
                    return bad('from_wc', got=w2.wc.dict, want=numbers)
            except Exception as e:
                if ok:
                    return bad('Wilson rejects valid input', o=o, err=repr(e))
            continue
        w = objs[h['i'] - 1]
        vals, scale, o = given[h['i'] - 1]
        if op == 'renumber':
            nv = wcxf.WC.dict2values(w.dict)
            objs.append(wcxf.WC(w.eft, w.basis, w.scale, nv))
            given.append((nv, scale, o))
            continue
        if op == 'validate':
            try:
                w.validate()
                got = True
            except Exception:
                got = False
            if got != h['ok']:
                return bad('validate', want=h['ok'], got=got)
        elif op == 'item':
            x = w[h['k']]
            if complex(x) != num(h['n']):
                return bad('item access', key=h['k'], want=num(h['n']), got=x)
        elif op == 'dict':
            want = {x['k']: num(x['n']) for x in h['ns']}
            if list(w.dict) != list(want) or w.dict != want:
                return bad('dict', want=want, got=w.dict)
        elif op == 'df':
            df = w.df
            want = {x['k']: num(x['n']) for x in h['ns']}
            got = {k: complex(df.loc[k, 'Re'], df.loc[k, 'Im']) for k in df.index}
            if list(got) != list(want) or got != want:
                return bad('data frame', want=want, got=got)
        elif op == 'values':
            if w.values != vals:
                return bad('values', want=vals, got=w.values)
        elif op == 'str':
            s = str(w)
            for x in h['ns']:
                if x['k'] not in s:
                    return bad('text misses a coefficient', key=x['k'])
        elif op == 'html':
            s = w._repr_html_()
            for x in h['ns']:
                if x['k'] not in s:
                    return bad('html misses a coefficient', key=x['k'])
        if (w.eft, w.basis, w.scale) != (o['eft'], o['basis'], scale) or w.values != vals:
            return bad('reading changes the object')
    return []


def many_numbers(c):
    """dict2values and back on arbitrary doubles."""
    rng = np.random.default_rng(c.seed)
    for _ in range(c.n(2000, 50000)):
        re = float(rng.normal() * 10.0 ** rng.integers(-300, 300))
        im = float(rng.normal() * 10.0 ** rng.integers(-300, 300)) * rng.integers(0, 2)
        x = rng.choice([0, 1, 2])
        v = re if x == 0 else complex(re, im)
        if x == 2:
            v = np.complex128(v)
        d = {'k1': v}
        out = wcxf.WC('VE', 'Vb', 1, wcxf.WC.dict2values(d))
        if complex(out.dict['k1']) != complex(v) or complex(out['k1']) != complex(v):
            c.violation('numbers to values and back', dict(v=v, got=out.dict))


def run(c):
    body, cs = consts(['0', '1'], ['1'], ['k1'], ['u1'], 2, BASES[:1], ALL[2:5:2])
    r = tlc.run('MC', 'SPECIFICATION Spec\n' + cs + 'INVARIANTS ItemsAgree RenumberSame\nPROPERTY NumbersStable\n',
                files={'MC.tla': tlc.model('MC', body, 'WCValues')})
    c.model(r, 'small')
    body, cs = consts(PARTS, INTS, KNOWN, UNKNOWN, 6)
    r = tlc.run('MC', 'SPECIFICATION GSpec\n' + cs + ' Depth = 24\n MaxKeys = 5\nINVARIANTS Emit ItemsAgree\n',
                files={'MC.tla': tlc.model('MC', body, 'WCValuesGen')}, workers=1, simulate=c.n(400, 6000), depth=27,
                seed=c.seed * 13 + 5, timeout=800)
    c.model(r)
    behs = tlc.printed(r.out, 'BEH')
    res = results(c, 'wc', pmap(replay, [(b, c.seed * 1000 + i) for i, b in enumerate(behs)]))
    c.trace(len(behs))
    c.sample(behs[0][:6])
    seen = set()
    for b in behs:
        for h in b:
            if h['op'] == 'new':
                seen |= {(x['v']['f'], x['v']['re'], x['v']['im']) for x in h['o']['vals']}
    c.cov['value_forms_exercised'] = len(seen)
    for r in res:
        for k, d in r or []:
            c.violation(k, d)
    many_numbers(c)
