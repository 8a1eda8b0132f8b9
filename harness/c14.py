"""C14: running in the weak effective theories (module Flow)."""
import io
import random
import numpy as np
import tlc
import ref
import inputs
import wilsonlib
from lib import Violation, pmap, results, dict_diff
from wetsym import Sym
from wilson import wcxf
from wilson.run.wet import WETrunner

LADDER = {'WET': [160., 91.1876, 20., 10., 4.2, 300.],
          'WET-4': [4.2, 3., 2., 1.5, 1.3, 5.],
          'WET-3': [1.3, 1.2, 1.1, 1.5, 2., 1.25]}
PARAMS = [{}, {'alpha_s': 0.1235, 'm_b': 4.35, 'm_c': 1.31, 'alpha_e': 1 / 120.},
          {'alpha_s': 0.1131, 'm_s': 0.082, 'm_mu': 0.3, 'm_d': 0.011, 'm_u': 0.0014}]
S3 = [(1, 2, 3), (2, 1, 3), (3, 2, 1), (1, 3, 2), (2, 3, 1), (3, 1, 2)]
S2 = [(1, 2, 3), (2, 1, 3)]
PERM = {'WET': (S3, S2, S3, S3), 'WET-4': (S2, S2, S3, S3), 'WET-3': (S2, S2[:1], S2, S3)}
DIPOLES = ('uG', 'dG', 'ugamma', 'dgamma', 'egamma')
SYM = None


def four(d):
    return {k: v for k, v in d.items() if len(k.split('_')[-1]) == 4}


# -- atoms ---------------------------------------------------------------------
def atoms(seed):
    """name -> (eft, scale number, coefficients)"""
    out = {}
    for eft in LADDER:
        b = wcxf.Basis[eft, 'JMS']
        rng = np.random.default_rng([seed, len(eft) + ord(eft[-1])])
        out[eft + '_all'] = (eft, 1, inputs.values(eft, 'JMS', rng))
        light = [k for s, ks in b.sectors.items() if s != 'dF=0' for k in ks]
        for n, (num, sc) in enumerate(((1, 1), (3, 1), (40, 2), (300, 1), (8, 3))):
            out[f'{eft}_{n}'] = (eft, sc, inputs.values(eft, 'JMS', rng, n=num, keys=light))
        # one sector, one operator class, purely imaginary, integers
        s = list(b.sectors)[int(rng.integers(len(b.sectors) - 1))]
        out[eft + '_sec'] = (eft, 2, inputs.values(eft, 'JMS', rng, keys=[k for k in b.sectors[s]]))
        re = inputs.real_keys(eft, 'JMS')
        cx = [k for k in light if k not in re]
        out[eft + '_im'] = (eft, 1, {k: 1j * v.imag for k, v in inputs.values(eft, 'JMS', rng, n=200, keys=cx).items()})
        out[eft + '_int'] = (eft, 1, {str(k): int(rng.integers(1, 4)) for k in rng.choice(light, 30, replace=False)})
    return out


def evaluate(eft, d, word, s0, par, S=None):
    """Apply a word (list of letters) to a dictionary."""
    for l in word:
        if l['k'] == 'lab':
            d = SYM.relabel(d, l['g'])
        else:
            d = wetrun(eft, d, LADDER[eft][l['from'] - 1], LADDER[eft][l['to'] - 1], par, l['qcd'], l['qed'], S)
    return d


def wetrun(eft, d, a, b, par, qcd, qed, S=None):
    w = WETrunner(inputs.wc(eft, 'JMS', a, d), parameters=par or None, qcd_order=qcd, qed_order=qed)
    r = w.run(b) if S is None else w.run(b, sectors=S)
    if r.eft != eft or r.basis != 'JMS' or r.scale != b:
        raise Violation((r.eft, r.basis, r.scale))
    return r.dict


def canonical(args):
    eft, s0, d, p, cp, iso, word, par = args
    if iso:
        d = SYM.isospin(d)
    if p:
        d = SYM.parity(d)
    if cp:
        d = SYM.cp(d)
    return evaluate(eft, d, word, s0, par)


def repack(d, eft, scale, rnd):
    """Other representations of the same coefficients."""
    kind = rnd.randrange(5)
    items = list(d.items())
    rnd.shuffle(items)
    d = dict(items)
    if kind == 0:
        for k in rnd.sample(list(wcxf.Basis[eft, 'JMS'].all_wcs), 20):
            d.setdefault(k, rnd.choice([0, 0.0, 0j]))
        return d
    if kind == 1:
        return {k: complex(v) for k, v in d.items()}
    if kind == 2:
        return {k: (np.complex128(v) if complex(v).imag else np.float64(complex(v).real)) for k, v in d.items()}
    w = inputs.wc(eft, 'JMS', scale, d)
    fmt = 'json' if kind == 3 else 'yaml'
    if len(d) > 500:
        fmt = 'json'
    f = io.StringIO(w.dump(fmt=fmt))
    return wcxf.WC.load(f).dict


def replay(args):
    """Returns the dictionaries after every step."""
    hist, at, par, seed, sector_sets = args
    rnd = random.Random(seed)
    reg, out, iso_used = {}, [], {}
    for e in hist:
        k = e['k']
        o = e['out']
        sc = LADDER[o['eft']][o['sc'] - 1]
        if k == 'new':
            d = dict(at[e['atom']][2])
        elif k in ('run', 'sec'):
            q = reg[e['q']]
            a = LADDER[o['eft']][q[1] - 1]
            S = None
            if k == 'sec':
                S = rnd.choice([list, tuple])(sector_sets[o['eft']][e['S']])
            d = wetrun(o['eft'], q[0], a, sc, par, e['o'][0], e['o'][1], S)
            if k == 'sec':
                allowed = {x for s in S for x in wcxf.Basis[o['eft'], 'JMS'].sectors[s]}
                if not set(d) <= allowed:
                    raise Violation(('keys outside the sectors', sorted(set(d) - allowed)[:5]))
        elif k == 'lin':
            p, q = reg[e['p']][0], reg[e['q']][0]
            d = {x: e['ca'] * p.get(x, 0) + e['cb'] * q.get(x, 0) for x in set(p) | set(q)}
        elif k == 'par':
            d = SYM.parity(reg[e['q']][0])
        elif k == 'cp':
            d = SYM.cp(reg[e['q']][0])
        elif k == 'iso':
            d = SYM.isospin(reg[e['q']][0])
        elif k == 'lab':
            d = SYM.relabel(reg[e['q']][0], e['g'])
        elif k == 'pack':
            d = repack(reg[e['q']][0], o['eft'], sc, rnd)
        # the size of everything that entered, to tell rounding remnants
        old = [reg[e[x]][2] for x in 'pq' if x in e]
        f = [abs(e['ca']), abs(e['cb'])] if k == 'lin' else [1]
        mag = max([sum(x * y for x, y in zip(f, old))] + [abs(v) for v in d.values()])
        reg[e['r']] = (d, o['sc'], mag)
        out.append((d, mag))
    return out


def cfg(c, mod, body, orders, eftperm, regs, extra, **kw):
    return tlc.run('MC', f'SPECIFICATION {"GSpec" if mod == "FlowGen" else "Spec"}\nCONSTANTS\n Atoms <- MC_Atoms\n NScales = {kw.pop("nscales", 3)}\n'
                   f' Orders <- MC_Orders\n Perms <- MC_Perms\n Sectors <- MC_Sectors\n Isospin <- MC_Iso\n Regs = {regs}\n' + extra,
                   files={'MC.tla': tlc.model('MC', body, mod)}, **kw)


def model(c):
    """The normal forms of the algebra are sound (small instances)."""
    A1 = '[a |-> [eft |-> "W", scale |-> 1]]'
    A2 = '[a |-> [eft |-> "W", scale |-> 1], b |-> [eft |-> "W", scale |-> 2]]'
    full = '{<<1,0>>,<<1,1>>,<<0,1>>}'
    cases = [('words', 3, 1, 1, A1, 3, full, '{1}', '{}', 99), ('qcd', c.n(2, 3), 1, 1, A1, 3, '{<<1,0>>}', '{1}', '{"W"}', 99),
             ('linear', 2, 3, 2, A2, 2, '{<<1,0>>}', '{1,2}', '{}', c.n(4, 5))]
    for name, L, C, T, A, n, o, r, iso, lev in cases:
        body = (f'MC_Atoms == {A}\nMC_Orders == {o}\nMC_Sectors == {{"x"}}\nMC_Iso == {iso}\n'
                'MC_Perms == [W |-> {<<<<2,1,3>>,Id3,Id3,Id3>>, <<<<1,3,2>>,<<2,1,3>>,Id3,Id3>>}]\n'
                f'Small == TLCGet("level") <= {lev} /\\ \\A r \\in Live : Cardinality(DOMAIN obj[r].t) <= {T} /\\ '
                f'\\A x \\in DOMAIN obj[r].t : Len(x[4]) <= {L} /\\ obj[r].t[x] \\in -{C}..{C}\n')
        r_ = cfg(c, 'Flow', body, o, None, r, 'CONSTRAINT Small\nINVARIANTS Typed WordsA RunsB PureQcd SameValue\n', nscales=n, workers=8)
        c.model(r_, 'Flow_' + name)


ORD = {'mixed': {(1, 1), (1, 0), (0, 1), (0, 0)}, 'qcd': {(1, 0)}, 'default': {(1, 1)}}


def histories(c, at, orders, num, depth, seed, fresh, sectors):
    A = ' @@ '.join(f'"{n}" :> [eft |-> "{a[0]}", scale |-> {a[1]}]' for n, a in at.items())
    P = ' @@ '.join('"%s" :> ({%s})' % (e, ', '.join(wilsonlib.tla([list(x) for x in (d, u, l, n)])
                    for d, u, l, n in perm_sample(e, seed))) for e in LADDER)
    body = (f'MC_Atoms == {A}\nMC_Orders == {wilsonlib.tla(ORD[orders])}\nMC_Perms == {P}\n'
            f'MC_Sectors == {wilsonlib.tla(set(sectors))}\nMC_Iso == {{{chr(34) + "WET-4" + chr(34) if orders == "qcd" else ""}}}\n'
            f'MC_Fresh == {wilsonlib.tla(set(fresh))}\n')
    r = cfg(c, 'FlowGen', body, orders, None, '{1,2,3}', f' Depth = {depth}\n Fresh <- MC_Fresh\nINVARIANTS Emit Typed WordsA RunsB\n',
            nscales=6, workers=1, simulate=num, depth=6 * depth, seed=seed)
    c.model(r)
    return tlc.printed(r.out, 'BEH')


def perm_sample(eft, seed):
    rnd = random.Random(seed)
    out = set()
    while len(out) < (1 if all(len(x) == 1 for x in PERM[eft]) else 6):
        g = tuple(rnd.choice(x) for x in PERM[eft])
        if any(x != (1, 2, 3) for x in g):
            out.add(g)
    return sorted(out)


def key(t, form, par):
    return (t['atom'], t['p'], t['cp'], t['iso'], form, par,
            tuple((l['k'], tuple(map(tuple, l['g'])) if l['k'] == 'lab' else (l['from'], l['to'], l['qcd'], l['qed']))
                  for l in t[form]))


def compare(c, at, hists, pars, outs):
    """Compare every object with its normal forms, evaluated afresh."""
    need = {}
    for h, par in zip(hists, pars):
        for e in h:
            for t in e['out']['t']:
                for form in 'ab':
                    need.setdefault(key(t, form, par), (t, form, par))
    jobs = []
    for t, form, par in need.values():
        eft, s0, d = at[t['atom']]
        jobs.append((eft, s0, d, t['p'], t['cp'], t['iso'], t[form], PARAMS[par]))
    res = results(c, 'canonical', pmap(canonical, jobs))
    val = dict(zip(need, res))
    for h, par, out in zip(hists, pars, outs):
        if out is None:
            continue
        c.trace()
        for n, (e, (got, mag)) in enumerate(zip(h, out)):
            o = e['out']
            allowed = None
            if o['sec'] != 'all':
                allowed = {x for s in SECTORS[o['eft']][o['sec']] for x in wcxf.Basis[o['eft'], 'JMS'].sectors[s]}
            isos = any(t['iso'] for t in o['t'])
            # isospin is defined for some operators only
            part = used_iso(h[:n + 1], e['r'])
            for form in 'ab':
                if form == 'a' and (isos or part):
                    continue
                want = {}
                miss = False
                for t in o['t']:
                    v = val[key(t, form, par)]
                    if v is None:
                        miss = True
                        break
                    if part:
                        v = SYM.isospin(SYM.isospin(v))
                    for x, y in v.items():
                        want[x] = want.get(x, 0) + t['coef'] * y
                if miss:
                    continue
                g = got
                if part:
                    g = SYM.isospin(SYM.isospin(g))
                if form == 'b':
                    want, g = four(want), four(g)
                if allowed is not None:
                    want = {x: y for x, y in want.items() if x in allowed}
                bad = dict_diff(g, want, rtol=2e-9 if form == 'a' else 2e-8, atol=1e-11 * mag)
                c.count('comparisons')
                if bad:
                    c.violation('flow ' + form, dict(diff=bad, step=n, eft=o['eft'], scale=LADDER[o['eft']][o['sc'] - 1], params=PARAMS[par],
                                                     terms=o['t'], history=[{k: v for k, v in x.items() if k != 'out'} for x in h[:n + 1]]))


def used_iso(h, r):
    """Does object r (after history h) descend from an isospin image?"""
    flag = {}
    for e in h:
        if e['k'] == 'new':
            flag[e['r']] = False
        elif e['k'] == 'iso':
            flag[e['r']] = True
        elif e['k'] == 'lin':
            flag[e['r']] = flag[e['p']] or flag[e['q']]
        else:
            flag[e['r']] = flag[e['q']]
    return flag[r]


SECTORS = {}


def make_sectors(seed):
    rnd = random.Random(seed)
    for eft in LADDER:
        ss = list(wcxf.EFT[eft].sectors)
        own = [s for s in ss if wcxf.Basis[eft, 'JMS'].sectors.get(s)]
        SECTORS[eft] = {'one': (rnd.choice([s for s in own if s != 'dF=0']),), 'some': tuple(rnd.sample(own, len(own) // 2)),
                        'most': tuple(s for s in own if s != 'dF=0'), 'each': tuple(rnd.sample(own, len(own))),
                        'rep': (lambda x: (x[0], x[1], x[0]))(rnd.sample(own, 2))}
    return ['one', 'some', 'most', 'each', 'rep']


# -- reference ---------------------------------------------------------------------
REFS = {}
for _e, _s in (('WET', ((160., 91.1876), (91.1876, 4.2), (4.2, 120.))), ('WET-4', ((4.2, 1.3), (2., 4.2))), ('WET-3', ((1.3, 1.1), (1.2, 2.)))):
    for _n, (_a, _b) in enumerate(_s):
        for _q in ((1, 1), (1, 0), (0, 1)):
            if _q == (0, 1) and _n:
                continue
            REFS[f'{_e} {_a} {_b} {_q[0]}{_q[1]} {_n}'] = (_e, _a, _b, _q, _n)


def ref_names():
    return list(REFS)


def ref_case(name):
    eft, a, b, q, n = REFS[name]
    d = ref.dense('C14' + str(n), wcxf.Basis[eft, 'JMS'].all_wcs, inputs.real_keys(eft, 'JMS'), 1e-7,
                  lambda k: 1e-3 if k.split('_')[0] in DIPOLES else 1)
    return wetrun(eft, d, a, b, PARAMS[n], q[0], q[1])


def run_ref(c, check, mod, rtol, atol=lambda name, want: 0.):
    want = ref.load(check)
    names = mod['ref_names']()
    if set(names) != set(want):
        raise RuntimeError('reference file does not fit the check')
    for n, got in zip(names, results(c, 'reference', pmap(mod['ref_case'], names))):
        if got is None:
            continue
        bad = dict_diff(got, want[n], rtol=rtol, atol=atol(n, want[n]))
        c.count('reference_numbers', len(want[n]))
        if bad:
            c.violation('reference ' + n, dict(diff=bad, case=n))


def run_check(c):
    global SYM
    SYM = Sym(c)
    model(c)
    run_ref(c, 'C14', globals(), 1e-7)
    names = make_sectors(c.seed)
    at = atoms(c.seed)
    light = [n for n in at if not n.endswith('_all')]
    dense_ = [n for n in at if n.endswith('_all')]
    hists, pars = [], []
    for i, (o, num, fresh) in enumerate((('default', c.n(60, 600), light), ('mixed', c.n(60, 600), light), ('qcd', c.n(80, 800), light),
                                         ('mixed', c.n(3, 40), dense_))):
        hs = histories(c, at, o, num, c.n(14, 18) if fresh is light else 8, c.seed * 10 + i, fresh, names)
        hists += hs
        pars += [n % len(PARAMS) for n in range(len(hs))]
    c.count('histories', len(hists))
    outs = results(c, 'run', pmap(replay, [(h, at, PARAMS[p], n, SECTORS) for n, (h, p) in enumerate(zip(hists, pars))]))
    if hists:
        c.sample(dict(history=hists[0][:6]))
    compare(c, at, hists, pars, outs)
    c.assumptions += ['WETrunner is used through its constructor and run; reference numbers were computed with the pinned implementation, after its repairs',
                      'Dipole coefficients are normalized with running masses: relabelling and composition are required of four-fermion operators only']


def run(c):
    run_check(c)
