"""C24: parameter cards of SMEFTsim (module Smeftsim)."""
import cmath
import json
import math
import os
import random
import re
import shutil
import tempfile
import numpy as np
import yaml
import inputs
import tlc
from c22 import call
from lib import Violation, pmap, results
from wilson import wcxf
from wilson.wcxf.converters import smeftsim
from wilsonlib import tla

BASIS = ('SMEFT', 'Warsaw mass')
CUTOFF = {'default': 1000., '1': 1., '2500': 2500., '1e5': 1e5, '91.1876': 91.1876}
OUT = {'default': 'wcxf2smeftsim_param_card.dat', 'card.dat': 'card.dat', 'sub': 'sub/other card.txt'}
SCALARS = dict(G='G', Gtil='Gtilde', W='W', Wtil='Wtilde', H='phi', HBox='phiBox', HDD='phiD', HG='phiG', HB='phiB', HW='phiW',
               HWB='phiWB', HGtil='phiGtilde', HBtil='phiBtilde', HWtil='phiWtilde', HWBtil='phiWtildeB')
SCALARS = {k.lower(): v for k, v in SCALARS.items()}
RTOL = 2e-6       # six digits are written


def label_names(ops):
    out = {}
    for op in ops:
        n = op[:-3] + 'H' if op.endswith('phi') else op.replace('phi', 'H')
        out[n.lower()] = op
    return out


def contents():
    out = []
    for form in ('json', 'yaml'):
        out += [dict(name=f'{k} {form}', basis='Warsaw mass', flaw='none') for k in
                ('empty', 'dense', 'dense2', 'imaginary', 'negative', 'real', 'sparse', 'one', 'forms', 'strings', 'big')]
        out += [dict(name=f'{b} {form}', basis=b, flaw='none') for b in ('Warsaw', 'Warsaw up')]
        out += [dict(name=f'{fl} {form}', basis='Warsaw mass', flaw=fl) for fl in ('key', 'noscale', 'list', 'nobasis')]
    out += [dict(name='junk', basis='Warsaw mass', flaw='junk'), dict(name='missing', basis='Warsaw mass', flaw='missing')]
    return out


def values(name, seed):
    """(values as written in the file, what they are)"""
    rng = np.random.default_rng([seed, sum(map(ord, name))])
    rnd = random.Random(seed + sum(map(ord, name)))
    kind = name.split()[0]
    b = {'Warsaw': ('SMEFT', 'Warsaw'), 'Warsaw up': ('SMEFT', 'Warsaw up')}.get(name.rpartition(' ')[0], BASIS)
    keys = list(wcxf.Basis[b].all_wcs)
    re_ = inputs.real_keys(*b)
    mag = 1e-6 * 10 ** rng.uniform(-2, 1)
    if kind == 'empty':
        return {}, {}
    if kind == 'one':
        k = rnd.choice(keys)
        d = inputs.values(*b, rng, keys=[k], mag=mag)
    elif kind == 'sparse':
        d = inputs.values(*b, rng, n=40, mag=mag)
    else:
        d = inputs.values(*b, rng, mag=mag)
    if kind == 'imaginary':
        d = {k: 1j * complex(v).imag for k, v in d.items() if k not in re_}
    elif kind == 'negative':
        d = {k: -abs(v) for k, v in d.items()}
    elif kind in ('real', 'strings'):
        d = {k: complex(v).real for k, v in d.items()}
    elif kind == 'big':
        d = {k: v * 1e6 for k, v in d.items()}
    elif kind == 'forms':
        d = {k: v if k in re_ or rnd.random() < .7 else complex(v).real for k, v in d.items()}
    w = {}
    for k, v in d.items():
        z = complex(v)
        if z.imag:
            w[k] = {'Re': z.real, 'Im': z.imag}
            if z.real == 0 and rnd.random() < .5:
                del w[k]['Re']
        elif kind == 'strings':
            w[k] = '%.12e' % z.real
        elif kind == 'forms':
            w[k] = rnd.choice([z.real, {'Re': z.real}, {'Re': z.real, 'Im': 0}, {'Re': z.real, 'Im': 0.}, '%r' % z.real, {'Re': '%r' % z.real}])
        else:
            w[k] = z.real
    return w, d


def document(c, seed):
    form = c['name'].split()[-1]
    if c['flaw'] == 'junk':
        return '{"eft": [SMEFT, :\n'
    w, _ = values(c['name'] if c['flaw'] == 'none' else f'sparse {form}', seed)
    doc = dict(eft='SMEFT', basis=c['basis'], scale=random.Random(seed).choice([1000, 91.1876, 2e4]), values=w)
    if c['flaw'] == 'key':
        w['phil1_44'] = 1e-6
    elif c['flaw'] == 'noscale':
        del doc['scale']
    elif c['flaw'] == 'nobasis':
        doc['basis'] = 'Warsaw math'
    elif c['flaw'] == 'list':
        doc = [1, 2]
    return json.dumps(doc) if form == 'json' else yaml.safe_dump(doc)


# -- cards ------------------------------------------------------------------------

def parse(text):
    """block -> entries (index tuple, value text, label)"""
    out, cur = {}, None
    for line in text.split('\n'):
        body, _, com = line.partition('#')
        t = body.split()
        if not t:
            continue
        if t[0].lower() == 'block':
            b = ' '.join(t[1:]).lower()
            if b in out:
                raise Violation(('block twice', b))
            cur = out.setdefault(b, [])
        elif t[0].lower() == 'decay':
            out.setdefault('decay', []).append(((int(t[1]),), t[2], com.strip()))
            cur = None
        else:
            cur.append((tuple(map(int, t[:-1])), t[-1], com.strip()))
    return out


def of_object(card):
    out = {}
    for b, v in card['Block'].items():
        out[b.lower()] = [(tuple(x[:-2]), x[-2], x[-1].lstrip('# ')) for x in v['values']]
    return out


def entries(blocks, names, scalars):
    """The dimension-six entries of a card: ((op, kind, idx) or op) -> (value text, block, index)"""
    out, other = [], []
    for b, es in blocks.items():
        seen = set()
        for ind, val, lab in es:
            if ind in seen:
                raise Violation(('index twice', b, ind))
            seen.add(ind)
            m = re.match(r'c([A-Za-z]+?[138]?)(Abs|Ph)([123]+|[123](?:x[123])+)$', lab)
            if m and m[1].lower() in names:
                x = (names[m[1].lower()], m[2], int(m[3].replace('x', '')))
                if len(ind) > 1 and ''.join(map(str, ind)) != str(x[2]):
                    raise Violation(('index does not match the label', b, ind, lab))
                out.append((x, val))
            elif lab[:1] == 'c' and lab[1:].lower() in scalars:
                out.append((scalars[lab[1:].lower()], val))
            else:
                other.append((b, ind, val, lab))
    return out, other


def same_phase(x, y):
    d = math.remainder(x - y, 2 * math.pi)
    return abs(d) <= RTOL * max(abs(x), abs(y)) + 1e-300


def compare(blocks, d, cutoff, scheme, mset, W):
    """First difference between a card and what it has to contain."""
    es, other = entries(blocks, W['names'], SCALARS)
    L2 = cutoff ** 2
    n = 0
    for x, val in es:
        v = float(val)
        if isinstance(x, str):
            want = complex(d.get(x, 0)).real * L2
            if abs(v - want) > RTOL * abs(want):
                return x, val, want
            n += 1
            continue
        r = W['rules'][mset].get(x)
        if r is None:
            return 'unknown', x, val
        z = complex(d.get(f"{x[0]}_{r['rep']}", 0)) / r['mult'] * r['sign']
        if r['conj']:
            z = z.conjugate()
        if x[1] == 'Abs':
            want = (z.real if r['real'] else abs(z)) * L2
            if abs(v - want) > RTOL * abs(want):
                return x, val, want
        elif z and not same_phase(v, cmath.phase(z)):
            return x, val, cmath.phase(z)
        n += 1
    if n != 2499:
        return 'number of entries', n, 2499
    lam = [o for o in other if o[3].lower() in ('lambdasmeft', 'lambda')]
    if len(lam) != 1 or abs(float(lam[0][2]) - cutoff) > RTOL * cutoff:
        return 'cutoff', lam, cutoff
    return None


def compare_text(blocks, scheme):
    """Inputs of the standard model: the electroweak ones follow the scheme."""
    sm = {i[0]: v for i, v, _ in blocks['sminputs']}
    if set(sm) != ({1, 2, 3} if scheme == 'alpha' else {2, 3}):
        return 'sminputs', sm, scheme
    mass = {i[0]: float(v) for i, v, _ in blocks['mass']}
    mw = {mass.get(i) for i in (24, 9000003, 9000004, 251)}
    if len(mw) != 1 or (mw == {80.387}) != (scheme == 'mw'):
        return 'W mass', sorted(map(str, mw)), scheme
    if mass.get(23) is None or mass.get(23) != mass.get(250) != mass.get(9000002):
        return 'Z mass', mass.get(23), scheme
    for b in ('ckmblock', 'yukawa', 'decay'):
        if not blocks.get(b):
            return 'block missing', b, scheme
    return None


def fixed(blocks):
    """Everything in a card that depends on neither coefficients nor scheme."""
    out = {}
    for b, es in blocks.items():
        for ind, val, lab in es:
            if lab[:1] == 'c' and (re.search(r'(Abs|Ph)[123x]+$', lab) or lab[1:].lower() in SCALARS):
                continue
            if lab.lower() in ('lambdasmeft', 'lambda', 'mw0') or b == 'sminputs' or (b == 'mass' and ind[0] in (24, 9000003, 9000004, 251)):
                continue
            out[b, ind] = float(val)
    return out


W = {}


def replay(args):
    hist, seed, real = args
    rnd = random.Random(seed)
    top = tempfile.mkdtemp(prefix='c24_')
    cards, bad, const = {}, [], {}
    cwd = os.path.join(top, 'cwd')
    try:
        os.makedirs(os.path.join(cwd, 'sub'))
        for f in OUT.values():
            with open(os.path.join(cwd, f), 'w') as h:
                h.write('old ' + f)
        now = {o: 'old ' + f for o, f in OUT.items()}
        for n, e in enumerate(hist):
            info = dict(at=n, e=e)
            if e['op'] == 'new':
                cards[e['k']] = (e['set'], smeftsim.initialize_smeftsim_card(e['set']))
            elif e['op'] == 'fill':
                mset, card = cards[e['k']]
                w, d = values(e['c']['name'], seed)
                wc = wcxf.WC('SMEFT', 'Warsaw mass', 1000, w)
                before = json.dumps(wc.values, sort_keys=True, default=str)
                cut = CUTOFF[e['cutoff']]
                card = smeftsim.smeftsim_card_fill(card, wc, mset, cut, e['scheme'])
                cards[e['k']] = (mset, card)
                diff = compare(of_object(card), d, cut, e['scheme'], mset, W)
                if diff:
                    bad.append(('card: filled', dict(info, diff=diff, set=mset)))
                if json.dumps(wc.values, sort_keys=True, default=str) != before:
                    bad.append(('card: the input changed', info))
            elif e['op'] == 'convert':
                argv = []
                inp = os.path.join(top, 'input.' + rnd.choice(['json', 'yml', 'txt']))
                if os.path.exists(inp):
                    os.unlink(inp)
                if e['c']['flaw'] != 'missing':
                    with open(inp, 'w') as f:
                        f.write(document(e['c'], seed))
                opts = []
                if e['o'] != 'default':
                    opts.append(['--output', OUT[e['o']]])
                if e['scheme'] != 'alpha' or rnd.random() < .5:
                    opts.append(['--input-scheme', e['scheme']])
                if e['set'] != 'A' or rnd.random() < .5:
                    opts.append(['--model-set', e['set']])
                if e['cutoff'] != 'default':
                    opts.append(['--cutoff-scale', e['cutoff']])
                opts.append([inp])
                rnd.shuffle(opts)
                argv = [x for o in opts for x in o]
                ans = os.path.join(top, 'answer')
                with open(ans, 'w') as f:
                    f.write('' if e['ans'] == 'eof' else {'return': '', 'x': 'x', 'i': 'i', 'I': 'I', 'yes': 'yes'}[e['ans']] + '\n')
                rc, so, se = call('wcxf2smeftsim', argv, ans, cwd, real)
                info.update(argv=argv, rc=rc, err=se[-300:])
                if (rc == 0) != (e['r'] == 'written') and e['r'] != 'refused':
                    bad.append(('command: exit status', info))
                elif e['r'] == 'written':
                    with open(os.path.join(cwd, OUT[e['o']])) as f:
                        now[e['o']] = f.read()
                    b = parse(now[e['o']])
                    _, d = values(e['c']['name'], seed)
                    diff = compare(b, d, CUTOFF[e['cutoff']], e['scheme'], e['set'], W) or compare_text(b, e['scheme'])
                    if diff:
                        bad.append(('command: card', dict(info, diff=diff)))
                    x = fixed(b)
                    if const.setdefault(e['set'], x) != x:
                        y = const[e['set']]
                        bad.append(('command: other entries changed',
                                    dict(info, diff={str(k): (x.get(k), y.get(k)) for k in set(x) | set(y) if x.get(k) != y.get(k)})))
                files = sorted(os.path.relpath(os.path.join(p, f), cwd) for p, _, fs in os.walk(cwd) for f in fs)
                if files != sorted(OUT.values()):
                    bad.append(('command: files', dict(info, files=files)))
                for o, f in OUT.items():
                    with open(os.path.join(cwd, f)) as h:
                        if h.read() != now[o]:
                            bad.append(('command: another file changed', dict(info, file=f)))
            if bad:
                break
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return bad


def record():
    """The cards of an empty input, as a trace for the specification."""
    wc = wcxf.WC('SMEFT', 'Warsaw mass', 1000, {})
    out = {}
    for s in 'AB':
        card = smeftsim.smeftsim_card_fill(smeftsim.initialize_smeftsim_card(s), wc, s, 1000., 'alpha')
        es, _ = entries(of_object(card), W['names'], SCALARS)
        out[s] = [dict(op=x[0], kind=x[1], idx=x[2]) for x, _ in es if not isinstance(x, str)]
        sc = sorted(x for x, _ in es if isinstance(x, str))
        if sc != sorted(SCALARS.values()):
            raise Violation(('operators without flavour', s, sorted(set(sc) ^ set(SCALARS.values()))))
    return out


CONSTS = ('CONSTANTS\n Contents <- MC_C\n Sets = {"A", "B"}\n Schemes = {"alpha", "mw"}\n Cutoffs = %s\n Outputs = %s\n'
          ' Cards = %s\n Answers = %s\n')


def consts(cut, out, cards, ans):
    return CONSTS % tuple(tla(set(x)) for x in (cut, out, cards, ans))


def run(c):
    cs = contents()
    ops = [o for o in {k.partition('_')[0] for k in wcxf.Basis[BASIS].all_wcs if '_' in k}]
    W['names'] = label_names(ops)
    rec = record()
    small = [x for x in cs if x['name'] in ('dense json', 'Warsaw json', 'key json')]
    body = 'MC_C == {' + ', '.join(tla(x) for x in small) + '}\n'
    top = tempfile.mkdtemp(prefix='c24_')
    try:
        p = os.path.join(top, 'rec.json')
        with open(p, 'w') as f:
            json.dump(rec, f)
        r = tlc.run('MC', 'SPECIFICATION Spec\n' + consts(['1', '2500'], ['a', 'b'], ['k'], ['i', 'x', 'eof'])
                    + 'INVARIANT FromValidInput\nPROPERTIES OnlyTarget NoHistory\nVIEW View\nPOSTCONDITION Out\n',
                    files={'MC.tla': tlc.model('MC', body, 'Smeftsim')}, env={'REC': p}, workers=4, timeout=200, expect_out=True)
        c.model(r, 'small')
        W['rules'] = {}
        for s, x in r.data.items():
            if x['unknown'] or x['incomplete'] or x['repeated']:
                c.violation('card: not a complete set of parameters', dict(set=s, unknown=x['unknown'][:5], incomplete=x['incomplete'][:5],
                                                                            repeated=x['repeated']))
            W['rules'][s] = {(e['op'], e['kind'], e['idx']): e for e in x['rules']}
            c.trace(1)
        body = 'MC_C == {' + ', '.join(tla(x) for x in cs) + '}\n'
        r = tlc.run('MC', 'SPECIFICATION GSpec\n' + consts(list(CUTOFF), list(OUT), ['k1', 'k2', 'k3'], ['i', 'I', 'x', 'return', 'eof', 'yes'])
                    + f' Depth = {c.n(14, 20)}\nINVARIANTS Emit FromValidInput\n', files={'MC.tla': tlc.model('MC', body, 'SmeftsimGen')},
                    workers=1, env={'REC': p}, simulate=c.n(64, 800), depth=c.n(14, 20) + 3, seed=c.seed * 17 + 3)
        c.model(r)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    behs = tlc.printed(r.out, 'BEH')
    res = results(c, 'smeftsim', pmap(replay, [(b, c.seed * 1000 + i, i % 16 == 0) for i, b in enumerate(behs)]))
    for x in res:
        for k, d in x or []:
            c.violation(k, d)
    c.trace(len(behs))
    c.count('steps', sum(map(len, behs)))
    c.count('commands', sum(e['op'] == 'convert' for b in behs for e in b))
    c.sample(behs[0][:3])
