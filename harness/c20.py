"""C20: DsixTools files (modules DsixIO and, for the entries, Flavour)."""
import copy
import io
import json
import random
import numpy as np
import yaml
import tlc
import flavour
from lib import pmap, results
from wilson import wcxf
from wilson.wcxf.converters import dsixtools

SCALES = dict(a=91.1876, b=1000, c=1234.5678, d=1e4, e=0.5)
TOL = 1e-13
DIM5 = ('llphiphi',)


def parse(text):
    """The numbers in a file of SLHA form."""
    d, cur = {}, None
    for line in text.splitlines():
        t = line.split('#')[0].split()
        if not t:
            continue
        if t[0].upper() == 'BLOCK':
            cur = d.setdefault(t[1].upper(), {})
        else:
            k = tuple(int(x) for x in t[:-1])
            if k in cur:
                raise ValueError('double line')
            cur[k] = float(t[-1])
    return d


def structured(x):
    """The same from the JSON or YAML form."""
    return {b.upper(): {tuple(int(i) for i in v[:-1]): float(v[-1]) for v in blk['values']} for b, blk in x['BLOCK'].items()}


def write(blocks, rnd):
    names = list(blocks)
    rnd.shuffle(names)
    out = []
    if rnd.random() < .5:
        out.append('# some comment')
    for b in names:
        out.append(f"{rnd.choice(['Block', 'BLOCK', 'block'])} {b}" + rnd.choice(['', '  # comment', ' ']))
        lines = list(blocks[b].items())
        rnd.shuffle(lines)
        for k, v in lines:
            num = rnd.choice(['%r', '%.17E', '%.18e']) % float(v)
            out.append('   ' + '   '.join(map(str, k)) + '  ' + num + rnd.choice(['', '  # comment']))
    return '\n'.join(out) + '\n'


class Case:
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.T, self.P8, ops, self.tab = WORLD
        self.ops = ops['SMEFT']
        self.zero = {n: (b, i + 1) for b, ns in self.tab['zero'].items() for i, n in enumerate(ns)}
        self.content, self.sm = {}, {}
        self.keys = list(wcxf.Basis['SMEFT', 'Warsaw'].all_wcs)
        self.expected_error = 0

    def real(self, k):
        n, _, i = k.partition('_')
        c = self.ops[n]
        return c == '0' or (c != '8' and self.T[c][int(i)]['real'])

    def get(self, i):
        """WCxf dictionary"""
        if i not in self.content:
            r = self.rnd
            frac = {'empty': 0, 'sparse': .01, 'dense': 1}.get(i, .2)
            only = None
            if i == 'class8':
                frac, only = 1, 'qqql'
            d = {}
            for k in self.keys:
                if (only is None or k.startswith(only)) and r.random() < frac:
                    re, im = (r.choice([-1, 1]) * 10 ** r.uniform(-12, -5) for _ in range(2))
                    if self.real(k):
                        v = re
                    else:
                        v = r.choice([complex(re, im), complex(re, im), complex(0, im), re, complex(re, re * 10 ** r.uniform(-17, -9)), complex(im * 10 ** r.uniform(-17, -9), im)])
                    d[k] = r.choice([v] * 12 + [0])
            self.content[i] = d
        return self.content[i]

    def nonzero(self, i):
        return {k: v for k, v in self.get(i).items() if v != 0}

    def wc(self, i, s):
        return wcxf.WC('SMEFT', 'Warsaw', SCALES[s], wcxf.WC.dict2values(self.get(i)))

    def factor(self, n, s):
        return SCALES[s] ** (1 if n in DIM5 else 2)

    def lines(self, i, unit, full):
        """Expected (block, index) -> number; with `full`, every entry."""
        out = {}

        def put(n, ind, v):
            if v.real:
                out['WC' + n.upper(), ind] = v.real
            if v.imag:
                out['IMWC' + n.upper(), ind] = v.imag
        d = self.nonzero(i)
        for k, v in d.items():
            n, _, x = k.partition('_')
            v = v * self.factor(n, unit)
            c = self.ops[n]
            if c == '0':
                out[self.zero[n][0], (self.zero[n][1],)] = v.real
            elif not full or c == '8':
                put(n, tuple(int(ch) for ch in x), complex(v))
            else:
                for y, e in self.T[c].items():
                    if e['rep'] == int(x) and not e['zero']:
                        w = complex(v).conjugate() if e['conj'] else complex(v)
                        put(n, tuple(int(ch) for ch in str(y)), e['sign'] * w)
        return out

    def compare(self, where, text_or_dict, f):
        got = parse(text_or_dict) if isinstance(text_or_dict, str) else text_or_dict
        flat = {(b, k): v for b, ls in got.items() for k, v in ls.items()}
        scales = {k[1]: v for k, v in flat.items() if k[0] == 'SCALES'}
        want = {(1,): SCALES[f['high']]}
        if f['low'] != 'none':
            want[2,] = SCALES[f['low']]
        if scales != want:
            return where, 'scales', scales, want
        exp = self.lines(f['id'], f['unit'], f['full'])
        got = {k: v for k, v in flat.items() if k[0] != 'SCALES'}
        red8 = {}
        for k, v in got.items():
            if k not in exp and v == 0:
                return where, 'zero line', k
            if k not in exp and f['full'] and k[0] in ('WCQQQL', 'IMWCQQQL'):
                red8[k] = v
                continue
            if k not in exp:
                return where, 'unexpected', k, v
            if not abs(v - exp[k]) <= TOL * abs(exp[k]):
                return where, k, v, exp[k]
        for k, v in exp.items():
            if k not in got:
                return where, 'missing', k, v
        if f['full']:
            for b in ('WCQQQL', 'IMWCQQQL'):
                a = lambda *x: got.get((b, x), 0)
                for p, r, s, t in np.ndindex(3, 3, 3, 3):
                    p, r, s, t = p + 1, r + 1, s + 1, t + 1
                    x = [a(p, r, s, t), a(r, p, s, t), -a(s, p, r, t), -a(s, r, p, t)]
                    if abs(sum(x)) > 1e-12 * max(map(abs, x)):
                        return where, 'relation', (p, r, s, t), x
        return None

    # SM input
    def sm_get(self, m):
        if m not in self.sm:
            r = self.rnd
            d = {}
            for b, ns in self.tab['sm'].items():
                if b == 'THETA' and m == 'notheta':
                    d.update({n: 0 for n in ns})
                    continue
                for n in ns:
                    d[n] = r.uniform(.1, 2)
            d['m2'] *= 7000
            for n in self.tab['yuk']:
                a = np.zeros((3, 3), complex)
                for k in np.ndindex(3, 3):
                    if r.random() < .7:
                        a[k] = r.gauss(0, 1) + (1j * r.gauss(0, 1) if m != 'real' else 0)
                d[n] = a
            self.sm[m] = d
        return self.sm[m]

    def sm_blocks(self, m):
        d = self.sm_get(m)
        out = {}
        for b, ns in self.tab['sm'].items():
            if not (b == 'THETA' and m == 'notheta'):
                out[b] = {(i + 1,): d[n] for i, n in enumerate(ns)}
        for n in self.tab['yuk']:
            out[n.upper()] = {(k[0] + 1, k[1] + 1): d[n][k].real for k in np.ndindex(3, 3) if d[n][k].real or m == 'notheta'}
            if m != 'real':
                out['IM' + n.upper()] = {(k[0] + 1, k[1] + 1): d[n][k].imag for k in np.ndindex(3, 3) if d[n][k].imag}
        return out

    def streams(self, blocks, smb, parts):
        """The file's blocks (parsed) and the SM ones, spread over `parts`
        streams, each a string or a file."""
        allb = {**blocks, **smb}
        names = list(allb)
        if parts == 3:
            groups = [[b for b in names if b in smb], [b for b in names if b in blocks and b != 'SCALES'], ['SCALES']]
        elif parts == 2:
            groups = [[b for b in names if b in smb], [b for b in names if b in blocks]]
        else:
            groups = [names]
        groups = [g for g in groups if g]
        self.rnd.shuffle(groups)
        out = []
        for g in groups:
            t = write({b: allb[b] for b in g}, self.rnd)
            out.append(io.StringIO(t) if self.rnd.random() < .3 else t)
        return self.rnd.choice([list, tuple])(out)

    def value(self, where, wc, i, scale):
        if (wc.eft, wc.basis) != ('SMEFT', 'Warsaw'):
            return where, 'basis', wc.eft, wc.basis
        if wc.scale != scale:
            return where, 'scale', wc.scale, scale
        want = self.nonzero(i)
        got = wc.dict
        m8 = max([abs(v) for k, v in want.items() if k.startswith('qqql')] + [0])
        for k in set(got) | set(want):
            x, y = got.get(k, 0), want.get(k, 0)
            if not abs(x - y) <= TOL * (abs(y) + (m8 if k.startswith('qqql') else 0)):
                return where, k, x, y
            if k not in want and not k.startswith('qqql'):
                return where, 'unexpected', k
        return None

    def run(self, hist):
        io_ = dsixtools.SMEFTio()
        blocks = None
        for n, o in enumerate(hist):
            at = (n, {k: v for k, v in o.items()})
            op = o['op']
            if op == 'new':
                io_ = dsixtools.SMEFTio()
            elif op == 'set':
                wc = self.wc(o['id'], o['scale'])
                before = copy.deepcopy(wc.values)
                if o['via'] == 'load':
                    io_.load_wcxf(wc.dump(fmt=self.rnd.choice(['yaml', 'json'])))
                elif o['high'] == 'none':
                    io_.set_initial_wcxf(wc)
                else:
                    io_.set_initial_wcxf(wc, scale_high=SCALES[o['high']])
                if wc.values != before:
                    return at, 'input changed'
                if io_.scale_in != SCALES[o['scale']]:
                    return at, 'scale_in', io_.scale_in
            elif op == 'dump':
                kw = {}
                if o['low'] != 'none':
                    kw['scale_out'] = SCALES[o['low']]
                if o['fmt'] != 'lha':
                    kw['fmt'] = o['fmt']
                if o['full']:
                    kw['skip_redundant'] = False
                if self.rnd.random() < .3:
                    st = io.StringIO()
                    io_.dump(io_.C_in, stream=st, **kw)
                    text = st.getvalue()
                else:
                    text = io_.dump(io_.C_in, **kw)
                if o['fmt'] == 'lha':
                    got = parse(text)
                else:
                    # YAML may contain its own tags for Python numbers: read with the library
                    got = structured(json.loads(text) if o['fmt'] == 'json' else dsixtools.load(text, fmt='yaml'))
                e = self.compare('file', got, o['want'])
                if e:
                    return at, e
                blocks = got
            elif op == 'write':
                f = o['want']
                blocks = {'SCALES': {(1,): float(SCALES[f['high']])}}
                for (b, k), v in self.lines(f['id'], f['unit'], f['full']).items():
                    blocks.setdefault(b, {})[k] = v
            elif op == 'wcxf2dsixtools':
                wc = self.wc(o['id'], o['scale'])
                before = copy.deepcopy(wc.values)
                if self.rnd.random() < .5:
                    st = io.StringIO()
                    dsixtools.wcxf2dsixtools(wc, stream=st)
                    text = st.getvalue()
                else:
                    text = dsixtools.wcxf2dsixtools(wc)
                if wc.values != before:
                    return at, 'input changed'
                e = self.compare('file', text, o['want'])
                if e:
                    return at, e
                blocks = parse(text)
            elif op == 'load':
                io_.load_initial(self.streams(blocks, self.sm_blocks(o['sm']), o['parts']))
                s = SCALES[o['file']['high']]
                if (io_.scale_in, io_.scale_high) != (s, s):
                    return at, 'scales', io_.scale_in, io_.scale_high
                for k, v in self.sm_get(o['sm']).items():
                    if not k.startswith('Theta') and np.max(np.abs(np.asarray(io_.C_in[k]) - v)) > TOL * np.max(np.abs(v)):
                        return at, 'sm', k, io_.C_in[k], v
                want = self.sm_blocks(o['sm'])
                sm = dsixtools.sm_lha2dict(dsixtools.load(write(want, self.rnd)))
                for k, v in self.sm_get(o['sm']).items():
                    if np.max(np.abs(np.asarray(sm[k]) - v)) > TOL * np.max(np.abs(v)):
                        return at, 'sm', k, sm[k], v
                back = structured(dsixtools.sm_dict2lha(sm))
                for b, ls in want.items():
                    for k, v in ls.items():
                        if not abs(back.get(b, {}).get(k, 0) - v) <= TOL * abs(v):
                            return at, 'sm out', b, k
                for b, ls in back.items():
                    for k, v in ls.items():
                        if v != 0 and k not in want.get(b, {}):
                            return at, 'sm out', b, k
            elif op == 'bad':
                smb = self.sm_blocks('full')
                bl = dict(blocks)
                if o['what'] == 'scale':
                    bl.pop('SCALES')
                else:
                    smb = {b: v for b, v in smb.items() if b not in ('GAUGE', 'SCALAR')}
                state = (io_.C_in, copy.deepcopy(io_.C_in), io_.scale_in, io_.scale_high)
                try:
                    io_.load_initial(self.streams(bl, smb, 1))
                except Exception:
                    self.expected_error += 1
                else:
                    return at, 'no error'
            elif op == 'export':
                s = SCALES[o['scale']]
                c0 = copy.deepcopy(io_.C_in)
                if self.rnd.random() < .3:
                    wc = io_.get_wcxf(io_.C_in, s)
                elif self.rnd.random() < .3:
                    st = io.StringIO()
                    io_.dump_wcxf(io_.C_in, s, fmt=o['fmt'], stream=st)
                    wc = wcxf.WC.load(st.getvalue())
                else:
                    wc = wcxf.WC.load(io_.dump_wcxf(io_.C_in, s, fmt=o['fmt']))
                e = self.value('export', wc, o['id'], s)
                if e:
                    return at, e
                for k, v in c0.items():
                    if not np.array_equal(v, io_.C_in[k]):
                        return at, 'export changed', k
            elif op == 'dsixtools2wcxf':
                st = self.streams(blocks, self.sm_blocks(o['sm']), o['parts'])
                if self.rnd.random() < .5:
                    out = io.StringIO()
                    dsixtools.dsixtools2wcxf(st, stream=out)
                    text = out.getvalue()
                else:
                    text = dsixtools.dsixtools2wcxf(st)
                e = self.value('dsixtools2wcxf', wcxf.WC.load(text), o['id'], SCALES[o['scale']])
                if e:
                    return at, e
        return None


WORLD = None


def job(a):
    seed, hist = a
    return Case(seed).run(hist)


def single(key):
    """one coefficient there and back, alone in its file"""
    c = Case(1)
    c.content['x'] = {key: 2e-9 if c.real(key) else 2e-9 - 3e-9j}
    f = dict(id='x', unit='c', high='c', low='none', full=False, sm='none')
    text = dsixtools.wcxf2dsixtools(c.wc('x', 'c'))
    e = c.compare('single', text, f)
    if e:
        return key, e
    st = c.streams(parse(text), c.sm_blocks('full'), 2)
    e = c.value('single', wcxf.WC.load(dsixtools.dsixtools2wcxf(st)), 'x', SCALES['c'])
    return (key, e) if e else None


def run(c):
    global WORLD
    r = tlc.run('DsixIO', 'SPECIFICATION Spec\nCONSTANTS Ids = {"i", "j"}\n Scales = {"a", "b"}\n Sms = {"m"}\nINVARIANT Units\nPROPERTY RoundTrip\nPOSTCONDITION Out\n', expect_out=True)
    c.model(r)
    fr, T, P8, ops = flavour.tables()
    ids = ['empty', 'sparse', 'dense', 'class8', 'mix1', 'mix2']
    q = lambda xs: '{' + ', '.join(f'"{x}"' for x in xs) + '}'
    depth = 12
    g = tlc.run('DsixIOGen', f'SPECIFICATION GSpec\nCONSTANTS Ids = {q(ids)}\n Scales = {q(SCALES)}\n Sms = {q(["full", "real", "notheta"])}\n Depth = {depth}\n'
                'INVARIANTS Units Emit\n', workers=1, simulate=c.n(120, 3000), depth=depth + 2, seed=c.seed)
    c.model(g)
    WORLD = (T, P8, ops, r.data)
    hists = tlc.printed(g.out, 'BEH')
    jobs = [(c.seed * 100003 + i, h) for i, h in enumerate(hists)]
    for h, e in zip(hists, results(c, 'history', pmap(job, jobs))):
        c.trace()
        c.sample([o['op'] for o in h])
        if e:
            c.violation('history', dict(history=h, error=e))
    keys = list(wcxf.Basis['SMEFT', 'Warsaw'].all_wcs)
    if not c.thorough:
        reps = {}
        random.Random(c.seed).shuffle(keys)
        for k in keys:
            reps.setdefault(k.partition('_')[0], []).append(k)
        keys = [k for ks in reps.values() for k in ks[:6]]
    for k, e in zip(keys, results(c, 'single', pmap(single, keys))):
        c.count('single')
        if e:
            c.violation('single/' + k, e)
