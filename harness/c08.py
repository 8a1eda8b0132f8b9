"""C08: dumping, loading and converting WCxf objects."""
import copy
import io
import json
import os
import random
import shutil
import tempfile
import yaml
import tlc
from lib import pmap, results
from wilsonlib import tla
from wilson import wcxf
from wilson.run.smeft import SMEFT
from wilson.run.wet import WETrunner
from wilson.wcxf.converters.yamljson import convert_json, convert_yaml

CONTENTS = ['EFT1', 'EFT2', 'Basis1', 'Basis2', 'Basis3', 'WC1', 'WC2', 'WC3', 'SMEFT1', 'WET1', 'WET2', 'WET3', 'WET4']
NUMBERS = ['SMEFT1', 'WET1', 'WET2', 'WET3', 'WET4']
TEXTS = ['plain', 'ünïcode ν→µ', r'$\frac{4 G_F}{\sqrt{2}} O_{9}^{bs}$', 'two\nlines\n', '', ' leading', 'null', 'true',
         '1e-9', '2020-01-01', 'a: b # c', "it's \"quoted\"", '0x1f', '12_3', '- x', '@at', '%p', '1:20', '\ttab', 'no', '~',
         'a' * 200 + ' ' + 'b' * 90]


def anything(r, depth=0):
    k = r.randrange(9 if depth < 2 else 6)
    if k == 0:
        return r.choice(TEXTS)
    if k == 1:
        return r.choice([0, 1, -17, 2 ** 40])
    if k == 2:
        return r.choice([0.0, 1e-9, -2.5, 6.02e23, 1 / 3, 1e300, 5e-324, -1e-12, 1e22])
    if k == 3:
        return r.choice([True, False])
    if k == 4:
        return None
    if k == 5:
        return r.choice([[], {}])
    if k in (6, 7):
        return {r.choice(TEXTS) or 'k': anything(r, depth + 1) for _ in range(r.randrange(4))}
    return [anything(r, depth + 1) for _ in range(r.randrange(4))]


def extra(r, names=('metadata', 'note', 'refs', 'version', 'x_y')):
    return {n: anything(r) for n in names if r.random() < .4}


def wcdef(r):
    return r.choice([None, {}, {'real': True}, {'tex': r.choice(TEXTS)}, {'tex': r'\beta', 'real': False},
                     {'tags': anything(r, 1)}])


def content(c, r):
    """(class, keyword arguments)"""
    secs = ['sb', 'dF=0', 'no', '1', 'sdsd', 'mue e']
    if c.startswith('EFT'):
        return wcxf.EFT, dict(extra(r), eft='IO' + c, sectors={s: r.choice([{}, {'dof': '8'}, None, {'x': anything(r, 1)}])
                                                                for s in secs if r.random() < .6})
    if c.startswith('Basis'):
        d = dict(extra(r), eft='IOE', basis='IO' + c,
                 sectors={s: {f'{s}_c{i}': wcdef(r) for i in range(r.randrange(4))} for s in secs if r.random() < .6})
        if c == 'Basis3':
            d['parent'] = 'IOparent'
        return wcxf.Basis, d
    if c.startswith('SMEFT'):
        ks = wcxf.Basis['SMEFT', 'Warsaw'].all_wcs
        return wcxf.WC, dict(extra(r), eft='SMEFT', basis='Warsaw', scale=r.choice([91.1876, 500, 1e4]),
                             values={k: r.choice([1e-9, {'Re': '2e-9'}, -3e-10]) for k in r.sample(ks, 6)})
    if c.startswith('WET'):
        b = 'flavio' if c == 'WET2' else 'JMS'
        e = {'WET3': 'WET-3', 'WET4': 'WET-4'}.get(c, 'WET')
        ks = [k for s, x in wcxf.Basis[e, b].sectors.items() if s in ('sb', 'mue', 'cu', 'sd', 'sdsd', 'sbsb', 'sbnunu', 'dF=0') for k in x]
        return wcxf.WC, dict(extra(r), eft=e, basis=b, scale=r.choice([160, 91.1876, 4.2] if e == 'WET' else [2, 1.3]),
                             values={k: r.choice([1e-9, {'Re': '2e-9'}, -3e-10, {'Re': 1, 'Im': 1}]) for k in r.sample(ks, 8)})
    num = lambda: r.choice([0, 1, -3, 0.1, -2.5e-9, 1e-300, 6.02e23, '1e-9', '0.5', '3', {'Re': 1.5}, {'Im': '-2'},
                            {'Re': 1e-9, 'Im': -0.25}, {'Re': '0.1', 'Im': 0}, {}])
    return wcxf.WC, dict(extra(r), eft='WET', basis='flavio', scale=r.choice([4.2, '160', 91.1876, 2, 1e-3]),
                         values={k: num() for k in ('C9_bsmumu', 'C10_bsmumu', 'CVLL_bsbs', 'C7_bs', 'no', '1', 'ü') if r.random() < .6})


def public(o):
    return {k: v for k, v in vars(o).items() if not k.startswith('_')}


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bool) or x is None:
        return x
    for t in (str, int, float):
        if isinstance(x, t):        # strings and floats of NumPy, too
            return t(x)
    return x


def calc(x, f, r):
    """A calculation with a WC object; None if there is none."""
    if f == 'translate':
        bs = [b for b in ('flavio', 'JMS', 'EOS', 'Bern', 'Warsaw up', 'Warsaw', 'formflavor', 'FlavorKit', 'Higgs-Warsaw up')
              if b != x.basis and (x.eft, x.basis, b) in wcxf.Translator.instances]
        return x.translate(r.choice(bs)) if bs else None
    if f == 'match':
        ts = [(m.to_eft, m.to_basis) for m in wcxf.Matcher.instances.values() if (m.from_eft, m.from_basis) == (x.eft, x.basis)]
        return x.match(*r.choice(sorted(ts))) if ts else None
    if x.eft == 'SMEFT' and x.basis == 'Warsaw':
        return SMEFT(x).run(r.choice([91.1876, 250.]), accuracy='leadinglog')
    if x.basis == 'JMS' and x.eft in ('WET', 'WET-4', 'WET-3'):
        return WETrunner(x).run(r.choice([1.3, 2., 4.2]))
    return None


def same(a, b):
    """Equality including the type of scalars (1 and True and 1.0 differ)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def parse(text, fmt):
    return plain(json.loads(text) if fmt == 'json' else yaml.safe_load(text))


def use(o, r):
    if isinstance(o, wcxf.WC):
        fs = [lambda: o.dict, lambda: o.df, lambda: o['C9_bsmumu'], lambda: str(o), lambda: repr(o), lambda: hash(o),
              lambda: o._repr_html_(), lambda: o.translate(o.basis), lambda: o.match(o.eft, o.basis)]
    elif isinstance(o, wcxf.Basis):
        fs = [lambda: o.all_wcs, lambda: str(o) if all(isinstance(w, (dict, type(None))) for s in o.sectors.values() for w in s.values())
              and isinstance(getattr(o, 'metadata', {}), dict) and isinstance(getattr(o, 'metadata', {}).get('description', ''), str) else None,
              lambda: repr(o), lambda: o.known_translators]
    else:
        fs = [lambda: o.known_bases, lambda: o.known_translators]
    r.shuffle(fs)
    for f in fs[:r.randrange(1, len(fs) + 1)]:
        f()


def replay(args):
    beh, seed, top = args
    r = random.Random(seed)
    d = tempfile.mkdtemp(dir=top)
    wcxf.EFT(eft='IOE', sectors={})
    wcxf.Basis(eft='IOE', basis='IOparent', sectors={'sb': {'p1': None}, 'par': {'p2': {'real': True}}})
    art = []        # (kind, cls, expected public content, thing, fmt)
    n = -1

    def bad(what, **kw):
        return [(what, dict(kw, beh=beh[:n + 1]))]
    for n, h in enumerate(beh):
        op = h['op']
        if op == 'new':
            cls, kw = content(h['c'], r)
            want = copy.deepcopy(kw)
            if cls is wcxf.WC:
                want['scale'] = float(want['scale'])
            if kw.get('parent'):
                want['sectors'] = {'sb': {'p1': None}, 'par': {'p2': {'real': True}}, **want['sectors']}
            o = cls(**copy.deepcopy(kw))
            if not same(plain(public(o)), want):
                return bad('constructor changes content', want=want, got=public(o))
            art.append(('obj', cls, want, o, '-'))
            continue
        kind, cls, want, x, fmt = art[h['i'] - 1]
        if op == 'calc':
            o = calc(x, h['f'], r)
            if not same(plain(public(x)), want):
                return bad('a calculation changes its input', want=want, got=public(x))
            if o is None:           # nothing to calculate: the same content
                art.append(('obj', cls, want, copy.deepcopy(x), '-'))
            else:
                art.append(('obj', cls, plain(public(o)), o, '-'))
        elif op == 'use':
            use(x, r)
            if not same(plain(public(x)), want):
                return bad('using an object changes its content', want=want, got=public(x))
        elif op == 'dump':
            f = r.choice([h['f'], h['f'].upper()])
            kw = {} if f == 'json' and r.random() < .5 else {'fmt': f}
            if r.random() < .2:
                kw.update({'indent': 4} if h['f'] == 'json' else {'default_flow_style': True})
            if h['t'] == 'string':
                t = x.dump(**kw)
            elif h['t'] == 'stream':
                s = io.StringIO()
                x.dump(s, **kw)
                t = s.getvalue()
            else:
                p = os.path.join(d, str(n))
                with open(p, 'w') as fh:
                    x.dump(stream=fh, **kw)
                with open(p) as fh:
                    t = fh.read()
            try:
                got = parse(t, h['f'])
            except Exception as e:
                return bad('dumped text cannot be parsed', text=t[:500], err=repr(e))
            if not same(got, want):
                return bad('dumped text has different content', fmt=h['f'], want=want, got=got)
            if not same(plain(public(x)), want):
                return bad('dumping changes the object', want=want, got=public(x))
            art.append(('text', cls, want, t, h['f']))
        elif op == 'load':
            if h['s'] == 'string':
                o = cls.load(x)
            elif h['s'] == 'stream':
                o = cls.load(io.StringIO(x))
            else:
                p = os.path.join(d, str(n))
                with open(p, 'w') as fh:
                    fh.write(x)
                with open(p) as fh:
                    o = cls.load(fh)
            if type(o) is not cls or not same(plain(public(o)), want):
                return bad('loaded object has different content', fmt=fmt, want=want, got=public(o), text=x[:1500])
            if cls is wcxf.WC and o.dict != wcxf.WC(**copy.deepcopy(want)).dict:
                return bad('loaded object has different numbers')
            art.append(('obj', cls, want, o, '-'))
        elif op in ('tojson', 'toyaml'):
            s = io.StringIO()
            f = convert_json if op == 'tojson' else convert_yaml
            rc = f(io.StringIO(x), s)
            t = s.getvalue()
            if rc:
                return bad('converter fails', op=op, rc=rc, text=x[:500])
            fm = op[2:]
            try:
                got = parse(t, fm)
            except Exception as e:
                return bad('converted text cannot be parsed', text=t[:500], err=repr(e))
            if not same(got, parse(x, fmt)):
                return bad('converter changes content', op=op, want=parse(x, fmt), got=got)
            art.append(('text', cls, want, t, fm))
        elif op == 'baddump':
            try:
                x.dump(fmt=r.choice(['xml', 'jsn', '', 'toml', 'yml', 'json5']))
                return bad('unknown format accepted')
            except ValueError:
                pass
        elif op == 'badtoyaml':
            try:
                json.loads(x)
                continue       # text is valid JSON as well
            except ValueError:
                pass
            s = io.StringIO()
            rc = convert_yaml(io.StringIO(x), s)
            if rc != 1 or s.getvalue():
                return bad('JSON converter accepts YAML', rc=rc)
            rc = convert_json(io.StringIO('{a: [1, '), s)
            if rc != 1 or s.getvalue():
                return bad('YAML converter accepts garbage', rc=rc)
    return []


def run(c):
    cfg = f'CONSTANTS\n Contents = {tla(set(CONTENTS[:2]))}\n Numbers = {tla(set(CONTENTS[:1]))}\n MaxArt = {c.n(4, 5)}\n MaxDerived = 2\n'
    r = tlc.run('Wcxfio', 'SPECIFICATION Spec\n' + cfg + 'INVARIANT Typed\nPROPERTIES Constant Derived\n', workers=8)
    c.model(r, 'small')
    n, depth = c.n(1200, 12000), 16
    cfg = f'CONSTANTS\n Contents = {tla(set(CONTENTS))}\n Numbers = {tla(set(NUMBERS))}\n MaxArt = 12\n MaxDerived = 3\n Depth = {depth}\n'
    r = tlc.run('WcxfioGen', 'SPECIFICATION GSpec\n' + cfg + 'INVARIANTS Emit Typed\n', workers=1, simulate=n, depth=depth + 3,
                seed=c.seed * 17 + 3, timeout=800)
    c.model(r)
    behs = tlc.printed(r.out, 'BEH')
    top = tempfile.mkdtemp(prefix='wilson_io_')
    try:
        res = results(c, 'wcxf io', pmap(replay, [(b, c.seed * 10000 + i, top) for i, b in enumerate(behs)]))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    c.trace(len(behs))
    c.count('steps', sum(map(len, behs)))
    c.sample(behs[0])
    for x in res:
        for k, d in x or []:
            c.violation(k, d)
