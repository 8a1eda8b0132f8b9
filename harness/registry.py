"""Replay of histories of module Registry on wilson.wcxf's classes."""
import json
import io
import random
import tlc
from lib import pmap, results
from wilsonlib import tla
from wilson import wcxf

KIND = {'EFT': wcxf.EFT, 'Basis': wcxf.Basis, 'Translator': wcxf.Translator, 'Matcher': wcxf.Matcher}
SENT = {'EFT': ('WET',), 'Basis': ('WET', 'JMS'), 'Translator': ('WET', 'JMS', 'flavio'),
        'Matcher': ('SMEFT', 'Warsaw', 'WET', 'JMS')}
# names that begin alike or differ in case only
EFTS, BASES = ['E1', 'E12', 'e1'], ['b1', 'b12', 'B1']


def key(kind, n):
    n = tuple(n)
    return n[0] if kind == 'EFT' else n


def layouts(wide):
    secs = ['s1', 's2', 's3']
    ws = [[], ['c1'], ['c1', 'c2'], ['c3']] if wide else [['c1'], ['c2', 'c3'], []]
    out = [[]]
    for s in secs:
        out += [[dict(s=s, w=w)] for w in ws]
    for s in secs:
        for t in secs:
            if s != t:
                out += [[dict(s=s, w=w), dict(s=t, w=v)] for w in ws for v in ws]
    return out


def consts(efts, bases, lays, maxobj, active=tuple(KIND)):
    esec = '{' + ', '.join(tla(set(x)) for x in (['s1', 's2', 's3'], ['s1', 's2'], ['s3'])) + '}'
    pre = '[' + ', '.join(f'{k} |-> {tla([list(v)])}' for k, v in SENT.items()) + ']'
    body = f'MC_L == {{{", ".join(tla(x) for x in lays)}}}\nMC_S == {esec}\nMC_P == {pre}\n'
    return body, (f'CONSTANTS\n EftNames = {tla(set(efts))}\n BasisNames = {tla(set(bases))}\n Layouts <- MC_L\n'
                  f' EftSectors <- MC_S\n Pre <- MC_P\n Active = {tla(set(active))}\n MaxObj = {maxobj}\n')


def model_check(c, efts, bases, lays, maxobj, what, active=tuple(KIND)):
    body, cs = consts(efts, bases, lays, maxobj, active)
    r = tlc.run('MC', 'SPECIFICATION Spec\n' + cs + 'INVARIANTS Unique Typed SectorsOnce Inherits\n'
                'PROPERTIES ObjectsConstant OneKind LatestWins\n',
                files={'MC.tla': tlc.model('MC', body, 'Registry')}, workers=8)
    c.model(r, what)


def behaviours(c, focus, num, depth, wide, seed):
    body, cs = consts(EFTS, BASES, layouts(wide), depth)
    r = tlc.run('MC', 'SPECIFICATION GSpec\n' + cs + f' Depth = {depth}\n Focus = "{focus}"\n'
                'INVARIANTS Emit Unique Typed SectorsOnce\n', files={'MC.tla': tlc.model('MC', body, 'RegistryGen')},
                workers=1, simulate=num, depth=depth + 3, seed=seed, timeout=800)
    c.model(r)
    return tlc.printed(r.out, 'BEH')[:num]


def mkdata(w, rnd):
    out = {}
    for x in w:
        out[x] = rnd.choice([None, {}, {'real': True}, {'tex': r'\alpha'}])
    return out


def attempt(f):
    try:
        return 'ok', f()
    except Exception as e:
        return type(e).__name__, e


def do(a, rnd, objs):
    """Perform one action; returns (outcome, object)."""
    if a['a'] == 'del':
        cls, k = KIND[a['k']], key(a['k'], a['n'])
        if rnd.random() < .5:
            return attempt(lambda: cls.del_instance(k))

        def f():
            del cls[k]
        return attempt(f)
    if a['a'] == 'clear':
        return attempt(KIND[a['k']].clear_all)
    n = a['n']
    if a['a'] == 'EFT':
        d = dict(eft=n[0], sectors={s: {} for s in sorted(a['s'])})
    elif a['a'] == 'Basis':
        d = dict(eft=n[0], basis=n[1], sectors={x['s']: mkdata(x['w'], rnd) for x in a['l']})
        if a['p'] != '-':
            d['parent'] = a['p']
    elif a['a'] == 'Translator':
        fun = lambda *x, **y: {}
        if rnd.random() < .5:
            return attempt(lambda: wcxf.Translator(*n, fun))
        r, f = attempt(lambda: wcxf.translator(*n)(fun))
        return r, None
    else:
        fun = lambda *x, **y: {}
        if rnd.random() < .5:
            return attempt(lambda: wcxf.Matcher(*n, fun))
        r, f = attempt(lambda: wcxf.matcher(*n)(fun))
        return r, None
    cls = KIND[a['a']]
    m = rnd.randrange(3)
    if m == 0:
        return attempt(lambda: cls(**d))
    if m == 1:
        return attempt(lambda: cls.load(json.dumps(d)))
    return attempt(lambda: cls.load(io.StringIO(json.dumps(d))))


def replay(args):
    beh, seed, focus = args
    rnd = random.Random(seed)
    objs = {}                      # id -> object
    created = 0
    where = 'start'

    def bad(what, **kw):
        return [('registry: ' + what if focus == 'maps' else 'basis: ' + what, dict(kw, at=where, beh=[h['act'] for h in beh[:n + 1]]))]
    pre = {k: KIND[k].get_instance(key(k, v)) for k, v in SENT.items()}
    for n, h in enumerate(beh):
        a = h['act']
        where = n
        got, o = do(a, rnd, objs)
        if got != h['resp']:
            return bad('outcome', want=h['resp'], got=got)
        if got == 'ok' and a['a'] in KIND:
            created += 1
            if o is None:
                o = KIND[a['a']][key(a['a'], a['n'])]
            objs[created] = o
        m = h['maps']
        for k, cls in KIND.items():
            want = {tuple(e['name']): e['id'] for e in m['maps'][k]}
            universe = {'EFT': [(e,) for e in EFTS], 'Basis': [(e, b) for e in EFTS for b in BASES],
                        'Translator': [(e, b, d) for e in EFTS for b in BASES for d in BASES],
                        'Matcher': [(e, b, f, d) for e in EFTS for b in BASES for f in EFTS for d in BASES]}[k]
            for name in universe + [SENT[k]]:
                nm = key(k, name)
                r, x = attempt((lambda: cls[nm]) if rnd.random() < .5 else (lambda: cls.get_instance(nm)))
                if name in want:
                    w = pre[k] if want[name] == 0 else objs.get(want[name])
                    if r != 'ok' or x is not w:
                        return bad('look-up', kind=k, name=name, want=want[name], got=r)
                elif r != 'KeyError':
                    return bad('look-up of a missing name', kind=k, name=name, got=r)
            # no other entries of the theories of the universe
        for i, x in objs.items():
            if isinstance(x, wcxf.EFT):
                if list(x.known_bases) != m['bases'][x.eft]:
                    return bad('known_bases', eft=x.eft, want=m['bases'][x.eft], got=list(x.known_bases))
                if [list(t) for t in x.known_translators] != m['trans'][x.eft]:
                    return bad('known_translators of EFT', eft=x.eft, want=m['trans'][x.eft], got=x.known_translators)
            if isinstance(x, wcxf.Basis):
                kt = x.known_translators
                ft = {(e, b): (f, t) for e, b, f, t in m['ft']}[x.eft, x.basis]
                if [list(t) for t in kt['from']] != ft[0] or [list(t) for t in kt['to']] != ft[1]:
                    return bad('known_translators of basis', basis=[x.eft, x.basis], want=ft, got=kt)
        if focus == 'bases':
            early = rnd.random() < .5
            for b in h['bases']:
                x = objs[b['id']]
                if early:
                    list(x.all_wcs)
                if list(x.sectors) != [s['s'] for s in b['data']] or \
                        any(list(x.sectors[s['s']]) != s['w'] for s in b['data']):
                    return bad('sectors', id=b['id'], want=b['data'], got={k: list(v) for k, v in x.sectors.items()})
                if list(x.all_wcs) != b['all']:
                    return bad('all_wcs', id=b['id'], want=b['all'], got=x.all_wcs)
                r, _ = attempt(x.validate)
                if r != b['valid']:
                    return bad('validate', id=b['id'], want=b['valid'], got=r, data=b['data'])
    return []


def run(c, focus):
    import os
    import shutil
    import tempfile
    top = tempfile.mkdtemp(prefix='wilson_registry_')
    os.environ['TMPDIR'] = top
    tempfile.tempdir = top
    try:
        if focus == 'maps':
            model_check(c, ['E1', 'E2'], ['b1'], [[dict(s='s1', w=['c1'])]], c.n(2, 3), 'registries, two theories')
            model_check(c, ['E1'], ['b1', 'b2'], [[dict(s='s1', w=['c1'])]], 2, 'registries, one theory')
            behs = behaviours(c, 'maps', c.n(300, 5000), 24, False, c.seed * 11 + 1)
            behs += behaviours(c, 'maps', c.n(40, 400), 80, False, c.seed * 11 + 2)
        else:
            model_check(c, ['E1'], ['b1', 'b2', 'b3'], layouts(False)[:c.n(4, 8)], 3, 'inheritance', ('Basis',))
            behs = behaviours(c, 'bases', c.n(300, 5000), 14, True, c.seed * 11 + 3)
            behs += behaviours(c, 'bases', c.n(30, 300), 40, True, c.seed * 11 + 4)
        res = results(c, 'registry', pmap(replay, [(b, c.seed * 100000 + i, focus) for i, b in enumerate(behs)], fresh=True))
    finally:
        tempfile.tempdir = None
        os.environ.pop('TMPDIR')
        shutil.rmtree(top, ignore_errors=True)
    c.trace(len(behs))
    c.count('steps', sum(map(len, behs)))
    c.sample([h['act'] for h in behs[0][:8]])
    for r in res:
        for k, d in r or []:
            c.violation(k, d)
