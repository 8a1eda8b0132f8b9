"""C10: EOS export."""
import copy
import os
import random
import shutil
import tempfile
import yaml
import tlc
from lib import close
from wilsonlib import tla
from wilson import wcxf
from wilson.wcxf.converters import eos

VALUES = {'x': (0.37, -0.21), 'y': (-1.5, 0.8), 'z': (0.37, 0.4), 'w': (0.0, -0.21), 'r': (2.5e-3, 0.0)}
NUM = {'0': 0.0}
for k, (a, b) in VALUES.items():
    NUM[k + 're'], NUM[k + 'im'] = a, b
PAIRS = [('0', '0')] + [(k + 're', k + 'im') for k in VALUES]
# z has the same real part as x, w the same imaginary part
NUM['-xre'], NUM['-xim'], NUM['xre+'] = -NUM['xre'], -NUM['xim'], NUM['xre'] * (1 + 1e-7)
# pairs of equal modulus, of equal real or imaginary part, and nearly equal
PAIRS = [('0', '0'), ('xre', 'xim'), ('yre', 'yim'), ('xre', 'zim'), ('0', 'xim'), ('rre', '0'),
         ('xre', '-xim'), ('-xre', '-xim'), ('xim', 'xre'), ('xre+', 'xim')]
OPS = ['c7', "c7'", 'c9', "c9'", 'c10', 'cSL', 'cSR', 'cVL', 'cVR', 'cT', 'cS', "cS'", 'c1', 'c8(1)', 'C[2]', 'c.T', 'cT5', 'Sff', 'Rex', 'cIm']
NEUTRAL = ['b->s', 'b->see', 'b->smumu', 'sb', 'b->d', 'sbnunu', 'b->senue', 'cmu', 'b->sgamma', 'b->smunumu']
CHARGED = ['b->u{}', 'b->c{}', 'u{}', 's->u{}', 'cd{}', 'ub{}']


def setup(c):
    body = 'MC_V == {' + ', '.join('<<"%s", "%s">>' % p for p in PAIRS) + '}\n'
    r = tlc.run('MC', 'SPECIFICATION Spec\nCONSTANT Values <- MC_V\n', files={'MC.tla': tlc.model('MC', body, 'Eos')}, expect_out=True)
    c.model(r, 'cases')
    return r.data


def number(v, r):
    """A WCxf value for a pair of tokens."""
    a, b = NUM[v[0]], NUM[v[1]]
    form = r.randrange(4)
    if b == 0 and form < 2:
        return a
    if form == 2:
        return {'Re': repr(a), 'Im': repr(b)}
    if a == 0 and form == 3:
        return {'Im': b}
    return {'Re': a, 'Im': b}


def instance(case, r, used):
    """EOS name, SM entry and coefficients for a case."""
    while True:
        op = r.choice(OPS)
        tmpl = r.choice(NEUTRAL if case['lep'] == 'none' else CHARGED)
        if (tmpl, op) not in used:
            used.add((tmpl, op))
            break
    part = case['part']
    shown = op if part == 'plain' else f'{part}{{{op}}}'
    vals = {}
    if case['lep'] == 'none':
        name = f'{tmpl}::{shown}'
        if case['own'] != ['absent']:
            vals[f'{tmpl}::{op}'] = number(case['own'], r)
    else:
        name = f'{tmpl.format("lnu")}::{shown}'
        for x, l in (('e', 'enue'), ('m', 'munumu')):
            if case[x] != ['absent']:
                vals[f'{tmpl.format(l)}::{op}'] = number(case[x], r)
        if r.random() < .5:
            vals[f'{tmpl.format("taunutau")}::{op}'] = {'Re': 7.7, 'Im': 3.3}
    c = r.choice([0.0, 1.0, -0.33726473, 4.27342842, 1e-5, -3])
    entry = {'central': c, 'min': c - r.random(), 'max': c + r.random()}
    if r.random() < .3:
        entry['latex'] = '$C$'
    return name, entry, vals


def run_set(c, chosen, r):
    sm, vals, want, used = {}, {}, {}, set()
    fail = False
    for row in chosen:
        name, entry, v = instance(row['c'], r, used)
        sm[name] = entry
        vals.update(v)
        if row['r']['ok']:
            want[name] = entry['central'] + NUM[row['r']['v']]
        else:
            fail = True
            want[name] = None
    for i in range(r.randrange(4)):     # coefficients without a parameter
        vals[f'b->x::dec{i}'] = {'Re': 11.0 + i, 'Im': 5.0}
    wc = wcxf.WC('WET', 'EOS', 4.2, vals)
    sm0, vals0 = copy.deepcopy(sm), copy.deepcopy(vals)
    for name, w in want.items():
        try:
            got = eos.get_eos_np(name, wc)
            err = None
        except ValueError as e:
            err = e
        if (w is None) != (err is not None):
            c.violation('eos: error for ' + ('universal' if w is not None else 'non-universal') + ' coefficients',
                        dict(name=name, vals=vals, err=repr(err)))
        elif w is not None and not close(got, w - sm[name]['central'], 1e-9, 1e-9):
            c.violation('eos: new-physics part', dict(name=name, vals=vals, got=got, want=w - sm[name]['central']))
    try:
        out = eos.wcxf2eos(wc, sm)
        err = None
    except ValueError as e:
        err = e
    if fail != (err is not None):
        c.violation('eos: export ' + ('accepted' if fail else 'refused'), dict(sm=sm, vals=vals, err=repr(err)))
    elif not fail:
        if list(out) != list(sm):
            c.violation('eos: exported names', dict(want=list(sm), got=list(out)))
        for name, w in want.items():
            for q in ('central', 'min', 'max'):
                if name in out and not close(out[name].get(q, float('nan')), w, 1e-12, 1e-13):
                    c.violation('eos: exported value', dict(name=name, q=q, want=w, got=out[name].get(q), sm=sm[name], vals=vals))
    if sm != sm0 or wc.values != vals0:
        c.violation('eos: inputs modified', dict(sm=sm, vals=vals))


META = {'none': None, 'true': {'wcxf-relevant': True, 'title': 't'}, 'false': {'wcxf-relevant': False},
        'noflag': {'title': 't'}, 'null': {'wcxf-relevant': None}}


def directories(c, files, r, n):
    for _ in range(n):
        top = tempfile.mkdtemp(prefix='wilson_eos_')
        try:
            want = {}
            for i, row in enumerate(r.sample(files, r.randrange(0, 8)) + r.choices([f for f in files if f['r']], k=r.randrange(3))):
                d = {}
                for k in range(r.randrange(0, 4)):
                    d[f'p{i}->{k}::Re{{c{k}}}'] = {'central': r.random(), 'min': -1.0, 'max': 1.0}
                if row['r']:
                    want.update(copy.deepcopy(d))
                meta = META[row['f']['meta']]
                if meta is not None:
                    d = dict(d, **{'@metadata@': meta}) if r.random() < .5 else {'@metadata@': meta, **d}
                elif not d:
                    d = {'other': 1}
                with open(os.path.join(top, f'f{i}{row["f"]["ext"]}'), 'w') as f:
                    yaml.dump(d, f)
            os.mkdir(os.path.join(top, 'sub'))
            got = eos.get_sm_wcs(top if r.random() < .5 else top + '/')
            if dict(got) != want:
                c.violation('eos: Standard Model files', dict(want=want, got=got))
            c.trace()
        finally:
            shutil.rmtree(top, ignore_errors=True)


def run(c):
    tab = setup(c)
    r = random.Random(c.seed)
    cases = tab['cases']
    good = [x for x in cases if x['r']['ok']]
    for x in cases:                    # every case alone
        for _ in range(c.n(3, 30)):
            run_set(c, [x], r)
            c.trace()
    for _ in range(c.n(400, 8000)):     # and in company
        run_set(c, r.sample(good, r.randrange(2, 14)), r)
        c.trace()
        run_set(c, r.sample(cases, r.randrange(2, 8)), r)
        c.trace()
    directories(c, tab['files'], r, c.n(60, 800))
    c.cov['cases'] = len(cases)
    c.sample(cases[0])
    c.sample([x for x in cases if not x['r']['ok']][0])
    # the files shipped with the library
    data = os.path.join(os.environ.get('WILSON_REPO', '/repo'), 'wilson', 'wcxf', 'data')
    sm = eos.get_sm_wcs(data)
    want = {}
    for f in ('eos_btos.yaml', 'eos_btou.yaml'):
        with open(os.path.join(data, f)) as fh:
            want.update({k: v for k, v in yaml.safe_load(fh).items() if k != '@metadata@'})
    if sm != want:
        c.violation('eos: shipped files', dict(want=len(want), got=len(sm)))
