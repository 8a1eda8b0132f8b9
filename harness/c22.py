"""C22: the command line tools (module Cli)."""
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import yaml
import boot
import inputs
import tlc
from lib import pmap, results
from wilsonlib import tla
from wilson import wcxf
from wilson.wcxf.converters import dsixtools, eos
from c20 import parse as parse_lha

REPO = os.environ.get('WILSON_REPO', '/repo')
SCALES = {'SMEFT': [91.1876, 160, 1000, 1e4], 'WET': [160, 91.1876, 4.2], 'WET-4': [4.2, 2], 'WET-3': [1.3, 2]}
TOL = 1e-11


def F(k, e='none', b='none', flaw='none', form='json'):
    return dict(k=k, eft=e, basis=b, flaw=flaw, form=form)


def contents():
    out = []
    for form in ('json', 'yaml'):
        for e, bs in (('SMEFT', ['Warsaw', 'Warsaw', 'Warsaw up', 'Higgs-Warsaw up']), ('WET', ['JMS', 'flavio', 'EOS', 'Bern', 'FlavorKit']),
                      ('WET-4', ['JMS', 'flavio']), ('WET-3', ['JMS', 'Bern'])):
            out += [F('wc', e, b, form=form) for b in bs]
        out += [F('wc', 'WET', 'EOS', 'lfnu', form)]
        out += [F('wc', 'WET', 'flavio', fl, form) for fl in ('key', 'noeft', 'nobasis', 'noscale', 'list')]
        out += [F('wc', 'SMEFT', 'Warsaw', 'key', form)]
        out += [F('eft', 'CLIeft', form=form)]
        out += [F('basis', 'WET', 'CLIbasis', fl, form) for fl in ('none', 'none', 'sector', 'dup', 'noeft', 'noparent')]
        out += [F('list', form=form)]
    out += [F('junk', form='text')]
    return [json.loads(x) for x in sorted({json.dumps(x) for x in out})]


def data(f, r):
    """Content of a file of the given kind."""
    rng = np.random.default_rng(r.randrange(2 ** 32))
    k, fl = f['k'], f['flaw']
    meta = r.choice([{}, {}, {'metadata': {'generator': 'me', 'n': [1, {'a': None, 'b': True}], 'description': 'ü → µ: "x"'}}, {'note': '1e-9'}])
    if k == 'wc':
        if f['basis'] == 'EOS':
            vals = {'b->s::c7': {'Re': -.3, 'Im': .1}, 'b->smumu::c9': 1.25, "b->smumu::c9'": {'Im': -.5}, 'b->see::c10': .125,
                    'ulnu::cVL': .25}
            vals = {x: v for x, v in vals.items() if x in wcxf.Basis['WET', 'EOS'].all_wcs}
            cc = [x for x in wcxf.Basis['WET', 'EOS'].all_wcs if 'enue' in x]
            x = r.choice(cc)
            v = {'Re': .5, 'Im': r.choice([.25, 0])}
            vals[x] = v
            vals[x.replace('enue', 'munumu')] = {'Re': .5, 'Im': v['Im'] + .125} if fl == 'lfnu' else dict(v)
            return dict(eft='WET', basis='EOS', scale=4.2, values=vals, **meta), x
        d = wcxf.WC.dict2values(inputs.values(f['eft'], f['basis'], rng, n=r.choice([0, 1, 12, 40]) if fl == 'none' else 12))
        d = {x: ({'Re': repr(v)} if isinstance(v, float) and r.random() < .2 else v) for x, v in d.items()}
        s = r.choice(SCALES[f['eft']])
        o = dict(eft=f['eft'], basis=f['basis'], scale=r.choice([s, s, str(s)]), values=d, **meta)
        if fl == 'key':
            d[r.choice(['CX_bsmumu', 'phil1_14', 'C9_BSmumu', 'll_1111 '])] = 1e-9
        elif fl == 'noeft':
            o['eft'] = r.choice(['wet', 'XET'])
        elif fl == 'nobasis':
            o['basis'] = r.choice(['Flavio', 'Warsaw'])
        elif fl == 'noscale':
            del o['scale']
        elif fl == 'list':
            o['values'] = [1, 2]
        return o, None
    if k == 'eft':
        return dict(eft='CLIeft', sectors={'a': {'dof': '3'}, 'b': None}, **meta), None
    if k == 'basis':
        o = dict(eft='WET', basis='CLIbasis', sectors={'sb': {'x1': {'tex': '\\beta'}, 'x2': None}, 'mue': {'x3': {'real': True}}}, **meta)
        if fl == 'sector':
            o['sectors']['sbx'] = {'x4': None}
        elif fl == 'dup':
            o['sectors']['mue']['x1'] = None
        elif fl == 'noeft':
            o['eft'] = 'XET'
        elif fl == 'noparent':
            o['parent'] = 'CLIother'
        return o, None
    return [1, {'a': 2.5}, 'x'], None


def write(f, d, r):
    if f['form'] == 'text':
        return r.choice(['{[ : }', '{"eft": "WET", ', 'a: [1, 2'])
    if f['form'] == 'json':
        return json.dumps(d, indent=r.choice([None, 2]))
    return yaml.safe_dump(d, default_flow_style=r.choice([False, None]))


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        if all(isinstance(v, (float, dict)) for v in a.values()):
            nums = [abs(v) for x in (a, b) for v in x.values() if isinstance(v, float)]
            top = max(nums + [0])
            return all(same(a[k], b[k]) or (isinstance(a[k], float) and isinstance(b[k], float) and abs(a[k] - b[k]) < 1e-14 * top) for k in a)
        return all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= TOL * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def read(text, form):
    """Parsed content in exactly this form."""
    if form == 'json':
        return json.loads(text)
    try:
        json.loads(text)
    except ValueError:
        return yaml.safe_load(text)
    raise ValueError('JSON instead of YAML')


def scripts():
    """Console script -> (module, function), from setup.py."""
    with open(os.path.join(REPO, 'setup.py')) as f:
        m = re.findall(r'''["'](\w+)\s*=\s*([\w.]+):(\w+)["']''', f.read())
    return {a: (b, c) for a, b, c in m}


SCRIPT = scripts()
TOOL = dict(eos='wcxf2eos', dsix='wcxf2dsixtools', undsix='dsixtools2wcxf')


def call(tool, argv, stdin, cwd, real):
    """(exit status, standard output) of a command in a process of its own."""
    mod, fun = SCRIPT[tool]
    fo, fe = os.path.join(cwd, '..', 'stdout'), os.path.join(cwd, '..', 'stderr')
    if real:
        code = f'import sys; sys.argv = {[tool] + argv!r}; from {mod} import {fun}; sys.exit({fun}())'
        with open(stdin) as i, open(fo, 'w') as o, open(fe, 'w') as e:
            p = subprocess.run([sys.executable, '-c', code], stdin=i, stdout=o, stderr=e, cwd=cwd, env=boot.subprocess_env(), timeout=300)
        rc = p.returncode
    else:
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                for fd, p, m in ((0, stdin, os.O_RDONLY), (1, fo, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), (2, fe, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
                    x = os.open(p, m, 0o644)
                    os.dup2(x, fd)
                sys.stdin, sys.stdout, sys.stderr = open(0, closefd=False), open(1, 'w', closefd=False), open(2, 'w', closefd=False)
                os.chdir(cwd)
                sys.argv = [tool] + argv
                try:
                    ret = getattr(__import__(mod, fromlist=[fun]), fun)()
                    rc = 0 if ret is None else ret if isinstance(ret, int) else 1
                except SystemExit as e:
                    rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    rc = 1
                for s in (sys.stdout, sys.stderr):
                    if not s.closed:
                        s.flush()
            finally:
                import gc
                gc.collect()            # files the tool left open
                os._exit(rc & 255)
        rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    with open(fo) as f, open(fe) as g:
        return rc, f.read(), g.read()


SM = None


def sm_text():
    """Standard Model parameters in the basis of WCxf's Warsaw basis."""
    out = ['Block GAUGE', ' 1 0.65', ' 2 0.36', ' 3 1.1', 'Block SCALAR', ' 1 0.28', ' 2 7800.0']
    for b, m in (('GU', [[1e-5, -1e-3, 8e-3], [3e-6, 4e-3, -4e-2], [4e-8, 2e-4, .99]]), ('GD', np.diag([2e-5, 4e-4, 2e-2])),
                 ('GE', np.diag([3e-6, 6e-4, 1e-2]))):
        out.append('Block ' + b)
        out += [f' {i + 1} {j + 1} {float(m[i][j])!r}' for i in range(3) for j in range(3)]
    out.append('Block IMGU')
    out += [' 1 3 0.0031', ' 3 1 2e-5']
    return out


class Job:
    def __init__(self, seed, top, real):
        self.r = random.Random(seed)
        self.top = tempfile.mkdtemp(dir=top)
        self.dir = os.path.join(self.top, 'work')
        os.mkdir(self.dir)
        self.real = real
        self.files = []         # (record, path)
        self.n = 0

    def snapshot(self):
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as g:
                    out[p] = g.read()
        return out

    def name(self, ext):
        self.n += 1
        return os.path.join(self.dir, f'f{self.n}{ext}')

    def new(self, f):
        d, cc = data(f, self.r)
        p = self.name(self.r.choice(['.json', '.yaml', '.yml', '', '.txt']))
        with open(p, 'w') as g:
            g.write(write(f, d, self.r))
        self.files.append((f, p))
        if cc is not None:
            self.cc = cc

    def prefix(self, f, path):
        """An EOS installation with SM parameters, in which the charged current
        of the file is among the parameters."""
        d = tempfile.mkdtemp(dir=self.top)
        p = os.path.join(d, 'share', 'eos', 'parameters')
        os.makedirs(p)
        sm = {'b->s::Re{c7}': -.3, 'b->s::Im{c7}': 0., 'b->smumu::Re{c9}': 4.2, "b->smumu::Im{c9'}": 0., 'b->see::Re{c10}': -4.1, 'b->s::c1': -.3}
        try:
            with open(path) as g:
                vals = wcxf.WC.load(g).values
            for k in vals:
                if 'enue' in k:
                    a, b = k.replace('enue', 'lnu').split('::')
                    sm[f'{a}::Re{{{b}}}'] = 1.
                    sm[f'{a}::Im{{{b}}}'] = 0.
        except Exception:
            pass
        d1 = {k: dict(central=v, min=v - 1, max=v + 1) for k, v in sm.items()}
        with open(os.path.join(p, 'a.yaml'), 'w') as g:
            yaml.safe_dump({'@metadata@': {'wcxf-relevant': True}, **d1}, g)
        with open(os.path.join(p, 'b.yaml'), 'w') as g:
            yaml.safe_dump({'@metadata@': {'title': 't'}, 'mass': dict(central=1., min=0., max=2.)}, g)
        return d, d1

    def expect(self, o, text, extra):
        """The result according to the library, parsed."""
        op, arg = o['op'], o['arg']
        if op == 'convert':
            return read(text, 'json') if arg[0].lower() == 'yaml' else yaml.safe_load(text)
        if op in ('translate', 'match'):
            wc = wcxf.WC.load(text)
            out = wc.translate(arg[0]) if op == 'translate' else wc.match(arg[0], arg[1])
            return json.loads(out.dump(fmt='json'))
        if op == 'dsix':
            return parse_lha(dsixtools.wcxf2dsixtools(wcxf.WC.load(text)))
        if op == 'undsix':
            return json.loads(wcxf.WC.load(dsixtools.dsixtools2wcxf([text] + extra)).dump(fmt='json'))
        if op == 'eos':
            return json.loads(json.dumps(eos.wcxf2eos(wcxf.WC.load(text), extra)))

    def step(self, o):
        r, op = self.r, o['op']
        tool = TOOL.get(op, 'wcxf')
        stdin, pos, opts, extra, outpath = os.devnull, [], [], None, None
        if op == 'missing':
            cmd = o['arg'][0]
            tool = TOOL.get(cmd, 'wcxf')
            a = {'convert': ['convert', 'json'], 'translate': ['translate', 'JMS'], 'match': ['match', 'WET', 'JMS'], 'validate': ['validate', 'wc']}.get(cmd, [])
            before = self.snapshot()
            rc, so, se = call(tool, a + [os.path.join(self.dir, 'missing.json')], os.devnull, self.dir, self.real)
            if rc == 0 or so.strip() or self.snapshot() != before:
                return 'missing file', rc, so
            return None
        if op == 'help':
            rc, so, se = call('wcxf', r.choice([[], [], ['--help'], ['-h']]), os.devnull, self.dir, self.real)
            return None if rc == 0 and all(c in so for c in ('convert', 'translate', 'match', 'validate')) else ('help', rc, so)
        f, path = self.files[o['i'] - 1]
        with open(path) as g:
            text = g.read()
        if op in ('convert', 'translate', 'match', 'validate'):
            sub = [op]
        else:
            sub = []
        if op == 'convert':
            pos = [o['arg'][0]]
        elif op == 'translate':
            pos = [o['arg'][0]]
        elif op == 'match':
            pos = o['arg'][:2]
        elif op == 'validate':
            pos = [o['arg'][0]]
        if op in ('translate', 'match') and o['arg'][-1]:
            opts.append(r.choice([['--format', o['arg'][-1]], ['--format=' + o['arg'][-1]]]))
        if o['in'] == 'path':
            pos = pos + [path if r.random() < .5 else os.path.relpath(path, self.dir)]
        else:
            stdin = path
            if o['in'] == 'dash' or op == 'undsix':
                pos = pos + ['-']
        home = None
        if op == 'undsix' and o['arg'][0] != 'nosm':
            ls = sm_text()
            cut = ls.index('Block GD')
            groups = [ls] if o['arg'][0] == 'sm' else [ls[:cut], ls[cut:]]
            extra = []
            for g in groups:
                p = self.name('.dat')
                with open(p, 'w') as h:
                    h.write('\n'.join(g) + '\n')
                pos.insert(r.randrange(len(pos) + 1), p)
                extra.append('\n'.join(g) + '\n')
        if op == 'eos':
            pre, extra = self.prefix(f, path)
            opts.append(r.choice([['--eosprefix', pre], ['--eosprefix=' + pre]]))
            if o['arg'][0] in ('home', 'both', 'nodir'):
                home = os.path.join(self.dir, f'home{len(os.listdir(self.dir))}')
                os.makedirs(home if o['arg'][0] == 'nodir' else os.path.join(home, 'parameters'))
                opts.append(['--eoshome', home])
                if o['arg'][0] != 'nodir' and r.random() < .5:      # an older file is replaced
                    with open(os.path.join(home, 'parameters', 'wcxf.yaml'), 'w') as g:
                        g.write(r.choice(['old' * 20000, 'old: {central: 1, max: 1, min: 1}\n']))
        form = o['result'].get('form', 'none')
        if o['out'] == 'file':
            outpath = self.name(r.choice(['.json', '.yaml', '']))
            if r.random() < .3:
                with open(outpath, 'w') as g:      # an older, longer file is replaced
                    g.write('old' * 20000)
            opts.append(r.choice([['--output', outpath], ['--output=' + outpath], ['--output', os.path.relpath(outpath, self.dir)]]))
        elif o['out'] == 'dash':
            opts.append(['--output', '-'])
        r.shuffle(opts)
        flat = [x for y in opts for x in y]
        argv = sub + (flat + pos if r.random() < .5 else pos + flat)
        before = self.snapshot()
        rc, so, se = call(tool, argv, stdin, self.dir, self.real)
        after = self.snapshot()
        info = dict(argv=[tool] + argv, rc=rc, out=so[:200], err=se[-300:], file=f, text=text[:300])
        new = outpath
        if op == 'eos' and home and o['out'] != 'file':
            new = os.path.join(home, 'parameters', 'wcxf.yaml')
        for p, b in before.items():
            if p != new and after.get(p) != b:
                return 'a file changed', info
        if set(after) - set(before) - {new}:
            return 'unexpected file', info, sorted(set(after) - set(before))
        got = after.get(new, b'').decode() if new else so
        if op == 'validate':
            if (rc == 0) != (o['ok'] == 'yes') or ('successful' in so) != (o['ok'] == 'yes'):
                return 'validation', o['ok'], info
            return None
        if o['ok'] == 'no':
            if rc == 0:
                return 'success reported', info
            if so.strip() or (got.strip() and after.get(new) != before.get(new)):
                return 'output of a failed command', info
            return None
        if rc != 0:
            return 'failure reported', info
        if new and so.strip():
            return 'standard output besides file', info
        try:
            val = parse_lha(got) if op == 'dsix' else read(got, form)
        except Exception as e:
            return 'result cannot be read as ' + form, repr(e), got[:300], info
        want = self.expect(o, text, extra)
        if not same(tag(val), tag(want)):
            return 'result differs', str(want)[:300], str(val)[:300], info
        if op in ('translate', 'match', 'undsix') and (val['eft'], val['basis']) != (o['result']['eft'], o['result']['basis']):
            return 'result in the wrong basis', val['eft'], val['basis'], info
        if op in ('translate', 'match') and float(val['scale']) != float(wcxf.WC.load(text).scale):
            return 'scale', val['scale'], info
        if new is None:
            new = self.name('.out')
            with open(new, 'w') as g:
                g.write(so)
        self.files.append((o['result'], new))
        return None


def tag(x):
    """Numbers as floats, keys as strings (blocks of DsixTools files)."""
    if isinstance(x, dict):
        return {str(k): tag(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [tag(v) for v in x]
    if isinstance(x, int) and not isinstance(x, bool):
        return float(x)
    return x


def job(a):
    seed, hist, top, real = a
    tempfile.tempdir = top
    os.environ['TMPDIR'] = top
    j = Job(seed, top, real)
    n = 0
    try:
        for o in hist:
            if o['op'] == 'new':
                j.new(o['c'])
            else:
                n += 1
                e = j.step(o)
                if e:
                    return n, dict(step={k: v for k, v in o.items()}, error=e)
        return n, None
    finally:
        shutil.rmtree(j.top, ignore_errors=True)


def run(c):
    cs = contents()
    small = [F('wc', 'SMEFT', 'Warsaw'), F('wc', 'WET', 'EOS', 'lfnu', 'yaml'), F('basis', 'WET', 'CLIbasis', 'dup'), F('junk', form='text')]
    body = lambda xs: 'MC_C == {' + ', '.join(tla(x) for x in xs) + '}\n'
    r = tlc.run('MC', 'SPECIFICATION Spec\nCONSTANTS Contents <- MC_C\n MaxFiles = 2\n Inputs <- MC_I\n Outputs <- MC_O\n Fmts <- MC_F\n'
                'INVARIANT ConvertBack\nVIEW View\nPROPERTIES OnlyGrows FailureMakesNothing ResultsValid Downwards\n',
                files={'MC.tla': tlc.model('MC', body(small) + 'MC_I == {"path"}\nMC_O == {"file"}\nMC_F == {"json", "Yaml", "xml"}\n', 'Cli')}, workers=8)
    c.model(r, 'design')
    depth = 16
    num = c.n(90, 1500)
    g = tlc.run('MC', f'SPECIFICATION GSpec\nCONSTANTS Contents <- MC_C\n MaxFiles = {depth}\n Depth = {depth}\n'
                'INVARIANTS Emit ConvertBack\n', files={'MC.tla': tlc.model('MC', body(cs), 'CliGen')},
                workers=1, simulate=num, depth=depth + 3, seed=c.seed, timeout=800)
    c.model(g, 'histories')
    hists = tlc.printed(g.out, 'BEH')[:num]
    top = tempfile.mkdtemp(prefix='wilson_cli_')
    try:
        jobs = [(c.seed * 7919 + i, h, top, False) for i, h in enumerate(hists)]
        jobs += [(c.seed * 7919 + i, h[:6], top, True) for i, h in list(enumerate(hists))[:c.n(6, 80)]]
        for j, e in zip(jobs, results(c, 'history', pmap(job, jobs, fresh=True))):
            if e is None:
                continue
            c.trace()
            c.count('commands', e[0])
            for o in j[1]:
                if o['op'] != 'new':
                    c.count(f"{o['op']} {o['ok']}")
            c.sample([[o['op'], o.get('arg', o.get('c')), o.get('ok'), o.get('in'), o.get('out')] for o in j[1]], 2)
            if e[1]:
                c.violation('history/' + str(e[1]['error'][0]), dict(real=j[3], **e[1]))
    finally:
        shutil.rmtree(top, ignore_errors=True)
