"""Running TLC on the specifications in /verif/spec, in a scratch directory."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    """TLC itself failed (not a property violation)."""


class Result:
    def __init__(self):
        self.states = self.distinct = 0
        self.violated = None
        self.out = ''
        self.wall = 0.0
        self.data = None


def run(module, cfg, *, files=None, env=None, workers=4, timeout=600, mem='3g',
        simulate=None, depth=None, seed=None, expect_out=None, coverage=False,
        extra=()):
    """Run TLC.  `files`: name -> content of additional files (e.g. an MC module,
    JSON input).  Returns a Result; raises TLCError if TLC could not do its job."""
    top = tempfile.mkdtemp(prefix='tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(top, f))
        for name, content in (files or {}).items():
            p = os.path.join(top, name)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, 'w') as f:
                f.write(content if isinstance(content, str) else json.dumps(content))
        with open(os.path.join(top, 'run.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e['OUT'] = os.path.join(top, 'out.json')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-Djava.io.tmpdir=' + top, '-cp', CP, 'tlc2.TLC',
               '-config', 'run.cfg', '-metadir', os.path.join(top, 'meta'),
               '-workers', str(workers), '-deadlock', '-noGenerateSpecTE']
        if simulate is not None:
            cmd += ['-simulate', f'num={simulate}']
        if depth is not None:
            cmd += ['-depth', str(depth)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd += list(extra) + [module + '.tla']
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=top, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise TLCError(f'TLC timeout on {module}')
        r = Result()
        r.out = p.stdout
        r.wall = time.time() - t0
        m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', r.out)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r'The number of states generated: (\d+)', r.out)
            if m:
                r.states = r.distinct = int(m[-1])
        m = re.search(r'(?:Invariant|Temporal property|Action property|Property) (\S+) (?:is|was) violated', r.out)
        if m:
            r.violated = m.group(1)
        elif p.returncode not in (0,):
            if 'Temporal properties were violated' in r.out:
                r.violated = 'temporal'
            elif 'Assumption' in r.out and 'is false' in r.out:
                r.violated = 'assumption'
            elif 'postcondition' in r.out.lower() and 'violated' in r.out.lower():
                r.violated = 'postcondition'
            else:
                raise TLCError(f'TLC failed on {module} (rc {p.returncode}):\n' + r.out[-4000:])
        op = os.path.join(top, 'out.json')
        if os.path.exists(op):
            with open(op) as f:
                r.data = json.load(f)
        elif expect_out:
            raise TLCError(f'TLC on {module} wrote no output:\n' + r.out[-4000:])
        return r
    finally:
        shutil.rmtree(top, ignore_errors=True)


def printed(out, prefix):
    """JSON values printed by PrintT(prefix \\o ToJson(x)) (as TLA+ strings)."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + prefix):
            s = json.loads(line)          # TLC escapes strings as JSON does
            res.append(json.loads(s[len(prefix):]))
    return res


def model(name, body, extends):
    """Text of a small MC module."""
    return f'---- MODULE {name} ----\nEXTENDS {extends}\n{body}\n====\n'
