"""Plant a bug: make seeded/<id>/ from a definition, verify it in a scratch copy
of /repo and run checks against that copy.

  plant.py DEFS.py [ID ...]     make (or remake) and verify
  plant.py --check ID ...       only run the property's check against the bug

DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs,
what, demo, checks=[...])]."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as specified
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
tar -xzf "$d/bases.tgz" -C "$w"
export WILSON_REPO="$PWD" WILSON_BASES="$w/bases" TMPDIR="$w" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d"
/opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    top = tempfile.mkdtemp(prefix='plant_')
    sh(f'cp -a /repo {top}/repo')
    sh(f'git -C {top}/repo checkout -q -- .')
    return top


def tests(top):
    """The repository's stable tests, run in the copy."""
    h = f'{top}/h'
    os.makedirs(h, exist_ok=True)
    s = open('/opt/vp/harness/wilson_partial.py').read().replace('/repo', f'{top}/repo')
    open(f'{h}/wilson_partial.py', 'w').write(s)
    r = sh(f'cd {top}/repo && PYTHONPATH={h} PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m compileall -q -f wilson setup.py && '
           f'PYTHONPATH={h} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q '
           '-p wilson_partial -p no:cacheprovider --timeout=300 wilson/util/test_qcd.py wilson/wcxf/test_wcxf.py '
           'wilson/wcxf/converters/test_eos.py')
    m = re.search(r'(\d+) passed', r.stdout)
    return r.returncode == 0 and m and int(m.group(1)) == 18, r.stdout[-1500:]


def demo(d, top):
    out = tempfile.mkdtemp(prefix='demo_')
    shutil.copytree(d, out + '/d', ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    r = sh(f'bash {out}/d/demo.sh', cwd=f'{top}/repo', timeout=300)
    shutil.rmtree(out)
    return r.returncode, r.stdout[-800:]


def check(pid, top, tier='quick'):
    r = sh(f'{VERIF}/check {pid} --tier {tier}', env=dict(os.environ, WILSON_REPO=f'{top}/repo', VERIF_SEED='1', VERIF_TIER=tier), cwd=VERIF)
    return r.returncode, r.stdout[-700:]


def main(argv):
    if argv[0] == '--check':
        ids = argv[1:] or sorted(os.listdir(SEED))
        for i in ids:
            d = os.path.join(SEED, i)
            meta = json.load(open(d + '/meta.json'))
            top = copy()
            try:
                a = sh(f'git -C {top}/repo apply {d}/patch.diff')
                assert a.returncode == 0, a.stdout
                rc, out = check(meta['property'], top)
                print(i, meta['property'], 'CAUGHT' if rc == 1 else f'MISSED rc={rc}', flush=True)
                if rc not in (0, 1):
                    print(out)
            finally:
                shutil.rmtree(top)
        return
    bugs = runpy.run_path(argv[0])['BUGS']
    for b in bugs:
        if argv[1:] and b['id'] not in argv[1:]:
            continue
        d = os.path.join(SEED, b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        top = copy()
        ok = False
        try:
            open(d + '/demo.py', 'w').write('import boot\nboot.boot()\n' + b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(d + '/demo.sh', 0o755)
            shutil.copy(VERIF + '/harness/boot.py', d)
            sh(f'tar --sort=name --mtime=2020-01-01 --owner=0 --group=0 -czf {d}/bases.tgz bases', cwd=VERIF)
            rc0, o0 = demo(d, top)
            if rc0:
                print(b['id'], 'DEMO FAILS ON THE CLEAN TREE', o0)
                continue
            for f, old, new in b['edits']:
                p = f'{top}/repo/{f}'
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            open(d + '/patch.diff', 'w').write(sh(f'git -C {top}/repo diff').stdout)
            t, o = tests(top)
            if not t:
                print(b['id'], 'TESTS FAIL', o)
                continue
            rc1, o1 = demo(d, top)
            if rc1 == 0:
                print(b['id'], 'DEMO PASSES WITH THE BUG', o1)
                continue
            if 'Traceback' in o1 and 'AssertionError' not in o1 and not b.get('crash'):
                print(b['id'], 'note: demo fails by', o1[-300:])
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']),
                      open(d + '/meta.json', 'w'), indent=1)
            ok = True
            for pid in b.get('checks', [b['property']]):
                rc, o = check(pid, top)
                print(b['id'], pid, 'CAUGHT' if rc == 1 else f'MISSED rc={rc}', flush=True)
                if rc not in (0, 1):
                    print(o)
        finally:
            shutil.rmtree(top)
            if not ok:
                shutil.rmtree(d, ignore_errors=True)


main(sys.argv[1:])
