"""Replay of histories of module Wilson on the real class."""
import json
import numpy as np
import tlc
import inputs
import planexec
from lib import dict_diff, pmap
import wilson
from wilson import Wilson, wcxf

RTOL = 1e-6


def tla(x):
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"' + x + '"'
    if isinstance(x, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(v) for v in x)) + '}'
    if isinstance(x, dict):
        return '[' + ', '.join(f'{k} |-> {tla(v)}' for k, v in x.items()) + ']'
    if isinstance(x, (list, tuple)):
        return '<<' + ', '.join(tla(v) for v in x) + '>>'
    raise TypeError(x)


DEFAULTS = dict(smeft_accuracy='integrate', qed_order='1', qcd_order='1',
                smeft_matching_order='0', smeft_matchingscale='91.1876',
                mb_matchingscale='4.2', mc_matchingscale='1.3', parameters='{}')


def optvals(**kw):
    return {k: set(kw.get(k, {v})) | {v} for k, v in DEFAULTS.items()}


def T(eft, basis, scale, sectors='all'):
    return dict(eft=eft, basis=basis, scale=scale, sectors=sectors)


def W(name, eft, basis, scale):
    return dict(name=name, eft=eft, basis=basis, scale=scale)


def module(name, ext, ids, ov, wcs, targets, usedef, defaults=DEFAULTS):
    body = (f'MC_Ids == {tla(set(ids))}\nMC_Opt == {tla(ov)}\nMC_Def == {tla(defaults)}\n'
            f'MC_WC == {{{", ".join(tla(w) for w in wcs)}}}\n'
            f'MC_T == {{{", ".join(tla(t) for t in targets)}}}\n')
    consts = ('CONSTANTS\n Ids <- MC_Ids\n OptVals <- MC_Opt\n Defaults0 <- MC_Def\n WCs <- MC_WC\n'
              f' Targets <- MC_T\n UseDefaults = {tla(usedef)}\n')
    return tlc.model(name, body, ext), consts


def model_check(check, what, ids, ov, wcs, targets, usedef=False, workers=8, timeout=600):
    mod, consts = module('MC', 'Wilson', ids, ov, wcs, targets, usedef)
    cfg = 'SPECIFICATION Spec\n' + consts + \
        'INVARIANTS Transparent CacheCoherent PlanTyped\nPROPERTIES Isolated FreshDefaults\n'
    r = tlc.run('MC', cfg, files={'MC.tla': mod}, workers=workers, timeout=timeout)
    check.model(r, what)
    return r


def behaviours(check, num, depth, seed, ids, ov, wcs, targets, usedef=False):
    mod, consts = module('MC', 'WilsonGen', ids, ov, wcs, targets, usedef)
    cfg = 'SPECIFICATION GSpec\n' + consts + f' Depth = {depth}\nINVARIANTS Emit Transparent CacheCoherent\n'
    r = tlc.run('MC', cfg, files={'MC.tla': mod}, workers=1, simulate=num, depth=depth + 3, seed=seed)
    check.model(r)
    return tlc.printed(r.out, 'BEH')[:num]


def make_inputs(wcs, seed, light=()):
    """light: names of inputs without coefficients of the (slow) sector dF=0"""
    out = {}
    for w in wcs:
        rng = np.random.default_rng([seed, sum(map(ord, w['name']))])
        keys = None
        if w['name'] in light:
            keys = [k for s, ks in wcxf.Basis[w['eft'], w['basis']].sectors.items() if s != 'dF=0' for k in ks]
        d = w.get('values') or inputs.values(w['eft'], w['basis'], rng, n=w.get('n', 60), keys=keys)
        out[w['name']] = (w, d)
    return out


def reset_defaults():
    for k, v in DEFAULTS.items():
        Wilson.set_default_option(k, planexec.value(v, k))


def replay(beh, ins, ex, strict_errors, check_opts=True):
    """Returns a list of (key, detail) problems."""
    bad = []
    reset_defaults()
    inst, name, own = {}, {}, {}
    try:
        for n, e in enumerate(beh):
            a = e['a']
            if a == 'new':
                w, d = ins[e['wc']]
                inst[e['id']] = Wilson(dict(d), w['scale'] if not isinstance(w['scale'], str) else float(w['scale']),
                                       w['eft'], w['basis'])
                name[e['id']] = e['wc']
            elif a == 'set':
                w, v = inst[e['id']], planexec.value(e['v'], e['k'])
                via = e.get('via', 'value')
                if via != 'value':
                    d = w.get_option(e['k']) if via == 'got' else own.setdefault(e['id'], {})
                    d.clear()
                    d.update(v)
                    v = d
                w.set_option(e['k'], v)
            elif a == 'default':
                Wilson.set_default_option(e['k'], planexec.value(e['v'], e['k']))
            elif a == 'clear':
                inst[e['id']].clear_cache()
            elif a == 'run':
                t = e['t']
                err = None
                try:
                    r = inst[e['id']].match_run(float(t['scale']), t['eft'], t['basis'],
                                                sectors=planexec.SEC[t['sectors']])
                except Exception as x:
                    err = x
                if not e['ok']:
                    if err is None:
                        bad.append(('answered an impossible request', dict(at=n, beh=beh[:n + 1])))
                    elif strict_errors and not isinstance(err, ValueError):
                        bad.append(('wrong exception type', dict(at=n, err=repr(err), beh=beh[:n + 1])))
                    continue
                if err is not None:
                    bad.append(('exception for a possible request', dict(at=n, err=repr(err), beh=beh[:n + 1])))
                    continue
                try:
                    want = ex(name[e['id']], e['steps'])
                except Exception as x:
                    bad.append(('building blocks raise', dict(err=repr(x), steps=e['steps'])))
                    continue
                if (r.eft, r.basis, r.scale) != (t['eft'], t['basis'], float(t['scale'])):
                    bad.append(('wrong theory, basis or scale', dict(at=n, got=[r.eft, r.basis, r.scale], beh=beh[:n + 1])))
                    continue
                df = dict_diff(r.dict, want.dict, rtol=RTOL)
                if df:
                    bad.append(('wrong values', dict(at=n, id=e['id'], t=t, diff=df, beh=beh[:n + 1])))
    finally:
        reset_defaults()
    return bad


def replay_group(args):
    behs, ins, strict = args
    wcs = {k: inputs.wc(w['eft'], w['basis'], float(w['scale']), d) for k, (w, d) in ins.items()}
    ex = planexec.Executor(wcs)
    return [replay(b, ins, ex, strict) for b in behs]


def replay_all(check, behs, ins, strict, procs=8, key=''):
    groups = [behs[i::procs] for i in range(procs)]
    groups = [g for g in groups if g]
    from lib import results
    res = results(check, 'match_run', pmap(replay_group, [(g, ins, strict) for g in groups], procs))
    bad = []
    for r in res:
        for x in r or []:
            bad += x
    check.trace(len(behs))
    return bad
