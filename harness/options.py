"""C03 and C04: histories of module Options on the real class."""
import io
import json
import random
import numpy as np
import tlc
import inputs
from lib import pmap, results
from wilsonlib import tla
from wilson import Wilson, wcxf
from wilson import parameters as parmod

# raw value token -> (python value, canonical token)
BAD = 'bad'
RAW = {
    'smeft_accuracy': {'integrate': ('integrate', 'integrate'), 'leadinglog': ('leadinglog', 'leadinglog'),
                       'x_case': ('Integrate', BAD), 'x_empty': ('', BAD), 'x_none': (None, BAD), 'x_num': (1, BAD)},
    'qed_order': {'0': (0, '0'), '1': (1, '1'), 'x_2': (2, BAD), 'x_neg': (-1, BAD), 'x_str': ('one', BAD), 'x_none': (None, BAD), 'x_half': (0.5, BAD)},
    'qcd_order': {'0': (0, '0'), '1': (1, '1'), 'x_2': (2, BAD), 'x_neg': (-1, BAD), 'x_str': ('one', BAD), 'x_none': (None, BAD), 'x_half': (0.5, BAD)},
    'smeft_matching_order': {'0': (0, '0'), '1': (1, '1'), 'x_2': (2, BAD), 'x_neg': (-1, BAD), 'x_str': ('one', BAD), 'x_none': (None, BAD)},
}
for k, a, b in (('smeft_matchingscale', 91.1876, 120), ('mb_matchingscale', 4.2, 5), ('mc_matchingscale', 1.3, 2)):
    RAW[k] = {'fa': (a, repr(a)), 'ib': (b, repr(float(b))), 'fb': (float(b), repr(float(b))),
              'sa': (str(a), repr(a)), 'np': (np.float64(a), repr(a)), 'other': (a * 1.25, repr(a * 1.25)),
              'x_str': ('abc', BAD), 'x_none': (None, BAD), 'x_list': ([a], BAD), 'x_dict': ({'a': a}, BAD), 'x_complex': (a + 1j, BAD)}
DEFAULT = {'smeft_accuracy': 'integrate', 'qed_order': '1', 'qcd_order': '1', 'smeft_matching_order': '0',
           'smeft_matchingscale': '91.1876', 'mb_matchingscale': '4.2', 'mc_matchingscale': '1.3'}
NUM = ('smeft_matchingscale', 'mb_matchingscale', 'mc_matchingscale')
INT = ('qed_order', 'qcd_order', 'smeft_matching_order')
# contents of parameter dictionaries: token -> (content, canonical token)
PAR = {
    'e': ({}, 'e'),
    'mb': ({'m_b': 4.3}, 'mb'),
    'mb_str': ({'m_b': '4.3'}, 'mb'),
    'mb_np': ({'m_b': np.float64(4.3)}, 'mb'),
    'mb4': ({'m_b': 4}, 'mb4f'),
    'mb4f': ({'m_b': 4.0}, 'mb4f'),
    'two': ({'Vcb': 0.04, 'alpha_s': 0.11}, 'two'),
    'two_rev': ({'alpha_s': 0.11, 'Vcb': 0.04}, 'two'),
    'own': ({'my_par': 7, 'GF': 1.1e-5}, 'ownf'),
    'ownf': ({'my_par': 7.0, 'GF': 1.1e-5}, 'ownf'),
    'gam': ({'gamma': 1.2}, 'gam'),
    'delta': ({'delta': 1.2}, 'gam'),
    'delta_int': ({'delta': 1, 'm_b': 4.3}, 'gam1'),
    'gam1': ({'m_b': 4.3, 'gamma': 1.0}, 'gam1'),
    'loop': ({'loop_order': 5, 'm_b': 4.3}, 'loopf'),
    'loopf': ({'loop_order': 5.0, 'm_b': 4.3}, 'loopf'),
    'x_str': ({'m_b': 'heavy'}, BAD),
    'x_part': ({'m_b': 4.4, 'Vcb': None}, BAD),
    'x_cplx': ({'m_b': 4.3 + 1j}, BAD),
    'x_list': ({'m_b': [4.3], 'Vcb': 0.04}, BAD),
    'x_delta': ({'delta': 'x', 'm_b': 4.3}, BAD),
}
BADNAMES = ['nosuch', 'Parameters', 'QED_order', '', 'parameter', 'm_b', 'wrong type: list', 'wrong type: number', 'wrong type: none', 'wrong type: string']
WRONG = {'wrong type: list': [], 'wrong type: number': 3, 'wrong type: none': None, 'wrong type: string': 'm_b'}
WCS = {'w1': ('WET', 'flavio', 160.), 'w2': ('WET', 'flavio', 160.), 'w3': ('SMEFT', 'Warsaw', 1000.), 'w4': ('WET-3', 'JMS', 2.)}
IDS = ['a', 'b', 'c']


def fun(d):
    return '(' + ' @@ '.join(f'{tla(k)} :> {fun(v) if isinstance(v, dict) else tla(v)}' for k, v in d.items()) + ')'


def cfg(ids, raw, par, nd, bad, wcs, maxheap):
    body = (f'MC_Raw == {fun({k: {r: v[1] for r, v in d.items()} for k, d in raw.items()})}\n'
            f'MC_Def == {fun({k: DEFAULT[k] for k in raw})}\n'
            f'MC_Par == {fun({k: v[1] for k, v in par.items()})}\n')
    consts = ('CONSTANTS\n Raw <- MC_Raw\n Default <- MC_Def\n PCanon <- MC_Par\n P0 = "e"\n'
              f' Ids = {tla(set(ids))}\n ND = {nd}\n BadNames = {tla(set(bad))}\n WCs = {tla(set(wcs))}\n MaxHeap = {maxheap}\n')
    return body, consts


PROPS = 'INVARIANTS Matches Canonical\nPROPERTIES RejectedChangesNothing OneOption CallerKept FreshStart HashStable\n'


def model_check(c):
    raw = {k: {r: v for r, v in d.items() if r in ('0', '1', 'x_2', 'fa', 'ib', 'fb')} for k, d in RAW.items()
           if k == 'mb_matchingscale'}
    par = {k: PAR[k] for k in (('e', 'gam', 'delta', 'x_str', 'mb_str', 'mb') if c.thorough else ('e', 'gam', 'delta', 'x_str'))}
    body, consts = cfg(['a', 'b'], raw, par, 1, ['nosuch'], ['w1'], 5)
    r = tlc.run('MC', 'SPECIFICATION Spec\n' + consts + PROPS, files={'MC.tla': tlc.model('MC', body, 'Options')}, workers=8)
    c.model(r, 'small')


def behaviours(c, num, depth):
    body, consts = cfg(IDS, RAW, PAR, 2, BADNAMES, list(WCS), 1000)
    r = tlc.run('MC', 'SPECIFICATION GSpec\n' + consts + f' Depth = {depth}\nINVARIANTS Emit Matches Canonical\n',
                files={'MC.tla': tlc.model('MC', body, 'OptionsGen')}, workers=1, simulate=num, depth=depth + 3, seed=c.seed * 31 + 7)
    c.model(r)
    return tlc.printed(r.out, 'BEH')


def canon_value(k, tok):
    if k in NUM:
        return float(tok)
    if k in INT:
        return int(tok)
    return tok


def canon_par(tok):
    return {k: float(v) for k, v in PAR[tok][0].items()}


def make(wc, rnd, cache={}):
    eft, basis, scale = WCS[wc]
    if wc not in cache:
        rng = np.random.default_rng(sum(map(ord, wc)))
        cache[wc] = inputs.values(eft, basis, rng, n=5)
    d = cache[wc]
    how = rnd.choice(['init', 'init', 'from_wc', 'load'])
    if how == 'init':
        return Wilson(dict(d), scale, eft, basis)
    w = inputs.wc(eft, basis, scale, d)
    if how == 'from_wc':
        return Wilson.from_wc(w)
    return Wilson.load_wc(io.StringIO(w.dump(fmt='json')))


P0 = dict(parmod.p)


def same_par(x, want):
    return isinstance(x, dict) and set(x) == set(want) and all(x[k] == want[k] and isinstance(x[k], float) for k in want)


def observe(w, o):
    """Differences between what instance w reports and options o."""
    for k, tok in o['plain'].items():
        v, want = w.get_option(k), canon_value(k, tok)
        if v != want or (k in NUM and not isinstance(v, float)):
            return k, v, want
    if o['par'] == '?':
        return None              # left open by the specification
    want = canon_par(o['par'])
    v = w.get_option('parameters')
    if not same_par(v, want):
        return 'parameters', v, want
    full = dict(P0)
    full.update(want)
    p = dict(w.parameters)
    if p != full:
        return 'effective parameters', {k: p.get(k) for k in set(p) | set(full) if p.get(k) != full.get(k)}, want
    full['loop_order'] = int(o['plain']['smeft_matching_order'])
    p = dict(w.matching_parameters)
    if p != full:
        return 'matching parameters', {k: p.get(k) for k in set(p) | set(full) if p.get(k) != full.get(k)}, want
    return None


def reset():
    for k, v in DEFAULT.items():
        Wilson.set_default_option(k, canon_value(k, v))
    Wilson.set_default_option('parameters', {})


def use(w, how, rnd):
    eft, basis, scale = w.wc.eft, w.wc.basis, w.wc.scale
    if how == 'translate':
        w.match_run(scale, eft, {'flavio': 'JMS', 'JMS': 'flavio', 'Warsaw': 'Warsaw up'}[basis])
    elif how == 'run':
        if eft == 'SMEFT':
            w.match_run(scale, 'SMEFT', 'Warsaw')
        else:
            for _ in range(2):
                w.match_run(scale / 2, eft, 'flavio' if eft == 'WET' else 'JMS', sectors=('sd',))
    elif how == 'fail':
        for args in ((scale, eft, 'nosuch'), (scale, 'nosuch', basis), (scale * 1.5, 'WET-2', 'JMS')):
            try:
                w.match_run(*args)
            except Exception:
                pass
    elif how == 'read':
        w.parameters, w.matching_parameters, w.get_option('parameters'), hash(w), w._repr_html_()
        try:
            w.get_option('nosuch')
        except KeyError:
            pass
    elif how == 'clear':
        w.clear_cache()


def replay(args):
    beh, seed, pid = args
    rnd = random.Random(seed)
    bad = []
    caller = {1: {}, 2: {}}
    inst, hashes, defs_seen = {}, {}, None
    P = pid == 'C03'
    reset()
    try:
        for n, h in enumerate(beh):
            e, v = h['e'], h['v']
            if v['inst'] == []:
                v['inst'] = {}       # an empty function
            info = dict(at=n, e=e, before=beh[n - 1]['v'] if n else None)
            a, err = e['a'], None
            try:
                if a == 'new':
                    inst[e['i']] = make(e['wc'], rnd)
                elif a == 'mutate':
                    caller[e['d']].clear()
                    caller[e['d']].update(PAR[e['c']][0])
                elif a in ('set', 'default'):
                    val = caller[e['d']] if e['k'] == 'parameters' else RAW[e['k']][e['r']][0]
                    if a == 'set':
                        inst[e['i']].set_option(e['k'], val)
                    else:
                        obj = Wilson if rnd.random() < .5 or not inst else rnd.choice(list(inst.values()))
                        obj.set_default_option(e['k'], val)
                elif a in ('badset', 'baddefault'):
                    obj = inst[e['i']].set_option if a == 'badset' else Wilson.set_default_option
                    if e['k'] in WRONG:
                        obj('parameters', WRONG[e['k']])
                    else:
                        obj(e['k'], rnd.choice([1, 0, 'x', 4.2, {}]))
                elif a == 'touch':
                    d = inst[e['i']].get_option('parameters')
                    d.clear()
                    d.update(canon_par(e['c']))
                elif a == 'use':
                    use(inst[e['i']], e['how'], rnd)
            except Exception as x:
                err = x
            if P:
                if e['ok'] and err is not None:
                    bad.append(('option: refused', dict(info, err=repr(err))))
                    return bad
                if not e['ok'] and err is None:
                    bad.append(('option: invalid value accepted', info))
                    return bad
            elif (err is None) != e['ok']:
                return bad           # decided by C03
            if P:
                for i, x in v['inst'].items():
                    d = observe(inst[i], x['o'])
                    if d:
                        bad.append(('option: value', dict(info, id=i, diff=d)))
                        return bad
                d = observe(make('w1', rnd), v['defs'])
                if d:
                    bad.append(('option: defaults of a new instance', dict(info, diff=d)))
                    return bad
                for k, tok in enumerate(v['caller'], 1):
                    if caller[k] != PAR[tok][0]:
                        bad.append(("option: caller's dictionary changed", dict(info, d=k, got=dict(caller[k]))))
                        return bad
            else:
                for i, x in v['inst'].items():
                    if x['o']['par'] == '?':
                        continue
                    key = json.dumps(x['o'], sort_keys=True)
                    hv = hash(inst[i])
                    seen = hashes.setdefault(i, {})
                    if seen.setdefault(key, hv) != hv:
                        bad.append(('hash: changed although nothing else did', dict(info, id=i)))
                        return bad
                    other = [k for k, y in seen.items() if y == hv and k != key]
                    if other:
                        bad.append(('hash: same for different options', dict(info, id=i, other=other[0])))
                        return bad
                ids = sorted(v['inst'])
                for i in ids:
                    for j in ids:
                        if '?' in (v['inst'][i]['o']['par'], v['inst'][j]['o']['par']):
                            continue
                        if v['inst'][i]['wc'] < v['inst'][j]['wc'] and hash(inst[i]) == hash(inst[j]):
                            bad.append(('hash: same for different coefficients', dict(info, ids=[i, j])))
                            return bad
    finally:
        reset()
    return bad


def run(c):
    model_check(c)
    behs = behaviours(c, c.n(500, 6000), 30)
    res = results(c, 'options', pmap(replay, [(b, c.seed * 100 + i, c.pid) for i, b in enumerate(behs)]))
    for x in res:
        for k, d in x or []:
            c.violation(k, d)
    c.trace(len(behs))
    c.count('steps', sum(map(len, behs)))
    c.sample(behs[0][:5])
