"""C02: match_run composes running, matching and translation as documented."""
import numpy as np
import tlc
import wilsonlib as wl
from wilsonlib import T, W, tla

WCS = [
    W('s', 'SMEFT', 'Warsaw', '1000'), W('sz', 'SMEFT', 'Warsaw', '91.1876'), W('u', 'SMEFT', 'Warsaw up', '1000'),
    W('uz', 'SMEFT', 'Warsaw up', '160'), W('h', 'SMEFT', 'Higgs-Warsaw up', '1000'),
    W('hz', 'SMEFT', 'Higgs-Warsaw up', '91.1876'), W('m', 'SMEFT', 'Warsaw mass', '1000'),
    W('j', 'WET', 'JMS', '91.1876'), W('f', 'WET', 'flavio', '160'), W('fb', 'WET', 'flavio', '4.2'),
    W('b', 'WET', 'Bern', '80'), W('k', 'WET', 'FlavorKit', '80'),
    W('j4', 'WET-4', 'JMS', '4.2'), W('f4', 'WET-4', 'flavio', '2'), W('b4', 'WET-4', 'Bern', '3'),
    W('j3', 'WET-3', 'JMS', '1.3'), W('f3', 'WET-3', 'flavio', '2'), W('b3', 'WET-3', 'Bern', '1.1'),
    W('j2', 'WET-2', 'JMS', '2'),
]
TARGETS = (
    [T('SMEFT', b, s) for b in ('Warsaw', 'Warsaw up', 'Warsaw mass', 'Higgs-Warsaw up') for s in ('1000', '91.1876', '300')]
    + [T('WET', b, s) for b in ('JMS', 'flavio', 'Bern', 'EOS', 'formflavor', 'FlavorKit') for s in ('91.1876', '4.2', '160')]
    + [T(e, b, s) for e in ('WET-4', 'WET-3') for b in ('JMS', 'flavio', 'Bern') for s in ('2', '1.3')]
    + [T('WET', 'flavio', '4.2', 'S1'), T('WET', 'JMS', '4.2', 'S4'), T('WET', 'Bern', '4.2', 'S1'), T('WET', 'EOS', '4.2', 'S1'),
       T('WET-4', 'flavio', '2', 'S3'), T('WET-3', 'JMS', '2', 'S6'), T('WET-4', 'JMS', '4.2', 'S6'),
       T('WET', 'flavio', '160', 'S5'), T('WET', 'JMS', '160', 'S5'), T('WET', 'JMS', '91.1876', 'S4'), T('WET-4', 'Bern', '3', 'S3'), T('WET-3', 'flavio', '2', 'S6')]
    + [T('WET-2', 'JMS', '2'), T('WET', 'nosuch', '4.2'), T('nosuch', 'JMS', '2'), T('WET', 'Warsaw', '91.1876'),
       T('SMEFT', 'JMS', '91.1876'), T('WET-3', 'EOS', '2'), T('WET-4', 'formflavor', '2')]
)
D = wl.DEFAULTS
OPTS = [
    dict(D), dict(D, smeft_accuracy='leadinglog'),
    dict(D, smeft_accuracy='leadinglog', smeft_matchingscale='160', smeft_matching_order='1'),
    dict(D, smeft_accuracy='leadinglog', mb_matchingscale='5', mc_matchingscale='1.5', parameters='{p1}'),
    dict(D, smeft_accuracy='leadinglog', qed_order='0', parameters='{p2}'),
    dict(D, smeft_accuracy='leadinglog', qcd_order='0', parameters='{p3}', smeft_matchingscale='120'),
    dict(D, parameters='{p2}', smeft_matching_order='1', qed_order='0', mb_matchingscale='4.8'),
]


def table(c, wcs, opts, targets):
    ov = {k: {o[k] for o in opts} for k in D}
    mod, consts = wl.module('MC', 'WilsonPlan', ['w1'], ov, wcs, targets, False)
    mod = mod.replace('====', f'MC_Sets == {tla(opts)}\n====', 1)
    r = tlc.run('MC', 'SPECIFICATION PSpec\n' + consts + ' OptSets <- MC_Sets\nINVARIANT PlanTyped\n',
                files={'MC.tla': mod}, workers=1, expect_out=True)
    c.model(r, 'plans')
    return r.data


def to_behaviour(row, opts):
    o = opts[row['o'] - 1]
    return [dict(a='new', id='x', wc=row['wc'])] \
        + [dict(a='set', id='x', k=k, v=o[k]) for k in o if o[k] != D[k]] \
        + [dict(a='run', id='x', t=row['t'], ok=row['ok'], steps=row['steps'])]


def run(c):
    tab = table(c, WCS, OPTS, TARGETS)
    rng = np.random.default_rng(c.seed)
    order = rng.permutation(len(tab))
    # one case of every (plan shape, input basis, option setting) first, then
    # as many further random ones as the budget allows
    seen, first, rest = set(), [], []
    for i in order:
        r = tab[i]
        key = (tuple(r['shape']), r['o'] if r['shape'] else 0, r['t']['sectors'] == 'all', r['ok'],
               r['t']['eft'] if not r['ok'] else '')
        (rest if key in seen else first).append(r)
        seen.add(key)
    pick = first + rest[:c.n(60, 2500)]
    ins = wl.make_inputs(WCS, c.seed)
    behs = [to_behaviour(r, OPTS) for r in pick]
    # group by input and options so that the reference evaluation shares prefixes
    behs.sort(key=lambda b: (b[0]['wc'], str(b[1:-1])))
    n = c.n(24, 200)
    groups = [behs[len(behs) * i // n:len(behs) * (i + 1) // n] for i in range(n)]
    from lib import pmap, results
    res = results(c, 'match_run', pmap(wl.replay_group, [(g, ins, True) for g in groups if g]))
    for r in res:
        for x in r or []:
            for k, d in x:
                c.violation(k, d)
    c.trace(len(behs))
    c.cov['plans_tabulated'] = len(tab)
    c.cov['plan_shapes'] = len({tuple(r['shape']) for r in tab})
    c.cov['requests_executed'] = len(behs)
    c.sample(pick[0])
    c.sample(next(r for r in pick if not r['ok']))
