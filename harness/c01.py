"""C01: match_run results never depend on the call history."""
import wilsonlib as wl
from wilsonlib import T, W

OV_S = dict(smeft_accuracy={'leadinglog'}, smeft_matchingscale={'160'}, parameters={'{p1}'},
            mb_matchingscale={'5'}, qed_order={'0'}, smeft_matching_order={'1'})
OV_W = dict(mb_matchingscale={'5'}, mc_matchingscale={'1.5'}, parameters={'{p1}', '{p2}'},
            qed_order={'0'}, qcd_order={'0'})
LL = dict(wl.DEFAULTS, smeft_accuracy='leadinglog')

FAM = {
 'smeft': dict(
    ids=['w1', 'w2'],
    ov=wl.optvals(**OV_S),
    wcs=[W('s', 'SMEFT', 'Warsaw', '1000'), W('u', 'SMEFT', 'Warsaw up', '91.1876')],
    targets=[T('WET', 'JMS', '91.1876'), T('WET', 'JMS', '160'), T('WET', 'flavio', '4.2'),
             T('WET', 'flavio', '4.2', 'S1'), T('WET-4', 'flavio', '2', 'S3'), T('WET-3', 'JMS', '2'),
             T('SMEFT', 'Warsaw up', '500'), T('SMEFT', 'Warsaw', '500', 'S1'), T('WET', 'JMS', '91.1876', 'S1'),
             T('WET', 'flavio', '4.2003'), T('WET', 'JMS', '91.18761')]),
 'wet': dict(
    ids=['w1', 'w2', 'w3'],
    ov=wl.optvals(**OV_W),
    wcs=[W('f', 'WET', 'flavio', '160'), W('j', 'WET', 'JMS', '91.1876'), W('b', 'WET-4', 'Bern', '3')],
    targets=[T('WET', 'JMS', '160'), T('WET', 'flavio', '4.2'), T('WET', 'flavio', '4.2', 'S1'),
             T('WET', 'flavio', '4.2', 'S5'), T('WET', 'Bern', '4.2'), T('WET-4', 'flavio', '2', 'S3'),
             T('WET-4', 'flavio', '2'), T('WET-4', 'JMS', '3'), T('WET-3', 'JMS', '2', 'S6'), T('WET-3', 'JMS', '2'),
             T('WET', 'flavio', '4.2003', 'S1'), T('WET-4', 'JMS', '3.0001'),
             T('WET', 'flavio', '160', 'S1'), T('WET', 'JMS', '160', 'S5'), T('WET-4', 'Bern', '3', 'S3'),
             T('WET-4', 'JMS', '2', 'S1'), T('WET-3', 'Bern', '2', 'S6'), T('WET-4', 'flavio', '2', 'S5')]),
}


def run(c):
    # the design: every history of the cache state machine (bounded by the
    # finite sets of requests and option values, not by length)
    wl.model_check(c, 'smeft', ['w1'], wl.optvals(smeft_accuracy={'leadinglog'}, smeft_matchingscale={'160'},
                                                  parameters={'{p1}'}),
                   FAM['smeft']['wcs'], FAM['smeft']['targets'][:c.n(6, 7)])
    wl.model_check(c, 'wet', ['w1', 'w2'] if c.thorough else ['w1'],
                   wl.optvals(mb_matchingscale={'5'}),
                   FAM['wet']['wcs'][:2], FAM['wet']['targets'][1:c.n(6, 5)])
    wl.model_check(c, 'defaults', ['w1', 'w2'], wl.optvals(mb_matchingscale={'5'}, parameters={'{p1}'}),
                   FAM['wet']['wcs'][:1], FAM['wet']['targets'][:2], usedef=True)
    for fam, num, depth in (('smeft', c.n(16, 160), 16), ('wet', c.n(96, 800), 24)):
        f = FAM[fam]
        behs = wl.behaviours(c, num, depth, c.seed * 7 + len(fam), f['ids'], f['ov'], f['wcs'], f['targets'], usedef=True)
        ins = wl.make_inputs(f['wcs'], c.seed, light=('f', 'b'))
        bad = wl.replay_all(c, behs, ins, False)
        c.count('histories_' + fam, len(behs))
        c.count('requests', sum(e['a'] == 'run' for b in behs for e in b))
        c.sample(behs[0])
        for k, d in bad:
            if k in ('building blocks raise', 'wrong theory, basis or scale', 'exception for a possible request',
                     'wrong values') and not history_dependent(c, d, ins):
                continue     # not a matter of history: decided by C02
            c.violation(k, d)


def history_dependent(c, d, ins):
    """Repeat the last request of the history alone, on fresh instances in a
    fresh process; is the outcome there as specified?"""
    from lib import pmap
    if 'beh' not in d:
        return False
    beh = d['beh']
    last = beh[-1]
    opts = dict(wl.DEFAULTS)
    defs = dict(wl.DEFAULTS)
    wc = None
    for e in beh:
        if e['a'] == 'default':
            defs[e['k']] = e['v']
        elif e['a'] == 'new' and e['id'] == last['id']:
            wc, opts = e['wc'], dict(defs)
        elif e['a'] == 'set' and e['id'] == last['id']:
            opts[e['k']] = e['v']
    short = [dict(a='new', id='x', wc=wc)] + [dict(a='set', id='x', k=k, v=v) for k, v in opts.items()] \
        + [dict(last, id='x')]
    import multiprocessing as mp
    with mp.get_context('fork').Pool(1) as pool:
        r = pool.apply(wl.replay_group, (([short], ins, False),))
    return not r[0]
