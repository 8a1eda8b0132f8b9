"""Evaluation of symbolic plans (module Wilson, operator Plan) by the public
building blocks of the library."""
from wilson import wcxf
from wilson.run.smeft import SMEFT
from wilson.run.wet import WETrunner
from wilson import parameters as _parameters

PAR = {
    '{}': {},
    '{p1}': {'Vcb': 0.0455, 'alpha_s': 0.1130, 'm_b': 4.30},
    '{p2}': {'Vus': 0.21, 'gamma': 1.1, 'm_c': 1.22, 'alpha_e': 1 / 125.},
    '{p3}': {'Vub': 0.0040, 'm_s': 0.105, 'GF': 1.2e-5, 'm_mu': 0.11, 'm_d': 0.0052},
}
SEC = {
    'all': 'all',
    'S1': ('sb', 'db'),
    'S2': ('dF=0',),
    'S3': ('cu', 'sd'),
    'S4': ('sd', 'sbsb', 'mue'),
    'S5': ('db', 'sb'),
    'S6': ('sdsd', 'sd', 'muemue', 'mue'),
}


def value(tok, k):
    if k == 'parameters':
        return dict(PAR[tok])
    if k == 'smeft_accuracy':
        return tok
    if k in ('qed_order', 'qcd_order', 'smeft_matching_order'):
        return int(tok)
    return float(tok)


def params(tok):
    p = dict(DEFAULT_P)
    p.update(PAR[tok])
    return p


DEFAULT_P = dict(_parameters.p)


class Executor:
    def __init__(self, inputs):
        self.inputs = inputs          # name -> wcxf.WC
        self.memo = {}

    def __call__(self, name, steps):
        key = (name,) + tuple(tuple(sorted(s.items())) for s in steps)
        if key in self.memo:
            return self.memo[key]
        if not steps:
            r = self.inputs[name]
        else:
            prev = self(name, steps[:-1])
            r = self.step(prev, steps[-1])
        self.memo[key] = r
        return r

    @staticmethod
    def step(wc, s):
        op = s['op']
        if op == 'translate':
            sec = SEC[s['sectors']]
            return wc.translate(s['to'], parameters=params(s['par']),
                                sectors=None if sec == 'all' else sec)
        if op == 'smeft':
            return SMEFT(wc).run(float(s['scale']), accuracy=s['acc'])
        if op == 'match':
            p = params(s['par'])
            p['loop_order'] = int(s['loop'])
            return wc.match(s['eft'], s['to'], parameters=p)
        if op == 'restrict':
            so = {k: sec for sec, ks in wcxf.Basis[wc.eft, wc.basis].sectors.items() for k in ks}
            return wcxf.WC(wc.eft, wc.basis, wc.scale, {k: v for k, v in wc.values.items() if so[k] in SEC[s['sectors']]})
        if op == 'wetrun':
            return WETrunner(wc, parameters=params(s['par']), qed_order=int(s['qed']),
                             qcd_order=int(s['qcd'])).run(float(s['scale']), sectors=SEC[s['sectors']])
        raise KeyError(op)
