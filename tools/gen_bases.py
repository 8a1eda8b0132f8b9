"""Reconstruct WCxf EFT/basis files (the content of the wcxf-bases submodule,
which is empty in this sandbox) from data that is in the pinned repository.

  * WET JMS:     sector -> coefficient lists of wilson/data/run_wet_definitions_coeffs.json
  * WET-4/3/2:   the same without b / c and tau / s and mu
  * SMEFT Warsaw: the coefficient list of wilson/wcxf/data/test.Warsaw_mass.yml
                 (llphiphi completed to the symmetric matrix)
  * real flags:  hermiticity of the symmetry class
  * flavio, Bern, EOS, FlavorKit, formflavor: the keys that the JMS translators
                 produce per sector (second pass, needs the first)

Run by hand:  /opt/venv/bin/python tools/gen_bases.py   (output is committed)
"""
import json, os, sys, collections
import yaml

REPO = '/repo'
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'bases')

HERM2 = {"phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid"}
C4 = {"ll", "qq1", "qq3", "uu", "dd", 'VuuRR', 'VddRR', 'VuuLL', 'VddLL'}
C5 = {"lq1", "lq3", "eu", "ed", "ud1", "ud8", "le", "lu", "ld", "qe", "qu1",
      "qd1", "qu8", "qd8",
      "VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL",
      "V8udLL", "VeuRR", "VedRR", "V1udRR", "V8udRR", "VnueLR",
      "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR",
      "V1uuLR", "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR",
      "V1ddLR", "V8ddLR"}
C6 = {"ee", 'VeeLL', 'VeeRR', 'VnunuLL'}


def orbit_conj(name, ind):
    """indices related to `ind` by hermitian conjugation"""
    if name in HERM2:
        i, j = ind
        return {j + i}
    i, j, k, l = ind
    if name in C5:
        return {j + i + l + k}
    if name in C4:
        return {j + i + l + k, l + k + j + i}
    if name in C6:
        return {j + i + l + k, l + k + j + i, j + k + l + i, l + i + j + k}
    return set()


def is_real(key):
    name, _, ind = key.partition('_')
    if not ind:
        return True
    if name in HERM2 or name in C4 or name in C5 or name in C6:
        return ind in orbit_conj(name, ind)
    return False


def ent(key):
    return {'real': True} if is_real(key) else {}


def dump(fn, d):
    with open(os.path.join(OUT, fn), 'w') as f:
        json.dump(d, f, indent=0, sort_keys=False)
        f.write('\n')


# quark content of the JMS operators: field type per index
import re
def fields(name):
    base = re.sub(r'^(S|V|T)(1|8)?', '', name)
    base = re.sub(r'(LL|LR|RL|RR)$', '', base)
    f = re.findall(r'nu|e|u|d', base)
    return f

def index_fields(key):
    """list of (field, generation) of a JMS coefficient"""
    name, _, ind = key.partition('_')
    if not ind:
        return []
    if len(ind) == 2:
        f = re.match(r'nu|e|u|d', name).group()
        return [(f, int(i)) for i in ind]
    if name[0] == 'S' and name[:2] not in ('S1', 'S8') and name[1:] in (
            'uddLL', 'duuLL', 'duuLR', 'duuRL', 'dudRL', 'duuRR', 'uudLR', 'uudRL', 'dduRL'):
        q = name[1:4]
        lep = 'nu' if name in ('SuddLL', 'SdudRL', 'SdduRL') else 'e'
        return list(zip([q[0], q[1], q[2], lep], map(int, ind)))
    f = fields(name)
    if len(f) == 2:
        f = [f[0], f[0], f[1], f[1]]
    assert len(f) == 4, (name, f)
    return list(zip(f, map(int, ind)))

def survives(key, f):
    for q, g in index_fields(key):
        if f <= 4 and q == 'd' and g == 3:
            return False
        if f <= 3 and q == 'u' and g == 2:
            return False
        if f <= 3 and q == 'e' and g == 3:   # the tau goes with the charm
            return False
        if f <= 2 and (q, g) in (('d', 2), ('e', 2)):
            return False
    return True


def pass1():
    coeffs = json.load(open(REPO + '/wilson/data/run_wet_definitions_coeffs.json'))
    sectors = {s: {k: ent(k) for k in ks} for s, ks in coeffs.items()}
    dump('wet.eft.json', {'eft': 'WET', 'sectors': {s: {} for s in sectors}})
    dump('wet.jms.basis.json', {'eft': 'WET', 'basis': 'JMS', 'sectors': sectors})
    for f in (4, 3, 2):
        red = {s: {k: v for k, v in d.items() if survives(k, f)} for s, d in sectors.items()}
        red = {s: d for s, d in red.items() if d}
        dump(f'wet-{f}.eft.json', {'eft': f'WET-{f}', 'sectors': {s: {} for s in red}})
        dump(f'wet-{f}.jms.basis.json', {'eft': f'WET-{f}', 'basis': 'JMS', 'sectors': red})
    # SMEFT
    mass = yaml.safe_load(open(REPO + '/wilson/wcxf/data/test.Warsaw_mass.yml'))['values']
    keys = list(mass)
    order_0f = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG",
                "phiB", "phiW", "phiWB", "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB"]
    order_2f = ["uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW",
                "dB", "phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid", "phiud", "llphiphi"]
    order_4f = ["ll", "qq1", "qq3", "lq1", "lq3", "ee", "uu", "dd", "eu", "ed",
                "ud1", "ud8", "le", "lu", "ld", "qe", "qu1", "qd1", "qu8",
                "qd8", "ledq", "quqd1", "quqd8", "lequ1", "lequ3", "duql", "qque", "qqql", "duue"]
    order = order_0f + order_2f + order_4f
    by = collections.defaultdict(list)
    for k in sorted(keys):
        by[k.partition('_')[0]].append(k)
    assert set(by) == set(order), set(by) ^ set(order)
    full = dict(by)
    full['llphiphi'] = ['llphiphi_' + i for i in ('11', '12', '13', '22', '23', '33')]
    def sect(by):
        s = {'dB=dL=0': {}, 'dL=2': {}, 'dB=dL=1': {}}
        for n in order:
            t = 'dL=2' if n == 'llphiphi' else 'dB=dL=1' if n in ('duql', 'qque', 'qqql', 'duue') else 'dB=dL=0'
            for k in by[n]:
                s[t][k] = ent(k)
        return s
    dump('smeft.eft.json', {'eft': 'SMEFT', 'sectors': {'dB=dL=0': {}, 'dL=2': {}, 'dB=dL=1': {}}})
    dump('smeft.warsaw.basis.json', {'eft': 'SMEFT', 'basis': 'Warsaw', 'sectors': sect(full)})
    dump('child/smeft.warsaw_up.basis.json', {'eft': 'SMEFT', 'basis': 'Warsaw up', 'parent': 'Warsaw', 'sectors': {}})
    m = sect(by)
    for k in m['dL=2']:
        m['dL=2'][k] = {'real': True}
    dump('smeft.warsaw_mass.basis.json', {'eft': 'SMEFT', 'basis': 'Warsaw mass', 'sectors': m})


if __name__ == '__main__':
    pass1()


# ---------------------------------------------------------------- second pass
HIGGS0 = ["deltalambda3", "deltacz", "czBox", "cgg", "cgammagamma", "czz", "czgamma",
          "cggtilde", "cgammagammatilde", "czztilde", "czgammatilde"]
HIGGS_GONE0 = ["phi", "phiBox", "phiD", "phiG", "phiW", "phiB", "phiWB", "phiGtilde",
               "phiWtilde", "phiBtilde", "phiWtildeB"]
HIGGS_H = {"deltagWlL": "phil3", "deltagZeL": "phil1", "deltagZeR": "phie", "deltagZuL": "phiq3",
           "deltagZdL": "phiq1", "deltagZuR": "phiu", "deltagZdR": "phid"}


def pass_higgs():
    w = json.load(open(os.path.join(OUT, 'smeft.warsaw.basis.json')))
    s = {}
    for sec, d in w['sectors'].items():
        s[sec] = {}
        for k, v in d.items():
            n = k.partition('_')[0]
            if n in HIGGS_GONE0 or n in HIGGS_H.values() or n == 'phiud':
                continue
            s[sec][k] = v
    z = s['dB=dL=0']
    for k in HIGGS0:
        z[k] = {'real': True}
    for n in HIGGS_H:
        for i in '123':
            for j in '123':
                if i <= j:
                    z[f'{n}_{i}{j}'] = {'real': True} if i == j else {}
    for i in '123':
        for j in '123':
            z[f'deltagWqR_{i}{j}'] = {}
    dump('smeft.higgs_warsaw_up.basis.json', {'eft': 'SMEFT', 'basis': 'Higgs-Warsaw up', 'sectors': s})


def pass2():
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
    import boot, numpy as np
    boot.boot()
    from wilson import wcxf
    from wilson.translate import wet
    rng = np.random.default_rng(7)
    jms = wcxf.Basis['WET', 'JMS']
    def rnd(d):
        out = {}
        for k, v in d.items():
            out[k] = rng.uniform(.5, 1) * rng.choice([-1, 1])
            if not v.get('real'):
                out[k] = out[k] + 1j * rng.uniform(.5, 1)
        return out
    for name, fun in (('flavio', wet.JMS_to_flavio), ('Bern', wet.JMS_to_Bern),
                      ('EOS', wet.JMS_to_EOS), ('formflavor', wet.JMS_to_FormFlavor)):
        # sector in which a key is non-zero, and whether it is ever complex
        home, cplx = {}, set()
        allkeys = list(fun(rnd({k: v for d in jms.sectors.values() for k, v in d.items()}), 160.0, None))
        for sec, d in jms.sectors.items():
            for t in range(2):
                o = fun(rnd(d), 160.0, None)
                for k, v in o.items():
                    if v != 0:
                        home.setdefault(k, [])
                        if sec not in home[k]:
                            home[k].append(sec)
                        if abs(np.imag(v)) > 1e-9 * abs(v):
                            cplx.add(k)
        multi = {k: v for k, v in home.items() if len(v) > 1}
        print(name, len(allkeys), 'never non-zero:', len([k for k in allkeys if k not in home]),
              [k for k in allkeys if k not in home][:20], 'multi', list(multi.items())[:10])
        sectors = {s: {} for s in jms.sectors}
        for k in allkeys:
            if k not in home:
                continue
            sectors[home[k][0]][k] = {} if k in cplx else {'real': True}
        sectors = {s: d for s, d in sectors.items() if d}
        dump(f'wet.{name.lower()}.basis.json', {'eft': 'WET', 'basis': name, 'sectors': sectors})
        # WET-4 / WET-3: the keys that surviving JMS coefficients feed
        if name in ('flavio', 'Bern'):
            for f in (4, 3):
                jf = wcxf.Basis[f'WET-{f}', 'JMS']
                keep = set()
                zero = {}
                for sec, d in jf.sectors.items():
                    o = fun(dict(zero, **rnd(d)), 2.0, None)
                    keep |= {k for k, v in o.items() if v != 0}
                # a key that also needs a heavy quark is not in the reduced basis
                heavy = {k: v for d in jms.sectors.values() for k, v in d.items()
                         if k not in set(jf.all_wcs)}
                o = fun(rnd(heavy), 2.0, None)
                mixed = {k for k in keep if o.get(k, 0) != 0}
                print('  ', f, len(keep), 'mixed', sorted(mixed)[:20])
                red = {s: {k: v for k, v in d.items() if k in keep - mixed} for s, d in sectors.items()}
                red = {s: d for s, d in red.items() if d}
                dump(f'wet-{f}.{name.lower()}.basis.json', {'eft': f'WET-{f}', 'basis': name, 'sectors': red})
    # FlavorKit: keys of the data files + off-diagonal dipoles
    dj = json.load(open(REPO + '/wilson/data/flavorkit_jms.json'))
    dc = json.load(open(REPO + '/wilson/data/flavorkit_jms_conj.json'))
    sec_of = {k: (s, v) for s, d in jms.sectors.items() for k, v in d.items()}
    sectors = {s: {} for s in jms.sectors}
    m = dict(dj); m.update(dc); m.update({'AVLL_2231': 'VeeLL_1223', 'AVRR_2231': 'VeeRR_1223'})
    for i in '123':
        for j in '123':
            if i != j:
                m[f'K2R_{i}{j}'] = f'egamma_{j}{i}'
    miss = []
    for k, j in m.items():
        if j not in sec_of:
            miss.append((k, j)); continue
        sectors[sec_of[j][0]][k] = dict(sec_of[j][1])
    print('FlavorKit', len(m), 'JMS target unknown:', miss[:10], len(miss))
    sectors = {s: d for s, d in sectors.items() if d}
    dump('wet.flavorkit.basis.json', {'eft': 'WET', 'basis': 'FlavorKit', 'sectors': sectors})


if __name__ == '__main__':
    pass_higgs()
    pass2()
