"""Parity, CP and relabellings acting on JMS dictionaries (module WetSym)."""
import tlc
import flavour


class Sym:
    def __init__(self, check=None):
        r = tlc.run('WetSym', 'SPECIFICATION Spec\nPOSTCONDITION Out\n', expect_out=True)
        self.fields, self.par = r.data['fields'], r.data['parity']
        self.iso = r.data['iso']
        self.fields = {k: list(v) for k, v in self.fields.items()}
        r2, self.T, self.P8, self.ops = flavour.tables()
        self.cls = self.ops['WET']
        if check is not None:
            check.model(r)
            check.model(r2)

    def put(self, name, idx, v):
        """Coefficient of operator element (name, idx) as (key, value)."""
        if not idx:
            return name, v
        e = self.T[self.cls[name]][int(''.join(map(str, idx)))]
        v = complex(v)
        v = e['sign'] * (v.conjugate() if e['conj'] else v)
        return f"{name}_{str(e['rep']).zfill(len(idx))}", v

    @staticmethod
    def split(k):
        n, _, i = k.partition('_')
        return n, [int(c) for c in i]

    def parity(self, d):
        return self.move(d, self.par)

    def isospin(self, d):
        """The part of d that isospin is defined for, transformed."""
        return self.move({k: v for k, v in d.items() if self.split(k)[0] in self.iso}, self.iso)

    def move(self, d, table):
        out = {}
        for k, v in d.items():
            n, x = self.split(k)
            p = table.get(n)
            if p is None:
                out[k] = v
                continue
            v = complex(v)
            v = p['sign'] * (v.conjugate() if p['conj'] else v)
            k2, v2 = self.put(p['to'], [x[i - 1] for i in p['perm'][:len(x)]], v)
            assert k2 not in out
            out[k2] = v2
        return out

    def cp(self, d):
        return {k: (-v if k == 'Gtilde' else complex(v).conjugate()) for k, v in d.items()}

    def relabel(self, d, g):
        g = dict(zip('duen', g))
        out = {}
        for k, v in d.items():
            n, x = self.split(k)
            k2, v2 = self.put(n, [g[f][i - 1] for f, i in zip(self.fields[n], x)], v)
            assert k2 not in out
            out[k2] = v2
        return out
