"""Drives several real Models whose coefficients could be shared."""
import numpy as np
from common import *
from oneka.model import Model

PTS = [(0, 0), (1, 0), (0, 1), (-1, 1), (2, 1), (1, -2), (2, 2), (-2, -1)]


def fitted(v):
    return [v, -v, 1, v + 1, 2, 40]


def heads(c, H):
    out = []
    for i, j in PTS:
        P = c[0]*i*i + c[1]*j*j + c[2]*i*j + c[3]*i + c[4]*j + c[5]
        out.append((float(i), float(j), (P + H*H) / (2.0 * H), 0.5))
    return out


class Store:
    def __init__(self, R, out):
        self.R, self.out = R, out
        self.m = {1: None, 2: None, 3: None}
        self.e = {1: None, 2: None}
        self.wells = []                        # one list shared by all models
        self.ev = []

    def args(self):
        return (0.0, 2.0, 0.25, 1.0, self.wells)

    def do(self, o):
        R, m, e = self.R, self.m, self.e
        op, k, v = o['op'], o['k'], o['v']

        def go():
            if op == 'default':
                m[o['m']] = Model(*self.args())
            elif op == 'create':
                m[o['m']] = Model(*self.args(), coef=e[o['s']]) if R.random() < 0.7 else Model(*self.args(), 0, 0, e[o['s']])
            elif op == 'assign':
                m[o['m']].coef = e[o['s']]
            elif op == 'from':
                m[o['m']].coef = m[o['s']].coef
            elif op == 'inplace':
                mo = m[o['m']]
                how = R.randrange(3)
                if how == 0:
                    mo.coef[k - 1] = v
                elif how == 1:
                    c = mo.coef
                    c[k - 1] = v
                else:
                    mo.coef[k - 1] += v - mo.coef[k - 1]
            elif op == 'mutate':
                a = e[o['s']]
                if isinstance(a, np.ndarray):
                    a.reshape(-1)[k - 1] = v
                else:
                    a[k - 1] = v
            elif op == 'fit':
                ev, cov = m[o['m']].fit_regional_flow(heads(fitted(v), 1.0), 0.0, 0.0)
                e[o['s']] = ev
            elif op == 'fresh':
                vals = [v + i for i in range(6)]
                e[o['s']] = R.choice([lambda: np.array(vals, float), lambda: np.array(vals), lambda: [float(z) for z in vals],
                                      lambda: np.array(vals, float).reshape(6, 1), lambda: np.array(vals, float).reshape(1, 6),
                                      lambda: np.arange(20.0)[v:v + 6], lambda: np.array(vals, float)])()
        err, _ = call(go)
        coefs = []
        for i in (1, 2, 3):
            e1, c = call(lambda: [] if m[i] is None else [q(z, 1e-3) for z in np.asarray(m[i].coef, float).reshape(-1)])
            coefs.append(c if not e1 else [BIG])
        self.ev.append(dict(o=o, err=err, coefs=coefs))
        self.out.count('operations')

    def add(self):
        self.out.add(dict(ev=self.ev))


def from_spec(out, cases):
    R = rng(17)
    if not thorough():
        long_ = [c for c in cases if len(c) > 4]
        cases = R.sample(cases, min(len(cases), 500)) + long_[:150]
    for c in cases:
        s = Store(R, out)
        for o in c:
            s.do(o)
        s.add()
