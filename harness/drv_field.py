"""Drives the real ProbabilityField and records histories for Trace_ProbField.tla;
also replays the specification's own histories (Gen_ProbField.tla)."""
import json, random
import numpy as np
from common import *
from oneka.probabilityfield import ProbabilityField

W8 = 8                     # weights are logged in eighths


def observe(pf, err, scale, off, unit=1.0):
    p = dict(err=err, empty=True, x0=0, x1=0, y0=0, y1=0, res=0, nc=0, nr=0, shp=[0, 0, 0, 0],
             vis=[], acc=[], tot=0, wres=True)
    if pf is None:
        return p
    p['nc'], p['nr'] = q(pf.ncols), q(pf.nrows)
    if pf.ncols == 0 or pf.nrows == 0:
        return p
    p['empty'] = False
    res = 0.0
    for k, v, o in (('x0', pf.xmin, off[0]), ('x1', pf.xmax, off[0]), ('y0', pf.ymin, off[1]), ('y1', pf.ymax, off[1])):
        t = (float(v) - o) / scale
        p[k] = q(t)
        res = max(res, abs(t - p[k]))
    p['res'] = q(res * 1e6)
    pg, rg = np.asarray(pf.pgrid), np.asarray(pf.rgrid)
    p['shp'] = [q(s) for s in (pg.shape + rg.shape)]
    for i, j in zip(*np.nonzero(rg)):
        p['vis'].append([int(j), int(i)])
    tot = float(pf.total_weight) * W8 / unit
    slack = 0.0 if unit == 1.0 else 1e-9 * max(1.0, abs(tot))      # 1e-9: far above rounding, below single precision
    wres = abs(tot - round(tot)) <= slack if math.isfinite(tot) else False
    for i, j in zip(*np.nonzero(pg)):
        w = float(pg[i, j]) * W8 / unit
        wres = wres and math.isfinite(w) and abs(w - round(w)) <= slack
        p['acc'].append([int(j), int(i), q(w)])
    p['tot'] = q(tot)
    p['wres'] = bool(wres)
    return p


class Hist:
    """One history of one real field, in ticks; (x, y) = off + scale * ticks."""
    def __init__(self, scale, off, exact, unit=1.0):
        self.s, self.off, self.exact, self.unit = scale, off, exact, unit
        self.pf = None
        self.ev = []
        self.dead = False
        self.win = None

    def X(self, t): return self.off[0] + self.s * t
    def Y(self, t): return self.off[1] + self.s * t

    def do(self, op, a=(), u=0, how='list'):
        if self.dead:
            return
        err = ''
        if op in ('new', 'newat', 'badnew'):
            if op == 'newat':
                err, pf = call(ProbabilityField, self.s*a[0], self.s*a[1], self.X(a[2]), self.Y(a[3]))
            else:
                err, pf = call(ProbabilityField, self.s*a[0], self.s*a[1])
            if op != 'badnew':
                self.pf = pf
        elif op == 'expand':
            err, _ = call(self.pf.expand, self.X(a[0]), self.X(a[1]), self.Y(a[2]), self.Y(a[3]))
        elif op == 'rasterize':
            x = [self.X(p[0]) for p in a]
            y = [self.Y(p[1]) for p in a]
            if how == 'array':
                x, y = np.array(x), np.array(y)
            elif how == 'np':
                x, y = [np.float64(v) for v in x], [np.float64(v) for v in y]
            err, _ = call(self.pf.rasterize, x, y, self.s*u)
        elif op == 'insert':
            err, _ = call(self.pf.insert, self.X(a[0][0]), self.Y(a[0][1]), self.X(a[1][0]), self.Y(a[1][1]), self.s*u)
        elif op == 'register':
            err, _ = call(self.pf.register, u / W8 * self.unit)
        elif op == 'reset':
            err, _ = call(self.pf.reset)
        p = observe(None if op == 'badnew' else self.pf, err, self.s, self.off, self.unit)
        self.ev.append(dict(op=op, a=[list(v) if isinstance(v, (tuple, list)) else v for v in a], u=u, p=p))
        if err == 'Hang' or (self.pf is None and op != 'badnew'):
            self.dead = True

    def trace(self):
        return dict(exact=self.exact, scale=self.s, off=list(self.off), unit=self.unit, ev=self.ev)


EXACT_SCALES = [1.0, 0.5, 0.25, 0.125, 2.0, 8.0, 10.0]
UNITS = [1.0, 1.0, 1.0, 0.1, 1/3.0, 0.7, 1e-4, 1234.5]     # size of one weight
INEXACT_SCALES = [0.1, 0.3, 1/3.0, 0.7, 3.3]


def rnd_track(R, lo, hi, n):
    kind = R.random()
    if kind < 0.25:                                 # a walk
        x, y = R.randint(lo, hi), R.randint(lo, hi)
        p = [(x, y)]
        for _ in range(n - 1):
            x = max(lo, min(hi, x + R.randint(-12, 12)))
            y = max(lo, min(hi, y + R.randint(-12, 12)))
            p.append((x, y))
        return p
    if kind < 0.45:                                 # axis-aligned
        x, y = R.randint(lo, hi), R.randint(lo, hi)
        d = R.choice([1, 2, 4, 8, 16, 5, 11])
        return R.choice([[(x, y), (min(hi, x + d), y)], [(x, y), (x, min(hi, y + d))],
                         [(min(hi, x + d), y), (x, y)], [(x, min(hi, y + d)), (x, y)]])
    if kind < 0.55:                                 # contains zero-length segments
        a = (R.randint(lo, hi), R.randint(lo, hi))
        b = (R.randint(lo, hi), R.randint(lo, hi))
        return R.choice([[a, a], [a, a, b], [a, b, b], [a, a, a]])
    if kind < 0.65:                                 # there and back
        a = (R.randint(lo, hi), R.randint(lo, hi))
        b = (R.randint(lo, hi), R.randint(lo, hi))
        return [a, b, a]
    return [(R.randint(lo, hi), R.randint(lo, hi)) for _ in range(n)]


def random_history(R, out, steps, size, exact=None):
    exact = R.random() < 0.75 if exact is None else exact
    if exact:
        h = Hist(R.choice(EXACT_SCALES), R.choice([(0., 0.), (0., 0.), (322579., 5093431.), (-857., 1000.5), (2250., -40000.)]), True, R.choice(UNITS))
        dx = R.choice([1, 2, 3, 4, 5, 8])
        dy = R.choice([dx, dx, 1, 2, 3, 4, 6, 8])
    else:
        h = Hist(R.choice(INEXACT_SCALES), R.choice([(0., 0.), (17.3, -5.9)]), False, R.choice(UNITS))
        dx = R.choice([3, 4, 5, 7])
        dy = R.choice([dx, 3, 4, 5, 6])
        size = min(size, 30)
    lo, hi = -size, size
    off = R.choice([0, 0, 40, -60])
    if exact:
        lo, hi = lo + off, hi + off

    def clash(lo_, hi_, v0, d):                     # a bound exactly on a lattice line
        return (not exact) and ((lo_ - v0) % d == 0 or (hi_ - v0) % d == 0)

    if R.random() < 0.15:
        h.do('badnew', R.choice([(0, dy), (dx, 0), (-dx, dy), (dx, -1), (0, 0)]))
    anch = None
    if R.random() < 0.6:
        xo, yo = R.randint(lo, hi), R.randint(lo, hi)
        h.do('newat', (dx, dy, xo, yo))
        anch = (xo - dx, yo - dy)
    else:
        h.do('new', (dx, dy))
    for _ in range(steps):
        if h.dead:
            break
        r = R.random()
        if anch is None and r > 0.55:
            r = 0.1
        if r < 0.15:
            if R.random() < 0.2:
                a, b = sorted((R.randint(lo, hi), R.randint(lo, hi) + 1))
                if a == b:
                    b += 1
                c, d = sorted((R.randint(lo, hi), R.randint(lo, hi)))
                h.do('expand', R.choice([(b, a, c, d), (c, d, b, a), (b, a, b, a)]))
            else:
                a, b = sorted((R.randint(lo, hi), R.randint(lo, hi)))
                c, d = sorted((R.randint(lo, hi), R.randint(lo, hi)))
                if R.random() < 0.3:
                    b, d = a, R.choice([c, d])
                if anch is None:
                    if not exact and ((b - a) % dx == 0 or (d - c) % dy == 0):
                        continue
                    anch = (a - dx, c - dy)
                elif clash(a, b, anch[0], dx) or clash(c, d, anch[1], dy):
                    continue
                h.do('expand', (a, b, c, d))
        elif r < 0.55:
            u = R.choice([1, 2, 3, 4, 5, 8, 9, 12]) if exact else R.choice([2, 3, 4, 5, 7, 9])
            p = rnd_track(R, lo, hi, R.choice([2, 2, 3, 4, 6]))
            xs = [v[0] for v in p]; ys = [v[1] for v in p]
            a, b, c, d = min(xs) - u, max(xs) + u, min(ys) - u, max(ys) + u
            if anch is None:
                if not exact and ((b - a) % dx == 0 or (d - c) % dy == 0):
                    continue
                anch = (a - dx, c - dy)
            elif clash(a, b, anch[0], dx) or clash(c, d, anch[1], dy):
                continue
            h.do('rasterize', p, u, how=R.choice(['list', 'array', 'np', 'list']))
            out.count('tracks')
        elif r < 0.65:
            a = (R.randint(lo - 5, hi + 5), R.randint(lo - 5, hi + 5))
            b = (R.randint(lo - 5, hi + 5), R.randint(lo - 5, hi + 5)) if R.random() < 0.9 else a
            h.do('insert', (a, b), R.choice([1, 2, 3, 5, 8]))
            out.count('inserts')
        elif r < 0.9:
            h.do('register', (), w8(R))
            out.count('registrations')
        else:
            h.do('reset')
            out.count('resets')
    return h


def w8(R):
    return R.choice([8, 8, 8, 1, 2, 3, 4, 12, 16, 0, 80, 8*(2**24 + 1)])


def long_registration(R, out, n):
    """Many realizations: counters must not wrap or saturate."""
    h = Hist(1.0, (0., 0.), True, R.choice([1.0, 0.1]))
    h.do('newat', (4, 4, 0, 0))
    for k in range(n):
        h.do('rasterize', [(0, 0), (R.choice([3, 5]), 0)], 3)
        h.do('register', (), 8)
    out.count('registrations', n)
    return h


def long_track(R, out, n):
    """A track of very many short segments, as tracing with a small maximum step gives."""
    s = R.choice([1.0, 0.5, 0.125])
    h = Hist(s, R.choice([(0., 0.), (322579., 5093431.)]), True)
    d = R.choice([4, 5, 7])
    h.do('newat', (d, d, 0, 0))
    x, y, p = 0, 0, [(0, 0)]
    gx, gy = 1, 0
    while len(p) < n:
        if R.random() < 0.03:
            gx, gy = R.choice([(1, 0), (0, 1), (1, 1), (-1, 0), (0, -1), (1, -1)])
        if abs(x + gx) > 25:
            gx = -gx
        if abs(y + gy) > 25:
            gy = -gy
        if R.random() < 0.01:
            p.append((x, y))
        x, y = x + gx, y + gy
        p.append((x, y))
    # spikes to single vertices far from the rest, each of which is the only one to reach some
    # nodes, and the ends apart from the rest
    for k in R.sample(range(1, n - 1), 24):
        a, b = R.randint(-40, 40), R.choice([-1, 1]) * R.randint(31, 40)
        p[k] = R.choice([(a, b), (b, a)])
    p = [(-40, -40)] * 2 + p + [(40, 41)]
    h.do('rasterize', p, R.choice([1, 2, 3]), how=R.choice(['list', 'np']))
    h.do('register', (), 8)
    out.count('long_tracks')
    return h


def many_growths(R, out, n):
    """Many small expansions, with contents on all sides that have to move along."""
    h = Hist(R.choice([1.0, 0.5, 10.0]), R.choice([(0., 0.), (322579., 5093431.)]), True, R.choice(UNITS))
    dx, dy = R.choice([1, 2, 3]), R.choice([1, 2, 3])
    h.do('newat', (dx, dy, 0, 0))
    w = [-dx, dx, -dy, dy]
    for k in range(n):
        for i in R.sample(range(4), R.choice([1, 1, 2])):
            w[i] += R.choice([1, 1, 2, 5]) * (-1 if i in (0, 2) else 1)
        if k % 3 == 0:
            x, y = R.choice(w[:2]), R.choice(w[2:])
            h.do('rasterize', [(x, y), (x, y)], R.choice([1, 2]))
        else:
            h.do('expand', tuple(w))
        if k % 5 == 4:
            h.do('register', (), w8(R))
    out.count('many_growths')
    return h


def far_growth(R, out, huge=False, side=None):
    """Growth by hundreds of rows/columns at once, in every direction."""
    h = Hist(R.choice([1.0, 0.5]), (0., 0.), True)
    d = R.choice([1, 2])
    h.do('newat', (d, d + 1, 0, 0))
    h.do('rasterize', [(0, 0), (2, 3)], 3)
    h.do('register', (), 8)
    h.do('rasterize', [(1, 1), (1, 0)], 2)
    a = [0, 0, 0, 0]
    if huge:                                        # long and narrow, beyond 1000s
        k = R.randrange(4) if side is None else side
        a[k] = R.randint(9000, 14000) * (-1 if k in (0, 2) else 1)
        a[(k + 2) % 4] = R.randint(-9, 9)
        a = [min(a[0], a[1]), max(a[0], a[1]), min(a[2], a[3]), max(a[2], a[3])]
    else:
        for k in R.sample(range(4), R.choice([1, 2, 3, 4])):
            a[k] = R.randint(150, 900) * (-1 if k in (0, 2) else 1)
    h.do('expand', tuple(a))
    h.do('register', (), 16)
    h.do('expand', (-3, 3, -3, 3))
    out.count('far_growth')
    return h


def long_segments(R, out):
    """Steps much longer than a cell and an umbra: everything along them counts."""
    h = Hist(R.choice([1.0, 0.5, 10.0]), R.choice([(0., 0.), (322579., 5093431.)]), True)
    h.do('newat', (R.choice([1, 2, 3]), R.choice([1, 2, 3]), R.randint(-3, 3), R.randint(-3, 3)))
    for _ in range(3):
        n, m = R.randint(100, 400) * R.choice([-1, 1]), R.randint(-4, 4)
        a, b = (R.randint(-3, 3), R.randint(-3, 3)), (n, m)
        p = [a, b] if R.random() < 0.5 else [b, a]
        if R.random() < 0.5:
            p = [(y, x) for x, y in p]
        if R.random() < 0.3:
            p.append((p[1][0] + R.randint(-3, 3), p[1][1] + R.randint(-3, 3)))
        h.do('rasterize', p, R.choice([1, 2, 3]))
        h.do('register', (), w8(R))
    out.count('long_segments')
    return h


def dense(R, out):
    """Few nodes, everything around the umbra boundary: exact ties are decided."""
    h = Hist(R.choice(EXACT_SCALES), R.choice([(0., 0.), (5000., 5e6)]), True)
    d = R.choice([1, 2])
    h.do('newat', (d, d, R.randint(-3, 3), R.randint(-3, 3)))
    for _ in range(6):
        k = R.random()
        x, y = R.randint(-8, 8), R.randint(-8, 8)
        L = R.choice([1, 2, 4, 8])
        u = R.choice([1, 2, 3, 4, 5])
        if k < 0.4:
            p = [(x, y), (x + L, y)]
        elif k < 0.8:
            p = [(x, y), (x, y + L)]
        else:
            p = [(x, y), (x, y)]
        if R.random() < 0.5:
            p.reverse()
        h.do('rasterize', p, u)
        if R.random() < 0.4:
            h.do('register', (), 8)
    out.count('dense')
    return h


def record(out):
    R = rng()
    n = 8 if thorough() else 1
    for _ in range(30 * n):
        out.add(random_history(R, out, 7, 25).trace())
    for _ in range(4 * n):
        out.add(random_history(R, out, 12, 60, exact=True).trace())
    for _ in range(20 * n):
        out.add(dense(R, out).trace())
    for _ in range(3 * n):
        out.add(far_growth(R, out).trace())
        out.add(many_growths(R, out, 40).trace())
        out.add(long_segments(R, out).trace())
    for k in (range(4) if thorough() else [CTX['shard'] % 4]):
        out.add(far_growth(R, out, huge=True, side=k).trace())
    if CTX['shard'] % 4 == 1 or thorough():
        out.add(long_track(R, out, 4000 if thorough() else 1500).trace())
    if CTX['shard'] == 0:
        out.add(long_registration(R, out, 300).trace())


def from_spec(out, cases):
    """Histories of the specification (Gen_ProbField), replayed at several scales."""
    R = rng(1)
    if not thorough():
        cases = R.sample(cases, min(len(cases), 220))
    for k, case in enumerate(cases):
        scale, off = [(1.0, (0., 0.)), (0.5, (100., -7.)), (8.0, (322579., 5093431.)), (10.0, (0., 0.))][k % 4]
        h = Hist(scale, off, True)
        for s in case:
            h.do(s['op'], s['a'], s['u'])
        out.add(h.trace())
