"""Drives the real Model: potential, discharge, head, velocity."""
import numpy as np
from common import *
from oneka.model import Model

PRIMES = [p for p in range(2, 252) if all(p % d for d in range(2, int(p**.5) + 1))]
A2 = {1.0: (1, 1), 0.5: (1, 4), 25.0: (625, 1), 8.0: (64, 1), 100.0: (10000, 1), 1000.0: (10**6, 1)}


def lnq(n):
    s = 0
    for p in PRIMES:
        while n % p == 0:
            s += round(math.log(p) * 1e6)
            n //= p
    return s


def smooth(n):
    for p in PRIMES:
        while n % p == 0:
            n //= p
    return n == 1


class M:
    """One real model and what the specification knows of it."""
    def __init__(self, R, out, nwells=None, name=''):
        self.R, self.out, self.name = R, out, name
        self.a = R.choice(list(A2))
        self.s = R.choice([1.0, 0.001, 37.5, 2e4])
        self.u = R.choice([1.0, 0.125, 3.0, 10.0])          # unit of head [m]
        self.off = R.choice([(0., 0.), (322579., 5093431.), (-1e4, 2.5)])
        self.base = R.choice([0.0, -50.0, 230.5])
        self.k = R.choice([1.0, 15.0, 0.02, 250.0])
        self.pu = R.choice([1.0, 1.0, 1.0, 0.05, 0.004])      # unit of porosity
        self.reg = [0] * 6
        self.org = (0, 0)
        self.wells = []
        self.H, self.pn = R.choice([1, 2, 5, 8, 12]), R.randint(1, 19)
        n = R.choice([0, 1, 2, 3, 6, 12]) if nwells is None else nwells
        self.spots = None
        if n > 12:
            # a large wellfield: the places first, then wells whose distances to them factor
            self.a = R.choice([1.0, 0.5, 8.0, 25.0])
            self.spots = [(R.randint(-20, 20), R.randint(-20, 20)) for _ in range(4)]
            while len(self.wells) < n:
                w = (R.randint(-60, 60), R.randint(-60, 60), R.choice([-2, -1, 1, 1]))
                if all(d > 0 and smooth(d) for d in ((p[0] - w[0])**2 + (p[1] - w[1])**2 for p in self.spots)):
                    self.wells.append(w)
            n = 0
        for _ in range(n):
            self.wells.append((R.randint(-30, 30), R.randint(-30, 30), R.choice([-8, -3, -1, 1, 2, 5, 8]) if R.random() < 0.93 else 0))
        self.mk()
        self.ev = []
        self.newreg()
        self.set()

    def realwells(self):
        return [self.R.choice([list, tuple])((self.off[0] + self.a * w[0], self.off[1] + self.a * w[1],
                self.R.choice([0.05, 0.3, 20.0, 3 * self.a]), 4 * math.pi * self.s * w[2])) for w in self.wells]

    def mk(self):
        self.err, self.mo = call(Model, self.base, self.k, self.pn * self.pu / 20, self.H * self.u, self.realwells())

    def set(self):
        """Put the attributes into the real model, in one of the ways a user would."""
        R, mo, s, a = self.R, self.mo, self.s, self.a
        c = [s * self.reg[0] / a**2, s * self.reg[1] / a**2, s * self.reg[2] / a**2, s * self.reg[3] / a, s * self.reg[4] / a,
             s * self.reg[5]]
        if R.random() < 0.5:
            mo.coef = np.array(c)
        else:
            for i in range(6):
                mo.coef[i] = c[i]
        mo.xo, mo.yo = self.off[0] + a * self.org[0], self.off[1] + a * self.org[1]
        mo.thickness, mo.porosity, mo.base, mo.conductivity = self.H * self.u, self.pn * self.pu / 20, self.base, self.k
        if R.random() < 0.5:
            mo.wells = self.realwells()
        else:
            mo.wells[:] = self.realwells()
        self.ev.append(dict(op='set', reg=list(self.reg), org=list(self.org), wells=[list(w) for w in self.wells], H=self.H, pn=self.pn))

    def newreg(self):
        R = self.R
        big = R.choice([1, 3])
        self.org = (R.randint(-10, 10), R.randint(-10, 10)) if R.random() < 0.8 else (0, 0)
        self.reg = [R.randint(-1, 1), R.randint(-1, 1), R.randint(-1, 1), R.randint(-big * 5, big * 5), R.randint(-big * 5, big * 5), R.randint(-99, 99)]
        if R.random() < 0.15:
            self.reg = [0] * 6

    def point(self):
        R = self.R
        for _ in range(500):
            x, y = R.randint(-20, 20), R.randint(-20, 20)
            if self.spots:
                x, y = R.choice(self.spots)
            elif self.wells and R.random() < 0.4:
                w = R.choice(self.wells)
                x, y = w[0] + R.randint(-2, 2), w[1] + R.randint(-2, 2)
            ok = abs(self.regional(x, y)) < 1400
            for w in self.wells:
                n = (x - w[0])**2 + (y - w[1])**2
                ok = ok and n > 0 and smooth(n) and 2 * abs(w[2]) * max(abs(x - w[0]), abs(y - w[1])) < 1500
            if ok:
                return x, y
        return None

    def regional(self, x, y):
        i, j, r = x - self.org[0], y - self.org[1], self.reg
        return r[0]*i*i + r[1]*j*j + r[2]*i*j + r[3]*i + r[4]*j + r[5]

    def xy(self, x, y):
        X, Y = self.off[0] + self.a * x, self.off[1] + self.a * y
        if self.R.random() < 0.3 and float(X).is_integer() and float(Y).is_integer():
            return int(X), int(Y)
        return X, Y

    def evaluate(self, k=1):
        p = self.point()
        if p is None:
            return
        x, y = p
        X, Y = self.xy(x, y)
        err, v = call(self.mo.compute_potential, X, Y)
        self.ev.append(dict(op='pot', x=x, y=y, err=err, v=BIG if err else q(v / self.s, 1e-6)))
        err, v = call(self.mo.compute_potential_wells_only, X, Y)
        self.ev.append(dict(op='wonly', x=x, y=y, err=err, v=BIG if err else q(v / self.s, 1e-6)))
        err, v = call(self.mo.compute_discharge, X, Y)
        self.ev.append(dict(op='dis', x=x, y=y, err=err, vx=BIG if err else q(v[0] * self.a / self.s, 1e-6),
                            vy=BIG if err else q(v[1] * self.a / self.s, 1e-6)))
        self.out.count('locations')

    # -- heads: give the place the potential that belongs to it
    def setpot(self, X, Y, P):
        """P: 2 potential / conductivity in units^2.  Uses the model's own potential."""
        mo = self.mo
        f = mo.coef[5]
        mo.coef[5] = 0.0
        err, p0 = call(mo.compute_potential, X, Y)
        if err:
            p0 = 0.0
        mo.coef[5] = P * self.u**2 * self.k / 2 - p0
        return f, (abs(p0) + 1e-300) / max(abs(P * self.u**2 * self.k / 2), 1e-300)

    def potof(self, h):
        return h * h if h <= self.H else 2 * self.H * h - self.H**2

    def heads(self):
        R = self.R
        p = self.point()
        if p is None:
            return
        x, y = p
        X, Y = self.xy(x, y)
        for h in {R.randint(1, self.H), self.H, self.H + 1, max(1, self.H - 1), R.randint(1, 40), R.choice([1, 300])}:
            f, cond = self.setpot(X, Y, self.potof(h))
            if cond < 1e6:
                err, v = call(self.mo.compute_head, X, Y)
                self.ev.append(dict(op='head', h=h, err=err, v=BIG if err else q(v / self.u, 1e-6)))
                self.out.count('heads')
            self.mo.coef[5] = f
        last, up = 0.0, True
        for d in sorted(set([R.randint(-90000, 90000) for _ in range(6)] + [-1, 0, 1, -1000, 1000])):
            f, cond = self.setpot(X, Y, self.H**2 * (1 + d * 1e-9))
            if cond < 1e3:
                err, v = call(self.mo.compute_head, X, Y)
                self.ev.append(dict(op='near', d=d, err=err, v=BIG if err else q(v / self.u / self.H - 1, 1e-9)))
                up = up and not err and v > last
                last = v or 0.0
            self.mo.coef[5] = f
        if last:
            self.ev.append(dict(op='incr', up=bool(up)))
        # further away, log-uniformly: the expansion of the square root on the unconfined side
        for d in sorted(int(R.choice([-1, -1, 1]) * 10**R.uniform(0, 4.3)) for _ in range(8)):
            f, cond = self.setpot(X, Y, self.H**2 * (1 + d * 1e-6))
            if cond < 1e3:
                err, v = call(self.mo.compute_head, X, Y)
                self.ev.append(dict(op='across', d=d, err=err, v=BIG if err else q(v / self.u / self.H - 1, 1e-9)))
            self.mo.coef[5] = f

    def scan(self):
        """Strictly increasing over many orders of magnitude (no wells: potential = F)."""
        mo = self.mo
        c, w = mo.coef.copy(), mo.wells
        mo.coef, mo.wells = np.zeros(6), []
        last, up = 0.0, True
        P = self.k * (self.H * self.u)**2 / 2
        vals = sorted([P * 10**(e / 4) for e in range(-36, 13) if e] + [P * (1 + d) for d in (-1e-3, -1e-6, -1e-10, 0, 1e-10, 1e-6, 1e-3)])
        for v in vals:
            mo.coef[5] = v
            err, h = call(mo.compute_head, 12.0, 34.0)
            up = up and not err and h > last
            last = h or last
        self.ev.append(dict(op='incr', up=bool(up)))
        for v in (0.0, -1e-300, -1e-9 * P, -P, -1e9 * P):
            mo.coef[5] = v
            self.dryevent(12.0, 34.0)
        mo.coef, mo.wells = c, w

    def dryevent(self, X, Y):
        e1, _ = call(self.mo.compute_head, X, Y)
        e2, _ = call(self.mo.compute_velocity, X, Y)
        e3, _ = call(self.mo.compute_velocity_confined, X, Y)
        self.ev.append(dict(op='dry', herr=e1, verr=e2, cerr=e3))
        self.out.count('dry')

    def dry(self):
        p = self.point()
        if p is None:
            return
        X, Y = self.xy(*p)
        for P in (-1e-4, -1.0, -50.0):
            f, cond = self.setpot(X, Y, P)
            if cond < 1e9:
                self.dryevent(X, Y)
            self.mo.coef[5] = f

    def velocity(self):
        R = self.R
        p = None
        for _ in range(50):
            p = self.point()
            if p is None:
                return
            x, y = p
            Q = [self.regq(c, x, y) for c in (0, 1)]
            if max(abs(Q[0]), abs(Q[1])) * 20 < 1800:
                break
        else:
            return
        X, Y = self.xy(x, y)
        sc = self.a * self.u * self.pu / self.s
        for h in {R.randint(1, self.H), self.H, self.H + 1, R.randint(1, 30)}:
            f, cond = self.setpot(X, Y, self.potof(h))
            if cond < 1e6:
                e1, c = call(self.mo.compute_velocity_confined, X, Y)
                err, v = call(self.mo.compute_velocity, X, Y)
                c = c if not e1 else (1e9, 1e9)
                self.ev.append(dict(op='vel', h=h, x=x, y=y, err=err, vx=0 if err else q(v[0] * sc, 1e-6), vy=0 if err else q(v[1] * sc, 1e-6),
                                    cx=q(c[0] * sc, 1e-6), cy=q(c[1] * sc, 1e-6)))
                self.ev.append(dict(op='velc', h=h, x=x, y=y, err=e1, vx=0 if e1 else q(c[0] * sc, 1e-6), vy=0 if e1 else q(c[1] * sc, 1e-6)))
                self.out.count('velocities')
            self.mo.coef[5] = f

    def thin(self):
        """Very small saturated thickness: velocity * porosity * head = discharge."""
        R = self.R
        p = self.point()
        if p is None:
            return
        X, Y = self.xy(*p)
        for e in (-6, -4, -3, -2, -1.3, -0.5, 0.3, 2):
            f, cond = self.setpot(X, Y, (self.H * 10**e)**2 if e < 0 else self.H**2 * (2 * 10**e - 1))
            if cond < 1e7:
                e0, Q = call(self.mo.compute_discharge, X, Y)
                e1, h = call(self.mo.compute_head, X, Y)
                err, v = call(self.mo.compute_velocity, X, Y)
                c = 0 if not e0 and abs(Q[0]) >= abs(Q[1]) else 1
                if not (e0 or e1) and Q[c] != 0:
                    r = 0 if err else q(v[c] * self.pn * self.pu / 20 * min(h, self.H * self.u) / Q[c], 1e-6)
                    self.ev.append(dict(op='thin', err=err, r=r))
            self.mo.coef[5] = f

    def regq(self, c, x, y):
        i, j, r = x - self.org[0], y - self.org[1], self.reg
        v = -(2*r[0]*i + r[2]*j + r[3]) if c == 0 else -(2*r[1]*j + r[2]*i + r[4])
        for w in self.wells:
            dx, dy = x - w[0], y - w[1]
            v -= 2 * w[2] * (dx if c == 0 else dy) / (dx*dx + dy*dy)
        return v

    # -- arbitrary places
    def superpose(self):
        R, mo, s, a = self.R, self.mo, self.s, self.a
        X, Y = self.off[0] + R.uniform(-40, 40) * a, self.off[1] + R.uniform(-40, 40) * a
        # far from or very close to a well
        if mo.wells and R.random() < 0.5:
            w = R.choice(mo.wells)
            r = 10**R.uniform(-3, 2)
            t = R.uniform(0, 6.3)
            X, Y = w[0] + r * math.cos(t), w[1] + r * math.sin(t)
        def val(wells, coef, kind):
            m = Model(self.base, self.k, self.pn * self.pu / 20, self.H * self.u, wells, mo.xo, mo.yo, coef)
            if kind == 'pot':
                return m.compute_potential(X, Y) / s
            return m.compute_discharge(X, Y)[kind] * a / s
        for kind in ('pot', 0, 1):
            err, v = call(lambda: (val(mo.wells, mo.coef, kind),
                          [val([], mo.coef, kind)] + [val([w], np.zeros(6), kind) for w in mo.wells], val(list(mo.wells)[::-1], mo.coef, kind)))
            if err:
                self.ev.append(dict(op='super', what='ended with ' + err, all=1000000, parts=[]))
                continue
            al, parts, rev = v
            if any(abs(z) > 1500 for z in parts + [al]) or sum(abs(z) for z in parts) > 2000:
                continue
            self.ev.append(dict(op='super', what='regional flow and wells', all=q(al, 1e-6), parts=[q(z, 1e-6) for z in parts]))
            self.ev.append(dict(op='super', what='order of the wells', all=q(al, 1e-6), parts=[q(rev, 1e-6)]))
        self.out.count('superpositions')

    def ray(self):
        """One well at arbitrary distance: near field and far field."""
        R, s = self.R, self.s
        m = R.choice([-5, -1, 1, 3, 8])
        cx, cy = R.choice([(0., 0.), (0.5, -0.25)])
        r, t = 10**R.uniform(-6, 5), R.uniform(0, 2 * math.pi)
        dx, dy = r * math.cos(t), r * math.sin(t)
        if (cx, cy) != (0., 0.) and r < 1e-2:
            cx = cy = 0.
        rw = R.choice([0.01, 0.3, 50.0, 1000.0])
        def go():
            mo = Model(self.base, self.k, self.pn * self.pu / 20, self.H * self.u, [(cx, cy, rw, 4 * math.pi * s * m)])
            p = [mo.compute_potential(cx + f * dx, cy + f * dy) / s for f in (1, 2)]
            qs = []
            for f in (1, 2):
                ex, ey = cx + f * dx - cx, cy + f * dy - cy
                Q = mo.compute_discharge(cx + f * dx, cy + f * dy)
                qs.append(((Q[0] * ex + Q[1] * ey) / s, (Q[0] * ey - Q[1] * ex) / s))
            return p, qs
        err, v = call(go)
        if err:
            self.ev.append(dict(op='ray', m=m, p1=0, p2=0, q1=0, q2=0, c1=0))
        else:
            p, qs = v
            self.ev.append(dict(op='ray', m=m, p1=q(p[0], 1e-6), p2=q(p[1], 1e-6), q1=q(qs[0][0], 1e-6), q2=q(qs[1][0], 1e-6), c1=q(qs[0][1], 1e-6)))
        self.out.count('rays')

    def add(self):
        n, d = A2[self.a]
        self.out.add(dict(name=self.name, lna2=lnq(n) - lnq(d), ev=self.ev))


def record(out):
    R = rng(13)
    P = CTX['prop']
    n = 12 if thorough() else 1
    for _ in range({'C13': 90, 'C14': 40, 'C15': 60}[P] * n):
        m = M(R, out, name=P, nwells=R.choice([20, 40, 60]) if _ % 15 == 7 else None)
        out.count('large_wellfields', int(bool(m.spots)))
        if m.err:
            raise RuntimeError('Model() ended with ' + m.err)
        for r in range(3):
            if P == 'C13':
                for _ in range(3):
                    m.evaluate()
                m.superpose()
                m.ray()
            elif P == 'C14':
                m.heads()
                m.scan()
                m.dry()
            else:
                m.velocity()
                m.velocity()
                m.thin()
                m.scan()
                m.dry()
            # change the model in place and look again
            k = R.random()
            if k < 0.5:
                m.newreg()
            if k < 0.3 or k > 0.7:
                m.H, m.pn = R.choice([1, 2, 5, 8, 12]), R.randint(1, 19)
            if k > 0.5 and m.wells:
                i = R.randrange(len(m.wells))
                m.wells[i] = (R.randint(-30, 30), R.randint(-30, 30), R.choice([-2, 1, 4]))
            m.set()
        m.add()
