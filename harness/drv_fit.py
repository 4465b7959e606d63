"""Drives the real Model.fit_regional_flow."""
import numpy as np
from common import *
from drv_aquifer import A2, lnq, smooth
from oneka.model import Model

TAUS = {6: (1, 2, 3, 6), 12: (2, 4, 6, 12), 36: (6, 12, 18, 36), 1: (1,)}


def reg(i, j):
    return [i*i, j*j, i*j, i, j, 1]


class F:
    def __init__(self, R, out, name):
        self.R, self.out, self.name = R, out, name
        self.a = R.choice([1.0, 0.5, 25.0, 100.0, 1000.0])
        self.u = R.choice([1.0, 0.25, 2.0])
        self.k = R.choice([1.0, 15.0, 0.3])
        self.base = R.choice([0.0, -20.0, 231.0])
        self.off = R.choice([(0., 0.), (322579., 5093431.), (-700.5, 12.25)])
        self.ev = []
        self.mo = None
        self.change()

    def change(self):
        """Attributes of the model: a new model, or the same one changed in place."""
        R = self.R
        self.H = R.choice([2, 3, 4, 6])
        self.wells = [(R.randint(-12, 12), R.randint(-12, 12), R.choice([-3, -1, 1, 2, 5])) for _ in range(R.choice([0, 0, 1, 2, 3]))]
        self.S = self.k * self.u**2 / 2
        rw = [[self.off[0] + self.a * w[0], self.off[1] + self.a * w[1], R.choice([0.1, 5.0]), 4 * math.pi * self.S * w[2]] for w in self.wells]
        if self.mo is None or R.random() < 0.3:
            self.mo = Model(self.base, self.k, 0.25, self.H * self.u, rw)
        else:
            self.mo.thickness = self.H * self.u
            if R.random() < 0.5:
                self.mo.wells = rw
            else:
                self.mo.wells[:] = rw                  # the same list, changed in place
            if R.random() < 0.3:
                self.base = self.mo.base = R.choice([0.0, -20.0, 231.0])
        if R.random() < 0.5:
            self.mo.coef = np.array([R.uniform(-9, 9) for _ in range(6)])
            self.mo.xo, self.mo.yo = self.off[0] + R.randint(-5, 5), self.off[1]
        self.org = (R.randint(-4, 4), R.randint(-4, 4))

    def dry(self, x, y):
        return any(not (0 < (x - w[0])**2 + (y - w[1])**2) or not smooth((x - w[0])**2 + (y - w[1])**2) for w in self.wells)

    def design(self, n, m):
        """n distinct lattice points within m of the origin, not degenerate."""
        R = self.R
        for _ in range(400):
            pts = set()
            for _ in range(1000):
                p = (self.org[0] + R.randint(-m, m), self.org[1] + R.randint(-m, m))
                if not self.dry(*p):
                    pts.add(p)
                if len(pts) == n:
                    break
            if len(pts) < n:
                continue
            pts = list(pts)
            R.shuffle(pts)
            A = np.array([reg(p[0] - self.org[0], p[1] - self.org[1]) for p in pts], float)
            if np.linalg.matrix_rank(A) == 6 and np.linalg.cond(A) < 60:
                return pts, A
        return None, None

    def real(self, pts, heads, stds):
        R = self.R
        mk = R.choice([list, tuple])
        return [mk((self.off[0] + self.a * p[0], self.off[1] + self.a * p[1], self.base + h, s)) for p, h, s in zip(pts, heads, stds)]

    def fit(self, obs):
        mo = self.mo
        xo, yo = self.off[0] + self.a * self.org[0], self.off[1] + self.a * self.org[1]
        old = (mo.coef.copy(), mo.xo, mo.yo)
        err, v = call(mo.fit_regional_flow, obs, xo, yo, limit=10)
        take = kept = False
        ev = cov = None
        if not err:
            ev, cov = np.array(v[0], float).reshape(6), np.array(v[1], float).reshape(6, 6)
            take = bool(mo.xo == xo and mo.yo == yo and np.array_equal(np.asarray(mo.coef).reshape(-1), ev))
        kept = bool(np.array_equal(old[0], mo.coef) and mo.xo == old[1] and mo.yo == old[2])
        pw = np.array([2, 2, 2, 1, 1, 0])
        f = self.a**pw / self.S
        return err, take, kept, (None if err else ev * f), (None if err else cov * np.outer(f, f))

    def general(self):
        R = self.R
        pts, A = self.design(R.choice([6, 7, 8, 9, 12, 16]), 2)
        if pts is None:
            return
        # the same list of observations, changed in place from fit to fit
        lst = []
        for _ in range(R.choice([1, 1, 2, 3])):
            if lst and self.wells and R.random() < 0.3:
                # the same wells with another discharge
                k, m = R.randrange(len(self.wells)), R.choice([-3, -1, 1, 2, 5])
                self.wells[k] = self.wells[k][:2] + (m,)
                self.mo.wells[k][3] = 4 * math.pi * self.S * m
            if lst and R.random() < 0.3:
                self.H = R.choice([2, 3, 4, 6])
                self.mo.thickness = self.H * self.u
            self.one(pts, A, lst)

    def one(self, pts, A, lst):
        R = self.R
        L = R.choice([6, 12])
        obs = []
        for p in pts:
            while True:
                h = R.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])
                s = R.choice([1, 2, 3, 4, 6])
                if h == self.H or L % (min(h, self.H) * s) or L // (min(h, self.H) * s) not in (1, 2, 3, 6):
                    continue
                break
            obs.append((p[0], p[1], h, s))
        lst[:] = self.real(pts, [o[2] * self.u for o in obs], [o[3] * self.u for o in obs])
        err, take, kept, c, cov = self.fit(lst)
        ev = dict(op='fit', obs=[list(o) for o in obs], wells=[list(w) for w in self.wells], org=list(self.org), H=self.H, L=L,
                  lna2=lnq(A2[self.a][0]) - lnq(A2[self.a][1]), err=err, take=take, c=[0] * 6, cov=[])
        if not err:
            if np.max(np.abs(c)) * 16 * 1e5 > 1.5e9:
                return
            ev['c'] = [q(v, 1e-5) for v in c]
            tau = np.array([min(o[2], self.H) * o[3] for o in obs])
            N = A.T @ (A * ((L / tau)**2)[:, None])
            cv = cov / (4.0 * L * L)
            if np.max(np.abs(N) @ np.abs(cv)) < 100 and np.max(np.abs(np.linalg.inv(N))) * np.max(N) < 100:
                ev['cov'] = [[q(v, 1e-7) for v in row] for row in cv]
                self.out.count('covariances')
        self.ev.append(ev)
        self.out.count('fits')

    def extreme(self):
        """One observation beyond doubt, or one that says nothing."""
        R = self.R
        pts, A = self.design(R.choice([8, 9, 12]), 2)
        if pts is None:
            return
        k = R.randrange(len(pts))
        B = np.delete(A, k, 0)
        heavy = R.random() < 0.6
        if not heavy and (np.linalg.matrix_rank(B) < 6 or np.linalg.cond(B) > 60):
            return
        obs = [(p[0], p[1], R.choice([self.H + 1, self.H + 2, self.H + 5])) for p in pts]
        s = R.choice([0.05, 0.5, 1.0, 10.0])
        eps = R.choice([1e-4, 1e-5, 1e-6] if heavy else [1e4, 1e5])
        stds = [s * self.u] * len(pts)
        stds[k] *= eps
        err, take, kept, c, cov = self.fit(self.real(pts, [o[2] * self.u for o in obs], stds))
        if not err and np.max(np.abs(c)) * 16 * 1e5 > 1.5e9:
            return
        self.ev.append(dict(op='ext', obs=[list(o) for o in obs], wells=[list(w) for w in self.wells], org=list(self.org), H=self.H,
                            lna2=lnq(A2[self.a][0]) - lnq(A2[self.a][1]), err=err, take=take, k=k + 1, heavy=heavy,
                            c=[0] * 6 if err else [q(v, 1e-5) for v in c]))
        self.out.count('extreme_fits')

    def exact(self):
        R = self.R
        m = R.choice([2, 3, 20])
        n = R.choice([6, 7, 10, 25, 25 if m < 20 else 300])
        pts = A = None
        if m == 20:
            pts = list({(self.org[0] + R.randint(-m, m), self.org[1] + R.randint(-m, m)) for _ in range(max(n, 10))})
            self.out.count('large_fits', int(n == 300))
            pts = [p for p in pts if not any((p[0] - w[0])**2 + (p[1] - w[1])**2 == 0 for w in self.wells)]
            A = np.array([reg(p[0] - self.org[0], p[1] - self.org[1]) for p in pts], float)
            if len(pts) < 9 or np.linalg.matrix_rank(A) < 6 or np.linalg.cond(A) > 1e4:
                return
        else:
            pts, A = self.design(n, m)
        if pts is None:
            return
        c = [R.randint(-3, 3) for _ in range(5)] + [0]
        P = A @ np.array(c, float)
        la = 2 * math.log(self.a)
        for i, p in enumerate(pts):
            for w in self.wells:
                P[i] += w[2] * (la + math.log((p[0] - w[0])**2 + (p[1] - w[1])**2))
        c[5] = int(math.ceil(max(0, -P.min()))) + R.randint(1, 30)      # wet everywhere
        P += c[5]
        heads, stds = [], []
        for v in P:
            s = R.choice([0.01, 0.1, 0.5, 1.0])
            if v >= self.H**2:
                h = (v + self.H**2) / (2 * self.H)
            else:
                while s * s > 0.9 * v:
                    s /= 2
                h = math.sqrt(v - s * s)
            heads.append(h * self.u)
            stds.append(s * self.u)
        err, take, kept, g, cov = self.fit(self.real(pts, heads, stds))
        # what rounding does to the potentials (and the UTM coordinates), amplified
        self.ev.append(dict(op='exact', c=c, g=[0] * 6 if err else [q(v, 1e-4) for v in g], err=err, take=take))
        self.out.count('exact_fits')

    def low(self):
        R = self.R
        pts, A = self.design(R.choice([7, 9, 12]), 2)
        if pts is None:
            return
        for _ in range(3):
            heads = [R.choice([1, 3, 5, 9]) * self.u for _ in pts]
            k = R.choice([0, len(pts) - 1, R.randrange(len(pts))])
            heads[k] = R.choice([0.0, -0.5, -40.0])
            obs = self.real(pts, heads, [R.choice([0.1, 1.0, 2.0])] * len(pts))
            err, take, kept, c, cov = self.fit(obs)
            self.ev.append(dict(op='low', err=err, kept=kept))
            self.out.count('refused')


def record(out):
    R = rng(16)
    n = 12 if thorough() else 1
    for _ in range(45 * n):
        f = F(R, out, 'fit')
        for _ in range(6):
            k = R.random()
            if k < 0.45:
                f.general()
            elif k < 0.6:
                f.extreme()
            elif k < 0.85:
                f.exact()
            else:
                f.low()
            f.change()
        if f.ev:
            out.add(dict(name='fit', ev=f.ev))
