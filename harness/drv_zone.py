"""Drives the real compute_capturezone on real probability fields."""
import logging
import numpy as np
from common import *
from drv_field import observe, W8
from oneka.probabilityfield import ProbabilityField
from oneka.capturezone import compute_capturezone, compute_backtrace

S, SR = 30000, 20000


class Rec(ProbabilityField):
    """A probability field that remembers the tracks it was given."""
    def rasterize(self, x, y, umbra):
        self.tracks.append([(float(a), float(b)) for a, b in zip(x, y)])
        return super().rasterize(x, y, umbra)


def flows(R, kind):
    """(velocity, clock) in metres and days relative to the target; clock(p) = time."""
    a = R.random() * 2 * math.pi
    c, s = math.cos(a), math.sin(a)
    k = R.choice([0.1, 0.7, 3.0])
    if kind == 'uniform':
        return (lambda x, y: (k * c, k * s)), (lambda d: (d[0] * c + d[1] * s) / k)
    if kind == 'shear':                       # along x with a y-dependent lateral component
        g = R.choice([0.02, 0.001])
        return (lambda x, y: (k, k * math.sin(g * x))), (lambda d: d[0] / k)
    if kind == 'swirl':
        w = R.choice([0.02, -0.01])
        return (lambda x, y: (-w * y + 0.3, w * x)), None
    if kind == 'radial':                      # what a pumping well looks like, backwards
        q_ = R.choice([3.0, 40.0])
        return (lambda x, y: (q_ * x / (x*x + y*y), q_ * y / (x*x + y*y))), None
    if kind == 'still':
        return (lambda x, y: (0.0, 0.0)), None


class Zone:
    def __init__(self, R, out):
        self.R, self.out = R, out
        self.tick = R.choice([1.0, 0.5, 0.25])
        self.off = R.choice([(0., 0.), (1000., -2000.), (322579., 5093431.)])
        self.dx = R.choice([16, 24, 30])
        self.dy = R.choice([self.dx, 16, 20])
        s = self.tick
        self.pf = Rec(self.dx * s, self.dy * s, self.off[0] + R.randint(-5, 5) * s, self.off[1] + R.randint(-5, 5) * s) \
            if R.random() < 0.8 else Rec(self.dx * s, self.dy * s)
        self.pf.tracks = []
        self.ev = [dict(op='new', p=observe(self.pf, '', s, self.off))]
        self.dead = False

    def obs(self, err=''):
        return observe(self.pf, err, self.tick, self.off)

    def ticks(self, p):
        return [q((p[0] - self.off[0]) / self.tick), q((p[1] - self.off[1]) / self.tick)]

    def prior(self):
        R, s = self.R, self.tick
        if self.pf.ncols == 0:
            self.pf.expand(self.off[0], self.off[0] + 3 * s, self.off[1], self.off[1] + 3 * s)
        for _ in range(R.randint(1, 3)):
            ProbabilityField.rasterize(self.pf, [self.off[0] + R.randint(-60, 60) * s for _ in range(3)],
                                       [self.off[1] + R.randint(-60, 60) * s for _ in range(3)], 20 * s)
            if R.random() < 0.7:
                self.pf.register(R.choice([1.0, 0.5, 2.0]))
        self.pf.reset()
        self.ev.append(dict(op='prior', p=self.obs()))

    def params(self, kind, npaths=None):
        R, s = self.R, self.tick
        v, clock = flows(R, kind)
        n = npaths or R.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 36])
        ms = R.choice([10, 18]) * s
        tol = R.choice([1e-3, 1e-4, 0.05]) * s
        T = R.choice([1, 1, -1]) * R.choice([5.0, 30.0, 90.0, 365.25])
        if R.random() < 0.15:                     # a step or two
            T = math.copysign(R.choice([0.05, 0.1, 0.11, 0.2]), T)
        if kind == 'radial':
            T = abs(T)
            ms = 10 * s
        # bound the length of the path to about 300 ticks
        speed = max(math.hypot(*v(10 * s, 5 * s)), math.hypot(*v(100 * s, 50 * s)))
        if speed * abs(T) > 250 * s:
            T = math.copysign(250 * s / speed, T)
        xt, yt = self.off[0] + R.uniform(-20, 20) * s, self.off[1] + R.uniform(-20, 20) * s
        rt = R.choice([0.05, 0.3, 1.0, 10.0, 35.5])
        u = R.choice([12, 20, 33, 40])
        w = R.choice([8, 8, 8, 4, 20, 1])
        if self.R.random() < 0.2:
            T, = (int(T) if abs(T) >= 1 else T,)
        f = (lambda xy: np.array(v(xy[0] - xt, xy[1] - yt))) if True else None
        return dict(v=v, clock=clock, n=n, ms=ms, tol=tol, T=T, xt=xt, yt=yt, rt=rt, u=u, w=w, f=f, timed=clock is not None)

    def run(self, P, feval, limit=30):
        self.pf.tracks = []
        with LogTap() as tap:
            err, _ = call(compute_capturezone, P['xt'], P['yt'], P['rt'], P['n'], P['T'], self.pf, P['u'] * self.tick,
                          P['w'] / W8, P['tol'], P['ms'], feval, limit=limit)
        return err, sum(1 for r in tap.rec if r[0] >= logging.WARNING)

    def event(self, P, err, warn, fault=False, base=None, g=0, rho=0, lim=0):
        tracks = self.pf.tracks
        if not tracks and not err:
            # the tracks did not come through rasterize: use the ideal ones
            tracks = []
            for k in range(P['n']):
                a = 2 * math.pi * k / P['n']
                _, vs = call(compute_backtrace, (P['rt'] + 1) * math.cos(a) + P['xt'], (P['rt'] + 1) * math.sin(a) + P['yt'],
                             P['T'], P['tol'], P['ms'], P['f'])
                tracks.append([(float(z[0]), float(z[1])) for z in vs])
        starts = sorted((t[0] for t in tracks if t), key=lambda p: math.atan2(p[1] - P['yt'], p[0] - P['xt']))
        st = [[q((p[0] - P['xt']) / (P['rt'] + 1) * SR), q((p[1] - P['yt']) / (P['rt'] + 1) * SR)] for p in starts]
        st = [[max(-32000, min(32000, a)) for a in p] for p in st]
        clk, r, agree = [], 0, 0
        for t in tracks:
            for a, b in zip(t, t[1:]):
                r = max(r, q(math.hypot(b[0] - a[0], b[1] - a[1]) / P['ms'] * 1e6 - 0.5))
            if P['clock'] and t:
                d = (t[-1][0] - t[0][0], t[-1][1] - t[0][1])
                clk.append(q(P['clock'](d) / P['T'] * 1e9))
            if not fault and t:
                e1, vs = call(compute_backtrace, t[0][0], t[0][1], P['T'], P['tol'], P['ms'], P['f'])
                agree += int(not e1 and len(vs) == len(t) and all(
                    abs(z[0] - y[0]) + abs(z[1] - y[1]) <= 1e-7 * (1 + abs(P['ms'])) for z, y in zip(vs, t)))
        full = cut = 0
        if fault:
            for t, b in zip(tracks, base):
                if t == b:
                    full += 1
                elif len(t) < len(b) and t == b[:len(t)] and t:
                    cut += 1
        self.out.count('paths', len(tracks))
        self.ev.append(dict(op='zone', n=P['n'], w=P['w'], u=P['u'], starts=st,
                            paths=[[self.ticks(p) for p in t] for t in tracks],
                            clk=clk, timed=P['timed'], r=r, g=g, rho=rho, agree=agree, full=full, cut=cut, warn=warn,
                            fault=fault, lim=lim, err=err, p=self.obs(err)))

    def zone(self, kind, npaths=None):
        P = self.params(kind, npaths)
        err, warn = self.run(P, P['f'])
        self.event(P, err, warn)
        self.out.count('zones')

    def few(self, n):
        """n particles, each with a step or two."""
        P = self.params('uniform', n)
        P['T'] = math.copysign(min(abs(P['T']), 0.15), P['T'])
        err, warn = self.run(P, P['f'])
        self.event(P, err, warn)
        self.out.count('zones')

    def tolzone(self):
        """The tolerance must govern: flow (1, A x^4) with a huge maximum step."""
        R, s = self.R, self.tick
        n = R.choice([2, 3, 5])
        P = self.params('uniform', n)
        P['rt'] = R.choice([0.05, 5.0])
        H, A = 0.12 * 200 * s, R.choice([1.0, 0.1]) / (200 * s)**4
        P['ms'], P['T'], P['clock'], P['timed'] = 1e4 * s, 200 * s, (lambda d: d[0]), True
        P['tol'] = A * H**5 / 3803
        P['f'] = lambda xy: np.array([1.0, A * (xy[0] - P['xt'])**4])
        err, warn = self.run(P, P['f'])
        g = 0
        for t in self.pf.tracks:
            for a, b in zip(t, t[1:]):
                g = max(g, min(32000, q(abs(b[0] - a[0]) / H * S)))
        self.event(P, err, warn, g=g, rho=3803)
        self.out.count('zones')

    def fault(self):
        """One failing evaluation in the middle of the capture zone."""
        R = self.R
        P = self.params(R.choice(['uniform', 'shear', 'swirl']), R.choice([2, 3, 4]))
        keep = self.pf
        # the undisturbed zone, on a field of its own
        cnt = [0]

        pts = []

        def f0(xy):
            cnt[0] += 1
            pts.append((float(xy[0]), float(xy[1])))
            return P['f'](xy)
        self.pf = Rec(self.dx * self.tick, self.dy * self.tick, *self.off)
        self.pf.tracks = []
        err, _ = self.run(P, f0)
        base = self.pf.tracks
        self.pf = keep
        if err or not base:
            return
        # the evaluations with which a particle begins, and some others
        begins = [i + 1 for i, p in enumerate(pts) if any(p == b[0] for b in base)]
        for bad in [{R.choice(begins)}, {R.choice(begins) + R.randint(1, 5)}, {R.randint(2, cnt[0])}, set(range(1, 10**6))]:
            c = [0]
            how = R.choice(['raise', 'nan', 'inf'])

            def f(xy):
                c[0] += 1
                if c[0] in bad:
                    if how == 'raise':
                        raise ArithmeticError('dry')
                    return np.array([np.nan, np.nan] if how == 'nan' else [np.inf, 1.0])
                if not np.all(np.isfinite(xy)):
                    return np.array([np.nan, np.nan])
                return P['f'](xy)
            err, warn = self.run(P, f)
            self.event(P, err, warn, fault=True, base=base, lim=1 if len(bad) == 1 else P['n'])
            self.out.count('zone_faults')

    def interrupt(self, m):
        R = self.R
        P = self.params(R.choice(['uniform', 'shear']), R.choice([1, 2, 3]))
        P['ms'] = 18 * self.tick
        cnt = [0]

        def f0(xy):
            cnt[0] += 1
            return P['f'](xy)
        keep = self.pf
        self.pf = Rec(self.dx * self.tick, self.dy * self.tick, *self.off)
        self.pf.tracks = []
        self.run(P, f0)
        self.pf = keep
        ks = range(1, cnt[0] + 1) if thorough() else sorted(set([1, 2, cnt[0], cnt[0] - 1] + [R.randint(1, cnt[0]) for _ in range(m)]))
        for k in ks:
            for kind, ex in (('KeyboardInterrupt', KeyboardInterrupt), ('SystemExit', SystemExit)):
                c = [0]

                def f(xy):
                    c[0] += 1
                    if c[0] == k:
                        raise ex()
                    return P['f'](xy)
                err, _ = self.run(P, f)
                self.ev.append(dict(op='zint', k=k, kind=kind, err=err, p=self.obs()))
                self.out.count('zone_interrupts')
        self.pf.reset()

    def finish(self, name):
        self.out.add(dict(name=name, dx=self.dx, dy=self.dy, cres=20000, ev=self.ev))


def record(out):
    R = rng(5)
    P = CTX['prop']
    n = 8 if thorough() else 1
    for _ in range(n):
        if P == 'C08':
            for kind in ('uniform', 'uniform', 'shear', 'swirl', 'radial', 'still'):
                z = Zone(R, out)
                if R.random() < 0.5:
                    z.prior()
                z.zone(kind)
                if R.random() < 0.6:
                    z.zone(R.choice(['uniform', 'shear', 'swirl']))
                z.finish(kind)
            z = Zone(R, out)
            z.zone('uniform', R.choice([1, 2, 3, 50, 100]))
            z.finish('count')
            # every number of particles
            z = Zone(R, out)
            for n in list(mine(range(1, 131))) if not thorough() else list(mine(range(1, 400))):
                z.few(n)
            z.finish('every count')
            z = Zone(R, out)
            z.tolzone()
            z.finish('tolerance')
        elif P == 'C06':
            for _ in range(3):
                z = Zone(R, out)
                if R.random() < 0.5:
                    z.prior()
                z.fault()
                z.finish('fault')
        elif P == 'C07':
            for _ in range(3):
                z = Zone(R, out)
                z.prior()
                z.interrupt(8)
                z.finish('interrupt')
