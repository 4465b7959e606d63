"""Drives the real compute_backtrace for Trace_Backtrace.tla.

Flows are defined in a normalized frame (1.0 = S); a random similarity maps them to
the physical frame the code sees, and the returned vertices are mapped back."""
import logging
import numpy as np
from common import *
from oneka.capturezone import compute_backtrace

S = 30000


class Frame:
    """X = off + mu * (rotation / reflection) p;   t_phys = lam * t."""
    def __init__(self, R, axis=False, offs=None):
        self.mu = R.choice([1.0, 50.0, 1000.0, 0.01, 37.5])
        self.lam = R.choice([1.0, 1.0, 365.25, 0.01, 3652.5, 20.0, 1e-5, 1e-9, 1e7, 1e12])
        self.off = np.array(R.choice(offs or [(0., 0.), (322579., 5093431.), (-1234.5, 77.25)]))
        if self.mu < 1 and abs(self.off[1]) > 1e6:
            self.off = np.array((0., 0.))
        a = R.choice([0, 1, 2, 3]) * math.pi / 2 if axis else R.random() * 2 * math.pi
        c, s = (round(math.cos(a)), round(math.sin(a))) if axis else (math.cos(a), math.sin(a))
        self.M = np.array([[c, -s], [s, c]], dtype=float)
        if R.random() < 0.5:
            self.M = self.M @ np.array([[1., 0.], [0., -1.]])

    def to(self, p):
        return self.off + self.mu * (self.M @ np.asarray(p, dtype=float))

    def back(self, X):
        return self.M.T @ ((np.asarray(X, dtype=float) - self.off) / self.mu)

    def feval(self, v, how=0):
        def f(xy):
            xy = np.asarray(xy, dtype=float)
            if not np.all(np.isfinite(xy)):
                return np.array([np.nan, np.nan])
            w = (self.mu / self.lam) * (self.M @ np.asarray(v(self.back(xy)), dtype=float))
            return w
        return f


def poly(R):
    deg = R.choice([0, 1, 2, 3, 4])
    c = [0, 0, 0, 0]
    for k in range(deg):
        c[k] = R.choice([-1, 1]) * R.randint(2000, 20000)
    while sum(abs(x) for x in c) > 26000:
        c = [int(x * 0.8) for x in c]
    T = R.choice([-1, 1]) * R.choice([S, S // 2, S // 3, 25000])
    x0 = 0
    L = dict(kind='poly', start=[x0, 0], c=c, T=T)
    cf = [x / S for x in c]

    def v(p):
        u = p[0] - x0 / S
        return [1.0, cf[0] + 2*cf[1]*u + 3*cf[2]*u*u + 4*cf[3]*u**3]
    return L, v, T / S, 1, True


def zero_after(R):                       # uniform flow, exactly along the frame
    T = R.choice([-1, 1]) * R.choice([S, 20000, 7, 1000])
    return dict(kind='poly', start=[0, 0], c=[0, 0, 0, 0], T=T), (lambda p: [1.0, 0.0]), T / S, 1, True


def far(R):
    T = R.choice([-1, 1]) * S
    c = R.choice([-1, 1]) * R.randint(1000, 20000)
    return dict(kind='poly', start=[0, 0], c=[c, 0, 0, 0], T=T), (lambda p: [1.0, c / S]), T / S, 1, True


def burst(R):
    g = R.choice([-1, 1]) * R.randint(12000, 29000)
    b = R.randint(-3000, 14000)
    x0, T = -15000, 30000
    L = dict(kind='burst', start=[x0, 0], g=g, b=b, T=T)

    def v(p):
        w = max(0.0, p[0] - b / S)
        return [1.0, 3 * (g / S) * w * w]
    return L, v, T / S, 3, True


def rot(R):
    r = R.randint(12000, 29000)
    a = R.random() * 2 * math.pi
    st = [int(r * math.cos(a)), int(r * math.sin(a))]
    n = R.choice([1, 2, 3, 4, 5, -1, -2, -3, -6])
    L = dict(kind='rot', start=st, T=n)
    w = R.choice([0.5, 1.0, 2.0])
    return L, (lambda p: [-w * p[1], w * p[0]]), n * math.pi / 2 / w, 2, False


def hyper(R):
    n = R.choice([1, 2, 3, -1, -2])
    if n > 0:
        st = [R.choice([-1, 1]) * R.randint(1000, 29000 // 2**n), R.choice([-1, 1]) * R.randint(5000, 29000)]
    else:
        st = [R.choice([-1, 1]) * R.randint(5000, 29000), R.choice([-1, 1]) * R.randint(1000, 29000 // 2**-n)]
    L = dict(kind='hyper', start=st, T=n)
    a = R.choice([0.25, 1.0, 3.0])
    return L, (lambda p: [a * p[0], -a * p[1]]), n * math.log(2) / a, 8, False


def radial(R):
    d = R.choice([(1.0, 0.0), (0.6, 0.8), (-0.8, 0.6), (0.28, -0.96)])
    r0 = R.randint(3000, 28000)
    r1 = R.randint(3000, 28000)
    if abs(r0 - r1) < 500:
        r1 = r0 + 1000
    st = [int(round(r0 * d[0])), int(round(r0 * d[1]))]
    G = (r1 * r1 - st[0]**2 - st[1]**2) // S                 # S units of r^2 / S
    c = R.choice([0.5, 1.0, -1.0])
    L = dict(kind='radial', start=st, T=G)

    def v(p):
        r2 = p[0] * p[0] + p[1] * p[1]
        return [c * p[0] / r2, c * p[1] / r2]
    T = (G / S) / (2 * c)
    return L, v, T, 3, False


def zero(R):
    st = [R.randint(-S, S), R.randint(-S, S)]
    return dict(kind='zero', start=st, T=0), (lambda p: [0.0, 0.0]), R.choice([1.0, -5.0, 1e-3, 3e4]), 1, False


def accept(R):
    """(1, A x^4): the error estimate of a step depends on its length only."""
    T = R.choice([-1, 1]) * S
    H = R.choice([0.02, 0.03, 0.05, 0.08, 0.13])
    A = R.choice([1.0, 30.0, 0.01])
    x0 = R.choice([-1.0, -0.5, 0.0])
    L = dict(kind='accept', start=[0, 0], T=T)
    return L, (lambda p: [1.0, A * (p[0] - x0)**4]), T / S, (A, H), True


def law_trace(R, out, law, tol_n=None, maxstep_n=None, tiny=False, thin=1):
    L, v, T, gain, clk = law(R)
    F = Frame(R, axis=(law is accept), offs=[(0., 0.)] if law is accept or tiny else None)
    rho, H = 0, 1.0
    if law is accept:
        A, H = gain
        gain, rho = 1, 3803
        if F.mu < 1:
            F.mu = 1.0
        tol_n = A * H**5 / rho
        maxstep_n = 1e7
    if tol_n is None:
        tol_n = R.choice([1e-6, 1e-7, 1e-5, 1e-4, 3e-4])
    if maxstep_n is None:
        maxstep_n = R.choice([0.05, 0.1, 0.02, 0.3])
        if law is burst:
            maxstep_n = R.choice([0.05, 0.1])
            tol_n = R.choice([1e-6, 1e-5, 1e-4])
        elif R.random() < 0.2:
            maxstep_n = 5.0
        if law is radial:
            # near the centre the error estimate of one long step may vanish by chance
            maxstep_n = min(maxstep_n, 0.1)
    start = F.to([L['start'][0] / S, L['start'][1] / S])
    dur = T * F.lam
    D = R.choice([dur, dur, np.float64(dur)])
    if clk and L['kind'] in ('poly', 'accept') and R.random() < 0.3:
        # a whole number of days, passed as an int
        k = max(1, int(round(abs(dur)))) * (1 if dur > 0 else -1)
        F.lam *= k / dur
        dur, D = k, int(k)
    tol, ms = tol_n * F.mu, maxstep_n * F.mu
    xs, ys = float(start[0]), float(start[1])
    if R.random() < 0.3:
        xs, ys = np.float64(xs), np.float64(ys)
    err, verts = call(compute_backtrace, xs, ys, D, tol, ms, F.feval(v), limit=25 if thin == 1 else 120)
    ev = []
    n = 0
    prev = None
    c = 0
    scale = abs(F.off).max() + F.mu
    last, rmax, cprev = (len(verts) if verts is not None else 0) - 1, 0, 0
    for i, vx in enumerate(verts if verts is not None else []):
        X = np.array([float(vx[0]), float(vx[1])])
        fin = bool(np.all(np.isfinite(X)))
        p = F.back(X) if fin else np.zeros(2)
        cc = (p[0] - L['start'][0] / S) / T if clk and fin else 0.0
        c = q(cc * 1e9)
        r = q(float(np.hypot(*(X - prev))) / ms * 1e6 - 0.5) if prev is not None and fin else 0
        g = 0
        if rho and n and fin:
            g = min(32000, q(abs(p[0] - pp[0]) / H * S))
        # of a very long trace every thin-th vertex is checked, with the longest step
        # since the one before; and every vertex at which something is wrong
        rmax = max(rmax, r)
        keep = thin == 1 or i % thin == 0 or i == last or c < cprev or r > 1000000 or not fin
        prev, pp, cprev = X, p, c
        n += 1
        if not keep:
            continue
        r, rmax = rmax, 0
        ev.append(dict(op='v', x=min(max(q(p[0] * S), -S - 2000), S + 2000), y=min(max(q(p[1] * S), -S - 2000), S + 2000),
                       c=c, r=r, g=g, first=bool(X[0] == xs and X[1] == ys), fin=fin))
    ev.append(dict(op='end', err=err, c=c))
    out.count('vertices', n)
    out.count('law_' + L['kind'])
    # resolution of the clock: rounding of the coordinates relative to the path length
    cres = 1000 + (int(2e9 * n * 1e-15 * scale / (F.mu * abs(T))) if clk else 0)
    out.add(dict(mode='law', L=L, tolq=int(math.ceil(tol_n * S * 100)), gain=gain, clk=clk, rho=rho, cres=min(cres, 10**6), el=[], n=0,
                 info=dict(mu=F.mu, lam=F.lam, off=list(map(float, F.off)), tol=tol, maxstep=ms, duration=float(dur)), ev=ev))


def small(R):
    """Durations far below the initial time step and steps far below maxstep."""
    L, v, T, gain, clk = zero_after(R)
    return L, v, T, gain, clk


# ------------------------------------------------------------------------------
class Boom(Exception):
    pass


def kinds():
    from oneka.model import AquiferError
    return [('AquiferError', AquiferError('dry')), ('ValueError', ValueError('x')), ('ZeroDivisionError', ZeroDivisionError()),
            ('FloatingPointError', FloatingPointError()), ('LinAlgError', np.linalg.LinAlgError()), ('IndexError', IndexError()),
            ('Boom', Boom()), ('RuntimeError', RuntimeError()),
            ('nan', np.array([np.nan, np.nan])), ('nanx', np.array([np.nan, 1.0])), ('nany', np.array([1.0, np.nan])),
            ('inf', np.array([np.inf, 1.0])), ('-inf', np.array([1.0, -np.inf])), ('infinf', np.array([np.inf, -np.inf]))]


def faults(R, out, law, interrupts):
    L, v, T, gain, clk = law(R)
    F = Frame(R)
    f = F.feval(v)
    start = F.to([L['start'][0] / S, L['start'][1] / S])
    xs, ys = float(start[0]), float(start[1])
    tol, ms, dur = 1e-5 * F.mu, R.choice([0.12, 0.2]) * F.mu, T * F.lam
    if law is rot and abs(L['T']) > 2:
        return faults(R, out, law, interrupts)
    log = []

    def rec(xy):
        log.append((float(xy[0]), float(xy[1])))
        return f(xy)
    err, base = call(compute_backtrace, xs, ys, dur, tol, ms, rec)
    if err:
        out.add(dict(mode='law', L=L, tolq=1, gain=gain, clk=False, rho=0, cres=1000, el=[], n=0, ev=[dict(op='end', err=err, c=0)]))
        return
    base = [(float(b[0]), float(b[1])) for b in base]
    if len(set(base)) < len(base):
        # a step below the resolution of the coordinates: vertices cannot be told apart by their place
        out.count('indistinct')
        return faults(R, out, law, interrupts)
    ids = {}
    for i, b in enumerate(base):
        ids.setdefault(b, i + 1)
    el = [ids.get(p, 0) for p in log]
    ev = []
    K = kinds()
    for k in range(1, len(el) + 1):
        if interrupts:
            ks = [('KeyboardInterrupt', KeyboardInterrupt()), ('SystemExit', SystemExit(1))]
        else:
            ks = K if thorough() else R.sample(K[:8], 2) + R.sample(K[8:], 2)
        for name, what in ks:
            cnt = [0]

            def g(xy):
                cnt[0] += 1
                if cnt[0] == k:
                    if isinstance(what, BaseException):
                        raise what
                    return what
                return f(xy)
            with LogTap() as tap:
                err, path = call(compute_backtrace, xs, ys, dur, tol, ms, g, limit=15)
            if interrupts:
                ev.append(dict(op='int', k=k, kind=name, err=err))
            else:
                path = [] if path is None else [ids.get((float(p[0]), float(p[1])), 0) for p in path]
                ev.append(dict(op='fault', k=k, kind=name, err=err, ids=path[:400],
                               warn=sum(1 for r in tap.rec if r[0] >= logging.WARNING)))
            out.count('interrupts' if interrupts else 'faults')
            if err == 'Hang':
                break
        if err == 'Hang':
            break
    out.add(dict(mode='int' if interrupts else 'fault', L=L, tolq=1, gain=gain, clk=False, rho=0, cres=1000, el=el, n=len(base), ev=ev))


def region(R, out):
    """The velocity fails everywhere beyond a line: tracing ends there."""
    for how in (['raise', 'nan', 'inf', 'half'] if thorough() else R.sample(['raise', 'nan', 'inf', 'half'], 2)):
        L, v, T, gain, clk = zero_after(R) if R.random() < 0.3 else poly(R)
        L['T'] = T = abs(L['T'])
        T = max(T, 6000) / S
        F = Frame(R)
        f = F.feval(v)
        cut = R.uniform(0.05, 0.9) * T
        start = F.to([0.0, 0.0])
        xs, ys = float(start[0]), float(start[1])
        tol, ms, dur = 1e-5 * F.mu, R.choice([0.12, 0.05]) * F.mu, T * F.lam
        log, first = [], []

        def g(xy):
            log.append((float(xy[0]), float(xy[1])))
            if not np.all(np.isfinite(xy)) or F.back(xy)[0] > cut:
                first.append(len(log))
                if how == 'raise':
                    raise ArithmeticError('dry')
                return np.array([np.nan, np.nan] if how == 'nan' else [np.inf, np.inf] if how == 'inf' else [1.0, np.nan])
            return f(xy)

        blog = []

        def b(xy):
            blog.append((float(xy[0]), float(xy[1])))
            return f(xy)
        err0, base = call(compute_backtrace, xs, ys, dur, tol, ms, b)
        with LogTap() as tap:
            err, path = call(compute_backtrace, xs, ys, dur, tol, ms, g, limit=15)
        base = [(float(p[0]), float(p[1])) for p in (base or [])]
        near = base[:(len(path) if path else 0) + 2]
        if len(set(near)) < len(near):
            out.count('indistinct')
            continue
        ids = {}
        for i, p in enumerate(base):
            ids.setdefault(p, i + 1)
        el = [ids.get(p, 0) for p in blog]
        path = [] if path is None else [ids.get((float(p[0]), float(p[1])), 0) for p in path]
        out.count('regions')
        out.add(dict(mode='fault', L=L, tolq=1, gain=1, clk=False, rho=0, cres=1000, el=el, n=len(base),
                     ev=[dict(op='fault', k=first[0] if first else len(el) + 1, kind='region ' + how, err=err, ids=path[:400],
                              warn=sum(1 for r in tap.rec if r[0] >= logging.WARNING))]))


def record(out):
    R = rng()
    n = 10 if thorough() else 1
    P = CTX['prop']
    if P in ('C04', 'C05'):
        for _ in range(n):
            for law, m in ((poly, 16), (zero_after, 8), (burst, 8), (rot, 8), (hyper, 8), (radial, 8), (zero, 2), (accept, 8)):
                for _ in range(m):
                    law_trace(R, out, law)
            # durations around and far below the initial time step of 0.1
            for _ in range(8):
                T = R.choice([-1, 1]) * R.choice([1e-6, 0.05, 0.0999999, 0.1, 0.1000001, 0.15, 0.9, 1.0, 0.19, 1e-3])
                def short(R, T=T):
                    return dict(kind='poly', start=[0, 0], c=[0, 0, 0, 0], T=q(T * S)), (lambda p: [1.0, 0.0]), T, 1, True
                law_trace(R, out, short, tol_n=1e-3, maxstep_n=R.choice([0.3, 10.0, 1e5]), tiny=True)
        if CTX['shard'] in ((0, 1) if not thorough() else range(99)):
            # tens of thousands of steps, and very long durations
            law_trace(R, out, far if CTX['shard'] % 2 == 0 else zero_after, tol_n=1e-3,
                      maxstep_n=R.choice([6e-5, 8e-5]) if not thorough() else R.choice([1e-5, 3e-5]), tiny=True, thin=200)
            out.count('very_long_traces')
    if P == 'C06':
        for _ in range(n):
            for law in (poly, rot, burst):
                faults(R, out, law, False)
            for _ in range(4):
                region(R, out)
            for _ in range(3):
                law_trace(R, out, zero)
    if P == 'C07':
        for _ in range(2 * n):
            for law in (poly, rot, radial, burst):
                faults(R, out, law, True)
