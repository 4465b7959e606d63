"""Drives whole runs of the real code: the entry point oneka(), the drivers
create_stochastic_capturezone / create_deterministic_capturezone, runme.main.

The recorder looks on at the boundaries of the public classes: the state of a Model
whenever it is asked for a discharge or velocity, the tracks and registrations of a
ProbabilityField, the log records of 'Oneka', the files of the working directory.
"""
import bz2, contextlib, copy, hashlib, importlib, io, logging, pickle, re
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.axes
import numpy as np
from common import *

_real_default_rng = np.random.default_rng
_streams = [0, 0]                                  # (base seed, number of generators made)


def _default_rng(seed=None, *a, **k):
    """Generators without a seed get one that makes this run repeatable."""
    if seed is None:
        _streams[1] += 1
        return np.random.Generator(np.random.PCG64([_streams[0], _streams[1]]))
    return _real_default_rng(seed, *a, **k)


np.random.default_rng = _default_rng

from drv_field import observe, W8                                       # noqa: E402
from oneka.model import Model                                           # noqa: E402
from oneka.probabilityfield import ProbabilityField                     # noqa: E402
from oneka.capturezone import compute_capturezone, compute_backtrace    # noqa: E402
import oneka.stochastic, oneka.deterministic, oneka.archive, oneka.utilities   # noqa: E402
from oneka.oneka import oneka as run_oneka                              # noqa: E402

NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')
SR = 20000
QC, QP, QT, QQ, QX, QR = 1e-4, 1e-7, 1e-4, 1e-3, 1e-3, 1e-4   # quanta


def seed_all(n):
    np.random.seed(n % (2**32))
    _streams[0], _streams[1] = n % (2**32), 0


# -- the recorder ------------------------------------------------------------------
class Rec:
    on = False
    depth = 0
    inreg = inras = False

    def __init__(self):
        self.clear()
        self.inject = None          # (k, what): at the k-th evaluation do what

    def clear(self):
        self.snaps, self.raw, self.nev, self.tracks, self.pending = {}, [], 0, [], []
        self.regs, self.fits, self.pf, self.fill, self.cont = [], [], None, [], []
        self.models = 0

    def snap(self, mo):
        key = (mo.base, mo.conductivity, mo.porosity, mo.thickness, tuple(tuple(w) for w in mo.wells),
               mo.xo, mo.yo, tuple(float(c) for c in np.asarray(mo.coef).ravel()))
        if key not in self.snaps:
            self.snaps[key] = len(self.snaps)


REC = Rec()


def _watch(name):
    orig = getattr(Model, name)

    def wrapped(self, *a, **k):
        if not Rec.on or Rec.depth:
            return orig(self, *a, **k)
        Rec.depth += 1
        try:
            REC.snap(self)
            REC.nev += 1
            if REC.inject and REC.nev == REC.inject[0]:
                raise REC.inject[1]()
            return orig(self, *a, **k)
        finally:
            Rec.depth -= 1
    wrapped.__name__ = name
    setattr(Model, name, wrapped)


for _n in ('compute_discharge', 'compute_velocity', 'compute_velocity_confined'):
    _watch(_n)

_fit = Model.fit_regional_flow


def _fitw(self, obs, xo, yo):
    r = _fit(self, obs, xo, yo)
    if Rec.on:
        try:
            REC.fits.append((np.array(r[0], float).reshape(6), np.array(r[1], float).reshape(6, 6)))
        except Exception:
            pass
    return r


Model.fit_regional_flow = _fitw

_ras, _reg = ProbabilityField.rasterize, ProbabilityField.register


def _rasw(self, x, y, umbra):
    if Rec.on:
        REC.tracks.append([(float(a), float(b)) for a, b in zip(x, y)])
    Rec.inras = True
    try:
        return _ras(self, x, y, umbra)
    finally:
        Rec.inras = False


def _regw(self, weight):
    Rec.inreg = True
    try:
        r = _reg(self, weight)
        if Rec.on:
            REC.pf = self
            REC.regs.append(REC.at_register(self) if REC.at_register else None)
            REC.snaps, REC.tracks, REC.fits = {}, [], []
    finally:
        Rec.inreg = False
    return r


class Lines:
    """The moments of a run: every line of oneka/ that is executed between the first
    evaluation of a flow and the last registration (registering itself is one moment).
    at = (file, line, k, what): when that line is reached for the k-th time, raise."""
    def __init__(self, nreal, at=None):
        self.nreal, self.at, self.seen, self.hit, self.soft = nreal, at, {}, False, False

    def __enter__(self):
        sys.settrace(self.called)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False

    def called(self, frame, event, arg):
        return self.line if '/oneka/' in frame.f_code.co_filename else None

    def line(self, frame, event, arg):
        if event == 'line' and Rec.on and not Rec.inreg and REC.nev and len(REC.regs) < self.nreal:
            key = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            n = self.seen[key] = self.seen.get(key, 0) + 1
            if self.at and key == self.at[:2] and n == self.at[2]:
                self.hit, self.soft = True, Rec.inras
                raise self.at[3]()
        return self.line


ProbabilityField.rasterize, ProbabilityField.register = _rasw, _regw
REC.at_register = None

_fill, _contf = matplotlib.axes.Axes.fill, matplotlib.axes.Axes.contourf


def _fillw(self, *a, **k):
    if Rec.on:
        REC.fill.append((list(a[0]), list(a[1])))
        return []
    return _fill(self, *a, **k)


def _contw(self, *a, **k):
    if Rec.on:
        REC.cont.append([np.array(z, dtype=float) for z in a[:3]])
    return _contf(self, *a, **k)


matplotlib.axes.Axes.fill, matplotlib.axes.Axes.contourf = _fillw, _contw
plt.show = lambda *a, **k: None


class quiet:
    """Oracle computations: not recorded, log discarded into a list."""
    def __enter__(self):
        self.on, Rec.on = Rec.on, False
        lg = logging.getLogger('Oneka')
        self.h, self.lv = list(lg.handlers), lg.level
        for h in self.h:
            lg.removeHandler(h)
        self.tap = LogTap()
        self.tap.__enter__()
        return self.tap.rec

    def __exit__(self, *a):
        self.tap.__exit__()
        lg = logging.getLogger('Oneka')
        for h in self.h:
            lg.addHandler(h)
        lg.setLevel(self.lv)
        Rec.on = self.on
        return False


# -- numbers ------------------------------------------------------------------------
def dist(R, lo, hi, quantum, kinds=(1, 1, 2, 2, 3, 3, 4), form=None):
    """(as given to the code, as integers); kind 4: triangular of zero width or at the edge."""
    k = R.choice(kinds)
    a, b = sorted((q(R.uniform(lo, hi), quantum), q(R.uniform(lo, hi), quantum)))
    if k == 1:
        d = [a]
    elif k == 2:
        d = [a, b] if R.random() < 0.9 else [a, a]
    elif k == 3:
        d = [a, R.randint(a, b), b]
    else:
        d = R.choice([[a, a, a], [a, a, b], [a, b, b]])
    v = [x * quantum for x in d]
    v = [float('%.9g' % x) for x in v]
    if R.random() < 0.25 and math.ceil(lo) + 3 < hi:
        # whole numbers, given as such
        v = sorted(R.randint(math.ceil(lo), math.floor(hi)) for _ in d)
        d = [q(x, quantum) for x in v]
    if len(v) == 1:
        return v[0], d
    return (tuple(v) if R.random() < 0.7 else list(v)), d


def sci(tok, actual):
    """A logged number in scientific notation and the actual value in units of 10^-2 of
    its last digit."""
    m = re.match(r'^([-+]?)(\d)\.(\d+)[eE]([-+]\d+)$', tok)
    if not m:
        return [BIG, 0]
    man = int(m.group(2) + m.group(3)) * (-1 if m.group(1) == '-' else 1)
    unit = 10.0 ** (int(m.group(4)) - len(m.group(3)))
    return [q(man * 100), q(actual / unit * 100)]


def fix(tok, actual):
    """The same for a number with fixed decimals."""
    m = re.match(r'^([-+]?)(\d+)(?:\.(\d*))?$', tok)
    if not m:
        return [BIG, 0]
    dec = len(m.group(3) or '')
    return [q(float(tok) * 10**dec * 100), q(actual * 10**dec * 100)]


def relq(v, quantum):
    return q(v, quantum)


# -- a configuration -----------------------------------------------------------------
class Cfg:
    """One configuration, its integers for the specification, its place."""
    def __init__(self, R, n=None, det=False, tiny=False, wet='confined', nobs=None, pad=0, noise=0.15, nwells=None):
        self.R = R
        self.s = R.choice([1.0, 0.5])
        s = self.s
        self.off = R.choice([(0., 0.), (1000., -2000.), (322580., 5093430.)])
        self.dx = R.choice([16, 24, 30])
        self.u = R.choice([20, 27, 33, 40, 5, 9])
        self.spacing = self.dx * s
        self.umbra = self.u * s
        if R.random() < 0.3 and self.spacing == int(self.spacing):
            self.spacing = int(self.spacing)
        self.n = n if n is not None else (1 if det else R.choice([2, 3, 4]))
        self.npaths = R.choice([1, 2, 3, 4, 5])
        self.base = R.choice([0.0, 0.0, 12.5, -30.25, 280])
        self.c, self.ci = dist(R, 5, 40, QC)
        self.p, self.pi = dist(R, 0.1, 0.4, QP)
        self.t, self.ti = dist(R, 15, 30, QT) if wet != 'steep' else dist(R, 25, 30, QT, kinds=(1,))
        if R.random() < 0.15 and wet == 'confined':
            # conductivity and thickness follow one law
            lo, hi = R.randint(15, 20), R.randint(24, 30)
            self.c = R.choice([(lo, hi), (lo, 22, hi), [float(lo), 23.5, hi]])
            self.t = copy.deepcopy(self.c)
            self.ci = [q(x, QC) for x in self.c]
            self.ti = [q(x, QT) for x in self.t]
        nw = nwells or R.choice([1, 2, 2, 3, 5])
        self.target = R.randrange(nw)
        self.wells, self.wi = [], []
        for k in range(nw):
            x, y = (R.randint(-8, 8), R.randint(-8, 8)) if k == self.target else (R.randint(-150, 150) * 2, R.randint(-150, 150) * 2)
            if k > 4 and k != self.target:              # many wells: the others far away
                x, y = round(1500 * math.cos(k)), round(1500 * math.sin(k))
            if k and nw <= 5 and R.random() < 0.15:     # two wells at one place
                x, y = px, py
            px, py = x, y
            r = R.choice([0.25, 0.3, 1.0, 2.5]) + 0.01 * k
            d, di = dist(R, 50, 400, QQ) if R.random() < 0.85 else dist(R, -300, 100, QQ)
            if k and R.random() < 0.4:
                d, di = copy.deepcopy(self.wells[0][3]), list(self.wi[0]['d'])      # wells with one law
            self.wells.append((self.off[0] + x * s, self.off[1] + y * s, r, d))
            self.wi.append(dict(x=q(x * s, QX), y=q(y * s, QX), r=q(r, QR), d=di))
        if R.random() < 0.3:
            self.wells = [list(w) for w in self.wells]
        self.xt, self.yt, self.rt = self.wells[self.target][:3]
        # observations: a sloping water table
        self.wet = wet
        tmax = max(self.t) if isinstance(self.t, (list, tuple)) else self.t
        h0 = dict(confined=1.7 * tmax, unconfined=0.62 * 15, mixed=1.02 * tmax, steep=1.09 * tmax)[wet]
        g = R.uniform(0.004, 0.012) * (1 if wet != 'unconfined' else 0.35)
        if wet == 'steep':                   # from confined to unconfined within a path
            g, noise = R.uniform(0.026, 0.034), 0.05
        a = R.uniform(0, 2 * math.pi)
        self.buffer = R.choice([100, 60.5, 40])
        m = nobs or R.randint(9, 13)
        # a quadratic surface is determined by a good design: two rings about the target,
        # beyond the buffers
        obs, near = [], []
        a0 = R.uniform(0, 2 * math.pi)
        while len(obs) < m:
            k = len(obs)
            ring = (330, 560)[k % 2]
            phi = a0 + 2.4 * k + R.uniform(-0.15, 0.15)
            x, y = round(ring * math.cos(phi) + R.uniform(-30, 30)), round(ring * math.sin(phi) + R.uniform(-30, 30))
            if any(math.hypot(x + self.off[0] - w[0], y + self.off[1] - w[1]) < self.buffer + 3 for w in self.wells) or \
               any(math.hypot(x - o[0], y - o[1]) < 5 for o in obs):
                a0 += 0.37
                continue
            obs.append((x, y))
        for w in self.wells[:R.randint(0, 2)]:
            near.append((w[0] - self.off[0] + R.randint(-20, 20), w[1] - self.off[1] + R.randint(-15, 15)))
        if R.random() < 0.5:
            near.append(tuple(R.choice(obs)))                        # a duplicate
        allo = obs + near
        R.shuffle(allo)
        self.obs = []
        for (x, y) in allo:
            h = h0 + g * (x * math.cos(a) + y * math.sin(a)) + R.uniform(-1, 1) * noise * (0.3 if wet == 'unconfined' else 1)
            ob = (float(x + self.off[0]), float(y + self.off[1]), round(h + self.base, 2), R.choice([0.2, 0.5, 1.0]) * (0.3 if wet == 'unconfined' else 1))
            self.obs.append(ob if R.random() < 0.8 else (int(ob[0]), int(ob[1]), ob[2], ob[3]))
        self.obs = [tuple(round(float(z), 4) if isinstance(z, float) else z for z in o) for o in self.obs]
        self.confined = (wet != 'unconfined') if R.random() < 0.7 else R.random() < 0.5
        if wet == 'unconfined':
            self.confined = R.random() < 0.5
        if wet == 'steep':
            self.confined = False
        self.smooth = R.choice([0, 1, 0.5, 2])
        self.tol = R.choice([1, 0.5, 0.05])
        self.maxstep = R.choice([10, 15, 7.5] + ([3, 30, 60.5] if CTX['prop'] in ('C09', 'C11', 'C23') else []))
        self.duration = R.choice([1, 1, -1]) * R.choice([100.0, 365.25, 200]) * s
        if wet == 'steep':
            self.duration = -self.duration if self.duration > 0 else self.duration
        if tiny:
            self.duration = 0.01
        self.name = 'Project %d' % R.randint(1, 999)
        self.runtime = 'Thu Nov 19 %02d:%02d:%02d 2026' % (R.randint(0, 23), R.randint(0, 59), R.randint(0, 59))
        # bound the length of the paths: below about 220 ticks
        if not tiny:
            try:
                mo = self.mean_model()
                with quiet():
                    for _ in range(40):
                        v = []
                        for th in range(8):
                            for rad in (6, 60, 150):
                                e, w = call(mo.compute_velocity_confined, self.xt + rad * math.cos(th * .785), self.yt + rad * math.sin(th * .785))
                                v.append(math.hypot(*w) if not e else 0)
                        if sum(v) / len(v) * abs(self.duration) < 110 * s:
                            break
                        self.duration *= 0.7
            except Exception:
                pass
        self.duration = round(self.duration, 2)

    # what the code is called with
    def direct(self, obs=None):
        a = [self.target, self.npaths, self.duration]
        if self.n > 1:
            a.append(self.n)
        return a + [self.base, self.c, self.p, self.t, self.wells, self.filtered() if obs is None else obs,
                    self.spacing, self.umbra, self.confined, self.tol, self.maxstep]

    def entry(self):
        return [self.name, self.runtime, self.target, self.npaths, self.duration, self.n, self.base, self.c, self.p,
                self.t, self.wells, self.obs, self.buffer, self.spacing, self.umbra, self.smooth, self.confined,
                self.tol, self.maxstep]

    NAMES = ['projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist',
             't_dist', 'stochastic_wells', 'observations', 'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol',
             'maxstep']

    def filtered(self):
        with quiet():
            e, v = call(oneka.utilities.filter_obs, self.obs, self.wells, self.buffer)
        return v if not e else self.obs

    def mean(self, d):
        return sum(d) / len(d) if isinstance(d, (list, tuple)) else d

    def mean_model(self):
        mo = Model(self.base, self.mean(self.c), self.mean(self.p), self.mean(self.t),
                   [[w[0], w[1], w[2], self.mean(w[3])] for w in self.wells])
        with quiet():
            mo.fit_regional_flow(self.filtered(), self.xt, self.yt)
        return mo

    def ints(self, via):
        """The configuration as the specification sees it."""
        return dict(n=self.n, np=self.npaths, via=via, c=self.ci, p=self.pi, t=self.ti, wells=self.wi,
                    target=self.target + 1, base=q(self.base, QX), u=self.u, dx=self.dx,
                    xt=q((self.xt - self.off[0]) / self.s), yt=q((self.yt - self.off[1]) / self.s))


def refit(key, obs, xo, yo):
    """The fit of a fresh model of the same properties."""
    mo = Model(*key[:4], [list(w) for w in key[4]])
    with quiet():
        ev, cov = mo.fit_regional_flow(obs, xo, yo)
    return np.array(ev, float).reshape(6), np.array(cov, float).reshape(6, 6)


def whiten(coef, ev, cov):
    d = np.sqrt(np.diag(cov))
    L = np.linalg.cholesky(cov / np.outer(d, d))
    return np.linalg.solve(L, (np.asarray(coef) - ev) / d)


def retrace(cfg, key, starts=None):
    """Paths and warnings of a fresh model in the given state, with the real tracer."""
    mo = Model(*key[:4], [list(w) for w in key[4]], key[5], key[6], np.array(key[7]))
    if cfg.confined:
        f = lambda xy: -np.array(mo.compute_velocity_confined(xy[0], xy[1]))
    else:
        f = lambda xy: -np.array(mo.compute_velocity(xy[0], xy[1]))
    paths = []
    with quiet() as rec:
        for xs, ys in starts or [((cfg.rt + 1) * math.cos(2 * math.pi * k / cfg.npaths) + cfg.xt,
                                  (cfg.rt + 1) * math.sin(2 * math.pi * k / cfg.npaths) + cfg.yt) for k in range(cfg.npaths)]:
            v = compute_backtrace(xs, ys, cfg.duration, cfg.tol, cfg.maxstep, f)
            paths.append([(float(z[0]), float(z[1])) for z in v])
        cuts = sum(1 for r in rec if r[0] >= logging.WARNING)
    return paths, cuts


def same(a, b):
    """Equal in every bit that matters, types of containers included."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, ProbabilityField):
        if type(b) is not type(a):
            return False
        da, db = dict(a.__dict__), dict(b.__dict__)
        return da.keys() == db.keys() and all(same(da[k], db[k]) for k in da)
    return type(a) is type(b) and a == b


# -- one run ----------------------------------------------------------------------------
class Runs:
    """A history of runs in one process and one working directory."""
    def __init__(self, R, out):
        self.R, self.out = R, out
        self.ev = []
        self.files = {}                 # name -> digest, in order of appearance
        self.order = []
        self.drawn, self.zs = {}, []    # every value drawn so far
        for f in os.listdir('.'):
            if os.path.isfile(f):
                os.remove(f)

    def scan(self, cfg=None):
        """Archives in the working directory; the new ones compared with cfg and the field."""
        res = []
        for f in sorted(f for f in os.listdir('.') if f.endswith('.bz2')):
            if f not in self.files:
                self.order.append(f)
        for f in self.order:
            if not os.path.exists(f):
                res.append(dict(kept=False, new=False, names=[], field=False, keys=0))
                continue
            with open(f, 'rb') as fp:
                h = hashlib.sha1(fp.read()).hexdigest()
            new = f not in self.files
            r = dict(kept=new or self.files[f] == h, new=new, names=[], field=False, keys=0)
            if new:
                self.files[f] = h
                err, d = call(oneka.archive.load_oneka, f)
                if not err and isinstance(d, dict) and cfg is not None:
                    r['keys'] = len(d)
                    r['names'] = [k for k, v in zip(Cfg.NAMES, self.given) if k in d and same(d[k], v)]
                    r['field'] = 'pfield' in d and REC.pf is not None and same(d['pfield'], REC.pf)
            res.append(r)
        return res

    def at_register(self, cfg):
        """Called within register(): everything about the realization just registered."""
        def f(pf):
            Rec.on = False
            try:
                keys = sorted(REC.snaps, key=lambda k: REC.snaps[k])
                logs = self.tap.rec[self.logpos:]
                self.logpos = len(self.tap.rec)
                e = dict(op='real', snaps=[self.snapq(cfg, k) for k in keys[:3]], nsnap=len(keys),
                         ntracks=len(REC.tracks), agree=0, cuts=0, paths=[], fdev=0,
                         warn=sum(1 for r in logs if r[0] >= logging.WARNING), entry=[], p=None, ids=[], zid=0)
                if keys:
                    key = keys[0]
                    ev, cov = refit(key, self.obs, cfg.xt, cfg.yt)
                    z = whiten(key[7], ev, cov)
                    if cfg.n > 1:
                        e['ids'], e['zid'] = self.ids(cfg, key), self.zid(z)
                    e['z'] = [max(-BIG, min(BIG, q(v * 1e6))) for v in z]
                    dev = 0.0
                    for a, b in REC.fits:
                        sd = np.sqrt(np.diag(cov))
                        dev = max(dev, float(np.max(np.abs(a - ev) / sd)), float(np.max(np.abs(b - cov) / np.outer(sd, sd))))
                    e['fdev'] = q(dev * 1e9)
                    e['nfits'] = len(REC.fits)
                    tracks = [t for t in REC.tracks if t]
                    paths, cuts = retrace(cfg, key, [t[0] for t in tracks])
                    e['cuts'] = cuts
                    e['agree'] = sum(1 for a, b in zip(tracks, paths) if len(a) == len(b) and
                                     all(abs(x[0] - y[0]) + abs(x[1] - y[1]) < 1e-6 for x, y in zip(a, b)))
                    st = sorted((t[0] for t in paths), key=lambda p: math.atan2(p[1] - cfg.yt, p[0] - cfg.xt))
                    e['starts'] = [[max(-32000, min(32000, q((p[0] - cfg.xt) / (cfg.rt + 1) * SR))),
                                    max(-32000, min(32000, q((p[1] - cfg.yt) / (cfg.rt + 1) * SR)))] for p in st]
                    e['paths'] = [[[q((v[0] - cfg.off[0]) / cfg.s), q((v[1] - cfg.off[1]) / cfg.s)] for v in t] for t in paths]
                    e['entry'] = self.entry(cfg, key, ev, logs)
                    self.raw.append((key, z))
                e['p'] = observe(pf, '', cfg.s, cfg.off)
                self.ev.append(e)
                return e
            finally:
                Rec.on = True
        return f

    def ids(self, cfg, key):
        """Every value drawn from a distribution of some width has the number of its first
        appearance in this history (as the same number, in whatever role)."""
        res = []
        if len(key[4]) != len(cfg.wells):
            return res
        for d, v in [(cfg.c, key[1]), (cfg.p, key[2]), (cfg.t, key[3])] + [(w[3], m[3]) for w, m in zip(cfg.wells, key[4])]:
            if isinstance(d, (tuple, list)) and d[0] < d[-1]:
                res.append(self.drawn.setdefault(float(v), len(self.drawn) + 1))
        return res

    def zid(self, z):
        """The number of the first draw of a regional flow that deviates from its fit as this."""
        for i, y in enumerate(self.zs):
            if np.all(np.abs(y - z) < 1e-4):
                return i + 1
        self.zs.append(z)
        return len(self.zs)

    def snapq(self, cfg, k):
        return dict(base=q(k[0], QX), c=q(k[1], QC), p=q(k[2], QP), t=q(k[3], QT),
                    wells=[[q(w[0] - cfg.off[0], QX), q(w[1] - cfg.off[1], QX), q(w[2], QR), q(w[3], QQ)] for w in k[4]],
                    o=[q((k[5] - cfg.off[0]) / cfg.s), q((k[6] - cfg.off[1]) / cfg.s)])

    def entry(self, cfg, key, ev, logs):
        """What the log said about this realization: pairs (logged, actual)."""
        coef = key[7]
        rech = -2 * (coef[0] + coef[1])
        res = []
        for lv, msg in logs:
            if cfg.n > 1:
                m = re.match(r'^Realization #(\d+):(.*)$', msg)
                if m:
                    tk = NUM.findall(m.group(2))
                    pr = [[q(int(m.group(1))), -1]]          # the number of the entry
                    if len(tk) == 5:
                        pr += [fix(a, b) for a, b in zip(tk[:4], key[:4])] + [sci(tk[4], rech)]
                    res.append(dict(what='head', pairs=pr))
                m = re.match(r'^\s*coef (ev|rng):(.*)$', msg)
                if m:
                    tk = NUM.findall(m.group(2))
                    src = ev if m.group(1) == 'ev' else coef
                    res.append(dict(what=m.group(1), pairs=[sci(a, b) for a, b in zip(tk, src)] if len(tk) == 6 else []))
            else:
                m = re.match(r'^(base|conductivity|porosity|thickness|recharge|[A-F])\s*=\s*(\S+)$', msg)
                if m:
                    val = dict(base=key[0], conductivity=key[1], porosity=key[2], thickness=key[3], recharge=rech)
                    for nm, v in zip('ABCDEF', coef):
                        val[nm] = v
                    fn = fix if m.group(1) in ('base', 'conductivity', 'porosity', 'thickness') else sci
                    res.append(dict(what=m.group(1), pairs=[fn(m.group(2), val[m.group(1)])]))
        return res

    def run(self, cfg, via, inject=None, want='', limit=60, lines=None):
        """via: 'direct', 'entry' or 'main'."""
        self.ev.append(dict(op='begin', cfg=cfg.ints(via)))
        self.given = copy.deepcopy(cfg.entry())         # as given, whatever the run does to it
        self.obs = cfg.filtered()
        self.raw = []
        REC.clear()
        REC.inject = inject
        REC.at_register = self.at_register(cfg)
        self.logpos = 0
        lg = logging.getLogger('Oneka')
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()
        e = dict(op='end', want=want)
        with LogTap() as self.tap:
            Rec.on, Rec.depth = True, 0
            pf = None
            try:
                if via == 'direct':
                    fn = (oneka.stochastic.create_stochastic_capturezone if cfg.n > 1 else
                          oneka.deterministic.create_deterministic_capturezone)
                    err, pf = call(fn, *cfg.direct(), limit=limit)
                elif via == 'entry':
                    with lines or contextlib.nullcontext():
                        err, pf = call(run_oneka, *cfg.entry(), limit=limit)
                else:
                    err = self.main(cfg, limit)
            finally:
                Rec.on = False
                plt.close('all')
            logs = list(self.tap.rec)
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()
        e['err'] = err
        if inject and REC.nev < inject[0]:
            e['want'] = ''                # this time the run was over before
        e['soft'] = False
        if lines and lines.at:
            if not lines.hit:
                e['want'] = ''
            # the grid may be growing at this moment
            e['soft'] = lines.soft
        e['nev'] = REC.nev
        e['field'] = same(pf, REC.pf) if via != 'main' else True
        e['last'] = observe(REC.pf, '', cfg.s, cfg.off) if REC.pf is not None else observe(None, '', 1, (0, 0))
        e['files'] = self.scan(cfg)
        e['warn'] = sum(1 for r in logs if r[0] >= logging.WARNING)
        e['log'] = self.loginfo(cfg, logs) if via != 'direct' else dict(pars=[], texts=[], wells=[], obs=[])
        e['smooth'] = self.smoothed(cfg) if not err and via != 'direct' and cfg.n > 1 else -1
        e['filled'] = len(REC.fill)
        e['digest'] = self.digest(REC.pf)
        e['logfile'] = self.logfile if via == 'main' else True
        self.ev.append(e)
        self.out.count('runs')
        self.out.count('traces_cut', sum(x['cuts'] for x in self.ev if x['op'] == 'real'))
        self.out.count('realizations', len(REC.regs))
        return e

    def digest(self, pf):
        if pf is None:
            return ''
        h = hashlib.sha1()
        for a in (pf.xmin, pf.xmax, pf.ymin, pf.ymax, pf.nrows, pf.ncols, pf.total_weight):
            h.update(repr(float(a)).encode())
        h.update(np.ascontiguousarray(np.asarray(pf.pgrid, dtype=float)).tobytes())
        return h.hexdigest()

    def smoothed(self, cfg):
        """Deviation of the drawn surface from the field smoothed as asked for, in 10^-9."""
        import scipy.ndimage
        if not REC.cont or REC.pf is None:
            return BIG
        Z = np.asarray(REC.pf.pgrid) / REC.pf.total_weight
        if cfg.smooth > 0:
            Z = scipy.ndimage.gaussian_filter(Z, cfg.smooth, mode='constant', cval=0.0)
        W = REC.cont[0][2]
        if W.shape != Z.shape:
            return BIG
        return q(float(np.max(np.abs(W - Z))) * 1e9)

    def loginfo(self, cfg, logs):
        """The parameters as the log gives them: numbers in 10^-4, texts as they are."""
        pars, texts = [], []
        val = dict(zip(Cfg.NAMES, self.given))
        alias = {'project name': 'projectname', 'run time': 'runtime'}
        wells, obs, sect = [], [], None
        seen = set()
        for lv, msg in logs:
            m = re.match(r'^(stochastic_wells|observations)\s*:\s*(\d+)\s*$', msg)
            if m:
                sect = [m.group(1), int(m.group(2)), []]
                (wells if m.group(1) == 'stochastic_wells' else obs).append(sect)
                continue
            if sect and re.match(r'^\s+[\(\[]', msg) and len(sect[2]) < sect[1]:
                sect[2].append([q(float(z) * 1e4 if abs(float(z)) < 2e5 else float(z)) for z in NUM.findall(msg)])
                continue
            sect = None
            m = re.match(r'^([a-z_]+(?: [a-z]+)?)\s*=\s(.*)$', msg)
            if m:
                nm = alias.get(m.group(1).strip(), m.group(1).strip())
                if nm not in val or nm in seen:
                    continue
                seen.add(nm)
                if nm in ('projectname', 'runtime', 'confined'):
                    texts.append([nm, m.group(2).strip(), str(val[nm])])
                else:
                    v = val[nm]
                    vs = list(v) if isinstance(v, (list, tuple)) else [v]
                    pars.append([nm, [q(float(z) * 1e4) for z in NUM.findall(m.group(2))], [q(float(z) * 1e4) for z in vs]])
        flat = lambda o: [q(float(z) * 1e4 if abs(float(z)) < 2e5 else float(z)) for z in
                          sum([list(c) if isinstance(c, (list, tuple)) else [c] for c in o], [])]
        kind = [m.group(1) for lv, msg in logs for m in [re.search(r'nrealizations\s*=.*(STOCHASTIC|DETERMINISTIC)', msg)] if m]
        return dict(pars=pars, texts=texts + [['kind', k, 'STOCHASTIC' if cfg.n > 1 else 'DETERMINISTIC'] for k in kind],
                    wells=[wells[0][2] if wells else [], [flat(w) for w in val['stochastic_wells']]],
                    obs=[obs[0][2] if obs else [], [flat(o) for o in val['observations']]])

    def main(self, cfg, limit):
        """Through runme.main and a data module."""
        self.logfile = True
        name = 'vpmod_%d_%d' % (os.getpid(), len(self.ev))
        T = ['PROJECTNAME', None, 'TARGET', 'NPATHS', 'DURATION', 'NREALIZATIONS', 'BASE', 'C_DIST', 'P_DIST', 'T_DIST',
             'WELLS', 'OBSERVATIONS', 'BUFFER', 'SPACING', 'UMBRA', 'SMOOTH', 'CONFINED', 'TOL', 'MAXSTEP']
        with open(name + '.py', 'w') as f:
            for t, v in zip(T, cfg.entry()):
                if t:
                    f.write('%s = %r\n' % (t, v))
        sys.path.insert(0, os.getcwd())
        importlib.invalidate_caches()
        before = set(os.listdir('.'))
        buf = io.StringIO()
        import runme
        old = runme.time.asctime
        runme.time.asctime = lambda *a: cfg.runtime
        try:
            with contextlib.redirect_stdout(buf):
                err, _ = call(runme.main, name, limit=limit)
        finally:
            runme.time.asctime = old
            sys.path.remove(os.getcwd())
            sys.modules.pop(name, None)
        # everything said to the logger is in the log file
        for h in logging.getLogger('Oneka').handlers:
            h.flush()
        new = [f for f in os.listdir('.') if f.endswith('.log') and f not in before]
        old_ = [f for f in os.listdir('.') if f.endswith('.log')]
        text = ''.join(open(f, errors='replace').read() for f in (new or old_))
        self.logfile = all(r[1].strip() in text for r in self.tap.rec if r[1].strip())
        return err

    def unknown(self):
        """An unknown module is reported without running anything."""
        import runme
        REC.clear()
        REC.at_register = None
        buf = io.StringIO()
        Rec.on = True
        try:
            with contextlib.redirect_stdout(buf):
                err, _ = call(runme.main, 'no_such_module_%d' % self.R.randint(1, 9999))
        finally:
            Rec.on = False
        self.ev.append(dict(op='unknown', err=err, nev=REC.nev, said='no_such_module' in buf.getvalue(), files=self.scan()))

    def finish(self, name):
        self.out.add(dict(name=name, ev=self.ev))


# -- many realizations: the laws of the draws -----------------------------------------------
def law(R, out, N):
    """N realizations of one configuration, each with one particle and one tiny step."""
    cfg = Cfg(R, n=N, tiny=True, pad=0)
    cfg.npaths = 1
    # laws with cells: modes on cell boundaries
    def tri(lo, hi, quantum):
        a = q(R.uniform(lo, (lo + hi) / 2), quantum)
        w = 20 * q(R.uniform((hi - lo) / 60, (hi - lo) / 40), quantum)
        d = [a, a + w] if R.random() < 0.5 else [a, a + (w // 20) * R.randint(3, 17), a + w]
        return R.choice([tuple, tuple, list])(float('%.9g' % (x * quantum)) for x in d), d
    cfg.c, cfg.ci = tri(5, 40, QC)
    cfg.p, cfg.pi = tri(0.1, 0.4, QP)
    cfg.t, cfg.ti = tri(15, 30, QT)
    if R.random() < 0.3:                                # conductivity and thickness with one law
        cfg.c, cfg.ci = copy.deepcopy(cfg.t), list(cfg.ti)
    qd = []
    same = R.random() < 0.5                             # all wells with one law
    for k in range(len(cfg.wells)):
        if not (k and same):
            d, di = tri(50, 400, QQ)
        cfg.wells[k] = tuple(cfg.wells[k][:3]) + (list(d) if R.random() < 0.3 else d,)
        qd.append(di)
    dists = [cfg.ci, cfg.pi, cfg.ti] + qd
    REC.clear()
    REC.inject = None
    cols, zs, ys = [], [], []
    obs = cfg.filtered()

    def at(pf):
        Rec.on = False
        try:
            for key in REC.snaps:
                cols.append([key[1], key[2], key[3]] + [w[3] for w in key[4]])
                ev, cov = refit(key, obs, cfg.xt, cfg.yt)
                zs.append(whiten(key[7], ev, cov))
                ys.append((np.asarray(key[7]) - ev) / np.sqrt(np.diag(cov)))
        finally:
            Rec.on = True
    REC.at_register = at
    Rec.on = True
    try:
        with LogTap():
            err, _ = call(oneka.stochastic.create_stochastic_capturezone, *cfg.direct(), limit=200)
    finally:
        Rec.on = False
    e = dict(op='law', err=err, asked=N, n=len(cols), dists=dists, hist=[], pairs=[], zsum=[], zsq=0, zhist=[], ztail=[], ytail=[], rep=0)
    if not err and cols and len({len(c) for c in cols}) == 1 and len(cols[0]) == len(dists):
        A = np.array(cols, float)
        Z = np.array(zs, float)
        up = []
        for j, (d, qu) in enumerate(zip(dists, [QC, QP, QT] + [QQ] * len(qd))):
            lo, hi = d[0] * qu, d[-1] * qu
            b = np.clip(np.floor((A[:, j] - lo) / (hi - lo) * 20).astype(int), 0, 19)
            e['hist'].append([int(x) for x in np.bincount(b, minlength=20)[:20]])
            up.append(A[:, j] > np.median(A[:, j]))
        Z = np.where(np.isfinite(Z), np.clip(Z, -1000, 1000), 1000)
        zup = [Z[:, j] > 0 for j in range(6)]
        both = up + zup
        n = len(cols)
        # every two different draws of a realization, and every draw with every draw of the one before
        for i in range(len(both)):
            for j in range(i + 1, len(both)):
                e['pairs'].append([int((both[i] & both[j]).sum()), int(both[i].sum()), int(both[j].sum()), n])
            for j in range(len(both)):
                a, b = both[i][1:], both[j][:-1]
                e['pairs'].append([int((a & b).sum()), int(a.sum()), int(b.sum()), n - 1])
        lim = lambda v: max(-70000, min(70000, q(v * 10)))
        e['zsum'] = [lim(float(Z[:, j].sum())) for j in range(6)]
        e['zsq'] = [lim(float((Z[:, j]**2).sum())) for j in range(6)]
        for j in range(6):
            b = np.clip(np.floor(Z[:, j] * 2).astype(int) + 5, 0, 9)
            e['zhist'].append([int(x) for x in np.bincount(b, minlength=10)[:10]])
        Y = np.where(np.isfinite(ys), np.clip(ys, -1000, 1000), 1000)
        e['ztail'] = [int((np.abs(Z) > v).sum()) for v in (2.5, 3, 3.5)]
        e['ytail'] = [int((np.abs(Y[:, j]) > 2.5).sum()) for j in range(6)]
        # how often a value came up again (a continuous law has no such values)
        for M in (A, np.round(Y, 9)):
            for j in range(M.shape[1]):
                e['rep'] = max(e['rep'], int(np.unique(M[:, j], return_counts=True)[1].max()))
    out.count('law_realizations', len(cols))
    out.add(dict(name='law', ev=[e]))


# -- scenarios -----------------------------------------------------------------------------
def record(out):
    R = rng(21)
    P = CTX['prop']
    m = 12 if thorough() else 2
    seed_all(CTX['seed'] * 1009 + CTX['shard'])
    wets = ['confined', 'confined', 'unconfined', 'mixed', 'steep']
    if P in ('C09', 'C10'):
        law(R, out, 6000 if thorough() else 2500)
    for k in range(m):
        def H():
            return Runs(R, out)

        def C(**kw):
            kw.setdefault('wet', R.choice(wets))
            return Cfg(R, **kw)
        if P in ('C06', 'C08', 'C09', 'C25'):
            drained(R, out, H)
        if P in ('C09', 'C10'):
            for via in ('direct', 'direct', 'entry'):
                h = H()
                c = C()
                h.run(c, via)
                h.run(C(), via)
                h.run(c, via)
                h.finish(via)
            # the same run again, with nothing random but the regional flow
            h = H()
            c = C(n=4, tiny=True)
            c.c, c.p, c.t = [c.mean(d) for d in (c.c, c.p, c.t)]
            c.wells = [tuple(w[:3]) + (c.mean(w[3]),) for w in c.wells]
            c.ci, c.pi, c.ti = [q(c.c, QC)], [q(c.p, QP)], [q(c.t, QT)]
            for w, v in zip(c.wi, c.wells):
                w['d'] = [q(v[3], QQ)]
            for _ in range(3):
                h.run(c, 'direct')
            h.finish('constants')
        elif P == 'C11':
            for via in ('direct', 'direct', 'entry'):
                h = H()
                c = C(det=True)
                h.run(c, via)
                seed_all(R.randint(0, 10**6))
                if R.random() < 0.5:
                    h.run(C(n=2), 'direct')
                h.run(c, via)
                h.run(c, 'direct')
                h.run(C(det=True, wet='steep'), 'direct')
                h.finish('deterministic')
        elif P == 'C23':
            for via in ('main', 'main', 'entry', 'entry'):
                h = H()
                h.run(C(n=R.choice([1, 2, 3, 0])), via)
                if via == 'main':
                    h.unknown()
                h.finish(via)
        elif P == 'C25':
            for via in ('entry', 'main', 'direct'):
                h = H()
                h.run(C(n=1), via)
                h.run(C(), via)
                h.finish('log ' + via)
            h = H()
            h.run(C(n=R.choice([1, 2]), nwells=R.choice([25, 40]), nobs=R.choice([30, 60]), tiny=True), 'entry')
            h.finish('long lists')
            if k == 0 and CTX['shard'] == 0:
                h = H()
                h.run(C(n=R.randint(1010, 1050), nwells=1, tiny=True, wet='confined'), 'direct', limit=200)
                h.finish('many realizations')
        elif P == 'C21':
            h = H()
            for _ in range(4):
                h.run(C(n=R.choice([1, 2])), 'entry')
            h.finish('sequence')
        elif P == 'C06':
            dry(R, out, H)
        elif P == 'C08':
            h = H()
            h.run(C(), 'direct')
            h.finish('zones of a run')
        elif P == 'C07':
            h = H()
            c = C(n=R.choice([1, 2, 2]))
            c.npaths = min(c.npaths, 2)
            h.run(c, 'entry')
            n = REC.nev
            ks = sorted(set([1, 2, n, n // 2 + 1] + [R.randint(1, max(n, 1)) for _ in range(6 if not thorough() else 40)]))
            h.finish('uninterrupted')
            h = H()
            for k in ks:
                ex = R.choice([KeyboardInterrupt, SystemExit])
                h.run(c, 'entry', inject=(k, ex), want=ex.__name__)
            h.run(c, 'entry')
            h.finish('interrupted')
            moments(R, out, H)
            late(R, out, H, 40 if thorough() else [6, 9, 14, 25][CTX['shard'] % 4])


def late(R, out, H, n):
    """Interrupts in every realization of a longer run, and in the last of all."""
    h = H()
    c = Cfg(R, n=n, wet=R.choice(['confined', 'unconfined']), tiny=True)
    c.npaths, c.duration = 1, 0.3 * c.s
    seed = R.randint(0, 10**6)
    seed_all(seed)
    h.run(c, 'entry')
    nev = REC.nev
    ks = [nev] + R.sample(range(1, nev + 1), min(nev, n, 12))
    for k in ks:
        ex = R.choice([KeyboardInterrupt, KeyboardInterrupt, SystemExit])
        seed_all(seed)                                  # the same run every time
        h.run(c, 'entry', inject=(k, ex), want=ex.__name__)
        out.count('interrupted_late')
    h.finish('interrupted late')


def moments(R, out, H):
    """Interrupts at every line of the tracking, not only while the flow is evaluated."""
    h = H()
    c = Cfg(R, n=R.choice([1, 2]), wet=R.choice(['confined', 'unconfined', 'mixed']), tiny=True)
    c.npaths, c.duration = 2, 0.5 * c.s
    seed = R.randint(0, 10**6)

    def one(at=None):
        seed_all(seed)                                  # the same run every time
        L = Lines(max(c.n, 1), at)
        h.run(c, 'entry', lines=L, want=at[3].__name__ if at else '')
        return L.seen
    seen = one()
    for key in sorted(seen):
        for m in range(3 if thorough() else 1):
            if thorough() or R.random() < 0.5:
                k = R.choice([1, seen[key], R.randint(1, seen[key])])
                one(key + (k, R.choice([KeyboardInterrupt, SystemExit])))
                out.count('moments')
    one()
    h.finish('moments')


def drained(R, out, H):
    """Realizations in which the aquifer is dry at the target well itself, among others in
    which it is not."""
    for via in ('direct', 'entry'):
        h = H()
        c = Cfg(R, n=R.choice([4, 6]), wet='unconfined')
        c.confined = False
        c.npaths = R.choice([1, 3])
        d, di = dist(R, R.choice([100, 400]), R.choice([1500, 4000]), QQ, kinds=(2, 3))
        c.wells[c.target] = tuple(c.wells[c.target][:3]) + (d,)
        c.wi[c.target]['d'] = di
        c.duration = R.choice([5.0, 20.0]) * c.s
        h.run(c, via)
        h.finish('drained')


def dry(R, out, H):
    """The aquifer runs dry downstream of a recharge well: forward traces end there, the
    run goes on."""
    for via in ('direct', 'entry', 'direct', 'entry'):
        h = H()
        c = Cfg(R, n=R.choice([1, 2]), wet='unconfined')
        c.confined = False
        c.npaths = R.choice([3, 5])
        for k in range(len(c.wells)):
            d, di = dist(R, -20, -4, QQ)
            c.wells[k] = tuple(c.wells[k][:3]) + (d,)
            c.wi[k]['d'] = di
        a = R.uniform(0, 6.28)
        g = R.choice([0.02, 0.04])
        z = lambda o: 5 + g * ((o[0] - c.xt) * math.cos(a) + (o[1] - c.yt) * math.sin(a))
        c.obs = [tuple(o[:2]) + (round(c.base + max(0.2, z(o)), 2), 0.1 if z(o) > 1 else 0.5) for o in c.obs]
        c.duration = -R.choice([100.0, 250.0]) * c.s
        c.tol = 0.5
        h.run(c, via)
        h.finish('dry')
