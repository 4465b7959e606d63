"""What is reported about probability fields: impact tables, deterministic areas, the rows
in the log.  Fields are real ones: single nodes marked by tiny tracks and registered, or
(for shapes that cannot be reached quickly) given their contents directly."""
import contextlib
from drv_run import *                      # noqa: F403
import oneka.visualize as vz
import oneka.oneka as entry_module
from decimal import Decimal

ACRE = Decimal('4046.86')


class F:
    """A real field with known places of the nodes."""
    def __init__(self, R, dx=None, dy=None):
        self.dx = dx if dx is not None else R.choice([4, 10, 2.5, 16])
        self.dy = dy if dy is not None else self.dx
        self.x0, self.y0 = R.choice([(0., 0.), (-200., 40.), (322580., 5093430.), (1000.5, -77.25)])
        self.pf = ProbabilityField(self.dx, self.dy)
        self.w = []                                     # registered weights
        self.u = None                                   # their unit

    def cover(self, nc, nr):
        """The nodes 1..nc, 1..nr are addressable afterwards; more lie around them."""
        self.pf.expand(self.x0, self.x0 + (nc - 1) * self.dx, self.y0, self.y0 + (nr - 1) * self.dy)

    def node(self, i, j):
        return float(self.pf.xmin) + (1 + j) * self.dx, float(self.pf.ymin) + (1 + i) * self.dy

    def mark(self, i, j):
        x, y = self.node(i, j)
        self.pf.rasterize([x, x], [y, y], min(self.dx, self.dy) / 4)

    def register(self, w):
        self.pf.register(w)
        self.w.append(w)
        self.u = self.u or w


def from_counts(R, rows, T, w0, **k):
    """rows[i][j] of T equal realizations mark node (i, j)."""
    f = F(R, **k)
    f.cover(len(rows[0]), len(rows))
    for t in range(1, T + 1):
        for i, r in enumerate(rows):
            for j, c in enumerate(r):
                if c >= t:
                    f.mark(i, j)
        f.register(w0)
    return f


def random_field(R, maxn=5, **k):
    f = F(R, **k)
    nc, nr = R.randint(1, maxn), R.randint(1, maxn)
    f.cover(nc, nr)
    T = R.choice([1, 1, 2, 3, 5, 7, 10, 20])
    w = R.choice([1.0, 0.5, 0.125, 3.0])
    f.u = w
    even = R.random() < 0.6
    p = R.choice([0.1, 0.4, 0.8, 1.0])
    for _ in range(T):
        for i in range(nr):
            for j in range(nc):
                if R.random() < p:
                    f.mark(i, j)
        f.register(w if even else w * R.choice([1, 2, 3]))
    return f


def direct_field(R, full=False, dx=None, dy=None):
    """Contents given directly: completely captured, of one row, large, with gaps."""
    f = F(R, dx=dx, dy=dy)
    nc, nr = R.randint(1, 8), R.randint(1, 8)
    f.cover(nc, nr)
    T = R.choice([1, 2, 4, 5, 10, 20, 100, 1000, 10**6])
    w = R.choice([1.0, 0.125, 2.0])
    lo = T if full else R.choice([0, 0, 1])
    g = np.array([[R.randint(lo, T) for _ in range(f.pf.ncols)] for _ in range(f.pf.nrows)], dtype=float)
    f.pf.pgrid[:, :] = g * w
    f.pf.total_weight = T * w
    f.u = w
    return f


def ints(f):
    """The accumulated weights and their total in units of the weights."""
    u = f.u or 1.0
    v = [float(x) / u for x in np.asarray(f.pf.pgrid, dtype=float).ravel()]
    return u, [q(x) for x in v], q(float(f.pf.total_weight) / u)


def dig(pf):
    h = hashlib.sha1()
    for a in (pf.xmin, pf.xmax, pf.ymin, pf.ymax, pf.nrows, pf.ncols, pf.total_weight, pf.deltax, pf.deltay):
        h.update(repr(float(a)).encode())
    h.update(np.ascontiguousarray(np.asarray(pf.pgrid, dtype=float)).tobytes())
    h.update(np.ascontiguousarray(np.asarray(pf.rgrid, dtype=bool)).tobytes())
    return h.hexdigest()[:12]


def impact(R, f, ev, out):
    spacing = f.dx if R.random() < 0.7 else R.choice([1, 0.5, 12, 33.3, 1000, 20000, 1e5])
    u, v, T = ints(f)
    d = dig(f.pf)
    err, r = call(vz.create_impact_plot, spacing, f.pf)
    plt.close('all')
    e = dict(op='impact', err=err, v=v, tot=T, pr=[], cells=[], res=0, same=dig(f.pf) == d)
    if not err:
        try:
            pr, ar = [float(x) for x in r[0]], [float(x) for x in r[1]]
            e['pr'] = [q(x * T) for x in pr]
            e['cells'] = [q(x / spacing**2) for x in ar]
            res = max([abs(x * T - y) for x, y in zip(pr, e['pr'])] + [abs(x / spacing**2 - y) for x, y in zip(ar, e['cells'])])
            e['res'] = q(res * 1e6)
        except Exception as x:
            e['err'] = 'malformed ' + type(x).__name__
    ev.append(e)
    out.count('impact_tables')


def polygons(fig):
    """The filled areas of a figure as lists of corners."""
    ps = []
    for ax in fig.axes:
        for p in ax.patches:
            ps.append(np.asarray(p.get_xy(), dtype=float))
        for c in ax.collections:
            for p in c.get_paths():
                ps.append(np.asarray(p.vertices, dtype=float))
    return ps


def filled(f, fig):
    """Indices (row-major, from 1) of the cells that are filled; residual of their shape."""
    cells, res = [], 0.0
    pf = f.pf
    for p in polygons(fig):
        a, b = p.min(axis=0), p.max(axis=0)
        j, i = ((a + b) / 2 - (float(pf.xmin), float(pf.ymin))) / (f.dx, f.dy)
        jj, ii = q(j), q(i)
        res = max(res, abs(j - jj), abs(i - ii), abs((b - a)[0] / f.dx - 1), abs((b - a)[1] / f.dy - 1))
        area = abs(sum(p[k][0] * p[(k + 1) % len(p)][1] - p[(k + 1) % len(p)][0] * p[k][1] for k in range(len(p)))) / 2 \
            if max(abs(p).max(), 0) < 1e4 else f.dx * f.dy
        res = max(res, abs(area / (f.dx * f.dy) - 1))
        cells.append(ii * int(pf.ncols) + jj + 1)
    return cells, q(res * 1e4)


def scene(R, f):
    """A target, wells and observations for the maps."""
    x, y = float(f.pf.xmin) if f.pf.ncols else f.x0, float(f.pf.ymin) if f.pf.nrows else f.y0
    pick = lambda: (x + R.randint(0, 200) / 4, y + R.randint(0, 200) / 4)
    wells = [pick() + (R.choice([0.25, 1.0]), R.choice([100., (1., 2.), (1, 2, 3), 0, 0.0, -50., (0., 0.), [-5, 5]])) for _ in range(R.choice([1, 2, 3, 4, 12]))]
    obs = [pick() + (R.choice([100.0, 0, -3.5]), R.choice([1.0, 1.0, 1e-3, 500.])) for _ in range(R.choice([0, 1, 7, 9]))]
    return R.randrange(len(wells)), wells, obs


def zone(R, f, ev, out):
    u, v, T = ints(f)
    t, wells, obs = scene(R, f)
    d = dig(f.pf)
    plt.close('all')
    err, r = call(vz.create_deterministic_plot, t, wells, obs, f.pf)
    e = dict(op='zone', err=err, v=v, tot=T, cells=0, res=0, filled=[], same=dig(f.pf) == d)
    if not err:
        try:
            c = float(r) / (f.dx * f.dy)
            e['cells'] = q(c)
            e['filled'], res = filled(f, plt.gcf())
            e['res'] = max(q(abs(c - e['cells']) * 1e6), 0 if res <= 10 else BIG)
        except Exception as x:
            e['err'] = 'malformed ' + type(x).__name__
    plt.close('all')
    ev.append(e)
    out.count('zones')


def refuse(R, f, ev, out):
    """Every report and map of a field without realizations."""
    t, wells, obs = scene(R, f)
    d = dig(f.pf) if f.pf.ncols else ''
    for nm, fn, a in (('impact', vz.create_impact_plot, (f.dx, f.pf)), ('deterministic', vz.create_deterministic_plot, (t, wells, obs, f.pf)),
                      ('probability', vz.create_probability_plot, (t, wells, obs, f.pf, R.choice([0, 1])))):
        err, r = call(fn, *a)
        plt.close('all')
        ev.append(dict(op='refuse', what=nm, err=err, same=(dig(f.pf) if f.pf.ncols else '') == d))
    out.count('refusals', 3)


ROW = re.compile(r'^\s*(\d\.\d{3})\s+([\d,]+)\s+([\d,]+\.\d\d)\s*$')


def cents(x, unit):
    """A decimal text and a real number in hundredths of the text's last digit."""
    dec = len(x.split('.')[1]) if '.' in x else 0
    return q(float(Decimal(x.replace(',', '')) * 10**dec * 100)), q(float(unit * 10**dec * 100))


@contextlib.contextmanager
def given_field(cfg, f, calls):
    """The entry point gets this field instead of computing one."""
    names = ('create_stochastic_capturezone', 'create_deterministic_capturezone')
    mods = (oneka.stochastic, oneka.deterministic, entry_module)
    old = [(m, n, getattr(m, n)) for m in mods for n in names if hasattr(m, n)]

    def stub(*a, **k):
        calls.append(a)
        REC.pf = f.pf
        return f.pf
    for m, n, _ in old:
        setattr(m, n, stub)
    try:
        yield
    finally:
        for m, n, o in old:
            setattr(m, n, o)


def entry_run(R, out, f, ev, det=False):
    """oneka() on a given field (or, f None, on the one it computes): the lines of its log."""
    for _ in range(5):
        cfg = Cfg(R, n=1 if det else R.choice([2, 3]), tiny=f is not None)
        if f is not None:
            cfg.spacing = f.dx
        if len(cfg.filtered()) > 6:
            break
    REC.clear()
    REC.inject = REC.at_register = None
    calls = []
    plt.close('all')
    with LogTap() as tap, contextlib.ExitStack() as stack:
        if f is not None:
            stack.enter_context(given_field(cfg, f, calls))
        Rec.on, Rec.depth = True, 0
        try:
            err, _ = call(run_oneka, *copy.deepcopy(cfg.entry()))
        finally:
            Rec.on = False
        logs = [m for lv, m in tap.rec]
    plt.close('all')
    for x in os.listdir('.'):
        if os.path.isfile(x):
            os.remove(x)
    if f is None or not calls:
        g = F.__new__(F)
        g.pf = REC.pf
        if g.pf is None:
            ev.append(dict(op='log', err=err or 'no field', det=det, v=[], tot=0, rows=[], one=[]))
            return
        g.dx = g.dy = float(g.pf.deltax)
        g.u = float(g.pf.total_weight) / max(1, len(REC.regs)) or 1.0
        f = g
    u, v, T = ints(f)
    cell = Decimal(repr(float(f.dx)))**2
    e = dict(op='log', err=err, det=det, v=v, tot=T, rows=[], one=[])
    lines = '\n'.join(logs).split('\n')
    for ln in lines:
        m = ROW.match(ln)
        if m:
            # probability in thousandths; area as a number of cells; acres as pair
            n = Decimal(m.group(2).replace(',', '')) / cell
            k = int(n.to_integral_value())
            pa, pb = cents(m.group(2), k * cell)
            ca, cb = cents(m.group(3), k * cell / ACRE)
            e['rows'].append([q(float(m.group(1)) * 1000), q(k), pa, pb, ca, cb])
    for i, ln in enumerate(lines):
        m1 = re.match(r'^\s*([\d,]+(?:\.\d+)?) \[m\^2\]\s*$', ln)
        m2 = re.match(r'^\s*([\d,]+(?:\.\d+)?) \[acres\]\s*$', ln)
        n = sum(1 for x in v if x > 0)
        if m1:
            e['one'] += [0, *cents(m1.group(1), n * cell)]
        if m2:
            e['one'] += [1, *cents(m2.group(1), n * cell / ACRE)]
    ev.append(e)
    out.count('logged_reports')


def record(out):
    R = rng(61)
    seed_all(CTX['seed'] * 77 + CTX['shard'])
    n = 12 if thorough() else 2
    for _ in range(n):
        ev = []
        for _ in range(12):
            f = random_field(R)
            impact(R, f, ev, out)
            zone(R, f, ev, out)
        for _ in range(12):
            f = direct_field(R, full=R.random() < 0.25)
            impact(R, f, ev, out)
            if f.pf.total_weight < 2000 or R.random() < 0.5:
                # most captured at most once
                f.pf.pgrid[:, :] = np.minimum(f.pf.pgrid, R.choice([0, 1, 2]) * f.u)
            zone(R, f, ev, out)
        for _ in range(8):
            dx, dy = R.choice([(4, 10), (2.5, 1), (16, 3)])
            zone(R, random_field(R, dx=dx, dy=dy), ev, out)
        out.add(dict(name='fields', ev=ev))
        ev = []
        for _ in range(6):
            f = F(R)
            if R.random() < 0.7:
                f.cover(R.randint(1, 4), R.randint(1, 4))
                if R.random() < 0.6:
                    f.mark(0, 0)
                    if R.random() < 0.5:
                        f.pf.reset()
            refuse(R, f, ev, out)
        out.add(dict(name='empty', ev=ev))
        ev = []
        for _ in range(6):
            entry_run(R, out, random_field(R, dx=R.choice([4, 10, 2.5, 16])), ev)
        for _ in range(3):
            entry_run(R, out, random_field(R, maxn=4), ev, det=True)
        for det in (False, False, True):
            f = direct_field(R, dx=R.choice([100, 200, 180.5]))
            f.pf.pgrid[0, :] = 0
            entry_run(R, out, f, ev, det=det)
        out.add(dict(name='logs', ev=ev))
        ev = []
        for _ in range(2):
            entry_run(R, out, None, ev)
            entry_run(R, out, None, ev, det=True)
        out.add(dict(name='runs', ev=ev))


def from_spec(out, cases):
    R = rng(62)
    R.shuffle(cases)
    logs = 200 if thorough() else 12
    for a in range(0, len(cases), 60):
        ev = []
        for c in cases[a:a + 60]:
            v = c['v']
            n = len(v)
            k = R.choice([x for x in (1, 2, 4) if n % x == 0])
            rows = [v[i * k:(i + 1) * k] for i in range(n // k)]
            f = from_counts(R, rows, c['t'], R.choice([1.0, 0.125, 2.0]))
            if c['t'] == 0:
                refuse(R, f, ev, out)
            else:
                impact(R, f, ev, out)
                zone(R, f, ev, out)
                if logs > 0 and R.random() < 0.3:
                    logs -= 1
                    entry_run(R, out, f, ev)
        out.add(dict(name='enumerated', ev=ev))
