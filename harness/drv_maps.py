"""What the maps draw: the data handed to matplotlib's axes, the markers and the filled
cells of the figure."""
from drv_report import *                      # noqa: F403
from oneka.model import AquiferError

DRAWN = []
NAN = 2000000000


def _tap(name):
    orig = getattr(matplotlib.axes.Axes, name)

    def wrapped(self, *a, **k):
        DRAWN.append((name, [np.array(z, dtype=float) for z in a[:3]] if len(a) > 2 else []))
        return orig(self, *a, **k)
    setattr(matplotlib.axes.Axes, name, wrapped)


for _n in ('contourf', 'contour'):
    _tap(_n)


def axes_of(a, n, m):
    """The places of the columns and rows of what was drawn; None if not a raster."""
    X, Y, Z = a
    if X.ndim == 2:
        if not (X == X[0]).all():
            return None
        X = X[0]
    if Y.ndim == 2:
        if not (Y.T == Y[:, 0]).all():
            return None
        Y = Y[:, 0]
    if Z.shape != (m, n) or X.shape != (n,) or Y.shape != (m,):
        return None
    return X, Y, Z


def markers(f, tmp=None):
    """Groups of points of the figure, in hundredths from the field's corner."""
    gs = []
    for ax in plt.gcf().axes:
        for ln in ax.lines:
            xs, ys = np.atleast_1d(np.asarray(ln.get_xdata(), dtype=float)), np.atleast_1d(np.asarray(ln.get_ydata(), dtype=float))
            mk = ln.get_marker()
            if len(xs) and mk not in (None, 'None', '', ' '):
                gs.append(dict(m=str(mk), p=[[q((x - f.x0) * 100), q((y - f.y0) * 100)] for x, y in zip(xs, ys)]))
    return gs


def places(f, pts):
    return [[q((p[0] - f.x0) * 100), q((p[1] - f.y0) * 100)] for p in pts]


def probmap(R, f, ev, out, smooth=None):
    u, v, T = ints(f)
    pf = f.pf
    t, wells, obs = scene(R, f)
    if smooth is None:
        smooth = R.choice([0, 0, 0.5, 1, 1, 2, 1.0])
    d = dig(pf)
    DRAWN.clear()
    plt.close('all')
    e = map_event(f, 'probability')
    args = [t, wells, obs, pf] + ([] if smooth == 0 and R.random() < 0.5 else [smooth])
    e['err'], _ = call(vz.create_probability_plot, *args)
    fill_map(e, f, wells, obs, t, smooth)
    e['same'] = dig(pf) == d
    plt.close('all')
    ev.append(e)
    out.count('probability_maps')


def map_event(f, kind):
    return dict(op='map', kind=kind, err='', rows=[], tot=0, sd=0, n=0, shape=True, x=[], y=[], xs=[], z=[], res=0, lines=True,
                groups=[], target=[], wells=[], obs=[], same=True, filled=[], ny=0)


def fill_map(e, f, wells, obs, t, smooth):
    u, v, T = ints(f)
    pf = f.pf
    n, m = int(pf.ncols), int(pf.nrows)
    e.update(rows=[v[i * n:(i + 1) * n] for i in range(m)], tot=T, sd=q(smooth * 2), n=n, ny=m)
    e['target'], e['wells'], e['obs'] = places(f, [wells[t]])[0], places(f, wells), places(f, obs)
    e['groups'] = markers(f)
    if e['err']:
        return
    if e['kind'] == 'deterministic':
        e['filled'], r = filled(f, plt.gcf())
        e['res'] = 0 if r <= 10 else BIG
        return
    first = [a for nm, a in DRAWN if nm == 'contourf']
    xyz = axes_of(first[0], n, m) if first and first[0] else None
    if len(first) != 1 or xyz is None:
        e['shape'] = False
        return
    X, Y, Z = xyz
    jx, iy = (X - float(pf.xmin)) / f.dx, (Y - float(pf.ymin)) / f.dy
    e['x'], e['y'] = [q(a) for a in jx], [q(a) for a in iy]
    res = max(abs(jx - np.round(jx)).max(), abs(iy - np.round(iy)).max())
    z = Z * (T if smooth == 0 else T * 1000)
    e['z'] = [[q(a) for a in r] for r in z]
    if smooth == 0:
        res = max(res, abs(z - np.round(z)).max())
    e['res'] = q(res * 1e6)
    # the lines are drawn through the same surface
    for nm, a in DRAWN:
        if nm == 'contour':
            w = axes_of(a, n, m) if a else None
            e['lines'] = e['lines'] and w is not None and all(np.array_equal(p, r, equal_nan=True) for p, r in zip(w, xyz))


def detmap(R, f, ev, out):
    t, wells, obs = scene(R, f)
    d = dig(f.pf)
    DRAWN.clear()
    plt.close('all')
    e = map_event(f, 'deterministic')
    e['err'], _ = call(vz.create_deterministic_plot, t, wells, obs, f.pf)
    fill_map(e, f, wells, obs, t, 0)
    e['same'] = dig(f.pf) == d
    plt.close('all')
    ev.append(e)
    out.count('deterministic_maps')


def entry_map(R, out, f, ev, det=False):
    """The map oneka() draws of a given field (or, f None, of the one it computes)."""
    cfg = Cfg(R, n=1 if det else R.choice([2, 3]), tiny=f is not None)
    obs = cfg.filtered()
    if len(obs) <= 6:
        return
    if f is not None:
        cfg.spacing = f.dx
    REC.clear()
    REC.inject = REC.at_register = None
    DRAWN.clear()
    calls = []
    plt.close('all')
    e = map_event(f, 'deterministic' if det else 'probability')
    old, got = plt.close, []
    with LogTap(), contextlib.ExitStack() as stack:
        if f is not None:
            stack.enter_context(given_field(cfg, f, calls))
        # the first figure of a run is the map
        show = plt.show
        Rec.on, Rec.depth = f is None, 0
        try:
            e['err'], _ = call(run_oneka, *copy.deepcopy(cfg.entry()))
        finally:
            Rec.on = False
    if not e['err']:
        plt.figure(plt.get_fignums()[0])
    for x in os.listdir('.'):
        if os.path.isfile(x):
            os.remove(x)
    if f is None or not calls:
        g = F.__new__(F)
        g.pf = REC.pf
        g.u = float(g.pf.total_weight) / max(1, len(REC.regs)) or 1.0
        g.dx = g.dy = float(g.pf.deltax)
        f = g
    f.x0, f.y0 = cfg.off
    fill_map(e, f, cfg.wells, obs, cfg.target, 0 if det else cfg.smooth)
    if f.pf is REC.pf and det and not calls:
        # filling is not drawn in recorded runs
        e['filled'] = [i + 1 for i, x in enumerate(np.asarray(f.pf.pgrid).ravel()) if x > 0]
    plt.close('all')
    ev.append(e)
    out.count('maps_of_runs')


# -- maps of models ------------------------------------------------------------------
def a_model(R, out):
    """A real model, with or without dry places."""
    off = R.choice([(0., 0.), (322580., 5093430.), (-500., 70.)])
    wells = [(off[0] + R.randint(-50, 50), off[1] + R.randint(-50, 50), R.choice([0.25, 1.0, 6.0]), R.choice([-50., 30., 200., 900.]))
             for _ in range(R.choice([0, 1, 2, 3]))]
    H = R.choice([5., 12., 30.])
    mo = Model(R.choice([0., 100., -30.]), R.choice([1., 12.5, 60.]), 0.25, H, wells)
    phi = R.choice([2.0, 0.7, 0.3, 0.02, -0.01]) * mo.conductivity * H * H
    s = R.choice([0, 0.001, 0.004, 0.02]) * mo.conductivity * H * H
    mo.coef = np.array([R.choice([0, -1e-3, 2e-3]), R.choice([0, 1e-3]), 0, s * R.choice([1, -1, .3]), s * R.choice([0, 1, -.5]), phi])
    mo.xo, mo.yo = off
    return mo, off


def field_map(R, out, ev, kind):
    mo, off = a_model(R, out)
    fn = vz.contour_head if kind == 'head' else vz.contour_potential
    val = mo.compute_head if kind == 'head' else mo.compute_potential
    nr, nc = R.randint(2, 9), R.randint(2, 9)
    dx, dy = R.choice([1., 5., 12.5, 40.]), R.choice([1., 5., 12.5, 40.])
    x0, y0 = off[0] + R.randint(-60, 40), off[1] + R.randint(-60, 40)
    if R.random() < 0.4:
        # one place of the raster is only just wet, or the change to confined is there
        X, Y = x0 + R.randrange(nc) * dx, y0 + R.randrange(nr) * dy
        er, p = call(mo.compute_potential, X, Y)
        if not er:
            P = mo.conductivity * mo.thickness**2 * R.choice([1e-8, 1e-6, 1e-5, 1e-3, 0.5, 0.4999, -1e-5])
            mo.coef[5] += P - p
    DRAWN.clear()
    plt.close('all')
    plt.figure()
    before = (mo.base, mo.conductivity, mo.porosity, mo.thickness, repr(mo.wells), tuple(np.asarray(mo.coef).ravel()), mo.xo, mo.yo)
    err, _ = call(fn, mo, x0, x0 + (nc - 1) * dx, y0, y0 + (nr - 1) * dy, nr, nc)
    after = (mo.base, mo.conductivity, mo.porosity, mo.thickness, repr(mo.wells), tuple(np.asarray(mo.coef).ravel()), mo.xo, mo.yo)
    plt.close('all')
    e = dict(op='model', kind=kind, err=err, shape=True, n=nc, ny=nr, x=[], y=[], res=0, z=[], want=[], same=repr(before) == repr(after))
    first = [a for nm, a in DRAWN if nm == 'contourf' and a]
    if not err:
        xyz = axes_of(first[0], nc, nr) if len(first) == 1 else None
        if xyz is None:
            e['shape'] = False
        else:
            X, Y, Z = xyz
            jx, iy = (X - x0) / dx, (Y - y0) / dy
            e['x'], e['y'] = [q(a) for a in jx], [q(a) for a in iy]
            e['res'] = q(max(abs(jx - np.round(jx)).max(), abs(iy - np.round(iy)).max()) * 1e5)
            want = [[None] * nc for _ in range(nr)]
            for i in range(nr):
                for j in range(nc):
                    er, w = call(val, x0 + j * dx, y0 + i * dy)
                    want[i][j] = w if not er else None
            sc = max([1e-3] + [abs(w) for r in want for w in r if w is not None])
            k = sc / 1e8
            e['want'] = [[NAN if w is None else q(w / k) for w in r] for r in want]
            e['z'] = [[NAN if z != z else q(z / k) for z in r] for r in Z]
            out.count('dry_places', sum(1 for r in want for w in r if w is None))
    ev.append(e)
    out.count('model_maps')


def refused(R, f, ev, out):
    t, wells, obs = scene(R, f)
    for nm, fn, a in (('deterministic', vz.create_deterministic_plot, (t, wells, obs, f.pf)),
                      ('probability', vz.create_probability_plot, (t, wells, obs, f.pf, R.choice([0, 1])))):
        d = dig(f.pf) if f.pf.ncols else ''
        err, r = call(fn, *a)
        plt.close('all')
        ev.append(dict(op='refuse', what=nm, err=err, same=(dig(f.pf) if f.pf.ncols else '') == d))
    out.count('refusals', 2)


def small(R):
    """For smoothing: values up to 40."""
    f = random_field(R) if R.random() < 0.5 else direct_field(R)
    u, v, T = ints(f)
    if max(v) > 40:
        f.pf.pgrid[:, :] = np.minimum(f.pf.pgrid, 40 * f.u)
    if T > 1000:
        f.pf.total_weight = 1000 * f.u
    return f


def record(out):
    R = rng(71)
    seed_all(CTX['seed'] * 77 + CTX['shard'])
    n = 10 if thorough() else 2
    for _ in range(n):
        ev = []
        for _ in range(8):
            f = small(R)
            probmap(R, f, ev, out)
            detmap(R, f, ev, out)
        for _ in range(4):
            dx, dy = R.choice([(4, 10), (2.5, 1), (16, 3)])
            f = random_field(R, dx=dx, dy=dy)
            probmap(R, f, ev, out, 0)
            detmap(R, f, ev, out)
        out.add(dict(name='fields', ev=ev))
        ev = []
        for _ in range(4):
            f = F(R)
            if R.random() < 0.7:
                f.cover(R.randint(1, 4), R.randint(1, 4))
                if R.random() < 0.6:
                    f.mark(0, 0)
            refused(R, f, ev, out)
        out.add(dict(name='empty', ev=ev))
        ev = []
        for _ in range(20):
            field_map(R, out, ev, 'head')
        for _ in range(8):
            field_map(R, out, ev, 'potential')
        out.add(dict(name='models', ev=ev))
        ev = []
        for _ in range(5):
            entry_map(R, out, small(R), ev)
        for _ in range(2):
            entry_map(R, out, random_field(R, maxn=4), ev, det=True)
        entry_map(R, out, None, ev)
        out.add(dict(name='runs', ev=ev))


def from_spec(out, cases):
    R = rng(72)
    R.shuffle(cases)
    for a in range(0, min(len(cases), 10**6 if thorough() else 150), 30):
        ev = []
        for c in cases[a:a + 30]:
            f = from_counts(R, c['m'], 8, R.choice([1.0, 0.125, 2.0]))
            for sd in (0, 0.5, 1, 2):
                probmap(R, f, ev, out, sd)
        out.add(dict(name='enumerated', ev=ev))
