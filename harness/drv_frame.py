"""Histories of calls of every kind on a store of objects: what each of them contains
after every call."""
from drv_run import *                      # noqa: F403
from oneka.archive import dump_oneka, load_oneka
import oneka.visualize as vis

MODEL = ('base', 'conductivity', 'porosity', 'thickness', 'wells', 'xo', 'yo', 'coef')
FIELD = ('deltax', 'deltay', 'nrows', 'ncols', 'xmin', 'xmax', 'ymin', 'ymax', 'total_weight', 'pgrid', 'rgrid')


def canon(o):
    if isinstance(o, np.ndarray):
        return ('array', str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(canon(x) for x in o)
    if isinstance(o, dict):
        return ('dict',) + tuple((repr(k), canon(v)) for k, v in o.items())
    if isinstance(o, Model):
        return ('model',) + tuple(canon(getattr(o, a, None)) for a in MODEL)
    if isinstance(o, ProbabilityField):
        return ('field',) + tuple(canon(getattr(o, a, None)) for a in FIELD)
    if isinstance(o, io.StringIO):
        return ('text', o.getvalue())
    return (type(o).__name__, repr(o))


def settings():
    lg = [logging.getLogger(), logging.getLogger('Oneka')]
    return (sorted(np.geterr().items()), os.getcwd(), repr(sorted(np.get_printoptions().items(), key=str)),
            sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams)), random.getstate(), list(sys.path), sorted(os.environ.items()),
            [(len(x.handlers), x.level, x.propagate, x.disabled) for x in lg], logging.root.manager.disable, sys.getrecursionlimit(),
            [repr(f) for f in warnings.filters])


class Store:
    def __init__(self, R, out):
        self.R, self.out, self.ev = R, out, []
        self.obj, self.kind, self.n, self.ids, self.first = {}, {}, 0, {}, ''
        for f in os.listdir('.'):
            if f.endswith('.bz2'):
                os.remove(f)
        plt.figure()
        plt.close('all')
        for k in range(2):
            c = Cfg(R, n=R.choice([2, 3]), tiny=True, wet=R.choice(['confined', 'confined', 'mixed', 'unconfined']))
            c.npaths = min(c.npaths, 2)
            self.hold('configuration', c.entry())
            a = self.obj['configuration%d' % self.n]
            self.hold('wells', a[10])
            self.hold('observations', a[11])
            # as a model has them: with discharges
            wl = [[w[0], w[1], w[2], c.mean(w[3])] for w in c.wells]
            for _ in range(R.randint(0, 4)):
                wl.insert(R.randint(0, len(wl)), [c.xt + R.randint(-900, 900) + .5, c.yt + R.randint(-900, 900) + .5, 0.3, R.choice([-1, 1]) * R.uniform(5, 300)])
            wl = R.choice([lambda z: z, lambda z: [tuple(w) for w in z]])(wl)
            self.hold('discharges', wl)
            self.note('hold', [], True, list(self.obj))
            self.do('model', [], Model, c.base, c.mean(c.c), c.mean(c.p), c.mean(c.t), wl, result=['model'])
            self.cfg = c
        self.first = self.hold('field', ProbabilityField(8.0, 8.0, c.xt, c.yt))
        self.hold('array', np.array([1e-4, -2e-4, 1e-5, 0.5, -0.25, 400.0]))
        self.hold('array', np.array([[1., 2, 3], [4, np.nan, 6], [7, 8, 9.5]]))
        self.hold('table', [[1., 2.5, 3], [4, 5, 6], [7.25, np.nan, 9]])
        self.hold('table', np.array([[9., 2.5, 3, 0], [4, np.nan, 6, 7], [7.25, 1, -9, 1], [5, 5, 5, 5]]))
        self.hold('table', [(9., 2.5), (4, 1), (7.25, 3)])
        self.hold('table', [R.choice([list, tuple])((float(k * 17 % m), R.choice([k, -0.5 * k, np.nan]))) for m in [R.choice([41, 120, 301])] for k in range(m)])
        self.hold('distribution', [1.0, 2.0, 3.5])
        self.hold('distribution', (10.0, 20.0))
        self.note('hold', [], True, list(self.obj))

    def hold(self, kind, o):
        self.n += 1
        nm = kind + str(self.n)
        self.obj[nm], self.kind[nm] = o, kind
        return nm

    def note(self, op, t, ok, fresh):
        c = {n: canon(o) for n, o in self.obj.items()}
        c['settings'], c['generators'] = settings(), canon(list(np.random.get_state(legacy=True)))
        c = {n: self.ids.setdefault(v if not isinstance(v, tuple) or n != 'settings' else repr(v), len(self.ids) + 1) for n, v in c.items()}
        kind = dict(self.kind, settings='settings', generators='generators')
        self.ev.append(dict(op=op, t=t, ok=ok, fresh=fresh, c=c, kind={n: kind[n] for n in c}))
        self.out.count('calls')

    def some(self, kind):
        return self.R.choice([n for n in self.obj if self.kind[n] == kind])

    def do(self, op, t, fn, *a, result=None):
        """One call; a result worth keeping is held from now on."""
        with LogTap():
            try:
                err, v = call(fn, *a, limit=60)
            finally:
                plt.close('all')
        fresh = []
        if not err and result:
            fresh = [self.hold(k, o) for k, o in zip(result, v if len(result) > 1 else [v])]
        self.note(op, t, not err, fresh)
        self.forget()
        return err, v

    def forget(self):
        """Not too many results at a time: the user lets go of some."""
        held = [n for n in self.obj if self.kind[n] in ('result', 'field') and n != self.first]
        gone = []
        while len(held) > (8 if not gone else 4):
            gone.append(held.pop(self.R.randrange(len(held))))
        if gone:
            for n in gone:
                del self.obj[n]
            self.note('forget', gone, True, [])

    def step(self):
        R, o = self.R, self.obj
        x = R.random()
        cf = self.some('configuration')
        a = o[cf]
        xt, yt = a[10][a[2]][:2]
        ob, we = self.some('observations'), self.some('wells')
        m, f = self.some('model'), self.some('field')
        mo, pf = o[m], o[f]
        P = lambda: (xt + R.uniform(-300, 300), yt + R.uniform(-300, 300))
        if x < 0.14:
            nm = R.choice(['compute_potential', 'compute_potential_wells_only', 'compute_discharge', 'compute_head', 'compute_velocity', 'compute_velocity_confined'])
            self.do(nm, [m], getattr(mo, nm), *P(), result=['result'])
        elif x < 0.26:
            obs = o[ob]
            if R.random() < 0.25:                       # refused
                obs = obs + [(xt + 900.0, yt, a[6] - 5, 0.5)]
            elif R.random() < 0.2:                      # does not determine the flow
                obs = R.choice([[(xt, yt + 40.0 * i, a[6] + 40.0 + i % 3, 0.5) for i in range(9)], obs[:4]])
            self.do('fit', [m, ob], mo.fit_regional_flow, obs, xt, yt, result=['result', 'result'])
        elif x < 0.29:
            e, v = call(mo.construct_fit, o[ob], xt, yt)
            if not e:
                w = [self.hold('result', z) for z in v]
                self.note('construct', [m, ob], True, w)
                self.do('solve', w, mo.compute_fit, *v, result=['result', 'result'])
        elif x < 0.33:
            arr = [n for n in o if self.kind[n] == 'array' and np.size(o[n]) == 6]
            n = R.choice(arr)
            if R.random() < 0.5:
                self.do('assign', [m, n], lambda: setattr(mo, 'coef', o[n]))
            else:
                self.do('model', [n], lambda: Model(0.0, 10.0, 0.2, 20.0, o[self.some('discharges')] if R.random() < .7 else [], xt, yt, o[n]), result=['model'] if sum(1 for k in self.kind.values() if k == 'model') < 5 else None)
        elif x < 0.38:
            # the user changes something of his own
            n = R.choice([n for n in o if self.kind[n] in ('array', 'observations', 'table')])
            if self.kind[n] == 'array':
                o[n].flat[R.randrange(o[n].size)] += R.choice([1e-5, 0.5])
            elif self.kind[n] == 'table':
                o[n][0] = [R.random() for _ in range(len(o[n][0]))]
            else:
                # a configuration holds the same list
                t = list(o[n][-1])
                t[2] = round(t[2] + R.uniform(-.01, .01), 3)
                for k in [k for k in o if self.kind[k] == 'configuration' and o[k][11] is o[n]]:
                    o[k][11] = list(o[k][11])
                o[n][-1] = tuple(t)
            self.note('edit', [n], True, [])
        elif x < 0.52:
            xt, yt = (pf.xmin + pf.xmax) / 2, (pf.ymin + pf.ymax) / 2       # its own neighbourhood
            k = R.randrange(6)
            tr = [np.array([P()[0] for _ in range(4)]), np.array([P()[1] for _ in range(4)])]
            if R.random() < 0.5:
                tr = [list(z) for z in tr]
            if k == 0:
                self.do('expand', [f], pf.expand, *(R.choice([(xt - 90, xt + 20, yt, yt + 100), (xt + 5, xt, yt, yt)])))
            elif k < 3:
                n = [self.hold('result', z) for z in tr]
                self.note('hold', [], True, n)
                self.do('rasterize', [f] + n, pf.rasterize, *tr, R.choice([5.0, 12]))
            elif k == 3:
                self.do('insert', [f], pf.insert, tr[0][0], tr[1][0], tr[0][1], tr[1][1], 6.0)
            elif k == 4:
                self.do('register', [f], pf.register, R.choice([1.0, 0.5]))
            else:
                self.do('reset', [f], pf.reset)
        elif x < 0.58:
            left, fx, fy = [3000], xt, yt

            def g(xy):
                # some of these flows lead into a sink, in ever smaller steps
                left[0] -= 1
                if left[0] < 0:
                    raise ValueError('enough')
                return -np.array(mo.compute_velocity_confined(xy[0] - fx + xt, xy[1] - fy + yt))
            if R.random() < 0.5:
                self.do('backtrace', [m], compute_backtrace, *P(), R.choice([2.0, -2.0, 0.5]), 0.5, 10.0, g, result=['result'])
            else:
                fx, fy = (pf.xmin + pf.xmax) / 2, (pf.ymin + pf.ymax) / 2
                self.do('capture zone', [f, m], compute_capturezone, fx, fy, 0.3, R.randint(1, 3), 0.5, pf, 8.0, 1.0, 0.5, 10.0, g)
        elif x < 0.64:
            self.do('filter', [ob, we], oneka.utilities.filter_obs, o[ob], o[we], R.choice([10, 60.0]), result=['result'])
        elif x < 0.68:
            t = self.some(R.choice(['table', 'observations']))
            n = len(o[t][0])
            self.do('summary', [t], oneka.utilities.summary_statistics, o[t], list('ABCD')[:n], ['10.2f'] * n, 'T', result=['result'])
        elif x < 0.76:
            d = self.some('distribution')
            k = R.randrange(3)
            if k == 0:
                self.do('variate', [d], oneka.stochastic.generate_random_variate, o[d])
            elif k == 1:
                self.do('mean', [d], oneka.stochastic.compute_variate_mean, o[d])
            else:
                self.do('isdistribution', [d], oneka.stochastic.isdistribution, o[d], 0, np.inf)
        elif x < 0.84:
            A = [a[2], a[3], a[4]] + ([a[5]] if x < 0.8 else []) + a[6:12] + [a[13], a[14], a[16], a[17], a[18]]
            if x < 0.8:
                self.do('stochastic run', [cf], oneka.stochastic.create_stochastic_capturezone, *A, result=['field'])
            else:
                self.do('deterministic run', [cf], oneka.deterministic.create_deterministic_capturezone, *A, result=['field'])
        elif x < 0.88:
            b = list(a)
            if R.random() < 0.4:
                b[5] = 1
            self.do('run' if b[5] > 1 else 'run of means', [cf], run_oneka, *b)
        elif x < 0.96:
            k = R.randrange(5)
            if k == 0:
                self.do('probability plot', [cf, f], vis.create_probability_plot, a[2], a[10], a[11], pf, R.choice([0, 1.5]))
            elif k == 1:
                self.do('deterministic plot', [cf, f], vis.create_deterministic_plot, a[2], a[10], a[11], pf)
            elif k == 2:
                self.do('impact plot', [f], vis.create_impact_plot, 8.0, pf, result=['result', 'result'])
            else:
                self.do('map', [m], R.choice([vis.contour_head, vis.contour_potential]), mo, xt - 200, xt + 200, yt - 100, yt + 100, 4, 5)
        else:
            before = set(os.listdir('.'))
            self.do('dump', [cf, f], dump_oneka, *(a + [pf]))
            new = [z for z in os.listdir('.') if z not in before]
            if new:
                self.do('load', [], load_oneka, new[0], result=['result'])

    def finish(self):
        self.out.add(dict(name='calls', ev=self.ev))


def record(out):
    R = rng(71)
    seed_all(CTX['seed'] * 499 + CTX['shard'])
    for _ in range(60 if thorough() else 12):
        s = Store(R, out)
        for _ in range(60):
            s.step()
        s.finish()
