"""Families of deterministic runs of related configurations: moved, reordered, given in
another form, with more particles, a larger umbra ..."""
from drv_run import *                      # noqa: F403


class Family:
    def __init__(self, R, out):
        self.R, self.out, self.ev = R, out, []
        wet = R.choice(['confined', 'confined', 'mixed', 'unconfined', 'steep'] + ['steep'] * 3 * (CTX['prop'] == 'C31'))
        c = Cfg(R, det=True, wet=wet)
        c.tol, c.maxstep = R.choice([0.02, 0.01]), R.choice([3, 2.5])
        c.npaths = R.choice([1, 2, 3, 4, 4, 5, 6, 8, 8, 12])
        c.smooth = 0
        if R.random() < 0.5:                         # a nodal spacing that sees details
            c.dx = R.choice([6, 8, 10])
            c.spacing = c.dx * c.s
            c.u = R.choice([7, 11, 20])
            c.umbra = c.u * c.s
        self.c = c
        # particles go away from wells: into one, the steps become ever smaller and chaotic
        sign = 1 if c.duration > 0 else -1
        for k, w in enumerate(c.wells):
            d = w[3]
            if c.mean(d) * sign <= 0 or (isinstance(d, (tuple, list)) and min(z * sign for z in d) < 0):
                d = sign * 120.0 if not isinstance(d, (tuple, list)) or len(d) == 3 else (sign * 100.0, sign * 150.0)
                d = tuple(sorted(d)) if isinstance(d, tuple) else d
                c.wells[k] = type(w)(list(w[:3]) + [d])
        # slow flow takes long
        F = R.choice([1, 1, 1, 8, 40, 300])
        times = lambda d, z: type(d)(v * z for v in d) if isinstance(d, (tuple, list)) else d * z
        if F > 1:
            c.c, c.duration = times(c.c, 1 / F), c.duration * F
            c.wells = [type(w)(list(w[:3]) + [times(w[3], 1 / F)]) for w in c.wells]
        # the configuration relative to the target
        self.wells = [(w[0] - c.xt, w[1] - c.yt, w[2], w[3]) for w in c.wells]
        self.obs = [(o[0] - c.xt, o[1] - c.yt, o[2] - c.base, o[3]) for o in c.obs]
        if R.random() < 0.5:                         # some heads are whole numbers
            for i in R.sample(range(len(self.obs)), R.choice([1, 3, len(self.obs)])):
                o = self.obs[i]
                self.obs[i] = (o[0], o[1], round(o[2] + c.base) - c.base, o[3])
            self.obs.sort(key=lambda o: o[2] + c.base != round(o[2] + c.base))
        self.scale = None

    def one(self, par, direct=False):
        """One run; par: the parameters that differ."""
        c = self.c
        p = dict(xt=c.xt, yt=c.yt, base=c.base, wells=self.wells, obs=self.obs, target=c.target, npaths=c.npaths, duration=c.duration,
                 c=c.c, p=c.p, t=c.t, spacing=c.spacing, umbra=c.umbra, confined=c.confined, smooth=0, tol=c.tol, maxstep=c.maxstep,
                 form=lambda z: z, buffer=c.buffer)
        p.update(par)
        wells = [(w[0] + p['xt'], w[1] + p['yt'], w[2], w[3]) for w in p['wells']]
        obs = [(o[0] + p['xt'], o[1] + p['yt'], round(o[2] + p['base'], 6), o[3]) for o in p['obs']]
        res = dict(nodes=[], coef=[], ends=[], paths=[])
        REC.clear()
        REC.inject = None
        got = []

        def at(pf):
            keys = sorted(REC.snaps, key=lambda k: REC.snaps[k])
            got.append((keys, [list(t) for t in REC.tracks]))
        REC.at_register = at
        f = p['form']
        with LogTap() as tap:
            Rec.on, Rec.depth = True, 0
            try:
                if direct:
                    err, pf = call(oneka.deterministic.create_deterministic_capturezone, p['target'], p['npaths'], p['duration'], p['base'], p['c'],
                                   p['p'], p['t'], wells, obs, p['spacing'], p['umbra'], p['confined'], p['tol'], p['maxstep'], limit=60)
                else:
                    err, pf = call(run_oneka, *f(['P', 'now', p['target'], p['npaths'], p['duration'], 1, p['base'], p['c'], p['p'], p['t'], wells, obs,
                                                  p['buffer'], p['spacing'], p['umbra'], p['smooth'], p['confined'], p['tol'], p['maxstep']]), limit=60)
            finally:
                Rec.on, REC.at_register = False, None
                plt.close('all')
        for x in os.listdir('.'):
            if x.endswith('.bz2'):
                os.remove(x)
        self.warned = sum(1 for r in tap.rec if r[0] >= logging.WARNING)
        res['err'] = err
        if err or pf is None or len(got) != 1 or len(got[0][0]) > 1:
            res['err'] = err or 'no single capture zone'
            return res
        sp = float(p['spacing'])
        with np.errstate(all='ignore'):
            i, j = np.nonzero(np.asarray(pf.pgrid))
            x = np.asarray(pf.xmin + j * (pf.xmax - pf.xmin) / (pf.ncols - 1) - p['xt']) / sp
            y = np.asarray(pf.ymin + i * (pf.ymax - pf.ymin) / (pf.nrows - 1) - p['yt']) / sp
        if len(x) and max(np.max(np.abs(x - np.round(x))), np.max(np.abs(y - np.round(y)))) > 1e-4:
            res['err'] = 'nodes are not counted from the target'
            return res
        res['nodes'] = sorted([int(a), int(b)] for a, b in zip(np.round(x), np.round(y)))
        keys, tracks = got[0]
        s = c.s
        turn = par.get('turnback', 0.0)
        for t in tracks:
            ex, ey = t[-1][0] - p['xt'], t[-1][1] - p['yt']
            ex, ey = ex * math.cos(turn) + ey * math.sin(turn), ey * math.cos(turn) - ex * math.sin(turn)
            res['ends'].append([q(ex * 100), q(ey * 100)])
            res['paths'].append([[q((v[0] - p['xt']) / s), q((v[1] - p['yt']) / s)] for v in t])
        if keys:
            co = keys[0][7]
            if self.scale is None:
                self.scale = [max(abs(z) for z in co[:3])] * 3 + [max(abs(z) for z in co[3:5])] * 2 + [abs(co[5])]
            res['coef'] = [max(-BIG, min(BIG, q(a / (z or 1.0) * 1e6))) for a, z in zip(co, self.scale)]
            self.model = keys[0]
        return res

    def first(self, direct=False, par=None):
        c = self.c
        r = self.one(par or {}, direct)
        self.tracks_ok = not r['err'] and all(abs(z) < 300 for t in r['paths'] for v in t for z in v)
        r.update(op='zone', np=c.npaths, d=c.dx, u=c.u)
        self.ev.append(r)
        self.out.count('runs')
        return not r['err'] and self.tracks_ok and bool(r['coef'])

    def again(self, prop, rel, what, par, g=(0, 0), f=1, cmp=(True, True, True), direct=False):
        r = self.one(par, direct)
        r.pop('paths')
        r.update(op='again', prop=prop, rel=rel, what=what, g=dict(k=g[0], m=g[1]), f=f, cmp=list(cmp))
        if rel == 'finer':
            r['g'] = dict(k=0, m=0)
        self.ev.append(r)
        self.out.count('runs')
        self.out.count(what.replace(' ', '_'))

    # -- the relations -----------------------------------------------------------------
    @staticmethod
    def mv(g, p):
        x, y = p[0], p[1]
        if g[1]:
            y = -y
        for _ in range(g[0]):
            x, y = -y, x
        return (x, y) + tuple(p[2:])

    def wet_everywhere(self):
        """The aquifer is confined wherever the particles of the last run have been."""
        k = self.model
        mo = Model(*k[:4], [list(w) for w in k[4]], k[5], k[6], np.array(k[7]))
        c = self.c
        for t in self.ev[-1]['paths']:
            for v in t:
                for ddx, ddy in ((0, 0), (4, 0), (-4, 0), (0, 4), (0, -4)):
                    e, h = call(mo.compute_head, v[0] * c.s + c.xt + ddx, v[1] * c.s + c.yt + ddy)
                    if e or h < 1.02 * k[3]:
                        return False
        return True

    def relations(self, prop):
        R, c = self.R, self.c
        np_ = c.npaths
        if prop == 'C29':
            ok = [(k, m) for k in range(4) for m in range(2) if np_ % 4 == 0 or (np_ % 2 == 0 and k in (0, 2)) or k == 0]
            ok.remove((0, 0))
            confined = self.wet_everywhere()
            P = []
            for g in R.sample(ok, min(len(ok), 3)):
                P.append(('same', 'turned and mirrored', dict(wells=[self.mv(g, w) for w in self.wells], obs=[self.mv(g, o) for o in self.obs]), g))
            P.append(('same', 'elsewhere', dict(xt=c.xt + R.choice([-1, 1]) * R.choice([4096.0, 1000.5, 3e6, 500]), yt=c.yt - R.choice([2e6, 77.0, 5e6])), (0, 0)))
            P.append(('same', 'with the target at the origin', dict(xt=0.0, yt=0.0), (0, 0)))
            o = R.choice(self.obs if R.random() < 0.7 else self.wells)
            P.append(('same', 'with one of them at the origin', dict(xt=-o[0], yt=-o[1]), (0, 0)))
            if R.random() < 0.5:
                P.append(('same', 'with an axis through one of them', dict(xt=-o[0]) if R.random() < 0.5 else dict(yt=-o[1]), (0, 0)))
            P.append(('same', 'at another elevation', dict(base=c.base + R.choice([-1, 1]) * R.choice([3.5, 64.25, 500.0])), (0, 0)))
            o = list(self.obs)
            R.shuffle(o)
            P.append(('same', 'observations in another order', dict(obs=o), (0, 0)))
            if len(self.wells) > 1:
                i = list(range(len(self.wells)))
                R.shuffle(i)
                P.append(('same', 'wells in another order', dict(wells=[self.wells[k] for k in i], target=i.index(c.target)), (0, 0)))
            i = R.randrange(len(self.obs))
            h = R.choice([0.125, 0.5])
            x, y, z, sd = self.obs[i]
            P.append(('same', 'an observation given as two', dict(obs=self.obs[:i] + [(x, y, z + h, sd * math.sqrt(2)), (x, y, z - h, sd * math.sqrt(2))] + self.obs[i + 1:]), (0, 0)))
            w = R.choice(self.wells)
            P.append(('same', 'one more observation next to a well', dict(obs=self.obs + [(w[0] + R.uniform(-20, 20), w[1] + 3, 60.0, 0.1)]), (0, 0)))

            def lists(a):
                a[10] = [list(w[:3]) + [list(w[3]) if isinstance(w[3], tuple) else w[3]] for w in a[10]]
                a[11] = [list(z) for z in a[11]]
                return [list(z) if isinstance(z, tuple) else z for z in a]

            def tuples(a):
                a[10] = [tuple(w[:3]) + (tuple(w[3]) if isinstance(w[3], list) else w[3],) for w in a[10]]
                a[11] = [tuple(z) for z in a[11]]
                a = [tuple(z) if isinstance(z, list) and k in (7, 8, 9) else z for k, z in enumerate(a)]
                return a

            def ints(a):
                n = lambda z: int(z) if isinstance(z, float) and z == int(z) else z
                a[10] = [tuple(n(z) for z in w) for w in a[10]]
                a[11] = [tuple(n(z) for z in w) for w in a[11]]
                return [n(z) if k not in (0, 1) else z for k, z in enumerate(a)]
            P.append(('same', 'in another form', dict(form=R.choice([lists, tuples, ints, ints])), (0, 0)))
            m = lambda d: sum(d) / len(d) if isinstance(d, (tuple, list)) else R.choice([(d, d), (d, d, d), [d, d]])
            P.append(('same', 'with the means of the distributions', dict(c=m(c.c), p=m(c.p), t=m(c.t), wells=[w[:3] + (m(w[3]),) for w in self.wells]), (0, 0)))
            P.append(('same', 'smoothed', dict(smooth=R.choice([1, 2.5])), (0, 0)))
            if confined:
                P.append(('same', 'without the shortcut' if c.confined else 'with the shortcut', dict(confined=not c.confined), (0, 0)))
            keep = R.sample(P, min(len(P), 9))
            for rel, what, par, g in keep:
                if what == 'turned and mirrored' and R.random() < 0.5:
                    par.update(xt=c.xt + 12800.0, yt=-c.yt)
                self.again('C29', rel, what, par, g)
            # twice the conductivity, porosity and discharges: the same velocities
            two = lambda d: type(d)(2 * z for z in d) if isinstance(d, (tuple, list)) else 2 * d
            self.again('C29', 'same', 'twice as permeable, porous and pumped', dict(c=two(c.c), p=two(c.p), wells=[w[:3] + (two(w[3]),) for w in self.wells]), f=2)
            if self.settled():
                self.again('C29', 'same', 'twice as fast for half as long', dict(c=two(c.c), wells=[w[:3] + (two(w[3]),) for w in self.wells], duration=c.duration / 2), f=2)
            self.again('C29', 'finer', 'on a grid twice as fine', dict(spacing=c.spacing / 2))
        else:
            k = R.choice([2, 3])
            self.again('C30', 'more', 'more particles', dict(npaths=np_ * k), cmp=(True, True, True))
            for f in R.sample([1.01, 1.1, 1.5, 2, 4], 2):
                self.again('C30', 'more', 'a larger umbra', dict(umbra=c.umbra * f))
            for f in R.sample([1.001, 1.05, 1.25, 1.5], 2):
                self.again('C30', 'more', 'a longer duration', dict(duration=c.duration * f), cmp=(True, True, False))
            self.again('C30', 'more', 'more of everything', dict(duration=c.duration * 1.1, umbra=c.umbra * 1.3, npaths=np_ * 2, smooth=1), cmp=(True, True, False))

    # -- many realizations of which some or nothing is uncertain ---------------------------
    def many(self, par, direct):
        c, R = self.c, self.R
        n = R.choice([2, 2, 3, 5, 8])
        wells = [(w[0] + c.xt, w[1] + c.yt, w[2], w[3]) for w in par['wells']]
        obs = [(o[0] + c.xt, o[1] + c.yt, round(o[2] + c.base, 6), o[3]) for o in self.obs]
        REC.clear()
        REC.inject = REC.at_register = None
        with LogTap():
            Rec.on, Rec.depth = True, 0
            try:
                if direct:
                    fo = oneka.utilities.filter_obs(obs, wells, c.buffer)
                    err, pf = call(oneka.stochastic.create_stochastic_capturezone, c.target, c.npaths, c.duration, n, c.base, par['c'], par['p'], par['t'],
                                   wells, fo, c.spacing, c.umbra, c.confined, c.tol, c.maxstep, limit=100)
                else:
                    err, pf = call(run_oneka, 'P', 'now', c.target, c.npaths, c.duration, n, c.base, par['c'], par['p'], par['t'], wells, obs,
                                   c.buffer, c.spacing, c.umbra, 0, c.confined, c.tol, c.maxstep, limit=100)
            finally:
                Rec.on = False
                plt.close('all')
        for x in os.listdir('.'):
            if x.endswith('.bz2'):
                os.remove(x)
        e = dict(op='many', prop='C31', rel='', err=err, n=n, nodes=[], whole=True)
        if err or pf is None:
            e['err'] = err or 'no field'
            return e
        g = np.asarray(pf.pgrid, float) * (n / float(pf.total_weight))
        e['whole'] = bool(np.max(np.abs(g - np.round(g))) < 1e-6)
        i, j = np.nonzero(np.round(g))
        x = np.asarray(pf.xmin + j * (pf.xmax - pf.xmin) / (pf.ncols - 1) - c.xt) / c.spacing
        y = np.asarray(pf.ymin + i * (pf.ymax - pf.ymin) / (pf.nrows - 1) - c.yt) / c.spacing
        if len(x) and max(np.max(np.abs(x - np.round(x))), np.max(np.abs(y - np.round(y)))) > 1e-4:
            e['err'] = 'nodes are not counted from the target'
            return e
        e['nodes'] = sorted([int(a), int(b), int(k)] for a, b, k in zip(np.round(x), np.round(y), np.round(g[i, j])))
        self.out.count('realizations', n)
        return e

    def certain(self):
        """Measured without doubt and known for sure: each realization is the deterministic zone;
        with nothing uncertain but the porosity, it lies between those of its extremes."""
        c, R = self.c, self.R
        self.obs = [(o[0], o[1], o[2], o[3] * R.choice([1e-7, 1e-8])) for o in self.obs]
        direct = R.random() < 0.3
        m = lambda d: float('%.6g' % c.mean(d))
        one = lambda v: R.choice([v, v, (v, v), (v, v, v), [v, v, v]])
        k, p, t = m(c.c), m(c.p), m(c.t)
        if c.wet == 'steep':                         # confined at the target, not much further on
            t = float('%.6g' % ((max(c.t) if isinstance(c.t, (tuple, list)) else c.t) * R.choice([1.03, 1.06, 1.08])))
        self.wells = [tuple(w[:3]) + (m(w[3]),) for w in self.wells]
        fixed = dict(c=k, t=t)
        law = dict(c=one(k), t=one(t), wells=[w[:3] + (one(w[3]),) for w in self.wells])
        if R.random() < 0.5:
            if self.first(par=dict(fixed, p=p)):
                e = self.many(dict(law, p=one(p)), direct)
                e['rel'] = 'same'
                self.ev.append(e)
                self.out.count('certain')
        else:
            f = R.choice([1.05, 1.3, 2.0])
            lo, hi = float('%.6g' % (p / f)), float('%.6g' % min(0.95, p * f))
            e = self.many(dict(law, p=R.choice([(lo, hi), [lo, hi], (lo, p, hi), (lo, lo, hi)])), direct)
            for v, rel in ((hi, 'at least'), (lo, 'at most')):
                if self.first(par=dict(fixed, p=v)):
                    self.ev.append(dict(e, rel=rel))
                    self.out.count('bracketed')

    def settled(self, direct=False):
        """Other steps would lead to the same place: no particle of the first run passed a
        point from which the flow parts."""
        r = self.one(dict(tol=self.c.tol / 100, maxstep=self.c.maxstep / 1.7), direct)
        z = self.ev[0]
        ok = not r['err'] and len(r['ends']) == len(z['ends']) and \
            all(abs(a - b) <= 5 for p, o in zip(r['ends'], z['ends']) for a, b in zip(p, o))
        self.out.count('settled' if ok else 'unsettled')
        return ok

    def turned(self):
        """By the angle between two particles: any number of quarter turns of the law."""
        c, n = self.c, self.c.npaths
        j = self.R.randrange(1, n) if n > 1 else 0
        a = 2 * math.pi * j / max(n, 1)
        rot = lambda p: (p[0] * math.cos(a) - p[1] * math.sin(a), p[0] * math.sin(a) + p[1] * math.cos(a)) + tuple(p[2:])
        self.again('C29', 'same', 'turned by the angle between two particles', dict(wells=[rot(w) for w in self.wells], obs=[rot(o) for o in self.obs], turnback=a),
                   cmp=(False, False, True), direct=True)


def record(out):
    R = rng(83)
    seed_all(CTX['seed'] * 277 + CTX['shard'])
    for k in range(150 if thorough() else 24):
        f = Family(R, out)
        if CTX['prop'] == 'C31':
            f.certain()
            out.add(dict(name='certain', ev=f.ev))
            continue
        if k % 3 == 2 and CTX['prop'] == 'C29':
            f.obs = [(o[0] - f.c.xt, o[1] - f.c.yt, o[2] - f.c.base, o[3]) for o in f.c.filtered()]
            if f.first(direct=True) and f.settled(direct=True):
                f.turned()
        elif f.first():
            f.relations(CTX['prop'])
        out.add(dict(name='family', ev=f.ev))
