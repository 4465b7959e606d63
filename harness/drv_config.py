"""Calls the entry point with configurations of the specification Config.tla and records
whether they were refused before anything was computed, or ran to completion."""
import copy, glob
from drv_run import *                      # noqa: F403
import drv_run

NAN, INF = float('nan'), float('inf')
NO = object()                               # leave the argument out


def nonnumber(R, kind):
    return {'text': R.choice(['a lot', 'x']), 'numeric text': R.choice(['1', '2.5', '10']), 'none': None, 'list': [R.choice([1, 2.5])],
            'empty list': [], 'dict': {}, 'complex': 1 + 0j}[kind]


def dist_of(R, kind, lo, hi, top=None):
    """A distribution of the kind; good ones within lo .. hi."""
    f = lambda: float('%.4g' % R.uniform(lo, hi))
    a, b, c = sorted((f(), f(), f()))
    if not a < b < c:
        a, b, c = lo, (lo + hi) / 2, hi
    ia, ib = int(math.ceil(lo)), int(math.floor(hi))
    k = {'int': ia, 'float': b, 'pair': (a, c), 'list pair': [a, c], 'int pair': (ia, max(ia, ib)), 'equal pair': (b, b), 'triple': (a, b, c),
         'list triple': [a, b, c], 'equal triple': (b, b, b), 'mode at min': (a, a, c), 'mode at max': (a, c, c),
         'descending pair': (c, a), 'descending triple': (c, b, a), 'mode below': (b, a, c), 'mode above': (a, c, b),
         'empty tuple': (), 'empty list': [], 'one tuple': (b,), 'one list': [b], 'four tuple': (a, a, b, c), 'four list': [a, b, b, c],
         'text': 'some', 'none': None, 'dict': {}, 'pair of texts': ('a', 'b'), 'nested pair': ((a, b), c), 'set': {a, c}, 'nan': NAN,
         'nan pair': R.choice([(NAN, c), (a, NAN), (NAN, NAN)]), 'nan triple': R.choice([(a, NAN, c), (NAN, b, c), (a, b, NAN)]),
         'negative': -b, 'low pair': (-a, c), 'low triple': (-0.5 * a, b, c), 'above': 1.0 + 10 ** R.uniform(-9, 1), 'high pair': (a, 1.0 + 10 ** R.uniform(-9, 1)),
         'high triple': (a, b, 1.0 + 10 ** R.uniform(-9, 1)), 'one': R.choice([1, 1.0]), 'pair to one': (a, R.choice([1, 1.0]))}
    return k[kind]


def scalar(R, f, kind):
    if kind == 'default':
        return NO
    if f in ('projectname', 'runtime'):
        return {'text': f + ' text', 'empty text': '', 'int': 7, 'none': None, 'list': ['a'], 'float': 1.5}[kind]
    if f == 'confined':
        return {'true': True, 'false': False, 'one': 1, 'zero': 0, 'float': 1.0}.get(kind, NO) if kind in ('true', 'false', 'one', 'zero', 'float') else nonnumber(R, kind)
    num = dict(npaths=(R.randint(2, 3), 2.5), duration=(R.randint(5, 40), R.uniform(5, 40)), nrealizations=(R.randint(2, 3), 2.5),
               base=(R.randint(1, 20), 12.5), buffer=(R.randint(50, 90), 62.5), spacing=(R.randint(6, 12), 7.5), umbra=(R.randint(6, 15), 8.25),
               smooth=(R.randint(1, 2), 0.75), tol=(R.randint(1, 2), 0.5), maxstep=(R.randint(5, 12), 7.5))[f]
    if kind in ('int', 'float'):
        return num[kind == 'float']
    if kind in ('negative', 'negative float'):
        return -num[kind != 'negative'] if R.random() < 0.7 or f in ('duration', 'base') else (-1e-9 if kind != 'negative' else -1)
    if kind in ('nan', 'infinite', 'minus infinite'):
        return {'nan': NAN, 'infinite': INF, 'minus infinite': -INF}[kind]
    if kind == 'zero':
        return 0
    if kind == 'zero float':
        return R.choice([0.0, -0.0])
    if kind == 'one':
        return 1
    if kind == 'whole float':
        return 2.0
    return nonnumber(R, kind)


def put(o, i, v):
    return tuple(v if k == i else z for k, z in enumerate(o))


def well_def(R, w, kind):
    x, y, r, d = w
    t = {'': w, 'as list': list(w), 'int x': (int(x), y, r, d), 'int y': (x, int(y), r, d), 'int r': (x, y, 1, d), 'q int': (x, y, r, 200),
         'q negative': (x, y, r, -150.0), 'q zero': (x, y, r, R.choice([0, 0.0])), 'q pair': (x, y, r, (100, 300.0)), 'q triple': (x, y, r, (100, 150, 300)),
         'q list': (x, y, r, [100.0, 300.0]), 'q negative pair': (x, y, r, (-300.0, -100)),
         'three entries': (x, y, r), 'five entries': (x, y, r, d, d), 'empty': (), 'none': None, 'number': 5.0, 'x text': ('x', y, r, d), 'x none': (None, y, r, d),
         'x list': ([x], y, r, d), 'y text': (x, str(y), r, d), 'y none': (x, None, r, d), 'r zero': (x, y, 0, d), 'r zero float': (x, y, 0.0, d),
         'r negative': (x, y, R.choice([-1, -0.25, -1e-9]), d), 'r text': (x, y, '1', d), 'r nan': (x, y, NAN, d), 'r infinite': (x, y, INF, d), 'q nan pair': (x, y, r, R.choice([(NAN, 300.0), (100.0, NAN)])), 'r none': (x, y, None, d), 'q none': (x, y, r, None),
         'q text': (x, y, r, '200'), 'q empty': (x, y, r, ()), 'q descending': (x, y, r, (300, 100)), 'q unordered': (x, y, r, R.choice([(100, 400, 300), (200, 100, 300), (300, 200, 100)])),
         'q four': (x, y, r, (1, 2, 3, 4)), 'q one': (x, y, r, (200,)), 'q texts': (x, y, r, ('a', 'b'))}
    for i, n in enumerate('xyz'):
        t[n + ' nan'], t[n + ' infinite'] = put(t[''], i, NAN), put(t[''], i, R.choice([INF, -INF]))
    return t[kind]


def obs_def(R, o, kind):
    x, y, z, s = o
    t = {'': o, 'as list': list(o), 'int x': (int(x), y, z, s), 'int y': (x, int(y), z, s), 'int z': (x, y, int(z), s), 'int s': (x, y, z, 1),
         'three entries': (x, y, z), 'five entries': (x, y, z, s, s), 'empty': (), 'none': None, 'number': 1.0, 'x text': (str(x), y, z, s), 'x none': (None, y, z, s),
         'y text': (x, 'y', z, s), 'y none': (x, None, z, s), 'z text': (x, y, str(z), s), 'z none': (x, y, None, s), 'z list': (x, y, [z], s),
         's zero': (x, y, z, 0), 's zero float': (x, y, z, R.choice([0.0, -0.0])), 's negative': (x, y, z, R.choice([-0.5, -1, -1e-9])), 's text': (x, y, z, '1'), 's nan': (x, y, z, NAN),
         's none': (x, y, z, None)}
    for i, n in enumerate('xyz'):
        t[n + ' nan'], t[n + ' infinite'] = put(t[''], i, NAN), put(t[''], i, R.choice([INF, -INF]))
    return t[kind]


def build(R, c):
    """Positional and optional arguments for configuration c."""
    off = R.choice([(0., 0.), (1000., -2000.), (322580., 5093430.)])
    v = {f: scalar(R, f, c[f]) for f in ('projectname', 'runtime', 'npaths', 'duration', 'nrealizations', 'base', 'buffer', 'spacing',
                                          'umbra', 'smooth', 'confined', 'tol', 'maxstep')}
    v['c_dist'] = dist_of(R, c['c_dist'], 5, 30)
    v['p_dist'] = dist_of(R, c['p_dist'], 0.15, 0.4)
    v['t_dist'] = dist_of(R, c['t_dist'], 15, 30)
    nw = int(c['nwells'])
    wells = [(off[0] + x, off[1] + y, r, d) for (x, y, r, d) in
             [(R.randint(-5, 5) + .5, R.randint(-5, 5) + .5, 0.3, (150.0, 250.0)), (70.5, 40.25, 0.5, 120.0), (-65.5, 60.25, 0.25, (50.0, 70.0, 120.0))][:nw]]
    tg = c['target']
    if tg in ('-1', '0', '1', '2', '3', '4'):
        v['target'] = int(tg)
    else:
        v['target'] = 1.0 if tg == 'float' else 0.0 if tg == 'zero float' else nonnumber(R, tg)
    if nw and c['wdef']:
        t = v['target'] if isinstance(v['target'], int) and 0 <= v['target'] < nw else 0
        k = dict(target=t, first=0, last=nw - 1)[c['wpos']]
        wells[k] = well_def(R, wells[k], c['wdef'])
    # observations on two rings around the wells, those near a well, those repeated
    n, near, dup = int(c['far']), int(c['near']), int(c['dup'])
    z = lambda x, y: 45.5 + 0.006 * x - 0.004 * y
    g = R.uniform(0, 6.28)
    far = []
    for k in range(n):
        rad, phi = (290, 420)[k % 2] + R.uniform(-15, 15), g + 2.4 * k
        x, y = rad * math.cos(phi), rad * math.sin(phi)
        far.append([(round(off[0] + x, 2), round(off[1] + y, 2), round(z(x, y) + R.uniform(-.02, .02), 3), R.choice([0.2, 0.3])), 'far'])
    obs = list(far)
    for k in range(near):
        w = [(0., 0.), (70.5, 40.25), (-65.5, 60.25)][k % max(nw, 1)]
        x, y = w[0] + R.uniform(-20, 20), w[1] + R.uniform(-20, 20)
        obs.append([(off[0] + x, off[1] + y, 44.5, 0.3), 'near'])
    if far:
        for k in range(dup):
            o = R.choice(far)[0]
            obs.append([(o[0], o[1], o[2] + R.choice([0, 0.125]), o[3]), 'dup'])
    R.shuffle(obs)
    base = v['base'] if isinstance(v['base'], (int, float)) and abs(v['base']) < INF else 0
    obs = [[(o[0], o[1], o[2] + base, o[3]), t] for o, t in obs]
    if c['odef'] and obs:
        pos = c['opos']
        ks = [k for k, o in enumerate(obs) if o[1] == 'near']
        k = 0 if pos == 'first' else len(obs) - 1 if pos == 'last' else ks[0] if pos == 'near' and ks else len(obs) // 2
        if not any(b[0][:2] == obs[k][0][:2] for j, b in enumerate(obs) if j != k) or c['odef'] not in ('int x', 'int y'):
            obs[k][0] = obs_def(R, obs[k][0], c['odef'])
    obs = [o[0] for o in obs]
    form = dict(list=lambda l: l, tuple=tuple, dict=lambda l: dict(enumerate(l)), none=lambda l: None, text=lambda l: 'some')
    v['stochastic_wells'] = form[c['wform']](wells)
    v['observations'] = form[c['oform']](obs)
    return v


OPT = ['buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep']
DEFAULT = {}                                         # what the archives gave for the arguments left out


def run(R, out, ev, c, v=None):
    v = v or build(R, c)
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
    # an archive of an earlier run lies about
    with open('logs\\Oneka20200101T000000.bz2', 'wb') as f:
        f.write(b'earlier')
    pos = [copy.deepcopy(v[n]) for n in Cfg.NAMES if n not in OPT]
    kw = {n: copy.deepcopy(v[n]) for n in OPT if v[n] is not NO}
    if len(kw) == len(OPT) and R.random() < 0.5:
        pos, kw = pos + [kw[n] for n in OPT], {}
    REC.clear()
    REC.inject = REC.at_register = None
    np.random.seed(R.randint(0, 10**6))
    with LogTap():
        Rec.on, Rec.depth = True, 0
        try:
            err, _ = call(run_oneka, *pos, limit=60, **kw)
        finally:
            Rec.on = False
            plt.close('all')
    files = sorted(f for f in os.listdir('.') if f.endswith('.bz2'))
    new = [f for f in files if f != 'logs\\Oneka20200101T000000.bz2']
    kept = 'logs\\Oneka20200101T000000.bz2' in files and open('logs\\Oneka20200101T000000.bz2', 'rb').read() == b'earlier'
    e = dict(op='call', cfg=c, err=err, evals=REC.nev, tracks=len(REC.tracks), regs=len(REC.regs), files=len(new), kept=kept, opts=[])
    if not err and len(new) == 1:
        le, d = call(oneka.archive.load_oneka, new[0])
        if not le and isinstance(d, dict):
            for n in OPT:
                if v[n] is NO:
                    x = d.get(n)
                    e['opts'].append([n, q(x) if isinstance(x, (int, float)) and float(x) == int(x) else BIG])
    ev.append(e)
    out.count('accepted' if not err else 'refused')


def modules(R, out, ev):
    """The data modules that come with the code, made short."""
    repo = os.path.dirname(os.path.dirname(os.path.abspath(drv_run.oneka.archive.__file__)))
    for f in sorted(glob.glob(os.path.join(repo, 'data', '*.py'))):
        nm = os.path.basename(f)[:-3]
        if nm == '__init__':
            continue
        err, m = call(importlib.import_module, 'data.' + nm)
        if err:
            continue
        T = dict(projectname='PROJECTNAME', target='TARGET', base='BASE', c_dist='C_DIST', p_dist='P_DIST', t_dist='T_DIST',
                 stochastic_wells='WELLS', observations='OBSERVATIONS', buffer='BUFFER', smooth='SMOOTH', confined='CONFINED',
                 tol='TOL', maxstep='MAXSTEP', spacing='SPACING', umbra='UMBRA')
        if any(not hasattr(m, x) for x in T.values()):
            continue
        v = {k: getattr(m, x) for k, x in T.items()}
        v.update(runtime='now', npaths=2, duration=R.choice([20.0, -20.0]), nrealizations=R.choice([1, 2]))
        run(R, out, ev, dict(module=nm), v)


def from_spec(out, cases):
    R = rng(31)
    seed_all(CTX['seed'] * 77 + CTX['shard'])
    ev = []
    if CTX['shard'] == 0:
        modules(R, out, ev)
        for e in ev:
            e['op'] = 'module'
    if ev:
        out.add(dict(name='modules', ev=ev))
        ev = []
    R.shuffle(cases)
    for c in cases:
        run(R, out, ev, c['cfg'])
        if len(ev) == 60:
            out.add(dict(name='configurations', ev=ev))
            ev = []
    if ev:
        out.add(dict(name='configurations', ev=ev))
