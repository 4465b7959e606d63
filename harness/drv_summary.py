"""Drives summary_statistics and reads the table it writes; also the table in the log of
whole runs."""
from decimal import Decimal, InvalidOperation
from drv_run import *                      # noqa: F403
from oneka.utilities import summary_statistics

NAN = 2000000000


def read(text, offs, units, asked, given, title, cols):
    """The written table in integers."""
    e = dict(op='table', err='', cols=cols, given=given, names=[], title=False, asked=[asked] * 5,
             cnt=[], min=[], med=[], max=[], avg=[], std=[], dec=[])
    lines = text.split('\n')
    e['title'] = any(ln.strip() == title.strip() for ln in lines)
    rows = {}
    for ln in lines:
        m = re.match(r'^\s*(cnt|min|med|max|avg|std):\s*(.*)$', ln)
        if m:
            rows.setdefault(m.group(1), m.group(2).split())
        elif ln.split() == given:
            e['names'] = given
    for k in ('cnt', 'min', 'med', 'max', 'avg', 'std'):
        tk = rows.get(k, [])
        v, dec = [], []
        for j, w in enumerate(tk):
            try:
                d = Decimal(w)
                if k == 'cnt':
                    v.append(int(d) if d == int(d) else -1)
                    continue
                o = offs[j] if k != 'std' else Decimal(0)
                v.append(q(int(((d - o) / units[j]).to_integral_value())) if d.is_finite() else NAN)
                dec.append(len(w.split('.')[1]) if '.' in w and 'e' not in w.lower() else -1 if 'e' in w.lower() else 0)
            except (InvalidOperation, IndexError, ValueError):
                v.append(NAN)
        e[k] = v
        if k != 'cnt':
            e['dec'].append(dec)
    return e


def table(R, out, ev, cols, form=None):
    """cols: columns of integers (NAN = missing), of the same length."""
    nc, nr = len(cols), len(cols[0])
    units, offs, fmts, asked, names = [], [], [], [], []
    for j in range(nc):
        d = R.choice([0, 1, 2, 2, 3, 4])
        k = R.random()
        units.append(Decimal(10) ** -d)
        off = R.choice([0, 0, 100, -50, 322580, 5093430]) if k < 0.8 else 0
        offs.append(Decimal(off))
        fmts.append('%d.%df' % (R.randint(14, 22), d) if k < 0.8 else '%d.%de' % (R.randint(21, 26), 12))
        asked.append(d if k < 0.8 else -1)
        names.append(R.choice(['X', 'Northing', 'Head', 'a_b', 'sigma^2', 'Easting']) + str(j))
    v = [[float(offs[j] + units[j] * cols[j][i]) if cols[j][i] != NAN else float('nan') for j in range(nc)] for i in range(nr)]
    if R.random() < 0.3:
        # whole numbers as ints among the floats
        v = [[int(x) if x == x and x == int(x) and R.random() < 0.7 else x for x in r] for r in v]
    form = R.choice(['list', 'tuples', 'array'])
    vals = v if form == 'list' else [tuple(r) for r in v] if form == 'tuples' else np.array(v)
    title = R.choice(['Retained Observations', 'T', 'a longer title than the table is wide ' * 3])
    err, buf = call(summary_statistics, vals, list(names), list(fmts), title)
    if err:
        e = read('', offs, units, asked, names, title, cols)
        e['err'] = err
    else:
        e = read(buf.getvalue(), offs, units, asked, names, title, cols)
    ev.append(e)
    out.count('tables')


def random_table(R):
    nc, nr = R.choice([1, 2, 3, 4, 4, 6]), R.choice([1, 2, 3, 4, 5, 8, 11, 12])
    cols = []
    long = R.random() < 0.08
    if long:
        nr = R.choice([R.randint(13, 200), R.randint(13, 200), 1000, 1025])
    for _ in range(nc):
        k = R.random()
        lo, hi = R.choice([(-1000, 1000), (-3, 3), (0, 100), (990, 1000)])
        if long:
            lo, hi = (-30, 30) if nr < 500 else (-9, 9)
        c = [R.randint(lo, hi) for _ in range(nr)]
        if k < 0.1:
            c = [c[0]] * nr
        if k > 0.6:
            p = R.random()
            c = [x if R.random() > p else NAN for x in c]
            if all(x == NAN for x in c):
                c[R.randrange(nr)] = R.randint(lo, hi)
        cols.append(c)
    return cols


def runs(R, out, k):
    """The table in the log of a run is that of the observations left."""
    for _ in range(k):
        cfg = Cfg(R, n=R.choice([1, 2]), tiny=True)
        obs = cfg.filtered()
        REC.clear()
        REC.inject = REC.at_register = None
        with LogTap() as tap:
            call(run_oneka, *copy.deepcopy(cfg.entry()))
            plt.close('all')
            logs = list(tap.rec)
        for f in os.listdir('.'):
            if os.path.isfile(f):
                os.remove(f)
        text = [m for lv, m in logs if 'Retained Observations' in m]
        mid = [Decimal(str(round(float(cfg.off[0])))), Decimal(str(round(float(cfg.off[1])))), Decimal(str(round(cfg.base))), Decimal(0)]
        # merged observations are averages: compare tables on whole hundredths only
        cols = [[int(((Decimal(repr(float(o[j]))) - mid[j]) * 100).to_integral_value()) for o in obs] for j in range(4)]
        if any(abs(float(o[j]) * 100 - round(float(o[j]) * 100)) > 1e-4 for o in obs for j in range(4)) or len(obs) > 14:
            continue
        e = read('\n'.join(text), mid, [Decimal('0.01')] * 4, [2] * 4, ['Easting', 'Northing', 'Head', 'Stdev'], 'Retained Observations', cols)
        # the squares in a coarser unit
        e['coarse'], e['cstd'] = [], []
        for j in range(min(4, len(e['std']))):
            m = sum(cols[j]) // len(cols[j])
            f = 1
            while max(abs(x - m) for x in cols[j]) > 900 * f:
                f *= 10
            e['coarse'].append([int(round((x - m) / f)) for x in cols[j]])
            e['cstd'].append(int(round(e['std'][j] / f)) if e['std'][j] != NAN else NAN // 40000)
        e['op'] = 'log'
        out.add(dict(name='log', ev=[e]))
        out.count('run_tables')


def record(out):
    R = rng(51)
    seed_all(CTX['seed'] * 77 + CTX['shard'])
    for _ in range(40 if thorough() else 4):
        ev = []
        for _ in range(100):
            table(R, out, ev, random_table(R))
        out.add(dict(name='random', ev=ev))
    runs(R, out, 60 if thorough() else 8)


def from_spec(out, cases):
    R = rng(52)
    R.shuffle(cases)
    for a in range(0, len(cases), 200):
        ev = []
        for c in cases[a:a + 200]:
            table(R, out, ev, [[r[j] for r in c['rows']] for j in range(2)])
        out.add(dict(name='enumerated', ev=ev))
