"""Drives dump_oneka and load_oneka: histories of dumps within a second, several processes
at once, writing cut off at any byte, archives truncated or damaged afterwards."""
import copy, resource, shutil, signal
from drv_run import *                      # noqa: F403
from drv_run import same
from oneka.archive import dump_oneka, load_oneka

NAMES = Cfg.NAMES + ['pfield']


def text(R):
    return R.choice(['', 'a text', '  blanks around ', ' ', '\ttwo\nlines\n', 'UPPER lower', '../up/down', 'a:b*c?', 'x.bz2',
                     '%s %d {0}', 'ünïcode \u2603', 'e\u0301', 'x' * 300])


def value(R, depth=0):
    k = R.randrange(9)
    if k < 3:
        return R.choice([0, 1, -3, 10**9, True, False])
    if k < 6:
        return R.choice([0.1, -2.5, 1e300, 5e-324, R.random(), -0.0])
    if k == 6:
        return text(R)
    n = R.randint(0, 3)
    t = [value(R, depth + 1) for _ in range(n)] if depth < 2 else []
    return tuple(t) if k == 7 else t


def field(R, big=False):
    if big == 'medium':
        # decompressed in several chunks, but one block
        pf = field(R)
        pf.pgrid = np.array([[float(R.random()) for _ in range(40)] for _ in range(40)])
        return pf
    if big:
        pf = ProbabilityField(1.0, 1.0, 0.5, -0.5)
        pf.rasterize([0, 420], [0, 390], 3)
        pf.register(1.0)
        g = np.random.RandomState(R.randint(0, 10**6)).rand(*np.asarray(pf.pgrid).shape)
        pf.pgrid = np.round(g, 3) + pf.pgrid
        return pf
    pf = ProbabilityField(R.choice([1.0, 10, 2.5]), R.choice([1.0, 10, 2.5]), R.choice([0, 0.25, 5e6]), R.choice([0, -0.25, 5e5]))
    for _ in range(R.randint(0, 3)):
        for _ in range(R.randint(0, 2)):
            pf.rasterize([R.uniform(-30, 30) + float(pf.xmin) for _ in range(3)], [R.uniform(-30, 30) + float(pf.ymin) for _ in range(3)], R.choice([1.0, 5.0]))
        pf.register(R.choice([1.0, 0.5, 2]))
    k = R.randrange(8)
    if k == 0:
        # as after very many realizations
        top = R.choice([255, 256, 300, 65536, 70000, 2**31, 10**12, 2**53])
        pf.pgrid = np.array([[float(R.choice([0, 1, top, R.randint(0, top)])) for _ in range(pf.ncols)] for _ in range(pf.nrows)])
        pf.total_weight = float(top)
    elif k == 1:
        # weights of any size
        pf.pgrid = np.array([[R.choice([0.0, R.random(), R.random() * 1e-9, 1e300 * R.random()]) for _ in range(pf.ncols)] for _ in range(pf.nrows)])
    return pf


def args(R, big=False):
    """All parameters different, realistic ones or anything at all."""
    if R.random() < 0.5:
        a = [value(R) for _ in Cfg.NAMES]
    else:
        a = [text(R) if R.random() < 0.5 else 'Project %d' % R.randint(0, 99), 'Thu Nov 19', R.randint(0, 3), R.randint(1, 50), R.uniform(-4000, 4000), R.randint(1, 500), R.uniform(0, 300),
             R.choice([(1, 2), [1.5, 2.5, 3.5], 4.0]), R.choice([(.1, .2), .25]), R.choice([(10, 20, 30), 15]),
             [(R.random(), R.random(), 0.3, (100, 200)) for _ in range(3)], [(R.random(), R.random(), R.random(), 0.5) for _ in range(9)],
             100, 10.0, R.choice([10, 7.5]), R.choice([0, 2.5]), R.random() < 0.5, 1, R.uniform(1, 20)]
    return a + [field(R, big)]


def wipe():
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)


def names():
    return sorted(f for f in os.listdir('.') if f.endswith('.bz2'))


def digest(f):
    with open(f, 'rb') as fp:
        return hashlib.sha1(fp.read()).hexdigest()[:12]


def loaded(f, a, limit=20):
    """'same', 'error' or 'other': what loading f gives, compared with the arguments a."""
    err, d = call(load_oneka, f, limit=limit)
    if err:
        return 'Hang' if err == 'Hang' else 'error'
    if not isinstance(d, dict):
        return 'other'
    return 'same' if all(n in d and same(d[n], v) for n, v in zip(NAMES, a)) else 'other'


class History:
    def __init__(self, R, out):
        self.R, self.out, self.ev, self.order, self.orig = R, out, [], [], {}
        wipe()

    def listing(self):
        for f in names():
            if f not in self.order:
                self.order.append(f)
        return [[f, digest(f) if os.path.exists(f) else 'gone'] for f in self.order]

    def dump(self, a=None):
        a = a or args(self.R)
        keep = copy.deepcopy(a)
        err, _ = call(dump_oneka, *a)
        self.listing()
        new = [f for f in self.order if f not in self.orig]
        for f in new:
            self.orig[f] = keep
        self.ev.append(dict(op='dump', err=err, files=self.listing(), args=all(same(x, y) for x, y in zip(a, keep)),
                            loads=[loaded(f, keep) for f in new]))
        self.out.count('dumps')

    def remove(self):
        if self.order:
            f = self.R.choice(self.order)
            os.remove(f)
            self.order.remove(f)
            del self.orig[f]
            self.ev.append(dict(op='removed', name=f))

    def reload(self):
        self.ev.append(dict(op='reload', files=self.listing(), loads=[loaded(f, self.orig[f]) for f in self.order]))

    def cut(self, how):
        """A process whose writing ends at some byte: it dies there, or gets an error."""
        R = self.R
        a = args(R, big=R.random() < 0.15)
        keep = copy.deepcopy(a)
        size = R.choice([0, 1, 3, 4, 10, R.randint(0, 400), R.randint(0, 2000), R.randint(0, 10**6)])
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                faulthandler.cancel_dump_traceback_later()
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if how == 'dies':
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
                try:
                    dump_oneka(*a)
                    code = 0
                except BaseException:
                    code = 2
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        ok = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0
        self.listing()
        new = [f for f in self.order if f not in self.orig]
        for f in new:
            self.orig[f] = keep
        self.ev.append(dict(op='cut', ok=ok, files=self.listing(), loads=[loaded(f, keep) for f in new]))
        # a half-written file stays what it is: later loads give the same verdict
        for f in new:
            if not ok:
                self.orig[f] = None
        self.out.count('writes_cut')
        for f in new:
            if not ok:
                self.order.remove(f)
                del self.orig[f]
                os.remove(f)
                self.ev.append(dict(op='removed', name=f))

    def parallel(self, P, k):
        """P processes, k dumps each, at the same time."""
        R = self.R
        go = time.time() + 0.05
        pids = []
        every = {}
        for p in range(P):
            seed = R.randint(0, 10**9)
            for j in range(k):
                RR = random.Random(seed + j)
                a = args(RR)
                a[0] = 'process %d run %d' % (p, j)
                every[a[0]] = a
            pid = os.fork()
            if pid == 0:
                n = 0
                try:
                    faulthandler.cancel_dump_traceback_later()
                    while time.time() < go:
                        pass
                    for j in range(k):
                        try:
                            dump_oneka(*every['process %d run %d' % (p, j)])
                            n += 1
                        except BaseException:
                            pass
                finally:
                    os._exit(n)
            pids.append(pid)
        ok = sum(os.WEXITSTATUS(os.waitpid(pid, 0)[1]) for pid in pids)
        self.listing()
        new = [f for f in self.order if f not in self.orig]
        of, res = [], []
        for f in new:
            err, d = call(load_oneka, f)
            nm = d.get('projectname') if not err and isinstance(d, dict) else None
            if nm in every:
                of.append(nm)
                res.append(loaded(f, every[nm]))
                self.orig[f] = every[nm]
            else:
                res.append('error' if err else 'other')
                self.orig[f] = None
        self.ev.append(dict(op='parallel', asked=P * k, ok=ok, distinct=len(set(of)), files=self.listing(), loads=res))
        self.out.count('parallel_dumps', P * k)

    def finish(self, name):
        self.out.add(dict(name=name, ev=self.ev))
        wipe()


def damage(R, out, big, n):
    """One archive, truncated and altered in every way."""
    wipe()
    a = args(R, big)
    keep = copy.deepcopy(a)
    err, _ = call(dump_oneka, *a)
    if err or len(names()) != 1:
        out.add(dict(name='damage', ev=[dict(op='dump', err=err, files=[], args=True, loads=[])]))
        return
    f = names()[0]
    with open(f, 'rb') as fp:
        data = fp.read()
    ev = []

    def probe(kind, at, content):
        with open('probe.bz2', 'wb') as fp:
            fp.write(content)
        ev.append(dict(op='probe', kind=kind, at=at, size=len(data), load=loaded('probe.bz2', keep)))

    probe('whole', len(data), data)
    cuts = range(len(data)) if not big and len(data) <= n else sorted({0, 1, 2, 3, 4, 9, 10, 13, 14, *(len(data) - i for i in range(1, 40)), *(R.randrange(len(data)) for _ in range(n // 6 if big is True else n))})
    for k in cuts:
        if k >= 0:
            probe('truncated', k, data[:k])
    pos = range(len(data)) if not big and len(data) <= n else sorted({*(range(20)), *(len(data) - i for i in range(1, 20)), *(R.randrange(len(data)) for _ in range(n // 6 if big is True else n))})
    for k in pos:
        if k >= len(data):
            continue
        for b in ([1 << R.randrange(8)] if big else [1 << R.randrange(8), R.randint(1, 255)]):
            d = bytearray(data)
            d[k] ^= b
            probe('altered', k, bytes(d))
    for _ in range(10 if big else 40):
        i, j = sorted((R.randrange(len(data)), R.randrange(len(data))))
        probe('zeroed', i, data[:i] + bytes(j - i) + data[j:])
        probe('cut out', i, data[:i] + data[j:])
        probe('doubled', i, data[:j] + data[i:])
    probe('appended', len(data), data + b'garbage')
    probe('prefixed', 0, b'garbage' + data)
    probe('empty', 0, b'')
    out.count('probes', len(ev))
    for k in range(0, len(ev), 500):
        out.add(dict(name='damage', ev=ev[k:k + 500]))
    wipe()


def record(out):
    R = rng(41)
    seed_all(CTX['seed'] * 331 + CTX['shard'])
    m = 10 if thorough() else 1
    for _ in range(m):
        h = History(R, out)
        for k in range(40):
            x = R.random()
            if x < 0.7:
                h.dump()
            elif x < 0.8:
                h.remove()
            elif x < 0.85:
                h.reload()
            else:
                h.cut(R.choice(['dies', 'error']))
        h.reload()
        h.finish('history')
        h = History(R, out)
        h.dump()
        for _ in range(3):
            h.parallel(R.randint(2, 6), R.randint(1, 5))
        h.reload()
        h.finish('parallel')
        damage(R, out, False, 1200)
        damage(R, out, 'medium', 6000)
        if CTX['shard'] == 0 or thorough():
            damage(R, out, True, 300)
