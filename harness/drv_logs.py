"""Histories of runs through runme.main in one process and in several at once: what is in
which log file."""
from drv_run import *                      # noqa: F403
import runme


def lines(text):
    return [x.rstrip() for x in text.split('\n') if x.strip()]


class Said:
    """What is said to the logger 'Oneka', whatever its level, handlers and filters do with it."""
    LEVELS = dict(info=logging.INFO, warning=logging.WARNING, warn=logging.WARNING, error=logging.ERROR, exception=logging.ERROR,
                  critical=logging.CRITICAL, fatal=logging.CRITICAL)

    def __enter__(self):
        self.rec, self.old, self.inside = [], {}, False
        for n in list(self.LEVELS) + ['log']:
            self.old[n] = getattr(logging.Logger, n)
            setattr(logging.Logger, n, self.wrap(n, self.old[n]))
        return self

    def wrap(self, n, f):
        def said(lg, *a, **k):
            first = not self.inside
            self.inside = True
            try:
                if first and lg.name == 'Oneka':
                    b = a
                    if n == 'log':
                        if a[0] < logging.INFO:
                            return f(lg, *a, **k)
                        b = a[1:]
                    self.rec.append(str(b[0]) % (b[1:] if not (len(b) == 2 and isinstance(b[1], dict)) else b[1]) if b[1:] else str(b[0]))
                return f(lg, *a, **k)
            finally:
                if first:
                    self.inside = False
        return said

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(logging.Logger, n, f)
        return False


class Logs:
    def __init__(self, R, out):
        self.R, self.out, self.ev, self.order, self.said = R, out, [], [], {}
        self.id = 0
        for f in os.listdir('.'):
            if os.path.isfile(f):
                os.remove(f)
        lg = logging.getLogger('Oneka')
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()

    # -- what the files hold -----------------------------------------------------------
    def content(self, f):
        """[[run, from, to], ...]: the lines of the file as records of runs."""
        try:
            with open(f, errors='replace') as fp:
                L = lines(fp.read())
        except OSError:
            return [[0, 0, 0]]
        res = []
        for x in L:
            if res and res[-1][0] in self.said:
                r, a, b = res[-1]
                said = self.said[r]
                if b < len(said) and x.endswith(said[b]):
                    res[-1][2] = b + 1
                    continue
            for r in sorted(self.said, reverse=True):
                k = next((i for i, y in enumerate(self.said[r]) if x.endswith(y)), None)
                if k is not None:
                    res.append([r, k + 1, k + 1])
                    break
            else:
                res.append([0, 0, 0])
        # a file of its own run is read as that run if this explains all of it
        for r, said in self.said.items():
            if len(L) == len(said) and L and all(x.endswith(y) for x, y in zip(L, said)):
                return [[r, 1, len(L)]]
        return res[:40]

    def files(self):
        new = sorted(f for f in os.listdir('.') if f.endswith('.log') and f not in self.order)
        self.order += new
        return [self.content(f) for f in self.order]

    # -- events ---------------------------------------------------------------------------
    def module(self, cfg, text=None, **deviations):
        name = 'vplog_%d_%d' % (os.getpid(), self.R.randint(0, 10**9))
        deviations['PROJECTNAME'] = 'Project %d' % self.R.randint(10**6, 10**9)      # tells the runs apart
        T = ['PROJECTNAME', None, 'TARGET', 'NPATHS', 'DURATION', 'NREALIZATIONS', 'BASE', 'C_DIST', 'P_DIST', 'T_DIST',
             'WELLS', 'OBSERVATIONS', 'BUFFER', 'SPACING', 'UMBRA', 'SMOOTH', 'CONFINED', 'TOL', 'MAXSTEP']
        with open(name + '.py', 'w') as f:
            for t, v in zip(T, cfg.entry()):
                if t:
                    f.write('%s = %r\n' % (t, deviations.get(t, v)))
            f.write(text or '')
        return name

    def main(self, name, inject=None):
        """The records said, and how it ended."""
        sys.path.insert(0, os.getcwd())
        importlib.invalidate_caches()
        REC.clear()
        REC.inject, REC.at_register = inject, None
        try:
            lg = logging.getLogger('Oneka')
            mine = logging.NullHandler() if self.R.random() < 0.4 else None        # the user's own
            if mine:
                lg.addHandler(mine)
            lg.setLevel(self.R.choice([logging.NOTSET, logging.WARNING, logging.ERROR, logging.INFO]))
            with Said() as tap:
                Rec.on, Rec.depth = True, 0
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        err, _ = call(runme.main, name, limit=60)
                finally:
                    Rec.on = False
                    plt.close('all')
            if mine:
                lg.removeHandler(mine)
        finally:
            sys.path.remove(os.getcwd())
            sys.modules.pop(name, None)
        return lines('\n'.join(tap.rec)), err

    def run(self, name, want='', inject=None, speaks=True):
        self.id += 1
        said, err = self.main(name, inject)
        if inject and REC.nev < inject[0]:
            want = ''
        self.said[self.id] = said
        self.ev.append(dict(op='run', id=self.id, n=len(said), err=err, want=want, speaks=speaks, files=self.files()))
        self.out.count('runs')

    def unknown(self):
        self.main('vpnone_%d' % self.R.randint(0, 10**6))
        self.ev.append(dict(op='nothing', files=self.files()))

    def outside(self, cfg):
        """The library used outside of any run."""
        R = self.R
        lg = logging.getLogger('Oneka')
        with LogTap():
            k = R.randrange(3)
            if k == 0:
                call(oneka.utilities.filter_obs, cfg.obs, cfg.wells, cfg.buffer)
            elif k == 1:
                lg.warning('said by the user himself')
            else:
                call(run_oneka, *cfg.entry(), limit=60)
                plt.close('all')
        self.ev.append(dict(op='outside', files=self.files()))

    def together(self, cfgs):
        """One run in each of several processes, starting at the same instant."""
        names = [self.module(c) for c in cfgs]
        go = time.time() + 0.1
        go += 1.02 - (go % 1) if go % 1 > 0.8 else 0          # within one second
        pids = []
        for k, nm in enumerate(names):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    faulthandler.cancel_dump_traceback_later()
                    seed_all(k)
                    while time.time() < go:
                        pass
                    said, err = self.main(nm)
                    with open(nm + '.said', 'w') as f:
                        json.dump(said, f)
                    code = 0 if not err else 3
                finally:
                    os._exit(code)
            pids.append(pid)
        codes = [os.WEXITSTATUS(os.waitpid(p, 0)[1]) for p in pids]
        runs = []
        for nm, code in zip(names, codes):
            self.id += 1
            try:
                with open(nm + '.said') as f:
                    self.said[self.id] = json.load(f)
            except (OSError, ValueError):
                self.said[self.id] = []
            runs.append([self.id, len(self.said[self.id]), code])
        self.ev.append(dict(op='together', runs=runs, files=self.files()))
        self.out.count('parallel_runs', len(runs))

    def finish(self, name):
        self.out.add(dict(name=name, ev=self.ev))


def record(out):
    R = rng(61)
    seed_all(CTX['seed'] * 877 + CTX['shard'])

    def C():
        return Cfg(R, n=R.choice([1, 2, 3]), tiny=True)
    for _ in range(8 if thorough() else 2):
        h = Logs(R, out)
        pool = [C() for _ in range(3)]
        for k in range(14):
            x = R.random()
            c = R.choice(pool)
            if x < 0.4:
                h.run(h.module(c))
            elif x < 0.5:
                # invalid: refused before or after the first record
                if R.random() < 0.5:
                    h.run(h.module(c, TOL=-1), want='AssertionError', speaks=False)
                else:
                    h.run(h.module(c, BUFFER=1e5), want='AssertionError')
            elif x < 0.65:
                ex = R.choice([KeyboardInterrupt, SystemExit])
                h.run(h.module(c), want=ex.__name__, inject=(R.choice([1, 2, 10, 20]), ex))
            elif x < 0.75:
                h.unknown()
            elif x < 0.88:
                h.outside(c)
            else:
                h.together([C() for _ in range(R.randint(2, 5))])
        h.finish('runs')
    h = Logs(R, out)
    h.run(h.module(C()))
    for _ in range(2):
        h.together([C() for _ in range(6)])
    h.run(h.module(C()))
    h.finish('together')
    # very short ones, within the same second
    h = Logs(R, out)
    c = C()
    for k in range(6):
        h.run(h.module(c, TOL=-1), want='AssertionError', speaks=False)
        h.run(h.module(c, BUFFER=1e5), want='AssertionError')
    h.finish('same second')
