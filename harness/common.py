"""Shared by the drivers: runs under /opt/venv/bin/python with /repo on sys.path."""
import faulthandler, json, logging, math, os, random, signal, sys, time, warnings

warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')


class Hang(BaseException):
    """Raised by the alarm when a call into the code under test does not return."""


def _alarm(signum, frame):
    raise Hang('no return')


class deadline:
    """Limit one call into the code under test; re-fires in case it is swallowed."""
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s, 1.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


HUNG = []


START = time.time()


class Enough(Exception):
    """The time for recording is used up: what was recorded is validated."""


class Abandon(Exception):
    """A call into the code under test did not return: nothing more is tried."""


def call(fn, *a, limit=30.0, **k):
    """Returns (error name or '', value)."""
    if HUNG:
        raise Abandon()
    # for code that does not even come back to the interpreter: ends this process
    faulthandler.dump_traceback_later(limit + 10, exit=True)
    try:
        with deadline(limit):
            v = fn(*a, **k)
        return '', v
    except Hang:
        HUNG.append('%s did not return within %g s' % (getattr(fn, '__name__', fn), limit))
        return 'Hang', None
    except (KeyboardInterrupt, SystemExit) as e:
        return type(e).__name__, None
    except BaseException as e:                    # noqa: B902
        return type(e).__name__, None
    finally:
        faulthandler.cancel_dump_traceback_later()


class LogTap(logging.Handler):
    """Collects the records of the logger 'Oneka' (the run log)."""
    def __init__(self):
        super().__init__(level=0)
        self.rec = []

    def emit(self, r):
        try:
            self.rec.append((r.levelno, r.getMessage()))
        except Exception as e:
            self.rec.append((r.levelno, 'UNFORMATTABLE ' + repr(e)))

    def __enter__(self):
        lg = logging.getLogger('Oneka')
        self.old = lg.level
        lg.setLevel(logging.INFO)
        lg.addHandler(self)
        return self

    def __exit__(self, *a):
        lg = logging.getLogger('Oneka')
        lg.removeHandler(self)
        lg.setLevel(self.old)
        return False


BIG = 2000000000


def q(v, unit=1.0):
    """Quantize to an int that TLC can hold; non-finite and huge values become +-BIG."""
    try:
        v = float(v) / unit
    except Exception:
        return BIG
    if math.isnan(v):
        return BIG
    if v > BIG:
        return BIG
    if v < -BIG:
        return -BIG
    return int(math.floor(v + 0.5))


CTX = dict(seed=1, tier='quick', prop='', shard=0, nshards=1)


def rng(salt=0):
    return random.Random(CTX['seed'] * 1000003 + CTX['shard'] * 7919 + salt)


def thorough():
    return CTX['tier'] == 'thorough'


def mine(items):
    """The part of an enumeration that belongs to this shard."""
    for i, x in enumerate(items):
        if i % CTX['nshards'] == CTX['shard']:
            yield x


class Out:
    def __init__(self, path):
        self.path = path
        self.traces = []
        self.cov = {}

    def add(self, t):
        t['id'] = len(self.traces) + 1
        self.traces.append(t)
        if time.time() - START > (150 if CTX['tier'] == 'quick' else 3000):
            raise Enough()

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def write(self):
        d = dict(traces=self.traces, coverage=self.cov)
        if HUNG:
            d['died'] = HUNG[0]
        with open(self.path, 'w') as f:
            json.dump(d, f)
