"""Drives the real filter_obs."""
import copy, re
from common import *
from oneka.utilities import filter_obs

PYTH = [(3, 4), (6, 8), (5, 12), (8, 15), (20, 21)]


# the rest of a well: radius, discharge, and whatever else; only its place matters here
MORE = [(0.25, 100.0), (0.3, (1, 2)), (1, (1, 2, 3)), (250.0, [5, 6]), (0.25, 0), (2, 0.0), (0.5, -40.0), (0.25, (0, 0)), (0.1, [-5, 5]),
        (1e-3, 1e6), (), (0.25,), (0.25, 10.0, 'Well A'), (0.25, -3, None, 7)]


NUM = re.compile(r'[-+]?\d+(?:\.\d*)?(?:e[-+]?\d+)?')


def numbers(m):
    return [float(t) for t in NUM.findall(m)]


def names(m, o, strict):
    """The message m names the observation o (its numbers in order; strict: in a row)."""
    ns, o = numbers(m), [float(v) for v in o]
    if strict:
        return any(ns[i:i + len(o)] == o for i in range(len(ns)))
    k = 0
    for v in ns:
        if k < len(o) and v == o[k]:
            k += 1
    return k == len(o)


class Case:
    def __init__(self, out, R, off=(0., 0.), h0=0., sc=1.0, typ='tuple', dec='int'):
        self.out, self.R, self.off, self.h0, self.sc, self.typ, self.dec = out, R, off, h0, sc, typ, dec
        self.ev = []

    def num(self, v):
        return int(v) if self.dec == 'int' and float(v).is_integer() else float(v)

    def run(self, obs, wells, buffer):
        """obs: (x, y, h, s) in ticks / 64ths / units."""
        mk = tuple if self.typ == 'tuple' else list
        real = [mk((self.num(self.off[0] + o[0] / 8), self.num(self.off[1] + o[1] / 8),
                    self.num(self.h0 + o[2] / 64), self.num(o[3] * self.sc))) for o in obs]
        rw = [mk((self.num(self.off[0] + w[0] / 8), self.num(self.off[1] + w[1] / 8)) + self.R.choice(MORE)) for w in wells]
        buf = self.num(buffer / 8)
        c0, c1 = copy.deepcopy(real), copy.deepcopy(rw)
        with LogTap() as tap:
            err, res = call(filter_obs, real, rw, buf, limit=20)
        ev = dict(op='filter', obs=[list(o) for o in obs], wells=[list(w) for w in wells], buffer=buffer, err=err,
                  same=(c0 == real and c1 == rw), res=[], logged=[], dups=[], avg=[], act=[], nact=-1)
        if not err:
            try:
                for r in res:
                    verb = any(len(r) == 4 and all(a == b for a, b in zip(r, o)) for o in real)
                    ev['res'].append([q((r[0] - self.off[0]) * 8), q((r[1] - self.off[1]) * 8),
                                      q((r[2] - self.h0) * 64000), q((r[3] / self.sc)**2 * 1e6), bool(verb)])
            except Exception as e:
                ev['err'] = 'unusable result ' + type(e).__name__
            # which removals are logged: records that name the observation and are not about
            # duplicates, averages or active observations
            heads = [o[2] for o in real]
            for i, o in enumerate(real):
                if heads.count(o[2]) > 1:
                    ev['logged'].append(i + 1) if self.removed(obs[i], wells, buffer) else None
                    continue
                gone = self.removed(obs[i], wells, buffer)
                if any('remov' in m.lower() and names(m, o if not gone else o[:3], not gone) for lv, m in tap.rec):
                    ev['logged'].append(i + 1)
            self.read(ev, [m for lv, m in tap.rec], real)
        self.out.count('filters')
        self.out.count('observations', len(obs))
        self.ev.append(ev)

    def read(self, ev, log, real):
        """Duplicates, averages and active observations as the log gives them."""
        def four(m):
            v = numbers(m)[-4:]
            return [q((v[0] - self.off[0]) * 8), q((v[1] - self.off[1]) * 8), q((v[2] - self.h0) * 64000),
                    q((v[3] / self.sc)**2 * 1e6)]
        start = None
        for i, m in enumerate(log):
            if 'active' in m.lower() and len(numbers(m)) == 1:
                start, ev['nact'] = i, q(numbers(m)[0])
        for i, m in enumerate(log):
            if len(numbers(m)) < 4:
                continue
            if start is not None and i > start:
                ev['act'].append(four(m))
            elif 'average' in m.lower():
                ev['avg'].append(four(m))
            elif 'duplicate' in m.lower():
                ev['dups'] += [k + 1 for k, o in enumerate(real) if names(m, o, True) and k + 1 not in ev['dups']]

    @staticmethod
    def removed(o, wells, b):
        return any((o[0] - w[0])**2 + (o[1] - w[1])**2 <= b * b for w in wells)

    def add(self, name):
        self.out.add(dict(name=name, ev=self.ev))


def exact(dx, dy, d):
    """Exact tie that every sensible formula evaluates exactly, or no tie at all."""
    if dx * dx + dy * dy != d * d:
        return True
    a, b = sorted((abs(dx), abs(dy)))
    return a == 0


def clean(obs, wells, b):
    return all(exact(o[0] - w[0], o[1] - w[1], b) for o in obs for w in wells) and \
        all(exact(o[0] - p[0], o[1] - p[1], 8) for o in obs for p in obs)


def style(R):
    return dict(off=R.choice([(0., 0.), (322579., 5093431.), (-1200.5, 40.25)]), h0=R.choice([0., 300., 97.5]),
                sc=R.choice([1.0, 0.5, 0.1, 2.0, 2.0]), typ=R.choice(['tuple', 'list']), dec=R.choice(['int', 'float']))


def random_case(R, out):
    c = Case(out, R, **style(R))
    for _ in range(6):
        while True:
            n = R.choice([1, 2, 4, 7, 12, 25, 60])
            nw = R.choice([0, 1, 1, 2, 3, 6])
            size = R.choice([20, 60, 400, 12000])
            b = R.choice([1, 8, 40, 800, R.randint(1, 3000)])
            wells = [(R.randint(-size, size), R.randint(-size, size)) for _ in range(nw)]
            obs = []
            hs = R.sample(range(0, 2000), n)
            for i in range(n):
                k = R.random()
                if k < 0.35 and obs:                      # near an earlier one, not next to it in the list
                    o = R.choice(obs)
                    x, y = o[0] + R.randint(-8, 8), o[1] + R.randint(-8, 8)
                elif k < 0.55 and wells:                  # on or around the edge of a buffer
                    w = R.choice(wells)
                    d = R.choice([(b, 0), (-b, 0), (0, b), (0, -b), (b + 1, 0), (0, b - 1), (-b - 1, 0), (b - 1, 1)])
                    x, y = w[0] + d[0], w[1] + d[1]
                else:
                    x, y = R.randint(-size, size), R.randint(-size, size)
                obs.append((x, y, hs[i], R.choice([1, 2, 3, 6])))
            if clean(obs, wells, b):
                break
        c.run(obs, wells, b)
    c.add('random')


def clusters(R, out):
    """Several clusters of duplicates, interleaved, in every order."""
    c = Case(out, R, **style(R))
    k = R.choice([1, 2, 3])
    base = [(i * 40, R.randint(-3, 3)) for i in range(k)]
    while True:
        obs = []
        for p in base:
            for _ in range(R.randint(1, 4)):
                obs.append((p[0] + R.randint(-6, 6), p[1] + R.randint(-6, 6)))
        for _ in range(R.randint(0, 2)):
            obs.append((R.randint(-200, -100), R.randint(-50, 50)))
        if clean(obs, [], 1):
            break
    hs = R.sample(range(0, 2000), len(obs))
    obs = [o + (h, R.choice([1, 2, 3, 6])) for o, h in zip(obs, hs)]
    for _ in range(5):
        R.shuffle(obs)
        c.run(obs, [(500, 500)], 30)
    # exactly one metre apart is not a duplicate
    c.run([(0, 0, 5, 1), (8, 0, 6, 2), (0, 8, 7, 3), (0, -8, 9, 1), (1, 0, 8, 6)], [(400, 0)], 100)
    c.add('clusters')


def many(R, out):
    """Hundreds of observations and dozens of wells, with a cluster of very many duplicates."""
    c = Case(out, R, **style(R))
    while True:
        n, nw, b = R.choice([120, 260]), R.choice([8, 30, 45]), R.choice([100, 300])
        wells = [(R.randint(-4000, 4000), R.randint(-4000, 4000)) for _ in range(nw)]
        obs = []
        for i in range(n):
            k = R.random()
            if k < 0.15:
                o = (R.randint(5000, 5006), R.randint(-2, 2))
            elif k < 0.3 and obs:
                o = R.choice(obs)
                o = (o[0] + R.randint(-5, 5), o[1] + R.randint(-5, 5))
            elif k < 0.45:
                w = wells[-1 - R.randint(0, 3)]
                o = (w[0] + R.randint(-b, b) // 2, w[1] + R.randint(-b, b) // 2)
            else:
                o = (R.randint(-4000, 4000), R.randint(-4000, 4000))
            obs.append(tuple(o[:2]))
        if clean(obs, wells, b):
            break
    hs = R.sample(range(0, 2000), n)
    c.run([o + (h, R.choice([1, 2, 3, 6])) for o, h in zip(obs, hs)], wells, b)
    c.add('many')


def record(out):
    R = rng(18)
    n = 12 if thorough() else 1
    for _ in range(40 * n):
        random_case(R, out)
    for _ in range(25 * n):
        clusters(R, out)
    for _ in range(2 * n):
        many(R, out)


def from_spec(out, cases):
    R = rng(19)
    if not thorough():
        cases = R.sample(cases, min(len(cases), 700))
    for a in range(0, len(cases), 10):
        c = Case(out, R, **style(R))
        for k in cases[a:a + 10]:
            obs = [o[:2] + [17 + 64 * i + 5 * i * i, o[3]] for i, o in enumerate(k['obs'])]
            if clean(obs, k['wells'], k['buffer']):
                c.run(obs, k['wells'], k['buffer'])
        c.add('enumerated')
