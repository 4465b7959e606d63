"""Drives isdistribution, generate_random_variate and compute_variate_mean."""
import numpy as np
from common import *
from oneka.stochastic import generate_random_variate, compute_variate_mean, isdistribution

INF = 1000


def yes(err, v):
    return err if err else ('yes' if v is True or v == 1 else 'no')


def case(R, out, ev, d, lb, ub, scalar):
    """d, lb, ub integers; given to the code in a random scale and form."""
    a, b, whole = R.choice([(0., 1., True), (0., 1., False), (-3., 1., True), (0., 0.1, False), (-100., 37.5, False),
                            (1e5, 250., False), (0., 1e-6, False), (0., 1e-10, False), (0., 1e7, True), (-7., 2., True)])
    m = lambda i: -np.inf if i <= -INF else np.inf if i >= INF else (int(a + b * i) if whole and R.random() < 0.8 else a + b * i)
    if scalar:
        arg = m(d[0])
    else:
        arg = (tuple if R.random() < 0.5 else list)(m(i) for i in d)
    e = dict(op='case', d=list(d), lb=lb, ub=ub, scalar=scalar, sam=[], mean=0)
    e['acc'] = yes(*call(isdistribution, arg, m(lb), m(ub)))
    def num(v):
        try:
            return float(v)
        except Exception:
            return float('nan')
    back = lambda v, k: q((v - a) / b * k)
    e['serr'] = ''
    for _ in range(4):
        err, v = call(generate_random_variate, arg)
        e['serr'] = e['serr'] or err
        if not err:
            v = num(v)
            # a sample must lie in the support itself, not only after rounding
            lo, hi = (arg, arg) if scalar else (arg[0], arg[-1]) if len(d) in (2, 3) else (v, v)
            s = back(v, 1e6)
            if scalar or (len(d) in (2, 3) and list(d) == sorted(d)):
                s = -BIG if v < lo else BIG if not v <= hi else max(d[0] * 10**6, min(d[-1] * 10**6, s))
            e['sam'].append(s)
    e['merr'], v = call(compute_variate_mean, arg)
    if not e['merr']:
        f = (num(v) - a) / b * 6
        e['mean'] = q(f) if f == f and abs(f) < BIG and abs(f - round(f)) < 1e-3 * (1 if b > 1e-3 else 50) else BIG // 8
    ev.append(e)
    out.count('cases')


def odd(R, out, ev):
    for arg, other in [(None, False), ('0.5', False), ('', False), ({}, False), ({1, 2}, False), ((), True), ([], True),
                       ((1,), True), ([2.0], True), ((1, 2, 3, 4), True), ([0, 0, 0, 0], True), ((1, 2, 3, 4, 5), True),
                       (((1, 2), 3), False), (('a', 'b'), False), ((None, 1), False), (float('nan'), False),
                       ((float('nan'), 1.0), False), ((0.0, float('nan'), 1.0), False), ((0.0, 0.5, float('nan')), False),
                       ((1.0, float('nan')), False), (1j, False), (dict(a=1), False)]:
        e = dict(op='odd', other=other)
        lb, ub = R.choice([(0, 10), (-np.inf, np.inf), (0, np.inf)])
        e['acc'] = yes(*call(isdistribution, arg, lb, ub))
        e['serr'], _ = call(generate_random_variate, arg)
        e['merr'], _ = call(compute_variate_mean, arg)
        ev.append(e)


def law(R, out, n):
    lo = R.choice([0.0, 0.0, -50.0, 1e4, 0.1, -1.0])
    w = R.choice([1e-3, 1.0, 40.0, 1000.0]) if lo else R.choice([1e-12, 1e-8, 4e-7, 1e-5, 1e-3, 20.0, 40.0, 1e9])
    whole = R.random() < 0.5 and lo == int(lo) and w % 20 == 0
    num = (lambda v: int(round(v))) if whole else float
    m = R.randint(1, 19)
    for d in ([0, 20], [0, m, 20], R.choice([[0, 0, 20], [0, 20, 20]])):
        arg = (tuple if R.random() < 0.5 else list)(num(lo + w * i / 20) for i in d)
        x = []
        for _ in range(n):
            err, v = call(generate_random_variate, arg)
            if err:
                break
            try:
                x.append(float(v))
            except Exception:
                err = 'not a number'
                break
        x = np.array(x)
        if len(x) < n:
            out.add(dict(name='law', ev=[dict(op='odd', acc='yes', other=False, serr=err, merr='')]))
            continue
        b = np.clip(np.floor((x - lo) / (lo + w - lo) * 20).astype(int), 0, 19)
        up = x > np.median(x)
        P = [[int((up[k:] & up[:-k]).sum()), int(up[k:].sum()), int(up[:-k].sum()), n - k] for k in (1, 2, 3)]
        out.add(dict(name='law', ev=[dict(op='law', d=d, n=n, hist=[int(v) for v in np.bincount(b, minlength=20)],
                                          out=int(((x < arg[0]) | (x > arg[-1])).sum()), pairs=P)]))
        out.count('samples', n)


def record(out):
    R = rng(12)
    np.random.seed((CTX['seed'] * 1000 + CTX['shard']) % 2**32)
    for _ in range(24 if thorough() else 4):
        law(R, out, 20000 if thorough() else 10000)
        ev = []
        odd(R, out, ev)
        for _ in range(200):
            n = R.choice([0, 1, 2, 2, 3, 3, 3, 4, 5])
            d = [R.randint(-20, 60) for _ in range(n)]
            if R.random() < 0.7:
                d.sort()
            lb, ub = R.choice([(-INF, INF), (0, INF), (-30, 30), (0, 1), (R.randint(-20, 60), R.randint(-20, 60))])
            if R.random() < 0.3 and d:
                lb, ub = min(d), max(d)
            case(R, out, ev, d, lb, ub, False)
            case(R, out, ev, [R.randint(-30, 30)], lb, ub, True)
            if R.random() < 0.3:
                v = R.randint(-30, 30)
                case(R, out, ev, [v], R.choice([v, v - 1, v + 1]), R.choice([v, v + 1]), True)
        out.add(dict(name='random', ev=ev))


def from_spec(out, cases):
    R = rng(13)
    np.random.seed((CTX['seed'] * 1000 + 7 + CTX['shard']) % 2**32)
    for a in range(0, len(cases), 200):
        ev = []
        for c in cases[a:a + 200]:
            case(R, out, ev, c['d'], c['lb'], c['ub'], False)
            if len(c['d']) == 1:
                case(R, out, ev, c['d'], c['lb'], c['ub'], True)
        out.add(dict(name='enumerated', ev=ev))
