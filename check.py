#!/usr/bin/env python3
"""usage: check.py <property id>        (VERIF_SEED, VERIF_TIER in the environment)

Decides one property: TLC explores the specification, drivers run the real code of
/repo, TLC validates what they recorded against the same specification.
Exit 0: held on everything explored.  Exit 1 and a line VIOLATION: it is broken.
Exit 2: this machinery failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
HARN = os.path.join(HERE, 'harness')
sys.path.insert(0, HARN)
sys.dont_write_bytecode = True
import checks as C                                                      # noqa: E402

PY = '/opt/venv/bin/python'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
REPO = os.environ.get('VP_REPO', '/repo')
DRIVER_LIMIT = 500 if TIER == 'quick' else 7200
TLC_LIMIT = 500 if TIER == 'quick' else 7200
MAXTRACES = 4000                       # per TLC run


class Machinery(Exception):
    pass


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0)
        self.samples = []
        self.model_runs = []
        self.bad = []                  # (what, replay data)
        self.n = 0

    # -- TLC -----------------------------------------------------------------
    def tlc(self, spec, cfg, env=None, workers=8, extra=()):
        self.n += 1
        md = os.path.join(self.tmp, 'md%d' % self.n)
        jt = os.path.join(self.tmp, 'jt%d' % self.n)
        os.makedirs(jt)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx10g', '-Xss32m', '-Djava.io.tmpdir=' + jt, '-cp',
               '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
               'tlc2.TLC', '-metadir', md, '-workers', str(workers), '-config', cfg + '.cfg', *extra, spec + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=TLC_LIMIT, errors='replace')
        except subprocess.TimeoutExpired:
            raise Machinery('TLC did not finish: %s %s' % (spec, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout.replace(',', ',')) \
            or re.search(r'([\d,]+) states generated, ([\d,]+) distinct', p.stdout)
        gen, dist = (int(x.replace(',', '')) for x in m.groups()) if m else (0, 0)
        return p.returncode, p.stdout, gen, dist

    def model(self, step):
        cfg = step.cfg or step.spec
        if TIER == 'thorough' and step.cfg_thorough:
            cfg = step.cfg_thorough
        rc, out, gen, dist = self.tlc(step.spec, cfg)
        if rc != 0:
            if re.search(r'is violated|are violated|was violated', out):
                raise Machinery('the specification violates its own properties: %s\n%s' % (cfg, out[-3000:]))
            raise Machinery('TLC failed on %s\n%s' % (cfg, out[-3000:]))
        self.cov['transitions'] += gen
        self.cov['states'] += dist
        self.model_runs.append(dict(spec=step.spec, config=cfg, states=dist, transitions=gen))

    def mutant(self, step):
        if TIER != 'thorough':
            return
        rc, out, gen, dist = self.tlc(step.spec, step.cfg)
        if rc == 0 or not re.search(r'violated', out):
            raise Machinery('the wrong variant %s is not refuted\n%s' % (step.cfg, out[-2000:]))
        self.model_runs.append(dict(spec=step.spec, config=step.cfg, refuted=True, states=dist, transitions=gen))

    # -- the real code ---------------------------------------------------------
    def drive(self, driver, shard, nshards, cases=None):
        out = os.path.join(self.tmp, 'tr_%s_%d_%d.json' % (driver, shard, self.n))
        work = tempfile.mkdtemp(prefix='w', dir=self.tmp)
        env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(self.tmp, 'mpl'),
                   PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(self.tmp, 'pyc'),
                   PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VP_REPO=REPO)
        cmd = [PY, os.path.join(HARN, 'drive.py'), driver, str(SEED), TIER, out, self.prop, str(shard), str(nshards)]
        if cases:
            cmd.append(cases)
        try:
            p = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors='replace', timeout=DRIVER_LIMIT)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        shutil.rmtree(work, ignore_errors=True)
        if rc == 3 and not os.path.isdir(REPO):
            raise Machinery('driver %s: %s' % (driver, err[-3000:]))
        if rc != 0 or not os.path.exists(out):
            # the code under test could not be imported, crashed the process, or never returned
            return dict(traces=[], coverage={}, died='driver %s ended with %s while exercising the code: %s'
                        % (driver, rc, err[-1500:]))
        with open(out) as f:
            d = json.load(f)
        os.remove(out)
        return d

    def run_driver(self, driver, spec, shards, cases=None):
        os.makedirs(os.path.join(self.tmp, 'mpl'), exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda k: self.drive(driver, k, shards, cases), range(shards)))
        traces = []
        for d in res:
            if d.get('died'):
                self.bad.append((d['died'], dict(driver=driver, seed=SEED, tier=TIER)))
            for k, v in d['coverage'].items():
                self.cov[k] = self.cov.get(k, 0) + v
            traces += d['traces']
        for i, t in enumerate(traces):
            t['id'] = i + 1
        if not traces:
            if self.bad:
                return
            raise Machinery('driver %s recorded nothing' % driver)
        for a in range(0, len(traces), MAXTRACES):
            self.validate(spec, traces[a:a + MAXTRACES], driver)

    def validate(self, spec, traces, driver):
        byid = {t['id']: t for t in traces}
        tf = os.path.join(self.tmp, 'tv%d.json' % self.n)
        vf = os.path.join(self.tmp, 'verdict%d.txt' % self.n)
        open(vf, 'w').close()
        with open(tf, 'w') as f:
            json.dump(traces, f)
        rc, out, gen, dist = self.tlc(spec, spec, dict(VP_TRACES=tf, VP_FOCUS=self.prop, VP_OUT=vf))
        self.cov['transitions'] += gen
        self.cov['states'] += dist
        ver = {}
        for line in open(vf):
            d = json.loads(json.loads(line))
            ver[d['id']] = d
        for i, d in ver.items():
            if d['verdict'] == 'bad':
                cl = d['clauses']
                ev = byid[i]['ev'][d['at'] - 1]
                self.bad.append((' | '.join(sorted(c[1] for c in cl)),
                                 dict(driver=driver, spec=spec, at=d['at'], clauses=cl, event=ev, trace=byid[i])))
            else:
                self.cov['traces_validated_against_impl'] += 1
                self.cov['events_validated'] += len(byid[i]['ev'])
        if rc != 0:
            # the specification could not make sense of an observation: name the trace
            m = re.findall(r'^/\\ tr = (\d+)', out, re.M)
            if m and 0 < int(m[-1]) <= len(traces):
                t = traces[int(m[-1]) - 1]
                msg = re.search(r'Error: .*?(?=Error: The behavior|The error occurred|$)', out, re.S)
                self.bad.append(('observation outside the specification: ' + ' '.join((msg.group(0) if msg else '')[:600].split()),
                                 dict(driver=driver, spec=spec, trace=t, tlc=out[-3000:])))
            else:
                raise Machinery('TLC failed validating %s\n%s' % (spec, out[-1300:]))
        elif len(ver) != len(traces):
            raise Machinery('%d traces but %d verdicts (%s)' % (len(traces), len(ver), spec))
        if len(self.samples) < 4:
            self.samples.append(dict(driver=driver, spec=spec, verdict='ok' if rc == 0 else 'bad',
                                     trace=shorten(traces[(SEED * 7919) % len(traces)])))
        os.remove(tf)
        os.remove(vf)

    def generate(self, step):
        vf = os.path.join(self.tmp, 'gen%d.txt' % self.n)
        n = 0
        cfg = step.cfg
        if TIER == 'thorough' and os.path.exists(os.path.join(HERE, 'spec', cfg + '_thorough.cfg')):
            cfg += '_thorough'
        runs = [(cfg, ())]
        if step.sim:
            num = dict(quick=40, thorough=400)[TIER]
            runs.append((step.sim, ('-simulate', 'num=%d' % num, '-depth', '60', '-seed', str(SEED))))
        with open(vf, 'w'):
            pass
        for cfg, extra in runs:
            rc, out, gen, dist = self.tlc(step.gen, cfg, dict(VP_OUT=vf), extra=extra,
                                          workers=1 if extra else 8)
            if rc != 0:
                raise Machinery('generation failed: %s\n%s' % (cfg, out[-3000:]))
            self.cov['transitions'] += gen
            self.cov['states'] += dist
            self.model_runs.append(dict(spec=step.gen, config=cfg, states=dist, transitions=gen))
        with open(vf) as f:
            lines = sorted(set(f.read().splitlines()))
        if not lines:
            raise Machinery('no histories generated by ' + step.cfg)
        self.cov['spec_histories'] = self.cov.get('spec_histories', 0) + len(lines)
        with open(vf, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        self.run_driver(step.driver, step.spec, 4, cases=vf)

    # -- the verdict ------------------------------------------------------------
    def run(self):
        t0 = time.time()
        for step in C.CHECKS[self.prop]:
            if isinstance(step, C.MC):
                self.model(step)
            elif isinstance(step, C.MUT):
                self.mutant(step)
            elif isinstance(step, C.TV):
                self.run_driver(step.driver, step.spec, step.shards)
            elif isinstance(step, C.GEN):
                self.generate(step)
        self.cov['model_runs'] = self.model_runs
        self.cov['samples'] = self.samples
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level='model_checking', coverage=self.cov,
                  wall_s=round(time.time() - t0, 2), violations=len(self.bad),
                  assumptions=C.ASSUME.get(self.prop, []) + C.ASSUME.get('*', []))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', self.prop + '.json')
        if len(json.dumps(ev)) > 60000:
            self.cov['samples'] = [s for s in self.samples if len(json.dumps(s)) < 12000][:3] or \
                [dict(driver=s['driver'], spec=s['spec'], verdict=s['verdict']) for s in self.samples[:1]]
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1)
        if not self.bad:
            print('%s holds on everything explored: %d states, %d transitions, %d traces, %d events (%.1f s)' % (
                self.prop, self.cov['states'], self.cov['transitions'],
                self.cov['traces_validated_against_impl'], self.cov['events_validated'], time.time() - t0))
            return 0
        od = os.path.join(HERE, 'out')
        os.makedirs(od, exist_ok=True)
        for k, (what, rec) in enumerate(self.bad[:5]):
            rp = os.path.join(od, '%s_%d.json' % (self.prop, k + 1))
            with open(rp, 'w') as f:
                json.dump(dict(property=self.prop, what=what, **rec), f, indent=1)
            print('VIOLATION property=%s replay=%s %s' % (self.prop, rp, ' '.join(what.split())[:400]))
        print('%d of the recorded traces violate %s' % (len(self.bad), self.prop))
        return 1


def shorten(v, depth=0):
    if isinstance(v, dict):
        return {k: shorten(x, depth + 1) for k, x in v.items()}
    if isinstance(v, list):
        if len(v) > 12:
            return [shorten(x, depth + 1) for x in v[:8]] + ['... %d more' % (len(v) - 8)]
        return [shorten(x, depth + 1) for x in v]
    return v


def main():
    prop = sys.argv[1]
    c = Check(prop)
    try:
        return c.run()
    except Machinery as e:
        if c.bad:            # a violation was already observed; report it
            for what, rec in c.bad[:3]:
                rp = os.path.join(HERE, 'out', prop + '_0.json')
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, 'w') as f:
                    json.dump(dict(property=prop, what=what, **rec), f, indent=1)
                print('VIOLATION property=%s replay=%s %s' % (prop, rp, ' '.join(what.split())[:400]))
            return 1
        print('MACHINERY:', e)
        return 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
