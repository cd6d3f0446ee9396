#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py C01 [--tier quick|thorough]

A check (1) model-checks the specification modules of the property with TLC,
(2) builds the library from /repo's working tree, (3) runs it under a driver
that records what it does, partly on behaviours generated from the
specification, and (4) has TLC decide whether every recorded execution is one
the specification allows.  Exit 0: held.  Exit 1 and a VIOLATION line: broken.
Anything else is a failure of the check itself.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FLBWT_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
NCPU = 8
sys.path.insert(0, os.path.join(VERIF, 'tools'))


class CheckError(Exception):
    pass


class Rejected(Exception):
    """TLC refused a recorded execution."""

    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay
        self.final = False    # whether running it again is pointless


def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, flush=True)


T0 = time.time()
VARIANTS = {
    'plain': dict(cc='g++', flags=['-O1'], link=['-ldl']),
    'asan': dict(cc='g++', flags=['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DNO_INTERPOSE'],
                 link=['-fsanitize=address', '-ldl']),
    # every memory access of the library is a call into harness/fine.cpp
    'fine': dict(cc='g++', flags=['-O1', '-DFINE'], libflags=['-fsanitize=thread', '-fno-builtin'], link=['-ldl'],
                 rename=['memcpy', 'memmove', 'memset', 'memcmp', 'memchr']),
    'tsan': dict(cc='g++', flags=['-O1', '-fsanitize=thread', '-DNO_INTERPOSE'], link=['-fsanitize=thread', '-ldl']),
}


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.work = tempfile.mkdtemp(prefix=f'flbwt-{prop}-')
        os.chmod(self.work, 0o755)
        self.replays = os.path.join(VERIF, 'build', 'replay', prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.pool = ThreadPoolExecutor(NCPU)
        self.bgpool = ThreadPoolExecutor(2)   # models are checked while the driver is built and run
        self.bg = []
        self.states = self.transitions = self.validated = 0
        self.models, self.samples, self.notes, self.assumptions = [], [], [], []
        self.extra = {}
        self.bins = {}

    # ------------------------------------------------------------ build
    def build(self, *variants):
        """Compile the library and the driver from the current trees."""
        todo = [v for v in variants if v not in self.bins]
        jobs = []
        for v in todo:
            d = os.path.join(self.work, 'obj-' + v)
            os.makedirs(d, exist_ok=True)
            srcs = [os.path.join(REPO, 'src', f) for f in sorted(os.listdir(os.path.join(REPO, 'src'))) if f.endswith('.cpp')]
            for s in srcs:
                jobs.append((v, s, os.path.join(d, 'lib-' + os.path.basename(s) + '.o'), '-std=c++11'))
            for f in sorted(os.listdir(HARN)):
                if f.endswith('.cpp'):
                    jobs.append((v, os.path.join(HARN, f), os.path.join(d, 'hx-' + f + '.o'), '-std=c++17'))

        def one(job):
            v, s, o, std = job
            c = VARIANTS[v]
            flags = c['flags'] + (c.get('libflags', []) if os.path.basename(o).startswith('lib-') else [])
            r = subprocess.run([c['cc'], std, *flags, '-DFLBWT_VERIF_HOOKS', '-I', os.path.join(REPO, 'include'),
                                '-I', HARN, '-c', s, '-o', o], capture_output=True, text=True)
            if r.returncode == 0 and flags != c['flags'] and 'rename' in c:
                r = subprocess.run(['objcopy', *[f'--redefine-sym={n}=hxm_{n}' for n in c['rename']], o], capture_output=True, text=True)
            return (s, r.returncode, r.stderr)
        for s, rc, err in self.pool.map(one, jobs):
            if rc != 0:
                raise CheckError(f'cannot compile {s}:\n{err[-3000:]}')
        for v in todo:
            c = VARIANTS[v]
            d = os.path.join(self.work, 'obj-' + v)
            b = os.path.join(self.work, 'drv-' + v)
            r = subprocess.run([c['cc'], *c['flags'], '-o', b, *[os.path.join(d, f) for f in sorted(os.listdir(d), key=lambda f: (f[:2] != 'li', f))], *c['link'], '-lpthread'],
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError('cannot link:\n' + r.stderr[-3000:])
            self.bins[v] = b
        if todo:
            log('built', ', '.join(todo))

    def programs(self, *named, opt='-O1'):
        """Executables of the library as it is shipped: (name, directory of its sources)..."""
        d = os.path.join(self.work, 'obj-prog' + opt)
        os.makedirs(d, exist_ok=True)
        lib, progs, jobs = [], {}, []
        src = os.path.join(REPO, 'src')
        for f in sorted(os.listdir(src)):
            if f.endswith('.cpp'):
                o = os.path.join(d, 'lib-' + f + '.o')
                lib.append(o)
                jobs.append((os.path.join(src, f), o))
        for name, where in zip(named[::2], named[1::2]):
            progs[name] = []
            for f in sorted(os.listdir(where)):
                if f.endswith('.cpp'):
                    o = os.path.join(d, f'{name}-{f}.o')
                    progs[name].append(o)
                    jobs.append((os.path.join(where, f), o))

        def one(job):
            r = subprocess.run(['g++', '-std=c++11', opt, '-I', os.path.join(REPO, 'include'), '-c', job[0], '-o', job[1]], capture_output=True, text=True)
            return job[0], r.returncode, r.stderr
        for s, rc, err in self.pool.map(one, jobs):
            if rc != 0:
                raise CheckError(f'cannot compile {s}:\n{err[-3000:]}')
        out = []
        for name, objs in progs.items():
            b = os.path.join(self.work, 'prog-' + name)
            r = subprocess.run(['g++', '-o', b, *objs, *lib, '-lpthread'], capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError('cannot link:\n' + r.stderr[-3000:])
            out.append(b)
        log('built', ', '.join(progs))
        return out

    # ------------------------------------------------------------ beyond 4 GB
    def huge(self, *jobs, need=14, module='TraceHuge', cfg=None):
        """Transforms of texts of more than 2^32 bytes, given as runs: (kind, where, runs)...
        Each takes minutes and up to `need' GB; what the machine cannot hold is left out, and said so."""
        tool, = self.programs('huge', os.path.join(HARN, 'huge'), opt='-O3')

        def run(k, job, small=False):
            kind, where, runs = job
            d = os.path.join(self.work, f'huge{k}')
            os.makedirs(d, exist_ok=True)
            text = [(b if isinstance(b, tuple) else (b,), max(1, n >> 8) if small and n > 1000 else n) for b, n in runs]
            out = os.path.join(self.work, f'huge-{k}{"-small" if small else ""}.nd')
            before = os.times()
            limit = 60 if small else self.huge_limit
            arg = ','.join('.'.join(map(str, w)) + f':{n}' for w, n in text)
            t0 = time.time()
            p = subprocess.run([tool, kind, d if kind == 'file' else f'{d}:{where >> 8 if small else where}' if kind == 'short' else str(where), out, arg, str(limit)], capture_output=True, text=True)
            if p.returncode in (94, -9):
                return None, 0
            if p.returncode == 96:
                end = 'hang'
            elif p.returncode < 0:
                end = 'crash'
            elif p.returncode != 0:
                raise CheckError(f'huge {job} failed ({p.returncode}): {p.stderr[-1000:]}')
            else:
                return out, time.time() - t0
            pair = lambda v: [v >> 30, v & (2**30 - 1)]
            with open(out, 'w') as f:
                f.write(json.dumps(dict(ev='huge', kind=kind, text=[[w, pair(n)] for w, n in text], end=end, last=[0, 0], rows=[], same=1)) + '\n')
            return out, time.time() - t0
        outs = []
        slowest = 0
        for k, j in enumerate(jobs):      # the same shapes 256 times smaller, to know how long it should take
            out, t = run(k, j, True)
            if out:
                outs.append(out)
            slowest = max(slowest, t)
        self.traces(module, outs, cfg=cfg, label=' (2^24)', final=True)
        log(f'the slowest took {slowest:.2f} s')
        # a transform takes linear time: four times what the small ones let expect
        self.huge_limit = max(300, int(4 * 256 * slowest))
        if self.huge_limit > 1200 and not self.thorough:
            log('too slow a machine for texts beyond 4 GB: left out')
            self.extra['beyond_4GB'] = 'left out: too slow a machine'
            return

        def room():
            with open('/proc/meminfo') as f:
                return int(re.search(r'MemAvailable:\s+(\d+)', f.read()).group(1)) >> 20
        par = min(len(jobs), room() // need)
        if par < 1 or shutil.disk_usage(self.work).free < 12 << 30:
            log('not enough memory or disk for texts beyond 4 GB: left out')
            self.extra['beyond_4GB'] = 'left out: not enough memory or disk'
            return
        if not self.thorough:      # as many as should be done in time, even twice as slow
            fit = int((850 - (time.time() - T0)) / (2 * 256 * slowest + 1)) * par
            if fit < len(jobs):
                log(f'too slow a machine for more than {fit} of {len(jobs)} texts beyond 4 GB')
                jobs = jobs[:fit]
        if not jobs:
            self.extra['beyond_4GB'] = 'left out: too slow a machine'
            return
        pool = ThreadPoolExecutor(par)
        outs = [o for o, t in pool.map(lambda kj: run(*kj), enumerate(jobs)) if o]
        self.extra['beyond_4GB'] = f'{len(outs)} texts'
        self.traces(module, outs, cfg=cfg, label=' (2^32)', final=True)

    # ------------------------------------------------------------ driver
    def drive(self, mode, variant='plain', infile=None, shards=NCPU, opt='', timeout=700, tag=''):
        """Run the driver; returns the recorded files, one per shard."""
        self.build(variant)
        outs, cmds = [], []
        scratch = os.path.join(self.work, f'scratch-{mode}-{variant}{tag}')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=255:exitcode=77:handle_abort=0',
                   TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_signal_unsafe=0')
        for k in range(shards):
            out = os.path.join(self.work, f'{mode}-{variant}{tag}-{k}.nd')
            d = f'{scratch}-{k}'
            os.makedirs(d, exist_ok=True)
            outs.append(out)
            cmds.append([self.bins[variant], '--mode', mode, '--seed', str(self.seed), '--tier', self.tier, '--shard', str(k),
                         '--shards', str(shards), '--out', out, '--dir', d, '--opt', opt] + (['--in', infile] if infile else []))

        def one(cmd):
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, timeout=timeout)
                return r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                return -1, 'driver timed out'
        for cmd, (rc, err) in zip(cmds, self.pool.map(one, cmds)):
            if rc != 0:
                raise CheckError(f'driver failed ({rc}): {" ".join(cmd)}\n{err[-3000:]}')
        n = sum(os.path.getsize(o) for o in outs)
        log(f'recorded {mode} ({variant}{tag}): {n / 1e6:.1f} MB')
        outs = [o for o in outs if os.path.getsize(o) > 0]
        for o in outs:
            self.garbled(o)
        return outs

    def garbled(self, name):
        """A record that is not one shows that the memory of the process was overwritten."""
        with open(name, 'rb') as f:
            lines = f.read().split(b'\n')
        def ok(line):
            try:
                return not line or isinstance(json.loads(line.decode('ascii')), dict)
            except ValueError:
                return False
        good = [l if ok(l) else b'{"ev":"crash","how":"garbled record"}' for l in lines]
        if good != lines:
            with open(name, 'wb') as f:
                f.write(b'\n'.join(good))

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=800, heap='3g', stack='64m', extra=()):
        meta = tempfile.mkdtemp(prefix='tlc', dir=self.work)
        # TLC reads the specification from a private copy: nothing is written under spec/
        cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', f'-Xmx{heap}', f'-Xss{stack}', f'-Djava.io.tmpdir={meta}', '-cp', CP,
               'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-config', cfg or module + '.cfg', *extra, module + '.tla']
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, errors='replace', env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f'TLC timed out on {module}')
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', r.stdout, re.M)
        gen, dis = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        return r.returncode, r.stdout, gen, dis

    def cfg(self, base, invariants=None, **consts):
        """A configuration with some constants and perhaps the invariants replaced."""
        with open(os.path.join(SPEC, base + '.cfg')) as f:
            text = f.read()
        if invariants:
            text, n = re.subn(r'(?m)^INVARIANTS .*$', 'INVARIANTS ' + invariants, text)
            if n != 1:
                raise CheckError(f'no invariants in {base}.cfg')
        for k, v in consts.items():
            text, n = re.subn(rf'(?m)^(\s*{k}\s*(?:=|<-)\s*).*$', lambda mm: mm.group(1) + str(v), text)
            if n != 1:
                raise CheckError(f'constant {k} not found in {base}.cfg')
        p = tempfile.mktemp(prefix=base, suffix='.cfg', dir=self.work)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def model(self, module, **kw):
        """Exhaustive check of a design model, in the background."""
        self.bg.append(self.bgpool.submit(self.model_now, module, **kw))

    def settle(self):
        bg, self.bg = self.bg, []
        for f in bg:
            f.result()

    def model_now(self, module, workers=0, timeout=800, heap='6g', invariants=None, **consts):
        """A failure is an error of the check."""
        workers = workers or (NCPU if self.thorough else 3)
        c = self.cfg(module, invariants, **consts) if consts or invariants else None
        rc, out, gen, dis = self.tlc(module, cfg=c, workers=workers, timeout=timeout, heap=heap)
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError(f'model {module} failed ({rc}):\n{out[-4000:]}')
        self.states += dis
        self.transitions += gen
        self.models.append(dict(module=module, constants=consts, invariants=invariants or 'all', states=dis, transitions=gen))
        log(f'model {module} {consts or ""}: {dis} states')

    def refuted(self, module, cfg):
        """A design that breaks the property on purpose: TLC has to find it."""
        rc, out, gen, dis = self.tlc(module, cfg=cfg, workers=1)
        if rc != 12 or 'is violated' not in out:
            raise CheckError(f'{module} with {cfg} was expected to be refuted ({rc}):\n{out[-3000:]}')
        self.models.append(dict(module=module, constants=cfg, states=dis, transitions=gen, refuted='as expected'))
        log(f'model {module} with {cfg}: refuted, as expected')

    def generate(self, module, **consts):
        """Behaviours printed by a generator module, one program per line."""
        c = self.cfg(module, **consts) if consts else None
        rc, out, gen, dis = self.tlc(module, cfg=c, workers=1, heap='4g')
        if rc != 0:
            raise CheckError(f'generator {module} failed ({rc}):\n{out[-4000:]}')
        progs = [m.strip() for m in re.findall(r'^"PROG (.*)"$', out, re.M)]
        if not progs:
            raise CheckError(f'generator {module} printed nothing')
        self.states += dis
        self.transitions += gen
        self.models.append(dict(module=module, constants=consts, states=dis, transitions=gen, behaviours=len(progs)))
        log(f'generated {len(progs)} behaviours from {module}')
        return progs

    def traces(self, module, files, timeout=800, heap='3g', stack='64m', cfg=None, label='', final=False):
        """TLC accepts or refuses every record of the files."""
        def one(f):
            f, c = f if isinstance(f, tuple) else (f, cfg)
            return f, self.tlc(module, cfg=c, env={'TRACE': f}, workers=1, timeout=timeout, heap=heap, stack=stack)
        bad = None
        count = 0
        for f, (rc, out, gen, dis) in self.pool.map(one, files):
            with open(f) as fh:
                n = sum(1 for _ in fh)
            if rc == 0 and 'No error has been found' in out:
                self.states += dis
                self.transitions += gen
                count += n
                continue
            rej = rc in (11, 12, 13) or (rc in (75, 76, 77) and re.search(
                r'Attempted to|not in the domain|outside the|is not defined|no true|CHOOSE', out))
            if not rej or 'StackOverflow' in out or 'OutOfMemory' in out:
                raise CheckError(f'TLC failed on {f} ({rc}):\n{out[-4000:]}')
            if bad is None:
                bad = self.refused(module, f, out)
        if bad:
            bad.final = final
            raise bad
        self.validated += count
        log(f'{module}{label}: {count} recorded executions accepted')

    def refused(self, module, f, out):
        ls = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
        i = re.findall(r'^(?:/\\ )?i = (\d+)', out, re.M)
        line = ''
        if ls:
            with open(f) as fh:
                for k, t in enumerate(fh, 1):
                    if k == int(ls[-1]):
                        line = t
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, os.path.basename(f))
        with open(p, 'w') as fh:
            fh.write(line)
        with open(p + '.tlc', 'w') as fh:
            fh.write(out[-20000:])
        why = re.findall(r'^Error: (.*)$', out, re.M)
        what = f'{module} refuses record {ls[-1] if ls else "?"} of {os.path.basename(f)}' + (f' at step {i[-1]}' if i else '') + \
               f': {why[0] if why else "deadlock"}; record: {line[:300].strip()}'
        return Rejected(what, p)

    def sample(self, files, n=2, width=600):
        for f in files:
            with open(f) as fh:
                for line in fh:
                    if n <= 0:
                        return
                    self.samples.append(line.strip()[:width])
                    n -= 1
                    break

    # ------------------------------------------------------------ evidence
    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples[:8] or ['none'], models=self.models)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 1), violations=violations)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import checks
    r = Run(a.prop, tier, seed)
    rc = 2
    try:
        for attempt in (1, 2):
            try:
                checks.CHECKS[a.prop](r)
                r.settle()
                if attempt == 2:
                    raise CheckError('a refusal did not repeat: ' + first.what)
                r.evidence(0)
                for line in checks.known_findings(a.prop):
                    print(line)
                print(f'OK property={a.prop}')
                rc = 0
                break
            except Rejected as e:
                if attempt == 1 and not e.final:
                    r.settle()
                    first = e
                    log('refused, running again:', e.what)
                    r.states = r.transitions = r.validated = 0
                    r.models, r.samples, r.extra = [], [], {}
                    continue
                print(e.what)
                print(f'VIOLATION property={a.prop} replay={e.replay}')
                r.evidence(1)
                rc = 1
    except CheckError as e:
        print('ERROR', e)
    finally:
        r.bgpool.shutdown(wait=True)
        r.pool.shutdown(wait=True)
        shutil.rmtree(r.work, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
