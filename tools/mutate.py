#!/usr/bin/env python3
"""How much of the library's code the checks pin down: small random changes.

  mutate.py make N SEED DIR        N changes that compile and pass the stable tests, as DIR/k.diff
  mutate.py run DIR [FILE...]      the checks of the changed file, in a short form, against each

The short form records with one build and leaves out the models, which no change
to the library can affect.  No check uses this file.  What it leaves standing has
to be read: a change that keeps the behaviour is no miss.
"""
import json, os, pickle, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))

WHICH = [('sais', 'C04 C20'), ('induce', 'C07 C17 C20'), ('hashtable', 'C08 C09 C05 C19'), ('queue', 'C11 C19 C17'),
         ('packed', 'C10 C19 C17'), ('container', 'C05 C17 C16'), ('utility', 'C12'), ('flbwt', 'C05 C06 C17 C19 C03')]
FILES, WIDTHS = 'C02 C13 C14 C17', 'C03 C15 C17 C19'   # the two first functions of flbwt.cpp
OPS = [(r'(?<![<>=!\-])<(?![<=])(?=\s)', ['<=']), (r'<=', ['<']), (r'(?<![<>\-])>(?![>=])(?=\s)', ['>=']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r'\+\+', ['--']), (r'--', ['++']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b2\b', ['1', '3']), (r'\b(8|16|24|32|40|48|56|64|255|256|1024)\b', ['-1', '+1']), (r'0x[0-9a-fA-F]+', ['low']),
       (r'\buint64_t\b', ['uint32_t', 'int32_t', 'uint16_t']), (r'\bint64_t\b', ['int32_t', 'int16_t']), (r'\bint32_t\b', ['int16_t', 'uint32_t']), (r'\buint16_t\b', ['uint8_t']),
       (r'\buint8_t\b', ['int8_t']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r'>>', ['<<']), (r'<<', ['>>']),
       (r' & ', [' | ']), (r' \| ', [' ^ ', ' & ']), (r'~', ['']), (r'!(?!=)', ['']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']),
       (r'^(\s*)[\w\->\[\]\.\(\)\+\-\* ]+ [\+\-|&]?= .*;$', ['del']), (r'^(\s*)[\w\->:\.]+\(.*\);$', ['del']), (r'^(\s*)(delete|free).*;$', ['del']), (r'\belse if\b', ['if'])]


def sh(cmd, cwd=None, timeout=1800):
    p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')


def mutants(rng, n, only):
    fs = []
    for d in ('src', 'include'):
        for f in sorted(os.listdir('/repo/' + d)):
            if only and not any(o in f for o in only):
                continue
            fs.append(f'{d}/{f}')
    cand = []
    for f in fs:
        com = False
        for k, line in enumerate(open('/repo/' + f)):
            s = line.strip()
            if s.startswith('/*'):
                com = True
            if com or s.startswith(('//', '#', '*')) or not s:
                if '*/' in s:
                    com = False
                continue
            code = line.split('//')[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code.rstrip('\n')):
                    for r in reps:
                        cand.append((f, k, m.start(), m.end(), m.group(0), r, m.group(1) if r == 'del' and m.groups() else ''))
    by = {}
    for c in cand:      # a file at a time, then a line at a time, so that no line takes over
        by.setdefault(c[0], {}).setdefault(c[1], []).append(c)
    seen = set()
    weight = [f for f in by for _ in range(max(1, len(by[f]) // (4 if re.search('sais|induce', f) else 1)))]
    while n > 0:
        f = rng.choice(weight)
        c = rng.choice(by[f][rng.choice(sorted(by[f]))])
        if c in seen:
            continue
        seen.add(c)
        n -= 1
        yield c


def change(c, root):
    f, k, a, b, old, rep, pre = c
    p = os.path.join(root, f)
    ls = open(p).read().split('\n')
    if rep == 'del':
        rep = pre + ';'
    elif rep in ('-1', '+1') and re.fullmatch(r'\d+', old):
        rep = str(int(old) + int(rep))
    elif rep == 'low':
        rep = hex(int(old, 16) >> 1)
    ls[k] = ls[k][:a] + rep + ls[k][b:]
    open(p, 'w').write('\n'.join(ls))


def viable(c):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        sh(f'cp -a /repo/. {d}/')
        change(c, d)
        rc, diff = sh('git diff', cwd=d)
        try:
            sh(f"unshare -m bash -c 'mount --bind {d} /repo && timeout 120 bash /opt/vp/test.sh {d}/out.json'")
            out = json.load(open(f'{d}/out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            ok = all(t in out['passed'] for t in base['stable'])
        except Exception:
            ok = False
        return ok, diff
    finally:
        shutil.rmtree(d)


def judge(diff, cache):
    import check
    import checks
    sys.modules['check'] = check
    d = tempfile.mkdtemp(prefix='mut-')
    sh(f'cp -a /repo/. {d}/')
    rc, o = sh(f'git apply {diff}', cwd=d)
    f = re.search(r'^\+\+\+ b/(.*)$', open(diff).read(), re.M).group(1)
    assert rc == 0, o
    props = next(p for n, p in WHICH if n in f).split()
    if f == 'src/flbwt.cpp':
        at = int(re.search(r'^@@ -(\d+)', open(diff).read(), re.M).group(1)) + 3
        text = open('/repo/' + f).read().split('\n')
        where = [k for k, t in enumerate(text, 1) if re.match(r'\S.*\)$', t)]
        names = [text[k - 1] for k in where if k <= at][-1]
        props = FILES.split() if 'bwt_file' in names else WIDTHS.split() if 'bwt_is' in names or 'bwt_string' in names else props
    res = []

    class Short(check.Run):
        def model(self, *a, **k): pass
        def model_now(self, *a, **k): pass
        def refuted(self, *a, **k): pass
        def huge(self, *a, **k): pass
        def evidence(self, *a, **k): pass

        def build(self, *vs):
            if f.startswith('src/'):      # only the changed file is compiled
                for v in [v for v in vs if v not in self.bins]:
                    o = os.path.join(cache, 'obj-' + v)
                    if not os.path.exists(o):
                        continue
                    w = os.path.join(self.work, 'obj-' + v)
                    shutil.copytree(o, w)
                    cfg = check.VARIANTS[v]
                    t = os.path.join(w, 'lib-' + os.path.basename(f) + '.o')
                    r = subprocess.run([cfg['cc'], '-std=c++11', *cfg['flags'], *cfg.get('libflags', []), '-DFLBWT_VERIF_HOOKS', '-I', d + '/include', '-I', check.HARN, '-c', f'{d}/{f}', '-o', t])
                    if r.returncode == 0 and 'rename' in cfg:
                        subprocess.run(['objcopy', *[f'--redefine-sym={n}=hxm_{n}' for n in cfg['rename']], t])
                    b = os.path.join(self.work, 'drv-' + v)
                    r = subprocess.run([cfg['cc'], *cfg['flags'], '-o', b, *[os.path.join(w, x) for x in sorted(os.listdir(w), key=lambda x: (x[:2] != 'li', x))], *cfg['link'], '-lpthread'])
                    if r.returncode == 0:
                        self.bins[v] = b
            super().build(*vs)

        def generate(self, *a, **k):
            p = os.path.join(cache, re.sub(r'\W', '_', f'{a}{k}'))
            if not os.path.exists(p):
                pickle.dump(super().generate(*a, **k), open(p, 'wb'))
            return pickle.load(open(p, 'rb'))
    check.REPO = checks.REPO = d
    plain = checks.simple
    checks.simple = lambda r, mode, module, variants=('plain',), **k: plain(r, mode, module, variants=tuple(v for v in variants if v in ('plain', 'fine'))[:2], **k)
    try:
        for p in props:
            r = Short(p, 'quick', 1)
            try:
                checks.CHECKS[p](r)
                res.append(p + ' ok')
            except check.Rejected as e:
                res.append(p + ' CAUGHT ' + e.what[:100])
                break
            except check.CheckError as e:
                res.append(p + ' ERROR ' + str(e)[-300:].replace('\n', ' '))
            finally:
                r.pool.shutdown()
                shutil.rmtree(r.work, ignore_errors=True)
    finally:
        shutil.rmtree(d)
    return res


def prepare(cache):
    import check
    os.makedirs(cache, exist_ok=True)
    if not os.path.exists(cache + '/obj-plain'):
        r = check.Run('C04', 'quick', 1)
        r.build('plain', 'fine')
        for v in ('plain', 'fine'):
            shutil.copytree(f'{r.work}/obj-{v}', f'{cache}/obj-{v}')
        shutil.rmtree(r.work)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        n, seed, out = int(a[1]), int(a[2]), a[3]
        os.makedirs(out, exist_ok=True)
        k = len([x for x in os.listdir(out) if x.endswith('.diff')])
        tried = 0
        with ThreadPoolExecutor(4) as ex:
            for ok, diff in ex.map(viable, mutants(random.Random(seed), n, a[4:])):
                tried += 1
                if ok:
                    open(f'{out}/{k}.diff', 'w').write(diff)
                    k += 1
        print(f'{k} of {tried} changes pass the tests')
    elif a[0] == 'run':
        cache = a[1] + '/cache'
        prepare(cache)
        for x in a[2:] or sorted((x for x in os.listdir(a[1]) if x.endswith('.diff')), key=lambda x: int(x.split('.')[0])):
            p = os.path.join(a[1], x)
            if os.path.exists(p + '.res'):
                continue
            open(p + '.res', 'w').close()
            t = time.time()
            r = subprocess.run([sys.executable, __file__, 'one', p, cache], capture_output=True, text=True)
            line = f'{x} {time.time() - t:.0f}s {r.stdout.strip() or r.stderr[-300:]}'
            open(p + '.res', 'w').write(line)
            print(line, flush=True)
    elif a[0] == 'one':
        sys.stdout, keep = sys.stderr, sys.stdout
        res = judge(a[1], a[2])
        print('; '.join(res), file=keep)
