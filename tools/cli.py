"""Runs the command-line tool and, on a copy of the same files, the library alone."""
import json, os, random, re, resource, shutil, subprocess

NAMES = ['text', 'more', 'empty', 'absent', 'dir', 'nowhere', 'blank']


def snapshot(d):
    out = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for n in sorted(dirs + files):
            p = os.path.join(root, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out.append([rel, 'link', list(os.readlink(p).encode())])
            elif os.path.isdir(p):
                out.append([rel, 'dir', []])
            else:
                with open(p, 'rb') as f:
                    out.append([rel, 'file', list(f.read())])
    out.sort()
    return out


def stamps(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            s = os.lstat(p)
            out[p] = (s.st_ino, s.st_mtime_ns, s.st_ctime_ns, s.st_mode, s.st_size)
    return out


class Call:
    """arguments, the files that exist before, what limits the process"""

    def __init__(self, args, files, room=-1, stdout='pipe', dirs=(), links=()):
        self.args, self.files, self.room, self.stdout, self.dirs, self.links = args, files, room, stdout, dirs, links

    def prepare(self, d):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chmod(d, 0o777)
        for n in self.dirs:
            os.mkdir(os.path.join(d, n))
        for n, b in self.files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b)
            os.chmod(os.path.join(d, n), 0o666)
        for n, t in self.links:
            os.symlink(t, os.path.join(d, n))

    def start(self, exe, d):
        room, so = self.room, self.stdout

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if room >= 0:
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
            if so == 'closed':
                os.close(1)
        out = open('/dev/full', 'wb') if so == 'full' else subprocess.DEVNULL if so == 'closed' else subprocess.PIPE
        # as nobody where a path outside the scratch directory is named
        who = dict(user=65534, group=65534, extra_groups=[]) if os.geteuid() == 0 and any(a.startswith('/') for a in self.args) else {}
        try:
            p = subprocess.run([exe] + self.args, cwd=d, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE,
                               preexec_fn=limits, restore_signals=False, timeout=60, **who)
        finally:
            if so == 'full':
                out.close()
        return p.returncode, (p.stdout or b'') + (p.stderr or b'')


def one(call, tool, ref, d):
    da, db = os.path.join(d, 'a'), os.path.join(d, 'b')
    call.prepare(da)
    before, s0 = snapshot(da), stamps(da)
    try:
        st, said = call.start(tool, da)
    except subprocess.TimeoutExpired:
        return dict(ev='hang', args=call.args)
    after, s1 = snapshot(da), stamps(da)
    lib, lst = [], 3
    if len(call.args) == 2:
        call.prepare(db)
        try:
            lst, _ = call.start(ref, db)
        except subprocess.TimeoutExpired:
            lst = 3
        lib = snapshot(db)
    spoke = 1 if call.stdout != 'pipe' or re.search(rb'(?i)\bus(e|age|ing)\b', said) else 0
    return dict(ev='cli', n=len(call.args), args=call.args, room=call.room, stdout=call.stdout, status=st, said=spoke, stamps=int(s0 == s1),
                before=before, after=after, libstatus=lst, lib=lib)


def calls(progs, seed, thorough):
    r = random.Random(seed)
    out = []

    def text(n=None):
        n = n or r.choice([1, 2, 3, 6, 11, 40])
        return bytes(r.choice([0, 1, 65, 66, 255]) for _ in range(n))
    for line in progs:
        w = line.split()
        files = {'text': text(), 'more': text(), 'empty': b''}
        m = {'nowhere': 'none/x', 'blank': ''}
        args = [m.get(k, k) for k in w[1:]]
        room = -1
        if w[0] == 'tight':
            if args[0] not in ('text', 'more'):
                continue
            room = r.randrange(0, len(files[args[0]]) + 8)
        out.append(Call(args, files, room, dirs=['dir']))
    f = {'in': b'banana', 'out': b'old', '-': b'minus', '--help': b'mississippi', 'a b': b'a b', '*': b'star', 'in ': b'blank', '\xc3\xa9': b'accent'}
    for args in (['-', 'out'], ['in', '-'], ['--help', 'out'], ['in', '--help'], ['in', '--version'], ['a b', 'out'], ['in', 'a b'], ['*', 'new'], ['in', '*'],
                 ['in ', 'out '], ['in', 'in'], ['in', './in'], ['in', '-o'], ['in', '>'], ['in', 'sub/../out'], ['in', '/dev/null'], ['in', '/dev/full'],
                 ['/dev/null', 'out'], ['in', 'sym'], ['sym', 'out'], ['sym', 'in'], ['dangling', 'out'], ['in', 'dangling'], ['loop', 'out'], ['in', 'loop'],
                 ['in', 'x' * 300], ['x' * 300, 'out'], ['in', 'x' * 255], ['in', 'out/'], ['in/', 'out'],
                 ['-h'], ['--help'], ['--version'], ['in'], ['out'], ['-'], [], [''], ['', '', ''], ['in', 'out', 'new'], ['in', 'out', ''], ['in', 'out', '-f'],
                 ['in', 'out', 'a b', '*'], ['-c', 'in', 'out'], ['in', 'out'] + ['x'] * 50, ['in', 'new', 'out'], ['-v', 'in', 'new'], ['in', 'out', 'in'], ['in', 'new', '&&'],
                 ['in', 'out'] * 128, ['in'] * 254, ['in'] * 255, ['in'] * 256, ['in'] * 257, ['in'] * 258, ['in', 'new'] + ['in'] * 256):
        out.append(Call(args, f, dirs=['sub'], links=[('sym', 'in'), ('dangling', 'nothing'), ('loop', 'loop')]))
    for so in ('closed', 'full'):
        for args in (['in', 'out'], ['in', 'new'], ['missing', 'out'], ['in', 'none/x'], ['in'], [], ['in', 'out', 'new']):
            out.append(Call(args, {'in': text(9), 'out': b'old'}, stdout=so))
    for n in (1, 4088, 4096, 5000, 70000) + ((300000,) if thorough else ()):
        t = bytes(r.randrange(1, 5) for _ in range(n))
        for a, extra in ((['in', 'new'], {}), (['in', 'out'], {'out': b'x' * (n + 50)}), (['in', 'in'], {})):
            out.append(Call(a, dict({'in': t}, **extra)))
        for room in (0, n - 1, n, n + 7, 4096):
            if room < n + 8:
                out.append(Call(['in', 'new'], {'in': t}, room))
    for _ in range(600 if thorough else 60):
        out.append(Call(['in', r.choice(['in', 'out', 'new'])], {'in': bytes(r.randrange(256) for _ in range(r.randrange(1, 300))), 'out': b'old'}))
    return out
