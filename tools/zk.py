"""Runs the commands of /repo and TLC for the checks (standard library only)."""
import atexit, base64, concurrent.futures, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ZKV_REPO', '/repo')
SEED = os.environ.get('VERIF_SEED', '1')
TLA = '/opt/veriftools/tla'
MONT = 2**256
R = 21888242871839275222246405745257275088548364400416034343698204186575808495617
WORK = tempfile.mkdtemp(prefix='zkv')
atexit.register(lambda: os.environ.get('ZKV_KEEP') or shutil.rmtree(WORK, ignore_errors=True))
GOENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
GOENV.setdefault('GOCACHE', os.path.expanduser('~/.cache/go-build'))
POOL = 8


class Broken(Exception):
    """the check can't be done"""


def path(*p):
    return os.path.join(WORK, *p)


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def gobuild(out, cwd, *args):
    p = subprocess.run(['go', 'build', '-buildvcs=false', '-o', out, *args], cwd=cwd, env=GOENV, capture_output=True, text=True)
    if p.returncode:
        raise Broken('%s cannot be built:\n%s' % (os.path.basename(out), p.stderr))
    return out


PLAIN = []


def overlay(extra=(), batch=True):
    """the recording generator and adjustable batches laid over the command"""
    ov = {REPO + '/' + n: os.path.join(VERIF, 'harness/overlay', n) for n in ('zz_verif.go', 'zz_verif_batch.go')[:1 + batch]}
    ov.update(extra)
    name = path('overlay%d.json' % len(ov))
    with open(name, 'w') as f:
        json.dump({'Replace': ov}, f)
    return name


def command(out, extra=(), *flags):
    """the command with adjustable batches; without them if the packages no longer have the hook's shape"""
    try:
        return gobuild(out, REPO, *flags, '-tags', 'verif', '-overlay', overlay(extra), '.')
    except Broken as e:
        gobuild(out, REPO, *flags, '-overlay', overlay(extra, False), '.')
        PLAIN.append('built without the hook for batches: %s' % str(e)[-300:])
        return out


def build_cli():
    return command(path('z'))


def build_faulty():
    """the command with writes that fail on demand, through package os"""
    root = subprocess.run(['go', 'env', 'GOROOT'], cwd=REPO, env=GOENV, capture_output=True, text=True).stdout.strip()
    text = {}
    for name, old, new in (('file_posix.go', r'(func \(f \*File\) write\(b \[\]byte\) \(n int, err error\) \{\n)', r'\1\tif n, err, done := verifWrite(f, b); done {\n\t\treturn n, err\n\t}\n'),
                           ('file_posix.go', r'(func \(f \*File\) pwrite\(b \[\]byte, off int64\) \(n int, err error\) \{\n)', r'\1\tif n, err, done := verifWrite(f, b); done {\n\t\treturn n, err\n\t}\n'),
                           ('env.go', r'(\ttestlog\.Getenv\(key\)\n)', r'\1\tverifEnv(key)\n'),
                           ('zero_copy_linux.go', r'(func \(f \*File\) readFrom\(r io.Reader\) \(written int64, handled bool, err error\) \{\n)', r'\1\tif true {\n\t\treturn 0, false, nil\n\t}\n')):
        t = text.get(name) or open(os.path.join(root, 'src/os', name)).read()
        text[name], n = re.subn(old, new, t)
        if n != (2 if name == 'env.go' else 1):
            raise Broken('package os has another shape')
    ov = {os.path.join(root, 'src/os/zz_verif_fault.go'): os.path.join(VERIF, 'harness/overlay/os/zz_verif_fault.go')}
    for name, t in text.items():
        with open(path(name), 'w') as f:
            f.write(t)
        ov[os.path.join(root, 'src/os', name)] = path(name)
    return command(path('zfault'), ov)


def build_ltool():
    return gobuild(path('ltool'), REPO, '-overlay', overlay({REPO + '/zz_ltool/main.go': os.path.join(VERIF, 'harness/overlay/ltool/main.go')}), './zz_ltool')


def build_race():
    GOENV['CGO_ENABLED'] = '1'
    return command(path('zrace'), (), '-race')


def build_tool(name):
    return gobuild(path(name), os.path.join(VERIF, 'harness'), './cmd/' + name)


BUILDERS = {'z': build_cli, 'zfault': build_faulty, 'ltool': build_ltool, 'zrace': build_race}


_java = threading.Lock()


def classes():
    with _java:
        d = path('cls')
        if not os.path.isdir(d):
            p = subprocess.run(['javac', '-cp', TLA + '/tla2tools.jar', '-d', d] + glob.glob(VERIF + '/java/*.java'), capture_output=True, text=True)
            if p.returncode:
                raise Broken('javac: ' + p.stderr)
        return d


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, module, text, rc, wall):
        self.module, self.text, self.rc, self.wall = module, text, rc, wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
        self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        m = re.findall(r'The number of states generated: ([\d,]+)', text)
        if m:
            self.generated = self.distinct = int(m[-1].replace(',', ''))
        self.ok = 'Model checking completed. No error has been found' in text
        self.violated = re.findall(r'(?:Invariant|Action property|Temporal properties?) (\w+)? ?(?:is|were) violated', text)


def tlc(module, env=None, config=None, consts=None, workers=POOL, xmx='6g', timeout=800, extra=()):
    """runs TLC on spec/<module>.tla; consts replaces lines NAME = ... of its configuration"""
    t = time.time()
    cfg = os.path.join(VERIF, 'spec', (config or module) + '.cfg')
    text = open(cfg).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(r'(?m)^(\s*%s\s*=).*$' % k, lambda m: m.group(1) + ' ' + str(v), text)
        assert n == 1, (module, k)
    tag = '%s-%d' % (module, threading.get_ident() % 100000)
    cfg = path(tag + '.cfg')
    with open(cfg, 'w') as f:
        f.write(text)
    meta = tempfile.mkdtemp(prefix='md', dir=WORK)
    cp = ':'.join([classes(), TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar'])
    cmd = ['java', '-Xmx' + xmx, '-Xss512m', '-XX:+UseParallelGC', '-cp', cp, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
           '-metadir', meta, *extra, '-config', cfg, os.path.join(VERIF, 'spec', module + '.tla')]
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, env=dict(os.environ, ZK_SEED=SEED, **(env or {})), capture_output=True, text=True, timeout=timeout, cwd=WORK)
            out, rc = p.stdout + p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b'').decode(errors='replace') + '\ntimeout', 124
        if rc >= 0 or attempt == 2:
            break
        # killed from outside (memory): once more
        for n in ('', '.bases'):
            n = (env or {}).get('ZK_OUT', '/dev/null') + n
            if os.path.isfile(n):
                os.remove(n)
    shutil.rmtree(meta, ignore_errors=True)
    r = Tlc(module, out, rc, time.time() - t)
    r.ok = r.ok or '-simulate' in extra and re.search(r'(?m)^Simulation using seed', out) is not None and not re.search(r'(?m)^Error:', out)
    if not r.ok and not r.violated:
        raise Broken('TLC on %s:\n%s' % (module, out[-4000:]))
    return r


def lines(name):
    with open(name) as f:
        return [json.loads(x) for x in f]


# ---------------------------------------------------------------- running the command
class Run:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        text = out.decode('utf-8', 'replace').lower()
        self.printed = re.findall(r'(?<![0-9a-f])[0-9a-f]{64}(?![0-9a-f])', text)


HUNG = []
LIMIT = 240


def run(args, cwd, env=None, cpus=None, fsize=None, timeout=None):
    """rc is the exit status, 1000+signal if killed, 999 after the time limit; commands that hang again and again aren't waited for so long"""
    if len(HUNG) >= 16:
        return Run(999, b'too many commands hang')
    timeout = min(timeout or LIMIT, 40 if HUNG else LIMIT)
    def pre():
        if cpus:
            os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[:cpus])
        if fsize is not None:
            import signal
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    e = {k: v for k, v in os.environ.items() if not k.startswith('ZKV_')}
    e.update(env or {})
    try:
        p = subprocess.run(args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout,
                           preexec_fn=pre if cpus or fsize is not None else None)
    except subprocess.TimeoutExpired:
        if timeout > 30 or HUNG:
            HUNG.append(args)
        return Run(999, b'time limit')
    return Run(p.returncode if p.returncode >= 0 else 1000 - p.returncode, p.stdout)


def write(name, data):
    """bytes, or pieces of a file with holes"""
    with open(name, 'wb') as h:
        if isinstance(data, bytes):
            h.write(data)
            return
        head = bytes.fromhex(data['head'])
        h.write(head)
        for p in data['pieces']:
            h.seek(len(head) + data['unit'] * p['at'])
            h.write(bytes.fromhex(p['bytes']))
        h.truncate(len(head) + data['unit'] * data['units'])


def asked(name):
    """environment variables that the command asked for, apart from those of the system"""
    if not os.path.exists(name):
        return set()
    return {k for k in open(name, errors='replace').read().split('\n') if k and not k.startswith(('ZKV_', 'GO', 'XDG_')) and k not in ('TMPDIR', 'HOME', 'PATH', 'PWD', 'USER')}


ASKED = set()


def gob(b):
    """the length of a gob of a type and a value"""
    p = 0
    for _ in 2 * 'x':
        k = 256 - b[p] if len(b) > p and b[p] > 127 else 0
        n = int.from_bytes(b[p + 1:p + 1 + k], 'big') if k else b[p] if len(b) > p else 0
        p += 1 + k + n
    return p


def content(name):
    """None also for a file too large to be looked at"""
    try:
        if os.stat(name).st_size > 1 << 30:
            return None
        with open(name, 'rb') as f:
            return f.read()
    except OSError:
        return None


def state(name):
    """what changes when a file changes"""
    try:
        t = os.stat(name)
    except OSError:
        return None
    return content(name) if t.st_size < 1 << 22 else (t.st_size, t.st_mtime_ns)


def hexof(name, again=b''):
    """the content of a file, without a long repetition of records"""
    b = content(name)
    if b and again:
        i = b.find(again)
        b = (b[:i] + b[i + len(again):] if i >= 0 else b)[:1 << 20]
    return '-' if b is None else b.hex()


def candidates(draws):
    """what the random bytes may stand for, for the search for leaks"""
    rinv = pow(2, -256, R)
    res = set()
    for d in draws:
        b = bytes.fromhex(d)
        for o in range(0, len(b) - 31, 32):
            w = b[o:o + 32]
            le, be = int.from_bytes(w, 'little'), int.from_bytes(w, 'big')
            m = (1 << 254) - 1
            for x in (le & m, be & m):
                res |= {x % R, x * rinv % R}
    return res


def draw(x, high=0):
    """the random bytes that give the field element x"""
    b = bytearray((x * 2**256 % R).to_bytes(32, 'little'))
    b[31] |= high << 6      # bits that are cut off
    return b.hex()


DIGITS = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def digits(x, base):
    s = ''
    while x:
        x, d = divmod(x, base)
        s = DIGITS[d] + s
    return s


def written(b):
    """the bytes written to every file, from what the laid over package os records; the names count, too"""
    res, i = {'file names': b''}, 0
    while i < len(b):
        j = b.index(b'\n', i)
        name, size = b[i:j].rsplit(b' ', 1)
        i = j + 1 + int(size)
        n = name.decode('utf-8', 'replace')
        if n not in res:
            res[n] = b''
            res['file names'] += name + b'\n'
        res[n] += b[j + 1:i]
    return res


THOROUGH_LEAKS = False


def leaks(draws, blobs):
    """names of the blobs that contain a piece of a secret, its inverse, negative or square, in binary, hexadecimal, decimal (also word by word) or base64"""
    needles = {}
    for x in candidates(draws):
        for v in {x, pow(x, -1, R) if x else 0, -x % R, x * x % R} if THOROUGH_LEAKS else {x}:
            for y in (v, v * MONT % R):
                be = y.to_bytes(32, 'big')
                for w in (be, be[::-1]):
                    for o in (0, 8, 16, 24):
                        p = w[o:o + 8]
                        if len(set(p)) >= 6:
                            needles[p] = 'binary'
                    h = w.hex()
                    for o in range(2, 52, 12):
                        if len(set(h[o:o + 12])) >= 4:
                            needles[h[o:o + 12].encode()] = 'hexadecimal'
                    for o in (0, 6, 12) if THOROUGH_LEAKS else ():
                        if len(set(w[o:o + 12])) >= 8:
                            needles[base64.b64encode(w[o:o + 12])] = needles[base64.urlsafe_b64encode(w[o:o + 12])] = 'base64'
                for base in range(2, 63) if THOROUGH_LEAKS and v == x else ():
                    d = digits(y, base)
                    if len(d) > 30:
                        for d in {d, d.lower() if base > 36 else d.upper()}:
                            needles[d[:150].encode()] = 'base %d' % base
                d = str(y)
                if len(d) > 60:
                    needles[d[:18].encode()] = 'decimal'
                    needles[d[-18:].encode()] = 'decimal'
                for o in (0, 8, 16, 24):
                    d = str(int.from_bytes(be[o:o + 8], 'big'))
                    if len(d) > 17 and len(set(d)) > 5:
                        needles[d.encode()] = 'decimal words'
    found = []
    for name, b in blobs.items():
        low = b.lower()
        for n, how in needles.items():
            if n in (low if how == 'hexadecimal' else b):
                found.append('%s in %s' % (how, name))
                break
    return found


# ---------------------------------------------------------------- scenarios
class Scenario:
    """a sequence of steps run in a directory of its own; see spec/Trace.tla for their meaning"""

    def __init__(self, name):
        self.name, self.plan, self.steps, self.env = name, [], [], {}
        self.powers = {}
        self.dims = {}
        self.again = b''
        self.seed, self.cpus, self.tool, self.fsize = name, None, 'z', None

    def variant(self, name, batch=None, cpus=None, tool='z', env=None):
        """the same plan with the same random draws, run in another way"""
        s = Scenario(name)
        s.plan, s.powers, s.dims, s.env = [dict(e) for e in self.plan], dict(self.powers), dict(self.dims), dict(self.env, **(env or {}))
        s.seed, s.cpus, s.tool, s.fsize = self.seed, cpus, tool, self.fsize
        if batch:
            s.env['ZKV_BATCH'] = str(batch)
        return s

    def batch(self, n):
        if n:
            self.env['ZKV_BATCH'] = str(n)
        return self

    def add(self, op, **kw):
        self.plan.append(dict(op=op, **kw))
        return self

    # files of the specification
    def mk1(self, out, power, logs='unit', n=0, junk='no', left=0):
        self.powers[out] = power
        return self.add('mk1', out=out, power=power, logs=logs, n=n, junk=junk, left=left)

    def mkppot(self, out, power, logs='pp', random=False):
        self.powers[out] = power
        return self.add('mkppot', out=out, power=power, logs=logs, random=random)

    # only the beginnings of sections, as of a file of power prefix, and holes
    def mk1s(self, out, power, prefix, logs='x'):
        self.powers[out], self.fsize = power, 1 << 27
        return self.add('mk1s', out=out, power=power, prefix=prefix, logs=logs)

    def mkppots(self, out, power, prefix, logs='pp'):
        self.powers[out], self.fsize = power, 1 << 27
        return self.add('mkppots', out=out, power=power, prefix=prefix, logs=logs)

    def mk2(self, out, logs, wires, witness, public, committed, constraints, domain, zeros='none', n=0, junk='no', left=0):
        self.dims[out] = domain - 1 + witness
        return self.add('mk2', out=out, logs=logs, wires=wires, witness=witness, public=public, committed=committed, constraints=constraints,
                        domain=domain, zeros=zeros, n=n, junk=junk, left=left)

    def mkev(self, logs, wires, public, committed, zeros='none', out='evals'):
        return self.add('mkev', out=out, logs=logs, wires=wires, public=public, committed=committed, zeros=zeros)

    # commands
    def p1n(self, power, out):
        self.powers[out] = power
        return self.add('p1n', power=power, out=out)

    def p1c(self, i, out, light=False, **kw):
        self.powers[out] = self.powers[i]
        return self.add('p1c', **{'in': i}, out=out, power=self.powers[i], light=light, **kw)

    def chain1(self, i, n, light=False, stem='c'):
        """n contributions on top of file i; the last file's name"""
        for j in range(n):
            o = '%s.%s%d' % (i.split('.')[0], stem, j + 1) if j == 0 else re.sub(r'\d+$', str(j + 1), last)
            self.p1c(i if j == 0 else last, o, light)
            last = o
        return last if n else i

    def alter(self, i, out, how, section, a, b=0):
        """a copy of a file with elements of a section (of sections for phase 1, the elements over delta for phase 2) or records altered; places from 1"""
        if i in self.powers:
            self.powers[out] = self.powers[i]
        return self.add('alter', **{'in': i}, out=out, how=how, section=section, a=a, b=b)

    def p1v(self, i, base='-'):
        return self.add('p1v', **{'in': i}, base=base)

    def p1t(self, i, out, original, reduced):
        self.powers[out] = reduced
        return self.add('p1t', **{'in': i}, out=out, original=original, reduced=reduced)

    def behaviour(self, plan, pool, part):
        """a plan of Ceremony.tla; pool: the circuits"""
        for e in plan:
            e = dict(e)
            op = e.pop('op')
            if op == 'circuit':
                self.circuit(pool[e['k'] - 1], [part])
                continue
            if op == 'mk1':
                e.update(junk='no', left=0)
            elif op == 'mkppot':
                e.update(logs='pp', random=False)
            elif op in ('p1c', 'p2c'):
                e['light'] = False
            elif op == 'p2np':
                e.update(part=part, delta=0, unread='')
            elif op == 'prove':
                e['prop'] = 'C12'
            elif op == 'proveparts':
                e['prop'] = 'C13'
            if op in ('mk1', 'p1n'):
                self.powers[e['out']] = e['power']
            elif op == 'mkppot':
                self.powers['pp'] = e['power']
            elif op == 'p1t':
                self.powers[e['out']] = e['reduced']
            elif op in ('p1c', 'p2n', 'p2np'):
                e['power'] = self.powers[e['in']]
                if op == 'p1c':
                    self.powers[e['out']] = e['power']
            self.add(op, **e)
        return self

    def circuit(self, spec, parts=()):
        return self.add('circuit', spec=spec, parts=list(parts))

    def p2n(self, i, out):
        self.dims[out] = None
        return self.add('p2n', **{'in': i}, out=out, power=self.powers[i])

    def p2np(self, i, out, ref, part, delta=0, unread=''):
        """delta: added to the number of constraints; unread: the stated numbers leave out the 'last' part or 'all', or the number of stored constraints does ('stored')"""
        return self.add('p2np', **{'in': i}, out=out, ref=ref, part=part, delta=delta, unread=unread, power=self.powers[i])

    def p2c(self, i, out, light=False, **kw):
        self.dims[out] = self.dims[i]
        return self.add('p2c', **{'in': i}, out=out, light=light, **kw)

    def chain2(self, i, n, light=False, stem='c'):
        last = i
        for j in range(n):
            o = '%s.%s%d' % (i.split('.')[0], stem, j + 1)
            self.p2c(last, o, light)
            last = o
        return last

    def p2v(self, i, base, same=True):
        return self.add('p2v', **{'in': i}, base=base, same=same)

    def key(self, i):
        return self.add('key', **{'in': i})

    def keys(self, i, session):
        return self.add('keys', **{'in': i}, session=session)

    def sol(self, session):
        return self.add('sol', session=session)

    def prove(self, prop='C12'):
        return self.add('prove', prop=prop)

    def proveparts(self, session, part):
        return self.add('proveparts', session=session, part=part, prop='C13')

    # ------------------------------------------------------------
    def execute(self, files, env=None, cpus=None):
        """runs the plan; files: bytes of the inputs made by the specification, by position"""
        self.dir = path('s', re.sub(r'[^\w.-]', '_', self.name))
        tmp = path('t', os.path.basename(self.dir))
        env = dict(self.env, **(env or {}))
        os.makedirs(self.dir)
        os.makedirs(tmp)
        self.outputs, self.digests = {}, {}
        self.circ = None
        self.live = dict(self.dims)
        for pos, st in enumerate(self.plan):
            e = dict(st)
            op = e['op']
            f = lambda n: os.path.join(self.dir, n)
            for k in ('out', 'session'):
                if e.get(k):
                    os.makedirs(os.path.dirname(f(e[k])), exist_ok=True)
            if op.startswith('mk'):
                write(f(e['out']), files[pos])
                self.steps.append(e)
                continue
            if op == 'alter':
                self.altered(e)
                self.steps.append(e)
                continue
            if op == 'circuit':
                p = run([TOOLS['gtool'], 'gen', e['spec'], self.dir] + [str(x) for x in e['parts']], self.dir)
                if p.rc:
                    raise Broken('gtool: ' + p.out.decode())
                self.circ = json.load(open(f('c.json')))
                self.spec = e['spec']
                continue
            if op in ('prove', 'proveparts'):
                a = [TOOLS['gtool'], op, self.spec, self.dir]
                if op == 'proveparts':
                    a += [e['session'], str(e['part'])]
                p = run(a, self.dir)
                m = re.findall(rb'^OUTCOME (.*)$', p.out, re.M)
                r = json.loads(m[-1]) if m else dict(proved=False, verified=False, wrong=[], error=p.out.decode('utf-8', 'replace')[-200:])
                e.update(r, honest=e.get('honest', True), committed=self.circ['commitment'] != -1, op='prove',
                         used=[any(int(t[1], 16) for m in 'ABC' for t in self.circ[m][w]) for w in range(1, self.circ['public'])])
                self.steps.append(e)
                continue
            logf, dataf = os.path.join(tmp, 'draws'), os.path.join(tmp, 'data')
            for n in (logf, dataf):
                if os.path.exists(n):
                    os.remove(n)
            ev = {'ZKV_RAND': '%s/%s/%d' % (SEED, self.seed, pos), 'ZKV_LOG': logf, 'TMPDIR': self.dir, 'HOME': self.dir}
            if self.tool == 'zfault':
                ev.update(ZKV_DATA=dataf, ZKV_ENV=os.path.join(tmp, 'asked'))
            ev.update(env or {})
            ev.update(e.pop('env', {}))
            if op == 'p1n':
                args = [e['power'], e['out']]
            elif op in ('p1c', 'p2c'):
                args = [e['in'], e['out']]
            elif op == 'p1v':
                args = [e['in']] + ([e['base']] if e['base'] != '-' else [])
            elif op == 'p1t':
                args = [e['in'], e['out'], e['original'], e['reduced']]
            elif op == 'p2n':
                args = [e['in'], 'c.r1cs', e['out']]
            elif op == 'p2np':
                unread, stored, part = e.pop('unread'), self.circ['nbR1C'], e['part']
                e['stored'] = 0 if unread == 'all' else (stored - 1) // part * part if unread else stored
                e['constraints'] = self.circ['constraints'] + e.pop('delta') - (stored - e['stored'] if unread in ('last', 'all') else 0)
                args = [e['in'], 's%d' % part, e['out'], e['constraints'], e['stored'], part]
            elif op == 'p2v':
                args = [e['in'], e['base']]
            elif op == 'key':
                args = [e['in']]
            elif op == 'keys':
                args = [e['in'], e['session']]
            elif op == 'sol':
                args = [e['session']]
            else:
                raise Broken(op)
            name = 'p1vt' if op == 'p1v' and e['base'] != '-' else op
            before = {n: content(f(n)) for n in os.listdir(self.dir)} if op in ('p1c', 'p2c') else {}
            # initialization from parts is compared with the one before; its work files don't stay
            if op == 'p2np':
                held = {n: content(f(n)) for n in ('evals', 'srs.lag')}
            # a file left from before isn't an output
            for n in {'key': ['pk', 'vk'], 'p2n': ['evals', 'srs.lag'], 'p2np': ['evals', 'srs.lag']}.get(op, []):
                if os.path.exists(f(n)):
                    os.remove(f(n))
            given = [e[k] for k in ('in', 'base') if e.get(k, '-') != '-'] + {'p2n': ['c.r1cs'], 'key': ['evals'], 'keys': ['evals'], 'sol': ['%s.vk.save' % e.get('session')]}.get(op, [])
            if op == 'p2np':
                given += [n for n in os.listdir(self.dir) if n.startswith('s%d.' % e['part'])]
            given = {n: state(f(n)) for n in given}
            grind, k = e.pop('grind', None), 0
            while True:
                p = run([TOOLS[self.tool], name] + [str(a) for a in args], self.dir, ev, cpus or self.cpus, self.fsize)
                h = (content(f(e['out'])) or b'')[-32:] if grind and p.rc == 0 else b''
                # other draws until the record's hash begins or ends with a byte
                if k == 4000 or not h or (h[:1] if grind[0] == 'first' else h[-1:]) == bytes([grind[1]]):
                    break
                k += 1
                ev['ZKV_RAND'] = '%s/%s/%d/%d' % (SEED, self.seed, pos, k)
                for n in (logf, dataf):
                    if os.path.exists(n):
                        os.remove(n)
            e['touched'] = [n for n, b in given.items() if state(f(n)) != b]
            if self.tool == 'zfault':
                ASKED.update(asked(os.path.join(tmp, 'asked')))
            self.outputs[pos] = p.out
            e['rc'] = p.rc
            e['printed'] = p.printed
            made = {'key': ['pk', 'vk'], 'sol': ['%s.sol' % e.get('session')], 'p2n': [e.get('out'), 'evals', 'srs.lag'], 'p2np': [e.get('out'), 'evals', 'srs.lag'],
                    'keys': ['%s.%s.save' % (e.get('session'), q) for q in ('pk.E', 'pk.A', 'pk.B1', 'pk.Z', 'pk.K', 'pk.B2', 'pk.CommitmentKey', 'vk')]}.get(op, [e['out']] if 'out' in e else [])
            self.digests[pos] = [op, p.rc == 0, p.printed] + [hashlib.sha256(content(f(n)) or b'').hexdigest() if p.rc == 0 else '' for n in made]
            if op in ('p1n', 'p1c', 'p1t', 'p2n', 'p2np', 'p2c') and not e.get('light'):
                e['o'] = hexof(f(e['out']), self.again)
            if op in ('p1c', 'p2c', 'p1v', 'p2v', 'key', 'keys'):
                e['draws'] = open(logf).read().split() if os.path.exists(logf) else []
            if op in ('p1c', 'p2c'):
                blobs = {n: content(f(n)) for n in os.listdir(self.dir)}
                blobs = {n: b.replace(self.again, b'') if self.again else b for n, b in blobs.items() if b is not None and before.get(n) != b}
                blobs['output'] = p.out
                if self.tool == 'zfault' and os.path.exists(dataf):
                    for n, b in written(content(dataf)).items():
                        blobs['what is written to ' + n] = b
                    os.remove(dataf)
                e['leaks'] = [] if e.get('light') else leaks(e['draws'], blobs)
            if op in ('p2n', 'p2np'):
                e['evals'], e['lag'] = hexof(f('evals')), hexof(f('srs.lag'))
                e['circuit'] = self.circ
            if op == 'p2np':
                for n, b in held.items():
                    if b is not None:
                        with open(f(n), 'wb') as h:
                            h.write(b)
            if op in ('p2n', 'p2np'):
                self.live[e['out']] = self.points(None)
            if op == 'p2c':
                self.live[e['out']] = self.live[e['in']]
            if op == 'p2v':
                e['several'] = self.points(e['in']) > 2
            if op == 'p2c':
                e['points'] = self.points(e['in'])
            if op == 'key':
                e['pk'], e['vk'] = hexof(f('pk')), hexof(f('vk'))
            if op == 'keys':
                s = e['session']
                e['vk'] = hexof(f(s + '.vk.save'))
                e['split'] = {q: hexof(f('%s.pk.%s.save' % (s, q))) for q in ('A', 'B1', 'B2', 'Z', 'K', 'E')}
                e['commitmentKey'] = hexof(f(s + '.pk.CommitmentKey.save'))
            if op == 'sol':
                t = (content(f(e['session'] + '.sol')) or b'').decode('utf-8', 'replace')
                e['sol'] = re.findall(r'uint256\((\d+)\)', t)
                e['inputs'] = (re.findall(r'uint256\[(\d+)\]\s+(?:calldata|memory)\s+input\b', t) or ['none'])[-1]
            self.steps.append(e)

    def altered(self, e):
        f = lambda n: os.path.join(self.dir, n)
        b = bytearray(content(f(e['in'])) or b'')
        e['count'] = [0, 0]
        if e['section'] in ('record1', 'record2'):
            return self.forged(e, b)
        if e['section'] == 'delta':
            e.update(phase=2, points=self.live[e['in']], header=bytes(b[:gob(b)]).hex())
            start, w = gob(b) + 96, 32
            self.live[e['out']] = e['points']
        else:
            n = 1 << self.powers[e['in']]
            e.update(phase=1, power=self.powers[e['in']])
            start, w = {'tauG1': (0, 32), 'alphaG1': (2*n - 1, 32), 'betaG1': (3*n - 1, 32), 'tauG2': (4*n - 1, 64), 'betaG2': (6*n - 1, 64)}[e['section']]
            start = 3 + 32*start
        i, j = start + w*(e['a'] - 1), start + w*(e['b'] - 1)
        x, y = bytes(b[i:i + w]), bytes(b[j:j + w])
        e['patches'] = []
        # the file isn't one of the format if it is too short
        if len(x) == w and (e['how'] not in ('copy', 'swap') or len(y) == w):
            new = {'negate': bytes([x[0] ^ 0x40]) + x[1:], 'infinity': b'\x40' + bytes(w - 1), 'copy': y, 'swap': y}[e['how']]
            todo = [(i, x, new)] + ([(j, y, x)] if e['how'] == 'swap' else [])
            for at, old, new in todo:
                b[at:at + w] = new
                e['patches'].append(dict(at=at, old=old.hex(), new=new.hex()))
        write(f(e['out']), bytes(b))

    def forged(self, e, b):
        """other records; copies may be negated with (rehash) or without their hash"""
        if e['section'] == 'record2':
            e.update(phase=2, points=self.live[e['in']], header=bytes(b[:gob(b)]).hex())
            start, w = gob(b) + 96 + 32*e['points'], 192
            self.live[e['out']] = e['points']
        else:
            n = 1 << self.powers[e['in']]
            e.update(phase=1, power=self.powers[e['in']])
            start, w = 3 + 32*(4*n - 1) + 64*(n + 1), 640
        i, j = start + w*(e['a'] - 1), start + w*(e['b'] - 1)
        x, y = bytes(b[i:i + w]), bytes(b[j:j + w])
        e['patches'] = []
        if len(x) == w == len(y):
            if e['how'] in ('drop', 'repeat'):
                k = int.from_bytes(b[1:3], 'big')
                e['count'] = [k, k + (1 if e['how'] == 'repeat' else -1)]
                b[1:3] = e['count'][1].to_bytes(2, 'big')
                b[i:i + w] = b'' if e['how'] == 'drop' else x + x
            else:
                neg = bytes([x[0] ^ 0x40]) + x[1:]
                new = {'negate': neg, 'rehash': neg[:-32] + hashlib.sha256(neg[:-32]).digest(), 'hash': x[:-1] + bytes([x[-1] ^ 1]), 'copy': y, 'swap': y}[e['how']]
                for at, old, new in [(i, x, new)] + ([(j, y, x)] if e['how'] == 'swap' else []):
                    b[at:at + w] = new
                    e['patches'].append(dict(at=at, old=old.hex(), new=new.hex()))
        write(self.dir + '/' + e['out'], bytes(b))

    def points(self, name):
        """number of elements over delta in a phase 2 file"""
        d = self.live.get(name)
        if d is not None:
            return d
        c = self.circ
        n = 2
        while n < c['constraints']:
            n *= 2
        private = c['wires'] - c['public'] - len(c['committed']) - (1 if c['commitment'] != -1 else 0)
        return n - 1 + private


TOOLS = {}


def trim(c):
    return {k: c[k] for k in ('public', 'wires', 'constraints', 'nbR1C', 'committed', 'commitment', 'info', 'A', 'B', 'C')}


def same(a, b, prop, what):
    """a scenario that states that two others had the same effects"""
    s = Scenario('same-%s-%s' % (a.name, b.name))
    for pos, d in sorted(a.digests.items()):
        s.steps.append(dict(op='same', a=d, b=b.digests[pos], prop=prop, what='%s, step %d (%s): other results %s' % (b.name, pos + 1, d[0], what)))
    return s


def play(scenarios, env=None, cpus=None):
    """executes scenarios (in parallel) with the inputs of the specification"""
    scenarios = list(scenarios)
    names = [s.name for s in scenarios]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    inp = path('inputs.ndjson')
    with open(inp, 'w') as f:
        for s in scenarios:
            f.write(json.dumps({'name': s.name, 'steps': [e if e['op'].startswith('mk') else {'op': 'other'} for e in s.plan]}) + '\n')
    files = {}
    if any(e['op'].startswith('mk') for s in scenarios for e in s.plan):
        out = path('made.ndjson')
        tlc('MkInputs', {'ZK_IN': inp, 'ZK_OUT': out})
        for d in lines(out):
            again = bytes.fromhex(d['again']) * scenarios[d['scn'] - 1].plan[d['line'] - 1].get('left', 0)
            files[d['scn'] - 1, d['line'] - 1] = d['pieces'][0] if d['pieces'] else bytes.fromhex(d['bytes']) + again
            if again:
                scenarios[d['scn'] - 1].again = again
    with concurrent.futures.ThreadPoolExecutor(POOL) as ex:
        for r in [ex.submit(s.execute, {p: b for (i, p), b in files.items() if i == k}, env, cpus) for k, s in enumerate(scenarios)]:
            r.result()
    return scenarios


def validate(scenarios, label='trace'):
    """checks the recorded steps against Trace.tla; (deviations, TLC run)"""
    inp, out = path(label + '.ndjson'), path(label + '.out')
    with open(inp, 'w') as f:
        for s in scenarios:
            steps = []
            for e in s.steps:
                e = dict(e)
                if 'circuit' in e:
                    e['circuit'] = trim(e['circuit'])
                steps.append(e)
            f.write(json.dumps({'name': s.name, 'steps': steps}) + '\n')
    if os.path.exists(out):
        os.remove(out)
    r = tlc('Trace', {'ZK_IN': inp, 'ZK_OUT': out}, xmx='12g')
    res = lines(out) if os.path.exists(out) else []
    ended = {d['scn'] for d in res if d['kind'] == 'end'}
    if ended != set(range(1, len(scenarios) + 1)):
        raise Broken('scenarios not validated to their end: %s' % [s.name for i, s in enumerate(scenarios) if i + 1 not in ended])
    return [d for d in res if d['kind'] == 'bad'], r
