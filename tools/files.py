"""C17, C18, C22: the commands and their files (Commands.tla, Workspace.tla, Fault.tla, Cli.tla)."""
import concurrent.futures, glob, json, os, shutil, tempfile
import zk

SPLIT = ['S.pk.%s.save' % q for q in ('E', 'A', 'B1', 'Z', 'K', 'B2', 'CommitmentKey')] + ['S.vk.save']


class Stage:
    """a directory with inputs for all commands; sizes differ between stages"""

    def __init__(self, name, power, spec, n=1, part=3, logs='x', twin=None):
        self.name, self.power, self.spec, self.n, self.part, self.logs, self.twin = name, power, spec, n, part, logs, twin

    def scenario(self):
        s = zk.Scenario('stage-' + self.name)
        s.mk1('a', self.power, self.logs, self.n)
        s.mk1('abase', self.power, self.logs, 0)
        s.mkppot('pp', self.power, 'pp' + self.logs)
        s.circuit(self.spec, [self.part])
        s.mk1('v', self.power, 'unit', self.n)
        s.p2n('a', 'b')
        s.p2c('b', 'c', True)
        s.keys('b', 'S')
        return s

    def built(self, s):
        self.dir = s.dir
        self.circ = s.circ
        return self

    def args(self, cmd, name=lambda slot: slot):
        """the command's arguments; name gives the path of an argument"""
        p, c = self.power, self.circ
        return [str(x) for x in {
            'p1n': [p, name('out')], 'p1c': [name('in'), name('out')], 'p1v': [name('in')], 'p1vt': [name('in'), name('origin')],
            'p1t': [name('in'), name('out'), p, max(p - 1, 1)], 'p2n': [name('in'), name('r1cs'), name('out')],
            'p2np': [name('in'), 'P', name('out'), c['constraints'], c['nbR1C'], self.part],
            'p2c': [name('in'), name('out')], 'p2v': [name('in'), name('origin')], 'key': [name('in')], 'keys': [name('in'), 'S'], 'sol': ['S']}[cmd]]

    # input files by slot: the stage's file
    IN = {'p1c': {'in': 'a'}, 'p1v': {'in': 'v'}, 'p1vt': {'in': 'a', 'origin': 'abase'}, 'p1t': {'in': 'pp'}, 'p2n': {'in': 'a', 'r1cs': 'c.r1cs'},
          'p2np': {'in': 'a'}, 'p2c': {'in': 'b'}, 'p2v': {'in': 'c', 'origin': 'b'}, 'key': {'in': 'c', 'evals': 'evals'}, 'keys': {'in': 'c', 'evals': 'evals'},
          'sol': {'S.vk.save': 'S.vk.save'}, 'p1n': {}}
    OUT = {'p1n': ['out'], 'p1c': ['out'], 'p1t': ['out'], 'p2c': ['out'], 'p2n': ['out', 'srs.lag', 'evals'], 'p2np': ['out', 'srs.lag', 'evals'],
           'key': ['pk', 'vk'], 'keys': SPLIT, 'sol': ['S.sol'], 'p1v': [], 'p1vt': [], 'p2v': []}

    def inputs(self, cmd):
        r = dict(self.IN[cmd])
        if cmd == 'p2np':
            for f in glob.glob(os.path.join(self.dir, 's%d.*' % self.part)):
                r['P' + os.path.basename(f)[len('s%d' % self.part):]] = os.path.basename(f)
        return r

    def lay(self, cmd):
        """a fresh directory with copies of the command's inputs"""
        d = tempfile.mkdtemp(dir=zk.WORK)
        for slot, f in self.inputs(cmd).items():
            shutil.copyfile(os.path.join(self.dir, f), os.path.join(d, slot))
        return d

    def missing(self, cmd):
        return [f for f in self.inputs(cmd).values() if not os.path.exists(os.path.join(self.dir, f))]


def stages(c, which):
    c.need('z', 'gtool')
    pairs = [(st, st.scenario()) for st in which]
    zk.play([s for _, s in pairs])
    return [st.built(s) for st, s in pairs]


def read(d, names):
    return {n: zk.content(os.path.join(d, n)) if os.path.isfile(os.path.join(d, n)) else None for n in names}


def reference(c, st, cmd, tool='z', env=None):
    """outputs of an undisturbed run, or None"""
    if st.missing(cmd):
        c.notes.append('%s of stage %s left out: no %s' % (cmd, st.name, st.missing(cmd)))
        return None
    d = st.lay(cmd)
    p = zk.run([zk.TOOLS[tool], cmd] + st.args(cmd), d, dict({'ZKV_RAND': 'ref'}, **(env or {})))
    r = read(d, st.OUT[cmd])
    shutil.rmtree(d)
    if p.rc:
        c.notes.append('%s of stage %s left out: it fails undisturbed: %s' % (cmd, st.name, p.out[-200:].decode('utf-8', 'replace')))
        zk.log(c.notes[-1])
        return None
    return r


def compare(ref, got, exact):
    """names of outputs that aren't complete"""
    return [n for n in ref if got[n] is None or (got[n] != ref[n] if exact else len(got[n]) != len(ref[n] or b''))]


# ---------------------------------------------------------------- C18
def respell(kind, d, name):
    return {'same': name, 'dotted': './' + name, 'absolute': os.path.join(d, name), 'through': '../%s/%s' % (os.path.basename(d), name)}[kind]


class Watch:
    """names created, written, renamed or removed in a directory, through inotify"""

    def __init__(self, d):
        import ctypes
        libc = ctypes.CDLL(None, use_errno=True)
        self.fd = libc.inotify_init1(os.O_NONBLOCK)
        if self.fd < 0 or libc.inotify_add_watch(self.fd, d.encode(), 0x2 | 0x8 | 0x40 | 0x80 | 0x100 | 0x200) < 0:
            raise zk.Broken('inotify')

    def names(self):
        res, b = set(), b''
        while True:
            try:
                b = os.read(self.fd, 1 << 20)
            except BlockingIOError:
                break
            while b:
                n = int.from_bytes(b[12:16], 'little')
                res.add(b[16:16 + n].rstrip(b'\0').decode())
                b = b[16 + n:]
        os.close(self.fd)
        return res


def workfiles(st, cmd):
    """files the command makes, for a while or for good, besides its inputs and outputs"""
    d = st.lay(cmd)
    w = Watch(d)
    zk.run([zk.TOOLS['z'], cmd] + st.args(cmd), d, {'ZKV_RAND': 'ref'})
    shutil.rmtree(d, ignore_errors=True)
    return sorted(w.names() - set(st.OUT[cmd]) - set(st.inputs(cmd)) - {''})


def alias(st, v):
    """lays out the directory of an alias: (directory, arguments, files whose content must stay)"""
    cmd, o, i, k = v['cmd'], v['out'], v['in'], v['kind']
    d = st.lay(cmd)
    at = lambda n: os.path.join(d, n)
    files = st.inputs(cmd)
    if i == 'P.r1cs.Cons':
        i = sorted(f for f in files if f.startswith('P.r1cs.Cons.'))[0]
    name = {s: s for s in ('in', 'out', 'origin', 'r1cs')}
    held = {s: s for s in files}
    argument = lambda s: s in name
    if k == 'stale':
        for n in st.OUT[cmd]:
            with open(at(n), 'wb') as f:
                f.write(b'something older that is longer than what will be written ' * 40000)
    elif k == 'twice':
        name['out'] = i
    elif k in ('same', 'dotted', 'absolute', 'through'):
        if argument(o):
            name[o] = respell(k, d, i)
        else:
            os.rename(at(i), at(o))
            held[i] = o
            name[i] = respell(k, d, o)
    elif k == 'symlink':
        os.symlink(i, at(o))
    elif k == 'chain':
        os.symlink(i, at('link'))
        os.symlink(at('link'), at(o))
    elif k == 'hardlink':
        os.link(at(i), at(o))
    elif k == 'back':
        os.rename(at(i), at(o))
        os.symlink(o, at(i))
        held[i] = o
    return d, st.args(cmd, lambda s: name[s]), {at(h): files[s] for s, h in held.items()}


def c18(c):
    sts = stages(c, [Stage('small', 3, 'pub=1,sec=2,mul=4'), Stage('commit', 5, 'pub=2,sec=3,mul=9,commit=2')] if c.thorough else [Stage('small', 4, 'pub=1,sec=2,mul=4,commit=1')])
    out = zk.path('workspace.ndjson')
    r = zk.tlc('Workspace', {'ZK_OUT': out})
    c.count(r)
    c.models.append('Workspace: %d states' % r.distinct)
    vs = [v for v in zk.lines(out) if v['kind'] != 'twice']
    ok = {(st.name, cmd) for st in sts for cmd in st.OUT if reference(c, st, cmd) is not None}

    def one(j):
        st, v = j
        d, args, held = alias(st, v)
        try:
            p = zk.run([zk.TOOLS['z'], v['cmd']] + args, d, {'ZKV_RAND': 'ref'})
            changed = [os.path.relpath(f, d) for f, orig in held.items() if zk.content(f) != zk.content(os.path.join(st.dir, orig))]
            return st, v, args, p, changed
        finally:
            shutil.rmtree(d)
    work = {(st.name, cmd): workfiles(st, cmd) for st in sts for cmd in st.OUT if (st.name, cmd) in ok}
    jobs = [(st, v) for st in sts for v in vs if (st.name, v['cmd']) in ok and v['out'] != 'work']
    jobs += [(st, dict(v, out=w)) for st in sts for v in vs if v['out'] == 'work' for w in work.get((st.name, v['cmd']), [])]
    c.notes.append('work files seen besides the outputs: %s' % ({'%s of %s' % k[::-1]: w for k, w in work.items() if w} or 'none'))
    counts = {}
    with concurrent.futures.ThreadPoolExecutor(zk.POOL) as ex:
        for st, v, args, p, changed in ex.map(one, jobs):
            counts[v['kind']] = counts.get(v['kind'], 0) + 1
            what = '%s %s, %s named by the output %s (%s)' % (v['cmd'], ' '.join(args), v['in'] or 'nothing', v['out'] or '-', v['kind'])
            rep = dict(kind='alias', vector=v, args=args, rc=p.rc, changed=changed, output=p.out.decode('utf-8', 'replace')[-1000:])
            if changed:
                c.violation('%s: input files changed: %s' % (what, ', '.join(changed)), rep)
            elif v['kind'] not in ('none', 'stale') and v['out'] in st.OUT[v['cmd']] and p.rc == 0:
                c.violation('%s: succeeds' % what, rep)
            c.distinct.add((st.name, what))
    c.evaluations += len(jobs)
    c.traces += len(jobs)
    c.notes.append('aliases of Workspace.tla laid out for the real commands, by kind: %s' % counts)
    for st, v in jobs[:: max(1, len(jobs) // 4)]:
        c.sample(dict(stage=st.name, **v))


# ---------------------------------------------------------------- C17
def c17(c):
    which = [Stage('small', 2, 'pub=1,sec=1,mul=2'), Stage('medium', 8, 'pub=3,sec=6,mul=110,commit=3,seed=3', 3, 20)]
    if c.thorough:
        which += [Stage('odd', 5, 'pub=2,sec=3,mul=17,commit=2,seed=5', 2, 7), Stage('large', 10, 'pub=5,sec=9,mul=900,seed=8', 0, 100)]
    sts = stages(c, which)
    c.need('zfault')
    out = zk.path('fault.ndjson')
    r = zk.tlc('Fault', {'ZK_OUT': out})
    c.count(r)
    c.models.append('Fault: %d states' % r.distinct)
    shapes = sorted({d['fault'] for d in zk.lines(out)})
    jobs = []      # (stage, command, reference, exact, kind, detail)
    for st in sts:
        for cmd, outs in st.OUT.items():
            if not outs:
                continue
            w = tempfile.mktemp(dir=zk.WORK)
            ref = reference(c, st, cmd, 'zfault', {'ZKV_WRITES': w})
            if ref is None:
                continue
            exact = ref == reference(c, st, cmd)
            if any(b is None for b in ref.values()):
                c.violation('%s of stage %s succeeds without writing %s' % (cmd, st.name, [n for n in ref if ref[n] is None]), dict(kind='fault', cmd=cmd, stage=st.name))
                continue
            writes = len(open(w).read().splitlines()) if os.path.exists(w) else 0
            add = lambda kind, detail: jobs.append((st, cmd, ref, exact, kind, detail))
            # every write of the run fails in every way
            ks = range(1, writes + 1)
            if not c.thorough and writes > 24:
                ks = sorted(set([1, 2, writes - 1, writes] + c.rng.sample(range(1, writes + 1), 20)))
            for k in ks:
                for m in shapes:
                    add('write', '%d:%s' % (k, m))
            # limits of the file size
            sizes = sorted({len(b) for b in ref.values()})
            limits = {0, 1} | {s - 1 for s in sizes} | {s // 2 for s in sizes} | {s + dlt for s in sizes for dlt in (0,)} | {4096 * k + dlt for k in range(1, 4) for dlt in (0, -1)}
            limits |= {c.rng.randrange(max(sizes) + 1) for _ in range(20 if c.thorough else 4)} | {max(sizes), max(sizes) + 1}
            for lim in sorted(x for x in limits if 0 <= x <= max(sizes) + 1):
                add('limit', lim)
            for o in outs:
                add('device', o)
                add('directory', o)
            if 'out' in outs:
                add('missing', 'out')
            add('stale', '')
            if cmd in ('p2n', 'p2np'):
                add('twice', 'srs.lag')
                add('twice', 'evals')

    def one(j):
        st, cmd, ref, exact, kind, detail = j
        d = st.lay(cmd)
        at = lambda n: os.path.join(d, n)
        try:
            env, kw, tool, args = {'ZKV_RAND': 'ref'}, {}, 'z', st.args(cmd)
            if kind == 'write':
                env['ZKV_FAULT'], tool = detail, 'zfault'
            elif kind == 'limit':
                kw['fsize'] = detail
            elif kind == 'device':
                os.symlink('/dev/full', at(detail))
            elif kind == 'directory':
                os.mkdir(at(detail))
                open(at(detail) + '/x', 'w').close()
            elif kind == 'missing':
                args = st.args(cmd, lambda s: 'nowhere/out' if s == 'out' else s)
            elif kind == 'stale':
                for n in ref:
                    with open(at(n), 'wb') as f:
                        f.write(b'\xab' * (len(ref[n]) + 100000))
            elif kind == 'twice':
                args = st.args(cmd, lambda s: detail if s == 'out' else s)
            p = zk.run([zk.TOOLS[tool], cmd] + args, d, env, **kw)
            got = read(d, ref)
            if kind == 'twice':
                got['out'] = got[detail]
            return j, p, compare(ref, got, exact)
        finally:
            shutil.rmtree(d)
    counts, failed = {}, {}
    with concurrent.futures.ThreadPoolExecutor(zk.POOL) as ex:
        for (st, cmd, ref, exact, kind, detail), p, bad in ex.map(one, jobs):
            counts[kind] = counts.get(kind, 0) + 1
            c.distinct.add((st.name, cmd, kind, detail))
            rep = dict(kind='fault', stage=st.name, cmd=cmd, fault=kind, detail=detail, rc=p.rc, incomplete=bad, output=p.out.decode('utf-8', 'replace')[-1000:])
            what = '%s of stage %s with %s %s' % (cmd, st.name, kind, detail)
            if p.rc == 0 and bad:
                c.violation('%s succeeds although its output isn\'t complete: %s' % (what, ', '.join(bad)), rep)
            failed[kind] = failed.get(kind, 0) + (p.rc != 0)
    c.evaluations += len(jobs)
    c.traces += len(jobs)
    c.notes.append('faults of Fault.tla (%s) and of the file system given to the real commands, by kind: %s; of these reported as failures: %s' % (', '.join(shapes), counts, failed))
    c.notes.append('oracle: the outputs of an undisturbed run with the same random draws')
    for j in jobs[:: max(1, len(jobs) // 4)]:
        c.sample(dict(stage=j[0].name, command=j[1], fault=j[4], detail=j[5]))


# ---------------------------------------------------------------- C22
def c22(c):
    sts = stages(c, [Stage('small', 3, 'pub=1,sec=2,mul=3,commit=1', 1)])
    if c.thorough:
        sts += stages(c, [Stage('other', 4, 'pub=2,sec=2,mul=6', 2, 4)])
    out = zk.path('cli.ndjson')
    r = zk.tlc('Cli', {'ZK_OUT': out})
    c.count(r)
    c.models.append('Cli: %d requests' % r.distinct)
    reqs = zk.lines(out)

    def words(st, q, d):
        m = {'POWER': st.power, 'REDUCED': st.power - 1, 'IN': 'in', 'OUT': 'out', 'ORIGIN': 'origin', 'R1CS': 'r1cs', 'PARTS': 'P', 'SESSION': 'S',
             'CONSTRAINTS': st.circ['constraints'], 'R1C': st.circ['nbR1C'], 'BATCH': st.part, 'NOWHERE': 'nowhere/file', 'NOWHERE/x': 'nowhere/x',
             'DIRECTORY': 'directory', 'EMPTY': 'empty', 'OTHER': 'other', 'OTHER2': 'other2'}
        return [str(m.get(a, a)) for a in q['args']]

    refs = {(st.name, cmd): reference(c, st, cmd) for st in sts for cmd in st.OUT}

    def one(j):
        st, q = j
        d = st.lay(q['cmd'])
        at = lambda n: os.path.join(d, n)
        try:
            os.mkdir(at('directory'))
            open(at('empty'), 'w').close()
            shutil.copyfile(os.path.join(st.dir, 'v'), at('other'))
            shutil.copyfile(os.path.join(st.dir, 'c'), at('other2'))
            before = set(os.listdir(d))
            kw = dict(fsize=0) if q['cmd'] == 'p1n' and q['expect'] == 'pass' and q['args'][0] not in ('1', '2') else {}
            p = zk.run([zk.TOOLS['z'], q['cmd']] + words(st, q, d), d, {'ZKV_RAND': 'ref'}, timeout=60, **kw)
            made = sorted(set(os.listdir(d)) - before)
            return j, words(st, q, d), p, made, read(d, st.OUT[q['cmd']])
        finally:
            shutil.rmtree(d)
    jobs = [(st, q) for st in sts for q in reqs if refs[st.name, q['cmd']] is not None]
    counts = {}
    with concurrent.futures.ThreadPoolExecutor(zk.POOL) as ex:
        results = list(ex.map(one, jobs))
    # what a rejection looks like
    rejections = {}
    for (st, q), a, p, made, got in results:
        if q['expect'] == 'reject':
            rejections.setdefault(q['cmd'], set()).add(p.out.splitlines()[-1][20:] if p.out.strip() else b'')
    for (st, q), a, p, made, got in results:
        counts[q['why'], q['expect']] = counts.get((q['why'], q['expect']), 0) + 1
        c.distinct.add((st.name, q['cmd'], tuple(q['args'])))
        what = '%s %s (%s)' % (q['cmd'], ' '.join(repr(x) for x in a), q['why'])
        rep = dict(kind='request', request=q, rc=p.rc, made=made, output=p.out.decode('utf-8', 'replace')[-1000:])
        if q['expect'] == 'ok':
            ref = refs[st.name, q['cmd']]
            if p.rc or compare(ref, got, False):
                c.violation('%s: %s' % (what, 'fails' if p.rc else 'no %s' % compare(ref, got, False)), rep)
        elif q['expect'] in ('reject', 'fail') and p.rc == 0:
            c.violation('%s: exit status 0' % what, rep)
        elif q['expect'] == 'reject' and made:
            c.violation('%s: writes %s although it is rejected' % (what, ', '.join(made)), rep)
        elif q['expect'] == 'pass' and p.rc and not made and (p.out.splitlines() or [b''])[-1][20:] in rejections.get(q['cmd'], ()):
            c.violation('%s: is rejected' % what, rep)
    c.evaluations += len(jobs)
    c.traces += len(jobs)
    c.notes.append('requests of Cli.tla given to the real command: %s' % {'%s, %s' % k: v for k, v in sorted(counts.items())})
    for st, q in jobs[:: max(1, len(jobs) // 4)]:
        c.sample(dict(stage=st.name, **q))


# ---------------------------------------------------------------- C24: keys that can't be read
def c24(c):
    sts = stages(c, [Stage('plain', 2, 'pub=2,sec=1,mul=2', 0), Stage('commit', 4, 'pub=2,sec=2,mul=3,commit=2', 0)])
    jobs = []
    for st in sts:
        if reference(c, st, 'sol') is None:
            continue
        vk = zk.content(os.path.join(st.dir, 'S.vk.save'))
        cuts = list(range(len(vk))) if c.thorough else sorted(set(list(range(0, len(vk), 7)) + [len(vk) - k for k in range(1, 40)] + [c.rng.randrange(len(vk)) for _ in range(40)]))
        jobs += [(st, 'cut at byte %d of %d' % (k, len(vk)), vk[:k]) for k in cuts]
        # coordinates that are on no curve: the last bit of y of the elements of the key
        n = int.from_bytes(vk[256:260], 'big')
        pos = 256 + 2 * (4 + 64 * n)
        k = int.from_bytes(vk[pos + 576:pos + 580], 'big')
        ys = [pos + 63, pos + 127, pos + 255, pos + 383, pos + 447, pos + 575] + [pos + 580 + 64 * i + 63 for i in range(k)]
        for y in ys:
            if any(vk[y - 31:y + 1]):
                b = bytearray(vk)
                b[y] ^= 1
                jobs.append((st, 'with a wrong coordinate at byte %d' % y, bytes(b)))
        jobs.append((st, 'missing', None))
        jobs.append((st, 'a directory', ''))

    def one(j):
        st, what, data = j
        d = st.lay('sol')
        f = os.path.join(d, 'S.vk.save')
        try:
            os.remove(f)
            if data == '':
                os.mkdir(f)
            elif data is not None:
                with open(f, 'wb') as h:
                    h.write(data)
            p = zk.run([zk.TOOLS['z'], 'sol', 'S'], d)
            return j, p, os.path.exists(os.path.join(d, 'S.sol'))
        finally:
            shutil.rmtree(d)
    with concurrent.futures.ThreadPoolExecutor(zk.POOL) as ex:
        for (st, what, data), p, left in ex.map(one, jobs):
            c.distinct.add((st.name, what))
            if p.rc == 0 or left:
                c.violation('export of a key (%s) %s: %s' % (st.name, what, 'exit status 0' if p.rc == 0 else 'a contract is left'),
                            dict(kind='export', stage=st.name, what=what, rc=p.rc, output=p.out.decode('utf-8', 'replace')[-1000:]))
    c.evaluations += len(jobs)
    c.traces += len(jobs)
    c.notes.append('%d exports of damaged or missing keys' % len(jobs))


# ---------------------------------------------------------------- C26: the random generator fails
def c26(c):
    which = [Stage('small', 2, 'pub=1,sec=1,mul=2', 1, 1), Stage('medium', 4, 'pub=2,sec=2,mul=9,commit=2,seed=3', 2, 4)]
    if c.thorough:
        which += [Stage('odd', 6, 'pub=2,sec=3,mul=37,commit=1,seed=5', 3, 7), Stage('plain', 7, 'pub=3,sec=4,mul=80,seed=8', 0, 20)]
    sts = stages(c, which)
    out = zk.path('draws.ndjson')
    r = zk.tlc('Draws', {'ZK_OUT': out})
    c.count(r)
    c.models.append('Draws: %d states' % r.distinct)
    faults = sorted({(d['read'], d['mode']) for d in zk.lines(out)})
    last = max(k for k, _ in faults)
    modes = sorted({m for _, m in faults})

    def draw(st, cmd, fail='', bad=None):
        """(result, successful reads)"""
        d = st.lay(cmd)
        logf = tempfile.mktemp(dir=zk.WORK)
        try:
            if bad:
                with open(os.path.join(d, 'in'), 'wb') as f:
                    f.write(bad)
            env = {'ZKV_RAND': 'ref', 'ZKV_LOG': logf}
            if fail:
                env['ZKV_RANDFAIL'] = fail
            p = zk.run([zk.TOOLS['z'], cmd] + st.args(cmd), d, env, timeout=60)
            return p, open(logf).read().split() if os.path.exists(logf) else []
        finally:
            shutil.rmtree(d)
            if os.path.exists(logf):
                os.remove(logf)
    jobs, needs = [], {}
    for st in sts:
        for cmd in st.OUT:
            if st.missing(cmd):
                continue
            p, reads = draw(st, cmd)
            if p.rc:
                c.notes.append('%s of stage %s left out: it fails undisturbed' % (cmd, st.name))
                continue
            n = len(reads)
            needs[st.name, cmd] = n
            ks = set(range(1, n + 1))
            if not c.thorough and n > 20:
                ks = {k for k, _ in faults} | {n - last + k for k, _ in faults} | set(c.rng.sample(range(1, n + 1), 8))
            jobs += [(st, cmd, k, m) for k in sorted(k for k in ks if 1 <= k <= n) for m in modes]

    def one(j):
        st, cmd, k, m = j
        return (j,) + draw(st, cmd, '%d:%s' % (k, m))
    counts = {}
    with concurrent.futures.ThreadPoolExecutor(zk.POOL) as ex:
        for (st, cmd, k, m), p, reads in ex.map(one, jobs):
            c.distinct.add((st.name, cmd, k, m))
            n = needs[st.name, cmd]
            counts[cmd, m, 'fails' if p.rc else 'succeeds'] = counts.get((cmd, m, 'fails' if p.rc else 'succeeds'), 0) + 1
            # one that has tried again has made all its reads
            if p.rc == 0 and (m == 'sticky' or len(reads) < n):
                c.violation('%s of stage %s succeeds although read %d of %d of the random generator failed (%s)' % (cmd, st.name, k, n, m),
                            dict(kind='draws', stage=st.name, cmd=cmd, read=k, mode=m, reads=n, succeeded=len(reads), output=p.out.decode('utf-8', 'replace')[-1000:]))
            elif p.rc == 999 and m != 'sticky':
                c.violation('%s of stage %s hangs when read %d of %d of the random generator fails (%s)' % (cmd, st.name, k, n, m), dict(kind='draws', stage=st.name, cmd=cmd, read=k, mode=m))
    c.evaluations += len(jobs)
    c.traces += len(jobs)
    c.notes.append('reads of the random generator by stage and command: %s' % {'%s %s' % k: n for k, n in needs.items()})
    c.notes.append('failures of Draws.tla given to the real commands: %s' % {' '.join(k): n for k, n in sorted(counts.items())})
    for j in jobs[:: max(1, len(jobs) // 4)]:
        c.sample(dict(stage=j[0].name, command=j[1], read=j[2], mode=j[3]))


# ---------------------------------------------------------------- C27: leftovers, interruptions, surroundings
AROUND = {'no variables': dict(only=True), 'one processor': dict(cpus=1), 'variables': dict(env={'GOMAXPROCS': '3', 'GOGC': '1', 'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'ja_JP', 'TZ': 'Asia/Katmandu', 'GODEBUG': 'madvdontneed=1'}),
          'no home': dict(env={'HOME': '/nonexistent', 'TMPDIR': '/nonexistent', 'XDG_CACHE_HOME': '/nonexistent', 'USER': '', 'PWD': '/'}), 'umask': dict(umask=0o077),
          'closed streams': dict(closed=True), 'elsewhere': dict(elsewhere=True), 'beside another': dict(beside=True)}
STANDARD = list(AROUND)
NAMED = {'p1n', 'p1c', 'p1t', 'p2c'}        # commands whose only output has a name of its own


def around(cmd, args, d, env, only=False, cpus=None, umask=None, closed=False, elsewhere=False, beside=False, st=None):
    """runs a command in other surroundings; (result, where its outputs are)"""
    tool = zk.TOOLS['z']
    where = lambda n: os.path.join(d, n)
    if only:
        return zk.run(['/usr/bin/env', '-i'] + ['%s=%s' % (k, v) for k, v in env.items()] + [tool, cmd] + args, d), where
    if umask is not None:
        return zk.run(['/bin/sh', '-c', 'umask 077; exec "$0" "$@"', tool, cmd] + args, d, env), where
    if closed:
        return zk.run(['/bin/sh', '-c', 'exec "$0" "$@" <&- >&- 2>&-', tool, cmd] + args, d, env), where
    if elsewhere:
        sub = where('x y')
        os.mkdir(sub)
        fixed = {'evals', 'srs.lag', 'pk', 'vk'}
        for n in st.inputs(cmd):
            if n in fixed:
                shutil.copyfile(where(n), os.path.join(sub, n))
        a = st.args(cmd, lambda s: where(s))
        a = [where(x) if x in ('P', 'S') else x for x in a]
        return zk.run([tool, cmd] + a, sub, env), lambda n: os.path.join(sub if n in fixed else d, n)
    if beside and cmd in NAMED:
        other = st.args(cmd, lambda s: 'out2' if s == 'out' else s)
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            q = ex.submit(zk.run, [tool, cmd] + other, d, env)
            p = zk.run([tool, cmd] + args, d, env)
            q = q.result()
        if zk.content(where('out2')) != zk.content(where('out')) or q.rc != p.rc:
            return zk.Run(998, b'one of two differs'), where
        return p, where
    return zk.run([tool, cmd] + args, d, env, cpus), where


def c27(c):
    which = [Stage('small', 2, 'pub=1,sec=1,mul=2', 1, 1), Stage('medium', 4, 'pub=2,sec=2,mul=9,commit=2,seed=3', 2, 4)]
    if c.thorough:
        which += [Stage('odd', 6, 'pub=2,sec=3,mul=37,commit=1,seed=5', 3, 7), Stage('large', 9, 'pub=3,sec=4,mul=400,seed=8', 0, 90)]
    # the same circuit in another ceremony: all files have the same sizes
    which += [Stage('twin of ' + st.name, st.power, st.spec, st.n, st.part, 'y', st) for st in which]
    sts = stages(c, which)
    c.need('zfault')
    out = zk.path('rerun.ndjson')
    r = zk.tlc('Rerun', {'ZK_OUT': out})
    c.count(r)
    c.models.append('Rerun: %d states' % r.distinct)
    vs = sorted({(d['kind'], d['first'], d['second']) for d in zk.lines(out)})
    lefts = [(a, b) for k, a, b in vs if k == 'left']
    kills = [(a, b) for k, a, b in vs if k == 'killed']
    jobs, outcome = [], {}
    refs = {}
    for st in sts:
        for cmd in st.OUT:
            w = tempfile.mktemp(dir=zk.WORK)
            asked = tempfile.mktemp(dir=zk.WORK)
            ref = reference(c, st, cmd, 'zfault', {'ZKV_WRITES': w, 'ZKV_ENV': asked})
            if ref is None:
                continue
            exact = ref == reference(c, st, cmd)
            if not exact:
                c.notes.append('%s of stage %s: only sizes compared, its outputs differ from run to run' % (cmd, st.name))
            refs[st.name, cmd] = ref, exact
            if st.twin:
                continue
            writes = len(open(w).read().splitlines()) if os.path.exists(w) else 0
            extra = workfiles(st, cmd)
            add = lambda kind, detail: jobs.append((st, cmd, kind, detail, extra))
            # variables of the environment that the command asks for
            names = sorted(zk.asked(asked))
            extras = {'variables %s = %s' % (' '.join(names), v): dict(env={n: v for n in names}) for v in ('1', 'true', '0', 'debug')} if names else {}
            AROUND.update(extras)
            for a in STANDARD + list(extras):
                add('around', a)
            if not st.OUT[cmd]:
                continue
            for l in lefts:
                for content in ('garbage', 'stage', 'own', 'twin'):
                    if (content == 'twin') == ('equal' in l):
                        add('left', l + (content,))
                if l == ('equal', 'equal'):
                    add('left', l + ('own',))
            ks = set(range(1, writes + 1))
            n = 40 if c.thorough else 6
            if writes > n:
                ks = {1, 2, writes - 1, writes} | set(c.rng.sample(sorted(ks), n))
            for i, k in enumerate(sorted(ks)):
                add('killed', (k, 'kill') + kills[i % len(kills)])
                add('killed', (k, 'sticky', 'nothing', 'nothing'))
            for i in range(4 if c.thorough else 2):
                if writes > 1:
                    add('twice', (c.rng.randrange(1, writes + 1), c.rng.randrange(1, writes + 1)))

    def leftover(st, cmd, n, size, content, at):
        """what is there before under the name of an output"""
        ref = refs[st.name, cmd][0].get(n) or b'work' * 50
        if size == 'nothing':
            return
        if content == 'stage':
            other = next(x for x in sts if x is not st and not x.twin)
            b = (refs.get((other.name, cmd)) or ({},))[0].get(n) or b'\x01' * 77
            b = b[:max(len(ref) // 2, 1)] if size == 'shorter' else b + bytes(len(ref) + 5000)
        elif content == 'twin':
            b = (refs.get((next(x for x in sts if x.twin is st).name, cmd)) or ({},))[0].get(n) or ref
            b = b if size == 'equal' else b[:len(b) // 2] if size == 'shorter' else b + b
        elif content == 'own':
            b = bytearray(ref)
            b[len(b) // 3] ^= 64
            b[-1] ^= 1
            b = bytes(b)[:len(ref) - 1] if size == 'shorter' else bytes(b) + b'\0' * 32 if size == 'longer' else bytes(b)
        else:
            b = b'\xab' * (len(ref) // 2 if size == 'shorter' else len(ref) + 200000)
        with open(at(n), 'wb') as f:
            f.write(b)

    def one(j):
        st, cmd, kind, detail, extra = j
        ref, exact = refs[st.name, cmd]
        d = st.lay(cmd)
        at = lambda n: os.path.join(d, n)
        where = at
        env = {'ZKV_RAND': 'ref'}
        args = st.args(cmd)
        names = st.OUT[cmd] + [n for n in extra if '/' not in n]
        try:
            if kind == 'around':
                kw = dict(AROUND[detail])
                env.update(kw.pop('env', {}))
                p, where = around(cmd, args, d, env, st=st, **kw)
            else:
                if kind in ('left', 'killed'):
                    a, b = detail[:2] if kind == 'left' else detail[2:]
                    for i, n in enumerate(names):
                        leftover(st, cmd, n, a if i == 0 else b, detail[2] if kind == 'left' else 'garbage', at)
                ks = ['%d:%s' % detail[:2]] if kind == 'killed' else ['%d:kill' % k for k in detail] if kind == 'twice' else []
                for k in ks:
                    zk.run([zk.TOOLS['zfault'], cmd] + args, d, dict(env, ZKV_FAULT=k))
                p = zk.run([zk.TOOLS['z'], cmd] + args, d, env)
            got = {n: zk.content(where(n)) if os.path.isfile(where(n)) else None for n in ref}
            changed = [s for s, f in st.inputs(cmd).items() if zk.content(at(s)) != zk.content(os.path.join(st.dir, f))]
            return j, p, compare(ref, got, exact), changed
        finally:
            shutil.rmtree(d)
    counts = {}
    with concurrent.futures.ThreadPoolExecutor(zk.POOL) as ex:
        for (st, cmd, kind, detail, extra), p, bad, changed in ex.map(one, jobs):
            counts[kind] = counts.get(kind, 0) + 1
            c.distinct.add((st.name, cmd, kind, detail))
            what = '%s of stage %s, %s %s' % (cmd, st.name, kind, detail)
            rep = dict(kind='rerun', stage=st.name, cmd=cmd, situation=kind, detail=detail, rc=p.rc, other=bad, changed=changed, output=p.out.decode('utf-8', 'replace')[-1000:])
            if p.rc:
                c.violation('%s: fails' % what, rep)
            elif bad:
                c.violation('%s: other outputs than in an empty directory: %s' % (what, ', '.join(bad)), rep)
            elif changed:
                c.violation('%s: inputs changed: %s' % (what, ', '.join(changed)), rep)
    c.evaluations += len(jobs)
    c.traces += len(jobs)
    c.notes.append('situations of Rerun.tla and surroundings laid out for the real commands, by kind: %s' % counts)
    c.notes.append('oracle: the outputs of an undisturbed run in a directory with nothing but the inputs, with the same random draws')
    for j in jobs[:: max(1, len(jobs) // 4)]:
        c.sample(dict(stage=j[0].name, command=j[1], situation=j[2], detail=j[3]))
