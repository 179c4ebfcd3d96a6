"""C20, C21, C25: loops, the Lagrange conversion and batches (Parallel.tla, Fft.tla, GenLagrange.tla, Batch.tla)."""
import concurrent.futures, json, os, re, subprocess
import zk

CPUS = (1, 2, 3, 4, 5, 6, 7, 8)


def affinity(n):
    def pre():
        os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[:n])
    return pre if n else None


def ltool(c, what, lines, cpus=None):
    try:
        p = subprocess.run([zk.TOOLS['ltool'], what], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=60 if zk.HUNG else 240, preexec_fn=affinity(cpus))
    except subprocess.TimeoutExpired as e:
        zk.HUNG.append(what)
        o = e.stdout or b''
        return (o if isinstance(o, str) else o.decode('utf-8', 'replace')).splitlines(), 'it hangs'
    res = p.stdout.splitlines()
    if p.returncode or len(res) != len(lines):
        return res, p.stderr[-1500:] or 'no answer'
    return res, ''


def have_ltool(c):
    """the packages may get another interface; then only the command is looked at"""
    try:
        c.need('ltool')
        return True
    except zk.Broken as e:
        c.notes.append('left out, the packages have another interface: %s' % str(e)[-300:])
        zk.log(c.notes[-1])
        return False


def loops(c):
    """ranges of the real parallel loop against Parallel.tla"""
    if have_ltool(c):
        top = 200 if c.thorough else 70
        asked = ['%d %d' % (n, t) for n in list(range(0, top)) + [127, 128, 129, 255, 256, 1000, 1023, 1024, 1025] for t in list(range(1, 18)) + [31, 32, 33, 64]]
        asked += ['%d 0' % n for n in range(0, top)]
        res, err = ltool(c, 'ranges', asked)
        if err:
            q = asked[len(res)] if len(res) < len(asked) else '?'
            c.violation('the parallel loop over "n cpus" = %s crashes or doesn\'t end: %s' % (q, err[-300:]), dict(kind='loop', asked=q, output=err))
        for n in ((1, 2, 3, 5, 7) if c.thorough else (1, 3)):
            more, err = ltool(c, 'ranges', ['%d 0' % k for k in range(0, top)], n)
            res += more
            if err:
                c.violation('the parallel loop on %d CPUs crashes: %s' % (n, err[-300:]), dict(kind='loop', output=err))
        rec, out = zk.path('loops.ndjson'), zk.path('loops.out')
        with open(rec, 'w') as f:
            f.write('\n'.join(res) + '\n')
        if os.path.exists(out):
            os.remove(out)
        r = zk.tlc('Parallel', {'ZK_IN': rec, 'ZK_OUT': out})
        for d in zk.lines(out) if os.path.exists(out) else []:
            c.violation('parallel loop over %d indices with %d workers: %s' % (d['loop']['n'], d['loop']['cpus'], d['what']), dict(kind='loop', **d))
        c.traces += len(res)
        c.evaluations += len(res)
        c.notes.append('%d recorded parallel loops validated' % len(res))
    else:
        r = zk.tlc('Parallel')
    c.count(r)
    c.models.append('Parallel: %d states' % r.distinct)
    if not r.ok:
        raise zk.Broken(r.text[-2000:])


def conversions(c, cpus):
    """vectors of GenLagrange.tla through the real conversion"""
    if not have_ltool(c):
        return
    out = zk.path('lagrange.ndjson')
    if not os.path.exists(out):
        r = zk.tlc('GenLagrange', {'ZK_OUT': out, 'ZK_DEEP': '1' if c.thorough else '0'}, xmx='12g')
        c.count(r)
    vs = zk.lines(out)
    for n in cpus:
        mine = [v for v in vs if v['n'] <= 128 or n is None or v['kind'] in ('powers', 'random')] if n is not None else vs
        res, err = ltool(c, 'convert', ['%s %s' % (v['g'], v['in']) for v in mine], n)
        for v, got in zip(mine, res):
            if got != v['out']:
                bad = [i for i in range(v['n']) if got[len(got) // v['n'] * i:len(got) // v['n'] * (i + 1)] != v['out'][len(got) // v['n'] * i:len(got) // v['n'] * (i + 1)]]
                c.violation('Lagrange conversion in %s, size %d, input "%s", %s CPUs: positions %s differ' % (v['g'].upper(), v['n'], v['kind'], n or 'all', bad[:10]),
                            dict(kind='lagrange', vector=v if len(str(v)) < 20000 else dict(g=v['g'], n=v['n'], kind=v['kind']), cpus=n))
        if err:
            v = mine[len(res)] if len(res) < len(mine) else dict(g='?', n=0, kind='?')
            c.violation('Lagrange conversion in %s, size %d, input "%s", %s CPUs crashes: %s' % (v['g'], v['n'], v['kind'], n or 'all', err[-300:]), dict(kind='lagrange', output=err))
        c.evaluations += len(mine)
        c.traces += len(mine)
        c.distinct |= {(v['g'], v['n'], v['kind'], n) for v in mine}
    c.notes.append('%d conversion vectors (sizes %s) on %s CPUs' % (len(vs), sorted({v['n'] for v in vs}), list(cpus)))
    for v in vs[::60]:
        c.sample(dict(lagrange=v['g'], n=v['n'], input=v['kind']))


def races(c, scenarios):
    """the same plans with the race detector: two workers must not touch the same place"""
    try:
        c.need('zrace')
    except zk.Broken as e:
        c.notes.append('no race detector: %s' % str(e)[-200:])
        return
    vs = [s.variant('race-' + s.name, tool='zrace', env={'GORACE': 'halt_on_error=1 exitcode=66'}) for s in scenarios]
    zk.play(vs)
    for s in vs:
        for pos, out in s.outputs.items():
            if b'WARNING: DATA RACE' in out:
                c.violation('%s, step %d (%s): two workers touch the same place' % (s.name, pos + 1, s.plan[pos]['op']),
                            dict(kind='race', plan=s.plan, output=out.decode('utf-8', 'replace')[:4000]))
    n = sum(len(s.outputs) for s in vs)
    c.evaluations += n
    c.traces += len(vs)
    c.notes.append('%d commands run under the race detector' % n)
