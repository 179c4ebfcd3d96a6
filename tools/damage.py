"""C16: the damaged files of Damage.tla are given to the commands that need what was damaged."""
import concurrent.futures, json, os, shutil, tempfile
import zk


def damaged(data, d):
    if d['how'] == 'cut':
        return data[:d['at']]
    if d['how'] == 'nopoint':
        w = bytes.fromhex(d['with'])
        return data[:d['at']] + w + data[d['at'] + len(w):]
    b = bytearray(data)
    b[d['at'] // 8] ^= 0x80 >> (d['at'] % 8)
    return bytes(b)


def args(cmd, f):
    """arguments of the command with the file in its role, in a directory with the other files it needs"""
    p = f['file'].get('power', 0)
    return {
        'p1v': ['p1v', 'in'], 'p1c': ['p1c', 'in', 'out'], 'p2n': ['p2n', 'in', 'c.r1cs', 'out'],
        'p2np': ['p2np', 'in', 's3', 'out', f.get('constraints', 0), f.get('nbR1C', 0), 3],
        'p1vt origin': ['p1vt', 'base', 'in'], 'p2v': ['p2v', 'in', 'base'], 'p2c': ['p2c', 'in', 'out'], 'p2v origin': ['p2v', 'base', 'in'],
        'key': ['key', 'in'], 'keys': ['keys', 'in', 'S'], 'key evals': ['key', 'ph2'], 'keys evals': ['keys', 'ph2', 'S'],
        'p2n circuit': ['p2n', 'p1', f['file']['name'].split('/')[-1], 'out'],
        'p2np circuit': ['p2np', 'p1', 's3', 'out', f.get('constraints', 0), f.get('nbR1C', 0), 3],
        'p1t': ['p1t', 'in', 'out', p, p], 'p1t less': ['p1t', 'in', 'out', p, max(p - 1, 1)],
    }[cmd]


def run(c):
    c.need('z', 'gtool')
    out, sup = zk.path('damage.ndjson'), zk.path('support')
    circuits = {}
    for i, spec in enumerate(['pub=1,sec=2,mul=4', 'pub=2,sec=4,mul=6,commit=2'] + ['pub=3,sec=9,mul=30,commit=5,commitint=2'] * c.thorough):
        w = os.path.join(sup, 'circuit%d' % i)
        os.makedirs(w)
        zk.run([zk.TOOLS['gtool'], 'gen', spec, w, '3'], w)
        ci = json.load(open(w + '/c.json'))
        os.unlink(w + '/c.json')
        made = sorted(os.listdir(w))
        for a in (['p1n', ci['constraints'].bit_length(), 'p0'], ['p1c', 'p0', 'p1']):
            zk.run([zk.TOOLS['z']] + [str(x) for x in a], w)
        for n in made:
            name = 'circuit%d/%s' % (i, n)
            circuits[name] = dict(file=dict(name=name, op='circuit', cmd='p2np circuit' if n.startswith('s3.') else 'p2n circuit', size=os.path.getsize(os.path.join(w, n))),
                                  constraints=ci['constraints'], nbR1C=ci['nbR1C'], bytes=open(os.path.join(w, n), 'rb').read().hex())
    with open(zk.path('circuits.ndjson'), 'w') as h:
        for x in circuits.values():
            h.write(json.dumps(x['file']) + '\n')
    r = zk.tlc('Damage', {'ZK_OUT': out, 'ZK_DEEP': '1' if c.thorough else '0', 'ZK_CIRCUITS': zk.path('circuits.ndjson')})
    c.count(r)
    files = {d['file']['name']: d for d in zk.lines(out + '.files')}
    jobs = zk.lines(out)
    # what the commands need besides
    for n, f in files.items():
        d = os.path.join(sup, n)
        os.makedirs(d)
        op = f['file']['op']
        if op == 'mk1':
            # a circuit that needs all parameters
            for m in range(2 ** f['file']['power'], 0, -1):
                p = zk.run([zk.TOOLS['gtool'], 'gen', 'pub=1,sec=2,mul=%d' % m, d, '3'], d)
                ci = json.load(open(d + '/c.json'))
                if ci['constraints'] <= 2 ** f['file']['power']:
                    break
            f['constraints'], f['nbR1C'] = ci['constraints'], ci['nbR1C']
        with open(d + '/base', 'wb') as h:
            h.write(bytes.fromhex(f['base']))
    s = []
    for n, f in files.items():
        if f['file']['op'] in ('mk2', 'mkev'):
            x = zk.Scenario('support-' + n)
            e = f['file']
            if e['op'] == 'mk2':
                x.mkev('x', e['wires'], e['public'], e['committed'])
            else:
                x.mk2('ph2', 'x', e['wires'], e['wires'] - e['public'] - e['committed'], e['public'], e['committed'], 2, 2)
            s.append((n, x))
    zk.play([x for _, x in s])
    for n, x in s:
        for q in os.listdir(x.dir):
            shutil.copy(os.path.join(x.dir, q), os.path.join(sup, n, q))

    files.update(circuits)
    # quick: two bits of every byte, the flags of points among them; cuts all
    if not c.thorough:
        jobs = [d for d in jobs if d['how'] != 'flip' or c.rng.random() < .1 or d['at'] % 256 < 3 and c.rng.random() < .3]
        for d in jobs:
            d['cmds'] = [q for q in d['cmds'] if d['edge'] or q in ('p1v', 'p2v') and c.rng.random() < .6 or c.rng.random() < .3]

    def one(job):
        d, cmd = job
        f = files[d['file']]
        w = tempfile.mkdtemp(dir=zk.WORK)
        try:
            name = d['file'].split('/')[-1] if cmd.endswith(' circuit') else 'evals' if cmd.endswith(' evals') else 'in'
            for q in os.listdir(os.path.join(sup, d['file'].split('/')[0])):
                if q != name:
                    os.link(os.path.join(sup, d['file'].split('/')[0], q), os.path.join(w, q))
            data = bytes.fromhex(f['bytes'])
            with open(os.path.join(w, name), 'wb') as h:
                h.write(damaged(data, d) if d['how'] != 'none' else data)
            return job, zk.run([zk.TOOLS['z']] + [str(a) for a in args(cmd, f)], w)
        finally:
            shutil.rmtree(w)

    # undamaged, every command must succeed: otherwise the failures below show nothing
    whole = {(d['file'], cmd) for d in jobs for cmd in d['cmds']}
    todo = [(dict(file=n, how='none', at=0), cmd) for n, cmd in sorted(whole)]
    useless = set()
    with concurrent.futures.ThreadPoolExecutor(zk.POOL) as ex:
        for (d, cmd), p in ex.map(one, todo):
            if p.rc:
                useless.add((d['file'], cmd))
                zk.log('%s fails on the undamaged %s: %s' % (cmd, d['file'], p.out[-200:]))
        if len(useless) * 2 > len(whole):
            raise zk.Broken('most commands fail on undamaged files')
        todo = [(d, cmd) for d in jobs for cmd in d['cmds'] if (d['file'], cmd) not in useless]
        counts = {}
        for (d, cmd), p in ex.map(one, todo):
            counts[cmd, d['how']] = counts.get((cmd, d['how']), 0) + 1
            c.distinct.add((d['file'], d['how'], d['at'], cmd))
            if p.rc == 0:
                where = '%s at byte %d%s of %d' % (d['how'], d['at'] // 8 if d['how'] == 'flip' else d['at'], '' if d['how'] != 'flip' else ' bit %d' % (d['at'] % 8), len(files[d['file']]['bytes']) // 2)
                c.violation('%s succeeds on %s with a %s' % (cmd, d['file'], where),
                            dict(kind='damage', file=files[d['file']], damage=d, cmd=cmd, args=args(cmd, files[d['file']]), output=p.out.decode('utf-8', 'replace')[-1500:]))
    c.evaluations += len(todo)
    c.traces += len(todo)
    c.notes.append('runs on damaged files: ' + ', '.join('%s %s: %d' % (k[0], k[1], v) for k, v in sorted(counts.items())))
    c.notes.append('rule: %d (file, command) pairs, all of which succeed on the undamaged file; %s' % (len(whole) - len(useless), 'every cut and every bit' if c.thorough else 'cuts and bits chosen by the seed'))
    for d, cmd in todo[:: len(todo) // 4]:
        c.sample(dict(file=d['file'], damage=d['how'], at=d['at'], command=' '.join(str(a) for a in args(cmd, files[d['file']]))))
