"""The plan of every property's check."""
import itertools
import zk
from zk import Scenario

BATCHES = (2, 3, 5, None)
# names of sessions: with dots, directories, spaces, and extensions the tool uses itself
SESSIONS = ('S', 'S.1', 'd/S', 'two words', 'S.vk', './S', 'S.sol', 'd.1/v1.2.3', 'S.pk.A', 'd/../S')


def pick(c, seq, n):
    seq = list(seq)
    return c.rng.sample(seq, min(n, len(seq)))


def S(*name):
    return Scenario('-'.join(str(x) for x in name))


# secrets a generator could draw as well as any others
VALUES = (1, 2, zk.R - 1, 3, zk.R - 2, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**127, 2**128 - 1, 2**128, 2**192, 2**253, (zk.R - 1) // 2, (zk.R + 1) // 2,
          pow(2, -256, zk.R), 2**256 % zk.R, (2**64 - 1) << 64, 2**248 - 1, (1 << 253) | 1, pow(5, (zk.R - 1) // 3, zk.R), pow(5, (zk.R - 1) // 2**28, zk.R),
          4407920970296243842393367215006156084916469457145843978461, 147946756881789319020627676272574806254)


def forced(k, n):
    """environment that makes a contribution's first n values special ones; other values for other k"""
    step = 1 + k // len(VALUES) % 5
    vs = [VALUES[(k + step * i * 5) % len(VALUES)] for i in range(n)]
    ds = [zk.draw(v, (k + i) % 4) for i, v in enumerate(vs)]
    assert len(set(vs)) == n, vs
    if k % 3 == 1:      # rejected: not below the modulus
        ds.insert(k % (n + 1), 'ff' * 32)
    if k % 5 == 2:
        ds.insert(0, (zk.R).to_bytes(32, 'little').hex())
    return dict(env={'ZKV_DRAWS': ','.join(ds)})


def forced1(c, then):
    """phase 1 contributions with special secrets"""
    n = len(VALUES)
    for k in range(5 * n if c.thorough else n + 4):
        s = S('forced', k).batch((None, 2, 3)[k % 3])
        s.mk1('a', 1 + k % 3, 'x' if k % 2 else 'unit', k % 2)
        s.mk1('base', 1 + k % 3, 'x' if k % 2 else 'unit', 0)
        s.p1c('a', 'f1', **forced(k, 6))
        s.p1c('f1', 'f2')
        s.p1c('f2', 'f3', **forced(k + 7, 6))
        then(s)
        yield s


def forced2(c, then):
    """phase 2 contributions with special secrets"""
    n = len(VALUES)
    for k, d in zip(range(5 * n if c.thorough else n), itertools.cycle(mk2s(c, 7))):
        s = S('forced', k).batch((None, 2, 3)[k % 3])
        s.mk2('o', 'x', zeros=('none', 'some')[k % 2], n=0, **d)
        s.p2c('o', 'f1', **forced(k, 2))
        s.p2c('f1', 'f2')
        s.p2c('f2', 'f3', **forced(k + 11, 2))
        then(s)
        yield s


def ground(c, phase, then=lambda s: None):
    """contributions whose hashes begin or end with a zero byte, and others upon them"""
    for where in ('first', 'last'):
        s = S('ground', phase, where)
        if phase == 1:
            s.p1n(1, 'o')
        else:
            s.mk2('o', 'x', 5, 2, 3, 0, 2, 2)
        step = s.p1c if phase == 1 else s.p2c
        step('o', 'g1', grind=(where, 0))
        step('g1', 'g2', grind=(where, 0))
        step('g2', 'g3')
        then(s)
        yield s


# ---------------------------------------------------------------- phase 1
def start1(s, kind, power, n=0):
    """a starting point: fresh, converted from a Powers of Tau file, or any parameters; the base for verification"""
    if kind == 'fresh':
        s.p1n(power, 'a')
        return '-'
    if kind == 'converted':
        s.mkppot('pp', power + 1)
        s.p1t('pp', 'a', power + 1, power)
        return 'a'
    s.mk1('a', power, 'x' if kind == 'any' else 'unit', n)
    if kind == 'any':
        s.mk1('b', power, 'x', 0)
        return 'b'
    return '-'


# more elements than two bytes can number
MANY = dict(wires=66003, witness=66000, public=3, committed=0, constraints=4, domain=4)
MANYPUBLIC = dict(wires=66003, witness=3, public=66000, committed=0, constraints=4, domain=4)


def C01(c):
    c.vectors('Gen1', 'C01', BATCHES)
    sc = []
    for kind in ('fresh', 'converted'):
        for p in (1, 2, 3, 4, 5, 6) + ((7, 8, 9, 10) if c.thorough else (8,)):
            for b in (pick(c, (2, 3, 4, 5, 7, 11, 16), 1 if not c.thorough else 4) + [None]) if p < 8 else (None,):
                s = S(kind, p, b).batch(b)
                base = start1(s, kind, p)
                n = c.rng.randint(1, 4)
                light = p >= 8
                last = s.chain1('a', n, light)
                s.p1v(last, base)
                if n > 1:
                    s.p1v('a.c1', base)
                sc.append(s)
    # chains grown one by one, verified after each contribution
    for k, (kind, p) in enumerate([('fresh', 1), ('converted', 2), ('any', 3)]):
        s = S('grow', kind, p)
        base = start1(s, kind, p, 2)
        last = 'a'
        for j in range(6):
            nxt = 'g%d' % j
            s.p1c(last, nxt)
            s.p1v(nxt, base)
            last = nxt
        sc.append(s)
    # origins of every power; the places of their parameters
    for p in range(9, 27):
        s = S('sparse', p)
        s.mk1s('b', p, 1)
        s.mk1('a', 1 + p % 3, 'x')
        s.p1v(s.chain1('a', 1), 'b')
        sc.append(s)
    sc += forced1(c, lambda s: [s.p1v(f, 'base') for f in ('f1', 'f3')])
    sc += ground(c, 1, lambda s: [s.p1v(f) for f in ('g1', 'g3')])
    # long chains: the counter's second byte, many records
    s = S('long')
    s.p1n(1, 'a')
    s.p1v(s.chain1('a', 520 if c.thorough else 260, True))
    sc.append(s)
    s = S('long', 'made')
    s.mk1('a', 1, 'unit', 254)
    s.p1v(s.chain1('a', 3))
    sc.append(s)
    for p in ((9, 11, 13, 15, 17, 20, 21) if c.thorough else (10, 12, 16)):
        s = S('big', p)
        s.p1n(p, 'a')
        s.p1v(s.chain1('a', 2 if p < 16 else 1, True))
        sc.append(s)
    sc += behaviours(c, 300 if c.thorough else 20)
    c.traces_of(sc)
    c.model('MCPhase1', {'MaxLen': 3 if c.thorough else 2} if c.thorough else None, timeout=2400)


def C02(c):
    sc = []
    for p in range(1, 9 if c.thorough else 7):
        s = S('init', p)
        s.p1n(p, 'a')
        sc.append(s)
    for p in range(1, 8 if c.thorough else 6):
        for n in (0, 1, 2, 3):
            for b in pick(c, (2, 3, 4, 5, 6, 7, 9, 15, 16, 17), 5 if c.thorough else 2) + [None]:
                s = S('contribute', p, n, b).batch(b)
                s.mk1('a', p, 'x', n)
                s.p1c('a', 'o')
                s.p1c('o', 'q')
                sc.append(s)
    # earlier records are kept whatever they are
    for i, (p, n, junk) in enumerate((p, n, j) for p in ((1, 2, 3) if c.thorough else (1, 2)) for n in ((1, 2, 5) if c.thorough else (1, 3)) for j in ('hash', 'points', 'short')):
        s = S('junk', p, n, junk).batch((None, 2, 3)[i % 3])
        s.mk1('a', p, 'x', n, junk)
        s.chain1('a', 2)
        sc.append(s)
    for n in (62, 63, 64, 127, 128, 254, 255, 256, 257):
        s = S('records', n)
        s.mk1('a', 1, 'unit', n)
        s.p1c('a', 'o')
        sc.append(s)
    # counters of any size; one contribution more than the counter holds is refused
    for n in (32767, 65534, 65535):
        s = S('repeated', n)
        s.mk1('a', 1, 'x', 2, left=n - 2)
        s.p1c('a', 'o')
        sc.append(s)
    for p in (2, 4, 5):
        s = S('ppot', p)
        s.mkppot('pp', p, random=True)      # unrelated parameters are multiplied like others
        s.p1t('pp', 'a', p, p)
        s.chain1('a', 2)
        sc.append(s)
    for p in ((9, 10) if c.thorough else (8,)):
        s = S('big', p)
        s.p1n(p, 'a')
        s.chain1('a', 2)
        sc.append(s)
    sc += forced1(c, lambda s: None)
    sc += ground(c, 1)
    c.traces_of(sc)
    s = S('many')
    s.p1n(17 if c.thorough else 16, 'a')
    s.p1c('a', 'o')
    c.traces_of([s], label='many')
    c.model('MCPhase1')


def alone(d):
    """on one processor, a batch is divided into fewer parts"""
    return [(None, 1), (4, 1), (None, 2)] if d['fam'] == 'cancel' else []


def judged1():
    sc = []
    for p in (1, 2, 5, 6):
        s = S('judged', p)
        s.p1n(p, 'a')
        s.p1v(s.chain1('a', 1, p > 2))
        sc.append(s)
    return sc


def judged2():
    sc = []
    for i, (w, dom) in enumerate(((0, 4), (2, 2), (5, 4), (60, 64), (130, 64))):
        s = S('judged', w, dom)
        s.mk2('o', 'x', w + 2, w, 2, 0, dom, dom)
        s.p2v(s.chain2('o', 1, True), 'o')
        sc.append(s)
    return sc


def places(c, n, k):
    """the first, the last and some other of n places"""
    return sorted({1, 2, n - 1, n} | {1 << i for i in range(n.bit_length()) if 1 << i <= n} | {c.rng.randint(1, n) for _ in range(4)}) if k is None else \
        [n, 1 + n // 2] + [c.rng.randint(1, n) for _ in range(k - 2)]


def altered1(c):
    """large files"""
    sc = []
    for p, k, b in (((7, None, None), (9, None, 100), (12, 8, None), (14, 6, 4096), (16, 6, None), (18, 3, None)) if c.thorough else ((7, 6, None), (10, 4, 300), (13, 3, None))):
        s = S('altered', p).batch(b)
        s.p1n(p, 'a')
        last = s.chain1('a', 1, True)
        s.p1v(last)
        for sec, n in (('tauG1', (2 << p) - 1), ('alphaG1', 1 << p), ('betaG1', 1 << p), ('tauG2', 1 << p), ('betaG2', 1)):
            for i in places(c, n, k) if n > 1 else (1,):
                j = i % n + 1
                s.alter(last, 'x', c.rng.choice(('negate', 'infinity', 'copy', 'swap')) if n > 1 else 'negate', sec, i, j)
                s.p1v('x')
        sc.append(s)
    return sc


def altered2(c):
    sc = []
    for w, dom, k, b in (((3000, 4096, None, None), (20000, 32768, None, 5000), (9000, 4096, None, None), (66000, 4, 8, None)) if c.thorough else ((700, 1024, 8, None), (3000, 4096, 8, 1000), (66000, 4, 3, None))):
        s = S('altered', w, dom).batch(b)
        s.mk2('o', 'x', w + 2, w, 2, 0, dom, dom)
        last = s.chain2('o', 1, True)
        s.p2v(last, 'o')
        for part, n in ((0, dom - 1), (dom - 1, w)):
            for i in places(c, n, k):
                s.alter(last, 'x', c.rng.choice(('negate', 'infinity', 'copy', 'swap')), 'delta', part + i, part + i % n + 1)
                s.p2v('x', 'o')
        sc.append(s)
    return sc


def forged(c, phase):
    """long transcripts"""
    sc = []
    for n, k in ((270, None), (600, None)) if c.thorough else ((270, 12),):
        s = S('forged', n)
        if phase == 1:
            s.p1n(1, 'a')
            last = s.chain1('a', n, True)
            s.p1v(last)
        else:
            s.mk2('o', 'x', 4, 2, 2, 0, 2, 2)
            last = s.chain2('o', n, True)
            s.p2v(last, 'o')
        at = {1, 2, 3, 4, 16, 64, 128, 254, 255, 256, 257, n - 1, n} | {c.rng.randint(1, n) for _ in range(5 if k else 60)}
        for i in sorted(at):
            for how in c.rng.sample(('negate', 'rehash', 'hash', 'copy', 'swap') + (('drop', 'repeat') if phase == 1 else ()), 1 if k else 3):
                s.alter(last, 'x', how, 'record%d' % phase, i, i + 1 if i < n else 1)
                s.p1v('x') if phase == 1 else s.p2v('x', 'o')
        sc.append(s)
    return sc


def narrow(d):
    """weights which are only a part of the draws make deviations cancel out when these parts are the same"""
    return ('0:12', '7:19', '13:25', '20:32') if d['fam'] == 'cancel' and '/equal/' in d['id'] else ()


def C03(c):
    c.vectors('Gen1', 'C03', BATCHES + ((4, 7, 8) if c.thorough else ()), more=alone, same=narrow)
    c.traces_of(judged1() + altered1(c))
    c.model('LemmaPhase1')
    c.model('MCPhase1', {'MaxLen': 3} if c.thorough else None, timeout=2400)


def C04(c):
    c.vectors('Gen1', 'C04')
    sc = []
    for p in (1, 2, 3):
        s = S('starts', p)
        s.mkppot('pp', p + 1)
        s.p1t('pp', 'a', p + 1, p)
        s.mkppot('qq', p + 1, 'other')
        s.p1t('qq', 'b', p + 1, p)
        s.p1n(p, 'u')
        la, lb, lu = s.chain1('a', 2), s.chain1('b', 1), s.chain1('u', 2)
        for f in (la, lb, lu):
            for base in ('-', 'a', 'b'):
                s.p1v(f, base)
        sc.append(s)
    c.traces_of(sc + forged(c, 1))
    c.model('LemmaPhase1')
    c.model('MCPhase1', {'MaxLen': 3} if c.thorough else None, timeout=2400)


def C05(c):
    sc = []
    top = 8 if c.thorough else 6
    for p in range(1, top + 1):
        for q in range(1, p + 1):
            for rnd in (False, True):
                s = S('convert', p, q, rnd).batch(c.rng.choice([None, 2, 3, 5, 8]))
                s.mkppot('pp', p, 'pp', rnd)
                s.p1t('pp', 'a', p, q)
                if not rnd:
                    l = s.chain1('a', 1 + (p + q) % 2)
                    s.p1v(l, 'a')
                    if p % 2:
                        s.p1v(l)
                sc.append(s)
    # another power than the file's
    for p in range(1, top + 1):
        for rnd in (False, True):
            s = S('power', p, rnd)
            s.mkppot('pp', p, 'pp', rnd)
            for k, o in enumerate(sorted({1, p - 2, p - 1, p + 1, p + 2, 28} - {p})):
                if o >= 1:
                    for q in sorted({1, c.rng.randint(1, o), o}) if o < 28 else (1, p):
                        s.p1t('pp', 'w%d-%d' % (o, q), o, q)
            sc.append(s)
    # files with holes: the places of the sections in files of every power
    for p in range(9, 29):
        s = S('sparse', p)
        for q in (1, 3) if p > 26 or c.thorough else (c.rng.randint(1, 4),):
            s.mkppots('pp%d' % q, p, q)
            s.p1t('pp%d' % q, 'a%d' % q, p, q)
            s.p1v(s.chain1('a%d' % q, 1), 'a%d' % q)
        sc.append(s)
    for p, q in ((10, 10), (10, 9), (10, 1), (9, 4), (16, 16), (17, 16)) if c.thorough else ((8, 8), (8, 7), (16, 16)):
        s = S('big', p, q)
        s.mkppot('pp', p)
        s.p1t('pp', 'a', p, q)
        sc.append(s)
    c.traces_of(sc)


# ---------------------------------------------------------------- circuits
def specs(c, n, **fixed):
    """random circuits"""
    res = []
    while len(res) < n:
        d = dict(pub=c.rng.randint(1, 5), sec=c.rng.randint(1, 6), mul=c.rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 28]), seed=c.rng.randint(0, 9999))
        if c.rng.random() < .3:
            d['zeros'] = 1
        d.update(fixed)
        d['mul'] = max(d['mul'], 1)
        s = ','.join('%s=%d' % kv for kv in d.items())
        if s not in res:
            res.append(s)
    return res


def committed(c, n):
    res = []
    for i in range(n):
        sec = c.rng.randint(2, 6)
        pub = c.rng.randint(1, 4)
        k = [1, sec, c.rng.randint(1, sec)][i % 3]
        kp = [0, pub, c.rng.randint(0, pub)][(i // 3) % 3]
        d = dict(pub=pub, sec=sec, commit=k, commitpub=kp)
        if i % 4 == 1:                      # internal variables, the commitment lies between others
            d.update(mul=c.rng.randint(5, 17), commitint=c.rng.randint(1, 4), commit=c.rng.choice([0, k]))
        elif i % 4 == 2:                    # only public variables
            d.update(commit=0, commitpub=c.rng.randint(1, min(2, pub)))
        elif i % 4 == 3:
            d.update(commitpick=1)
        res += specs(c, 1, **d)
    return res


FIXED = ['pub=1,sec=1,mul=1', 'pub=1,sec=1,mul=2', 'pub=2,sec=1,mul=1', 'pub=0,sec=2,mul=3', 'pub=4,sec=1,mul=3,seed=2', 'pub=1,sec=8,mul=2,seed=1',
         'pub=1,sec=2,mul=16,seed=5', 'pub=2,sec=2,mul=31,seed=5', 'pub=2,sec=3,mul=6,zeros=1,seed=3', 'pub=1,sec=2,mul=9,lazy=1']
LAZY = ['pub=1,sec=1,mul=1,hash=1,lazy=1', 'pub=1,sec=1,mul=1,hash=1', 'pub=2,sec=2,mul=3,hash=2,lazy=1,seed=4']


def provable(spec):
    """gnark's prover fails with more than two committed public variables"""
    return int(dict(x.split('=') for x in spec.split(',')).get('commitpub', 0)) <= 2


def power_for(spec):
    """a power that is large enough"""
    d = dict((k, int(v)) for k, v in (x.split('=') for x in spec.split(',')))
    n = d.get('mul', 1) + d.get('pub', 1) + 8 + 340 * d.get('hash', 0)
    p = 1
    while 2 ** p < n:
        p += 1
    return p


def circuits(c, kinds, n, then, extra=None, logs='x'):
    sc = []
    for i, sp in enumerate(kinds):
        s = S('circuit', i, sp.replace('=', '').replace(',', '_'))
        p = power_for(sp) + (c.rng.randint(0, 1) if 'hash' not in sp else 0)
        s.mk1('p', p, 'unit' if logs == 'unit' or i % 7 == 6 and logs == 'mixed' else logs, i % 2)
        s.batch(c.rng.choice([None, None, 2, 3, 5]))
        then(s, sp, i)
        sc.append(s)
    return sc


def sparse(c, then):
    """circuits over phase 1 files of every power, with holes"""
    sc = []
    for p in range(9, 27):
        s = S('sparse', p)
        sp = specs(c, 1)[0]
        s.mk1s('p', p, power_for(sp))
        then(s, sp)
        sc.append(s)
    c.traces_of(sc, label='sparse')


LARGE = ['pub=3,sec=3,mul=1500,seed=6', 'pub=700,sec=1500,mul=100,seed=4,commit=600', 'pub=2,sec=2,mul=3,hash=5,lazy=1']


def large(c, kinds, then):
    """circuits of thousands of constraints or wires"""
    sc = []
    for sp in LARGE if c.thorough else kinds:
        s = S('large', sp.replace('=', '').replace(',', '_'))
        s.mk1('p', 11, 'x', 1)
        then(s, sp, 1)
        sc.append(s)
    c.traces_of(sc, label='large')


def C06(c):
    def then(s, sp, i):
        s.circuit(sp)
        s.p2n('p', 'o')
    c.traces_of(circuits(c, FIXED + specs(c, 60 if c.thorough else 24) + committed(c, 12 if c.thorough else 6) + LAZY[:3 if c.thorough else 2], 0, then))
    sparse(c, lambda s, sp: then(s, sp, 0))
    large(c, LARGE[:2], then)
    c.model('MCGroth16')


def C07(c):
    def then(s, sp, i):
        h = 'hash' in sp or sp in LARGE
        parts = [1, 2, 3, 5, 8, 1000] if not h else [50, 200, 1000]
        parts = parts if c.thorough else pick(c, parts, 3 if not h else 2)
        s.circuit(sp, parts)
        s.p2n('p', 'o')
        for q in parts:
            s.p2np('p', 'r%d' % q, 'o', q)
        for dlt in (-1, 1, 2, -2) if c.thorough else (-1, 1):
            s.p2np('p', 'w%d' % dlt, 'o', parts[0], dlt)
        for q in parts if c.thorough else pick(c, parts, 1):
            for unread in ('last', 'all', 'stored'):
                s.p2np('p', 'u%d%s' % (q, unread), 'o', q, 0, unread)
    sparse(c, lambda s, sp: then(s, sp, 0))
    large(c, LARGE[:1], then)
    c.traces_of(circuits(c, FIXED + specs(c, 40 if c.thorough else 14) + committed(c, 9 if c.thorough else 6) + LAZY[:3 if c.thorough else 1], 0, then) + behaviours(c, 300 if c.thorough else 20))


def mk2s(c, n):
    """dimensions of phase 2 files and their evaluations"""
    res = [dict(wires=1, witness=0, public=1, committed=0, constraints=1, domain=2), dict(wires=4, witness=0, public=4, committed=0, constraints=2, domain=2),
           dict(wires=9, witness=4, public=2, committed=3, constraints=3, domain=4)]
    while len(res) < n:
        w, p, k = c.rng.randint(0, 9), c.rng.randint(1, 5), c.rng.choice([0, 0, 1, 3])
        d = 2 ** c.rng.randint(1, 4)
        res.append(dict(wires=w + p + k, witness=w, public=p, committed=k, constraints=c.rng.randint(d // 2 + 1, d), domain=d))
    return res


def wide(c):
    """phase 2 files longer than the buffers they are read with"""
    for w, pub, k, dom in ((127, 1, 0, 128), (128, 2, 1, 64), (300, 4, 2, 256), (620, 80, 0, 512), (64, 130, 0, 32), (3, 300, 1, 2), (40, 3, 260, 16)) + (((3000, 20, 5, 2048), (1025, 7, 0, 4096)) if c.thorough else ()):
        yield dict(wires=w + pub + k, witness=w, public=pub, committed=k, constraints=dom - (dom > 2), domain=dom)


def C08(c):
    sc = []
    for i, d in enumerate(mk2s(c, 40 if c.thorough else 16)):
        for z in ('none', ('some', 'mixed', 'opposite')[i % 3], 'all'):
            b = c.rng.choice([None, 2, 3, 4, 5, 8])
            s = S('contribute', i, z, b).batch(b)
            s.mk2('o', 'x', zeros=z, n=c.rng.randint(0, 3), **d)
            s.chain2('o', 2)
            sc.append(s)
    # many records, wherever they lie relative to read buffers
    for n in (range(1, 70) if c.thorough else (18, 19, 20, 21, 22, 40, 41, 42, 63, 64)):
        s = S('records', n)
        s.mk2('o', 'x', 6, 3, 3, 0, 4, 4, n=n)
        s.p2c('o', 'q')
        sc.append(s)
    for n in (127, 128, 255, 256, 257):
        s = S('records', n)
        s.mk2('o', 'x', 6, 1 + n % 5, 5 - n % 5, 0, 4, 4, n=n)
        s.p2c('o', 'q')
        sc.append(s)
    for n in (32767, 65535, 70000):
        s = S('repeated', n)
        s.mk2('o', 'x', 6, 3, 3, 0, 4, 4, n=2, left=n - 2)
        s.p2c('o', 'q')
        sc.append(s)
    # earlier records are kept whatever they are
    for n in (1, 2, 3, 25):
        for junk in ('hash', 'points', 'short'):
            s = S('junk', n, junk)
            s.mk2('o', 'x', 6, 3, 3, 0, 4, 4, n=n, junk=junk)
            s.chain2('o', 2)
            sc.append(s)
    for w, dom in ((200, 128), (130, 256), (513, 64)) + (((2000, 1024), (1025, 2048)) if c.thorough else ()):
        for b in (None, 127, 128, 64):
            s = S('wide', w, dom, b).batch(b)
            s.mk2('o', 'x', w + 4, w, 4, 0, dom, dom, 'mixed' if b == 64 else 'opposite' if b else 'none', n=1)
            s.p2c('o', 'q')
            sc.append(s)
    sc += forced2(c, lambda s: None)
    sc += ground(c, 2)
    c.traces_of(sc)
    s = S('many')
    s.mk2('o', 'x', zeros='mixed', n=1, **MANY)
    s.p2c('o', 'q')
    c.traces_of([s], label='many')
    c.model('MCPhase2', {'MaxLen': 2})


def C09(c):
    c.vectors('Gen2', 'C09', BATCHES)
    def then(s, sp, i):
        s.circuit(sp)
        s.p2n('p', 'o')
        n = 1 + i % 4
        last = s.chain2('o', n)
        s.p2v(last, 'o')
        if n > 1:
            s.p2v('o.c1', 'o')
    sc = circuits(c, FIXED + specs(c, 40 if c.thorough else 12) + committed(c, 9 if c.thorough else 4), 0, then)
    for i, d in enumerate(mk2s(c, 24 if c.thorough else 10)):
        b = c.rng.choice([None, 2, 3, 5])
        s = S('made', i, b).batch(b)
        z = ('none', 'some', 'all', 'mixed', 'opposite')[i % 5]
        s.mk2('base', 'x', zeros=z, n=0, **d)
        s.mk2('o', 'x', zeros=z, n=c.rng.choice([0, 1, 2, 7]), **d)
        last = s.chain2('o', 3)
        s.p2v(last, 'base')
        s.p2v('o.c1', 'base')
        sc.append(s)
    s = S('grow')
    s.mk2('o', 'x', 6, 3, 3, 0, 4, 4)
    last = 'o'
    for j in range(90 if c.thorough else 30):      # records at every place relative to the read buffers
        s.p2c(last, 'g%d' % j, j % 5 != 0)
        s.p2v('g%d' % j, 'o')
        last = 'g%d' % j
    sc.append(s)
    s = S('long')
    s.mk2('o', 'x', 6, 3, 3, 0, 4, 4)
    s.p2v(s.chain2('o', 600 if c.thorough else 270, True), 'o')
    sc.append(s)
    s = S('wide')
    s.mk2('o', 'x', 700, 600, 100, 0, 512, 512)
    s.p2v(s.chain2('o', 2, True), 'o')
    sc.append(s)
    s = S('many')
    s.mk2('o', 'x', zeros='mixed', **MANY)
    s.p2v(s.chain2('o', 2, True), 'o')
    sc.append(s)
    sc += forced2(c, lambda s: [s.p2v(f, 'o') for f in ('f1', 'f3')])
    sc += ground(c, 2, lambda s: [s.p2v(f, 'o') for f in ('g1', 'g3')])
    sc += behaviours(c, 300 if c.thorough else 20)
    c.traces_of(sc)
    c.model('MCPhase2', {'MaxLen': 3 if c.thorough else 2})


def C10(c):
    c.vectors('Gen2', 'C10', BATCHES + ((4, 7, 8) if c.thorough else ()), more=alone, same=narrow)
    c.traces_of(judged2() + altered2(c))
    c.model('MCPhase2', {'MaxLen': 3 if c.thorough else 2})


def C11(c):
    c.vectors('Gen2', 'C11')
    c.traces_of(forged(c, 2))
    c.model('MCPhase2', {'MaxLen': 3 if c.thorough else 2})


def many(c, both, split):
    """keys with more elements than two bytes can number"""
    for i, d in enumerate((MANY, MANYPUBLIC)):
        if both or split == i:
            s = S('many', i)
            z = ('mixed', 'all')[i]
            s.mk2('o', 'x', zeros=z, n=1, **d)
            s.mkev('x', d['wires'], d['public'], d['committed'], z)
            s.key('o')
            if split:
                s.keys('o', 'S')
            c.traces_of([s], label='many%d' % i)


def C12(c):
    sc = []
    for i, d in enumerate(mk2s(c, 30 if c.thorough else 14)):
        for z in ('none', ('some', 'mixed', 'opposite')[i % 3], 'all'):
            s = S('made', i, z)
            s.mk2('o', 'x', zeros=z, n=i % 3, **d)
            s.mkev('x', d['wires'], d['public'], d['committed'], z)
            s.key('o')
            sc.append(s)
    for i, d in enumerate(wide(c)):
        s = S('wide', i)
        s.mk2('o', 'x', zeros=('mixed', 'opposite')[i % 2], n=i % 3, **d)
        s.mkev('x', d['wires'], d['public'], d['committed'], ('mixed', 'opposite')[i % 2])
        s.key('o')
        sc.append(s)
    def then(s, sp, i):
        s.circuit(sp)
        s.p2n('p', 'o')
        last = s.chain2('o', i % 3)
        s.key(last)
        if provable(sp):
            s.prove('C12')
    sc += circuits(c, FIXED + specs(c, 40 if c.thorough else 14) + committed(c, 6 if c.thorough else 3) + LAZY[:3 if c.thorough else 1], 0, then)
    sc += behaviours(c, 300 if c.thorough else 20)
    c.traces_of(sc)
    large(c, LARGE[:1], then)
    many(c, c.thorough, False)
    c.model('MCGroth16')


def C13(c):
    sc = []
    for i, d in enumerate(mk2s(c, 30 if c.thorough else 14)):
        for z in ('none', ('some', 'mixed', 'opposite')[i % 3], 'all'):
            s = S('made', i, z)
            s.mk2('o', 'x', zeros=z, n=i % 3, **d)
            s.mkev('x', d['wires'], d['public'], d['committed'], z)
            s.key('o')
            s.keys('o', SESSIONS[i % len(SESSIONS)])
            sc.append(s)
    for i, d in enumerate(wide(c)):
        s = S('wide', i)
        s.mk2('o', 'x', zeros=('mixed', 'opposite')[i % 2], n=i % 3, **d)
        s.mkev('x', d['wires'], d['public'], d['committed'], ('mixed', 'opposite')[i % 2])
        s.key('o')
        s.keys('o', 'S')
        sc.append(s)
    def then(s, sp, i):
        part = c.rng.choice([2, 3, 5, 7]) if 'hash' not in sp and sp not in LARGE else 100
        s.circuit(sp, [part])
        s.p2n('p', 'o')
        last = s.chain2('o', 1 + i % 2)
        s.key(last)
        s.keys(last, 's%d' % part)
        if provable(sp):
            s.proveparts('s%d' % part, part)
    sc += circuits(c, FIXED + specs(c, 30 if c.thorough else 10) + committed(c, 9 if c.thorough else 5) + LAZY[:2 if c.thorough else 1], 0, then)
    sc += behaviours(c, 300 if c.thorough else 20)
    c.traces_of(sc)
    large(c, LARGE[1:2], then)
    many(c, c.thorough, True)


def C14(c):
    def then(s, sp, i):
        part = c.rng.choice([2, 3, 5, 7]) if sp not in LARGE else 100
        s.circuit(sp, [part])
        s.p2n('p', 'o')
        last = s.chain2('o', 1 + i % 2)
        s.key(last)
        if provable(sp):
            s.prove('C14')
        if i % 2:
            s.keys(last, 's%d' % part)
            if provable(sp):
                s.proveparts('s%d' % part, part)
    c.traces_of(circuits(c, committed(c, 60 if c.thorough else 24), 0, then) + behaviours(c, 300 if c.thorough else 20))
    large(c, LARGE[1:2], then)
    c.model('MCGroth16')


def C15(c):
    zk.THOROUGH_LEAKS = True
    sc = []
    for p in (1, 2, 3):
        s = S('phase1', p).batch(c.rng.choice([None, 2, 3]))
        s.p1n(p, 'a')
        s.chain1('a', 5)
        sc.append(s)
    for n in (1, 2, 7):
        s = S('phase1', 'made', n)
        s.mk1('a', 2, 'x', n)
        s.chain1('a', 3)
        sc.append(s)
    for i, d in enumerate(mk2s(c, 12 if c.thorough else 6)):
        s = S('phase2', i)
        s.mk2('o', 'x', n=i, **d)
        s.chain2('o', 5)
        sc.append(s)
    # every byte written to any file is recorded, also to files that don't stay
    c.need('zfault')
    for x in sc:
        x.tool = 'zfault'
    c.traces_of(sc)
    # variables of the environment that the commands ask for may make them tell more
    names = sorted(zk.ASKED)
    for v in ('1', 'true', 'debug') if names else ():
        c.traces_of([s.variant('%s-%s' % (s.name, v), tool='zfault', env={n: v for n in names}) for s in sc[:4] + sc[-3:]], label='asked')
    c.notes.append('environment variables the commands ask for: %s' % (', '.join(names) or 'none'))


def C19(c):
    sc = []
    for p in (1, 2, 3):
        for kind in ('fresh', 'converted'):
            s = S('phase1', p, kind)
            base = start1(s, kind, p)
            last = 'a'
            for j in range(6):
                s.p1c(last, 'n%d' % j)
                last = 'n%d' % j
                s.p1v(last, base)
            sc.append(s)
    for n in (1, 2, 30, 31, 32, 33, 255, 256):
        s = S('phase1', 'made', n)
        s.mk1('a', 1, 'unit', n)
        s.p1v('a')
        s.p1c('a', 'b')
        s.p1v('b')
        sc.append(s)
    for i, junk in enumerate(('hash', 'points', 'short')):
        s = S('phase1', 'junk', junk)
        s.mk1('a', 1 + i % 2, 'unit', 2 + i, junk)
        s.chain1('a', 2)
        sc.append(s)
        s = S('phase2', 'junk', junk)
        s.mk2('o', 'x', 6, 3, 3, 0, 4, 4, n=2 + i, junk=junk)
        s.chain2('o', 2)
        sc.append(s)
    for i, d in enumerate(mk2s(c, 12 if c.thorough else 8)):
        s = S('phase2', i)
        s.mk2('base', 'x', **d)
        s.mk2('o', 'x', n=i * i, **d)
        last = 'o'
        for j in range(4):
            s.p2c(last, 'n%d' % j)
            last = 'n%d' % j
            s.p2v(last, 'base')
        sc.append(s)
    for n in range(17, 46) if c.thorough else (20, 21, 22, 42, 43, 129, 257):
        s = S('phase2', 'made', n)
        s.mk2('base', 'x', 6, 3, 3, 0, 4, 4)
        s.mk2('o', 'x', 6, 3, 3, 0, 4, 4, n=n)
        s.p2v('o', 'base')
        s.p2c('o', 'q')
        s.p2v('q', 'base')
        sc.append(s)
    sc += ground(c, 1, lambda s: [s.p1v(f) for f in ('g1', 'g3')])
    sc += ground(c, 2, lambda s: [s.p2v(f, 'o') for f in ('g1', 'g3')])
    sc += behaviours(c, 300 if c.thorough else 20)
    c.traces_of(sc)


MC, FE = 'model_checking', 'fault_enumeration'
PLANS = {
    'C01': ('honest phase 1 ceremonies', MC, C01),
    'C02': ('phase 1 contributions', MC, C02),
    'C03': ('phase 1 parameters', MC, C03),
    'C04': ('phase 1 transcripts', MC, C04),
    'C05': ('conversion', MC, C05),
    'C06': ('phase 2 initialization', MC, C06),
    'C07': ('parted circuits', MC, C07),
    'C08': ('phase 2 contributions', MC, C08),
    'C09': ('honest phase 2 ceremonies', MC, C09),
    'C10': ('phase 2 parameters', MC, C10),
    'C11': ('phase 2 transcripts', MC, C11),
    'C12': ('keys', MC, C12),
    'C13': ('split keys', MC, C13),
    'C14': ('commitments', MC, C14),
    'C15': ('secrets', MC, C15),
    'C19': ('hashes', MC, C19),
}

TRACE = 'TLA+ specification, TLC; traces of the real commands validated against it byte by byte'
REPLAY = 'TLA+ specification model-checked with TLC; its adversarial files replayed into the real verifier'
NOTES = {
    'C01': (REPLAY + '; traces of whole ceremonies validated', 'Every chain of the model verifies (exhaustively over small constants); concrete ceremonies of many powers, lengths and batch layouts are run and judged by the specification. Powers above 12 only in the thorough tier (up to 21).'),
    'C02': (TRACE, 'The specification predicts every byte of the output from the input and the secrets inferred from the recorded draws. Powers up to 8 (10 in the thorough tier), all batch layouts through the verif hook.'),
    'C03': (REPLAY, 'The lemma that the pairing checks are equivalent to well-formedness is checked exhaustively in a small field; every file of the deviation model is replayed with every batch layout.'),
    'C04': (REPLAY, 'All deviations of the transcript of the bounded model, each replayed with concrete curve points; isolated violations of each check are among them.'),
    'C05': (TRACE, 'Files of the specification with known, also unrelated, elements; all pairs of powers up to 6 (8).'),
    'C06': (TRACE, 'The specification computes the evaluations of generated circuits over known powers; compared byte by byte. Circuits come from gnark\'s compiler, read back through gnark itself.'),
    'C07': (TRACE, 'Initialization from parts is compared with initialization from the whole circuit, for generated circuits and many part sizes.'),
    'C08': (TRACE, 'The specification predicts every byte of the output from the input and the inferred secret.'),
    'C09': (REPLAY + '; traces of whole ceremonies validated', 'As C01 for phase 2.'),
    'C10': (REPLAY, 'All deviations of the parameters of the bounded model against all origins, with every batch layout.'),
    'C11': (REPLAY, 'As C04 for phase 2.'),
    'C12': (TRACE + '; Groth16 identity model-checked', 'Keys are predicted byte by byte from the phase 2 file; proofs made with gnark on them are judged too.'),
    'C13': (TRACE, 'Split keys are compared with the single-file keys of the same ceremony; proofs with gnark\'s segmented prover.'),
    'C14': (TRACE + '; Groth16 identity model-checked', 'Generated circuits with commitments; more than two committed public variables are only compared, gnark cannot prove with them.'),
    'C15': (TRACE, 'All reads of the random generator are recorded; secrets are found among the draws by their commitments; all bytes ever written, file names and output are searched for them. A secret encoded in another way than binary, base64 or digits of a base would be missed.'),
    'C19': (TRACE, 'Printed hashes compared with stored ones along chains of both phases.'),
}


def C16(c):
    import damage
    damage.run(c)


PLANS['C16'] = ('damaged files', FE, C16)
NOTES['C16'] = ('TLA+ damage model enumerated by TLC, every damaged file replayed into the real commands',
                'All cuts of small files of every kind and of circuits, all bits of parameters and records, and every element replaced with bytes that stand for no point; the quick tier takes a part of them chosen by the seed.')


def ceremony(s, sp, power, kind='fresh', n1=1, n2=1, parts=(), split=True):
    """a whole ceremony, from the starting point to keys and contract"""
    base = start1(s, kind, power)
    last = s.chain1('a', n1)
    s.p1v(last, base)
    s.circuit(sp, parts)
    s.p2n(last, 'o')
    for q in parts:
        s.p2np(last, 'r%d' % q, 'o', q)
    fin = s.chain2('o', n2)
    s.p2v(fin, 'o')
    s.key(fin)
    if split:
        s.keys(fin, 'S')
        s.sol('S')
    return fin


def behaviours(c, n):
    """generated behaviours of the whole system, with plain and committing circuits"""
    pool = ['pub=1,sec=1,mul=1', 'pub=2,sec=2,mul=3,commit=1,commitpub=1', 'pub=1,sec=2,mul=%d,seed=%d' % (c.rng.randint(4, 12), c.rng.randint(0, 999)),
            'pub=2,sec=3,mul=%d,commit=%d,commitint=1,seed=%d' % (c.rng.randint(4, 8), c.rng.randint(1, 3), c.rng.randint(0, 999))]
    return c.behaviours(n, pool)


def C17(c):
    import files
    files.c17(c)


def C18(c):
    import files
    files.c18(c)
    sc = []
    for i, sp in enumerate(specs(c, 6 if c.thorough else 3) + committed(c, 4 if c.thorough else 2)):
        s = S('ceremony', i)
        fin = ceremony(s, sp, power_for(sp), ('fresh', 'converted', 'any')[i % 3], 1 + i % 2, 1 + i % 3, [3] if i % 2 else [7])
        # commands that fail
        s.p1v('a')
        s.p2v('o', 'o')
        s.p2v(fin, fin, False)
        s.p2np('a.c1', 'w', 'o', 3 if i % 2 else 7, 1)
        sc.append(s)
    sc += behaviours(c, 300 if c.thorough else 20)
    c.traces_of(sc)


PLANS['C17'] = ('complete outputs', FE, C17)
PLANS['C18'] = ('inputs kept', MC, C18)
NOTES['C17'] = ('TLA+ model of buffered writing checked by TLC; the failures it enumerates are injected into every write of the real commands',
                'Every write call of every command fails in every way (quick: at most 24 calls per command), file size limits, full devices, unusable paths; the undisturbed output is the oracle.')
NOTES['C18'] = ('TLA+ model of the directory checked by TLC; every alias it enumerates is laid out for the real commands; traces of ceremonies validated',
                'All pairs of an output and an input of every command in eight kinds of aliases; inputs are also compared before and after every step of generated ceremonies.')


def C22(c):
    import files
    files.c22(c)
    sc = []
    for p in range(1, 9 if c.thorough else 6):
        s = S('powers', p)
        s.p1n(p, 'a')
        for q in range(p, 9 if c.thorough else 6):
            s.mkppot('pp%d' % q, q)
            s.p1t('pp%d' % q, 't%d' % q, q, p)
        sc.append(s)
    # files are taken and left where the request says
    for k, sp in enumerate(specs(c, 3, mul=3) if c.thorough else specs(c, 1, mul=3)):
        s = S('names', k)
        a = ['a.1', 'd/my file', './b', 'd/../c.c.c', 'd.d/e.tmp', '#', 'p1n', 'd/evals', 'd/srs.lag', 'd/pk', 'a.1~']
        if k:
            c.rng.shuffle(a)
        p = power_for(sp)
        s.mkppot('ppot.in', p + 1)
        s.p1t('ppot.in', a[0], p + 1, p)
        s.p1c(a[0], a[1])
        s.p1c(a[1], a[2])
        s.p1v(a[2], a[0])
        s.p1n(p, a[3])
        s.p1c(a[3], a[4])
        s.p1v(a[4])
        s.circuit(sp)
        s.p2n(a[2], a[5])
        s.p2c(a[5], a[6])
        s.p2c(a[6], a[7])
        s.p2v(a[7], a[5])
        s.p2v(a[6], a[5])
        s.p2n(a[4], a[8])
        s.p2c(a[8], a[9])
        s.p2v(a[9], a[8])
        s.key(a[9])
        s.keys(a[9], a[10])
        s.sol(a[10])
        sc.append(s)
    c.traces_of(sc)


PLANS['C22'] = ('the command line', MC, C22)
NOTES['C22'] = ('TLA+ specification of requests enumerated by TLC; every request is given to the real command',
                'Argument counts, boundary powers and pairs, texts that are no numbers, unreadable and unwritable files, permuted arguments. That 26 and 28 pass the check is seen without doing the whole operation.')


# ---------------------------------------------------------------- schedules, batches, sizes
def twins(c, big=True):
    """plans that touch all parallel and batched code"""
    sc = []
    for p in (1, 3, 5) + ((8, 10) if c.thorough and big else (7,) if big else ()):
        s = S('phase1', p)
        base = start1(s, ('converted', 'fresh')[p % 2] if p != 5 else 'any', p, 2 if p == 5 else 0)
        s.p1v(s.chain1('a', 2, p > 6), base)
        sc.append(s)
    for i, d in enumerate(mk2s(c, 8 if c.thorough else 5)):
        s = S('phase2', i)
        z = ('none', 'some')[i % 2]
        s.mk2('base', 'x', zeros=z, **d)
        s.mk2('o', 'x', n=i % 3, zeros=z, **d)
        s.p2v(s.chain2('o', 2), 'base')
        sc.append(s)
    s = S('phase2', 'wide')
    s.mk2('o', 'x', 320, 300, 20, 0, 256, 256)
    s.p2v(s.chain2('o', 2, True), 'o')
    sc.append(s)
    for i, sp in enumerate(['pub=2,sec=3,mul=70,seed=4', 'pub=1,sec=2,mul=5,commit=1,seed=1'] + (specs(c, 4) + committed(c, 3) + ['pub=2,sec=3,mul=250,seed=6'] if c.thorough else [])):
        s = S('ceremony', i)
        # p2np doesn't print and may write other things than p2n, its effects are compared too
        ceremony(s, sp, power_for(sp), ('fresh', 'any')[i % 2], 1, 1, [4])
        sc.append(s)
    return sc


def C20(c):
    import par
    par.loops(c)
    base = twins(c)
    many = (1, 2, 3, 4, 5, 6, 7) if c.thorough else (1, 2, 3, 5, 6)
    sc, pairs = list(base), []
    for s in base:
        for n in many:
            v = s.variant('%s-cpus%d' % (s.name, n), cpus=n)
            pairs.append((s, v, 'on %d CPUs' % n))
        for k in range(3 if c.thorough else 1):
            v = s.variant('%s-again%d' % (s.name, k), env={'GOMAXPROCS': str((16, 3, 5)[k])})
            pairs.append((s, v, 'in another run'))
    # the variants' own bytes are those of the first; only these are validated
    import zk as z
    c.need('z', 'gtool')
    z.play([v for _, v, _ in pairs])
    c.traces_of(sc, pairs=pairs)
    c.notes.append('%d scenarios repeated with the same draws on 1 to 8 CPUs: every output, printed hash and verdict compared' % len(base))
    par.conversions(c, par.CPUS if c.thorough else (1, 2, 3, 5, 6))
    par.races(c, base)
    # verdicts on bad files don't depend on the CPUs either
    c.vectors('Gen1', 'C03', (None,), keep=lambda d: d['fam'] in ('section', 'scale', 'all'), cpus=3)
    c.model('Fft')


def C21(c):
    import par
    par.conversions(c, (None, 1, 3) if not c.thorough else (None,) + par.CPUS)
    sc = []
    for p in (1, 2, 3, 4, 5, 6, 7) + ((8, 9, 10) if c.thorough else ()):
        for m in {2 ** p, 2 ** (p - 1) + 1, max(1, 2 ** (p - 2)) if p > 2 else 1}:
            s = S('domain', p, m)
            s.cpus = c.rng.choice([None, None, 1, 3, 5])
            s.mk1('p', p, 'x')
            s.circuit('pub=1,sec=2,mul=%d,seed=%d' % (m, m))
            s.p2n('p', 'o')
            sc.append(s)
    c.traces_of(sc)
    c.model('Fft')


def C23(c):
    sc = []
    top = 9 if c.thorough else 6
    for p in range(1, top + 1):
        for m in sorted({2 ** p - 1, 2 ** p, 2 ** p + 1, 2 ** (p - 1), 2 ** (p - 1) + 1, 2 ** (p + 1)} | ({1, 3 * 2 ** p} if p < 7 else set())):
            s = S('fit', p, m)
            s.mk1('p', p, ('x', 'unit')[m % 2])
            part = c.rng.choice([1, 2, 3, 7, 1000])
            s.circuit('pub=1,sec=2,mul=%d,seed=%d' % (m, p), [part])
            s.p2n('p', 'o')
            s.p2np('p', 'r', 'o', part)
            sc.append(s)
    # publics and commitments add constraints and wires
    for i, sp in enumerate(committed(c, 12 if c.thorough else 6) + specs(c, 6, pub=4)):
        for less in (0, 1):
            s = S('others', i, less)
            s.mk1('p', max(1, power_for(sp) - 1 - less), 'x')
            s.circuit(sp, [3])
            s.p2n('p', 'o')
            s.p2np('p', 'r', 'o', 3)
            sc.append(s)
    # constraints in lazy form count fully: 330 of them behind a few stored ones
    for p, m in ((8, 1), (7, 1), (9, 182), (9, 183)) if not c.thorough else ((8, 1), (7, 1), (4, 1), (1, 1), (9, 181), (9, 182), (9, 183), (10, 694), (10, 695)):
        s = S('lazy', p, m)
        s.mk1('p', p, 'unit')
        s.circuit('pub=1,sec=1,mul=%d,hash=1,lazy=1' % m, [60])
        s.p2n('p', 'o')
        s.p2np('p', 'r', 'o', 60)
        sc.append(s)
    # the power counts that is in the file, also after conversion
    for p, q in ((4, 2), (3, 3), (5, 1)):
        for m in (2 ** q, 2 ** q + 1):
            s = S('converted', p, q, m)
            s.mkppot('pp', p)
            s.p1t('pp', 'p', p, q)
            s.p1c('p', 'pc')
            s.circuit('pub=1,sec=1,mul=%d' % m, [2])
            s.p2n('pc', 'o')
            s.p2np('pc', 'r', 'o', 2)
            sc.append(s)
    c.traces_of(sc)


def C24(c):
    sc = []
    for n in list(range(1, 41 if c.thorough else 18)) + [33, 64, 100, 130]:
        for z in ('none', 'some'):
            if z == 'some' and n % 3:
                continue
            s = S('publics', n, z)
            k = n % 4
            s.mk2('o', 'x', n + k + 2, 2, n, k, 2, 2, z, n % 3)
            s.mkev('x', n + k + 2, n, k, z)
            s.key('o')
            session = SESSIONS[n % len(SESSIONS)] if n < 20 else 'S%d' % n
            s.keys('o', session)
            s.sol(session)
            sc.append(s)
    for i, sp in enumerate(specs(c, 8 if c.thorough else 4) + committed(c, 9 if c.thorough else 4)):
        s = S('ceremony', i)
        ceremony(s, sp, power_for(sp), ('fresh', 'any', 'converted')[i % 3], 1, 1 + i % 2)
        sc.append(s)
    sc += behaviours(c, 300 if c.thorough else 20)
    c.traces_of(sc)
    import files
    files.c24(c)


def C25(c):
    base = twins(c, False)
    c.need('z', 'gtool')
    sc, pairs = list(base), []
    for s in base:
        for b in range(2, 12) if c.thorough else pick(c, range(2, 10), 4):
            v = s.variant('%s-batch%d' % (s.name, b), batch=b)
            pairs.append((s, v, 'with batches of %d' % b))
    zk.play([v for _, v, _ in pairs])
    c.traces_of(sc, pairs=pairs)
    c.notes.append('%d scenarios repeated with the same draws and other batch sizes: every output and verdict compared' % len(base))
    sizes = (2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17) if c.thorough else tuple(pick(c, (2, 4, 6, 8), 2) + pick(c, (3, 5, 7, 9), 2))
    c.vectors('Gen1', 'C03', sizes, keep=lambda d: d['fam'] in ('point', 'cancel', 'section', 'scale', 'all', 'empty'))
    c.vectors('Gen1', 'C01', sizes)
    c.vectors('Gen2', 'C10', sizes, keep=lambda d: d['fam'] in ('point', 'cancel', 'params', 'shape', 'header'))
    c.model('Batch')


PLANS.update({
    'C20': ('CPUs and schedules', MC, C20),
    'C21': ('the Lagrange conversion', MC, C21),
    'C23': ('circuits that fit', MC, C23),
    'C24': ('the exported contract', MC, C24),
    'C25': ('batches', MC, C25),
})
NOTES.update({
    'C20': ('TLA+ models of the parallel loop and of the parallel transform, all interleavings checked by TLC; recorded loops validated; commands repeated on other numbers of CPUs',
            'The models cover every interleaving up to 9 indices and 5 workers, and transforms up to 16. The real code is run on 1 to 8 CPUs and under the race detector; other interleavings of the real code are not controlled.'),
    'C21': ('TLA+ model of the transform checked by TLC; its vectors replayed into the real conversion; traces validated',
            'Inputs of twelve shapes for all sizes up to 512 in G1 and 128 in G2 (4096 and 1024), and the conversion inside phase 2 initialization.'),
    'C23': (TRACE, 'Circuits one constraint below, at and above every power up to 64 (512), whole and parted, with stored and lazy constraints.'),
    'C24': (TRACE + '; damaged keys enumerated', 'Keys with 1 to 130 public inputs; the numbers in the contract are compared in order, its other text is gnark\'s template. Every cut of small keys.'),
    'C25': ('TLA+ model of batching checked by TLC; vectors replayed with many batch sizes; traces repeated with other batch sizes and compared',
            'Batch sizes from 2 on, set through the verif hook; the size built in is 2^20, which files of power 20 and 21 reach in the thorough tier of C01.'),
})


def C26(c):
    import files
    files.c26(c)


def C27(c):
    import files
    files.c27(c)


PLANS['C26'] = ('the random generator fails', FE, C26)
PLANS['C27'] = ('leftovers and interruptions', FE, C27)
NOTES['C26'] = ('TLA+ model of drawing from a generator that may fail checked by TLC; the failures it enumerates are injected into the reads of the real commands',
                'Every read of every command fails once and for good (quick: at most 24 reads per command).')
NOTES['C27'] = ('TLA+ model of interrupted and repeated writing checked by TLC; the situations it enumerates are laid out for the real commands',
                'Leftovers of three contents in all combinations of the model, kills at writes (quick: 10 per command), eight other surroundings; the undisturbed output is the oracle.')
