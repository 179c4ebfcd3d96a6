"""What a check of one property collects: violations, counts and samples; writes the evidence and replay files."""
import concurrent.futures, json, os, random, re, shutil, sys, tempfile, time
import zk
from zk import Scenario, Broken, log

TIERS = ('quick', 'thorough')


def known_findings():
    """lines 'known: property=<id> <what>' of the findings file; fixed ones suppress nothing"""
    res = []
    with open(os.path.join(zk.VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) (.*)', line.strip())
            if m:
                res.append((m.group(1), m.group(2)))
    return res


class Ctx:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.thorough = tier == 'thorough'
        zk.LIMIT = 1800 if self.thorough else 240
        self.rng = random.Random('%s/%s' % (zk.SEED, prop))
        self.start = time.time()
        self.violations, self.samples = [], []
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.distinct = set()
        self.notes, self.models = [], []
        self.built = {}

    # ------------------------------------------------------------ building
    def need(self, *names):
        for n in names:
            if n not in zk.TOOLS:
                zk.TOOLS[n] = zk.BUILDERS[n]() if n in zk.BUILDERS else zk.build_tool(n)

    # ------------------------------------------------------------ reporting
    def violation(self, what, replay):
        self.violations.append((what, replay))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def model(self, module, consts=None, timeout=800, env=None, extra=()):
        """model checking of the specification itself; a failure is an error of the check"""
        r = zk.tlc(module, consts=consts, timeout=timeout, env=env, xmx='16g', extra=extra)
        if not r.ok:
            raise Broken('%s violated in %s:\n%s' % (r.violated, module, r.text[-3000:]))
        self.count(r)
        self.models.append('%s%s: %d states, %d transitions' % (module, ' ' + json.dumps(consts) if consts else '', r.distinct, r.generated))
        log('model %s: %d states, %.1f s' % (module, r.distinct, r.wall))
        return r

    # ------------------------------------------------------------ specification -> code
    def behaviours(self, n, pool, depth=24, part=3, power=4):
        """behaviours of Ceremony.tla, found by simulation, as scenarios; pool: the circuits they may use"""
        self.need('z', 'gtool')
        known = []
        for sp in pool:
            d = tempfile.mkdtemp(dir=zk.WORK)
            p = zk.run([zk.TOOLS['gtool'], 'gen', sp, d, str(part)], d)
            if p.rc:
                raise Broken('gtool: ' + p.out.decode())
            known.append(dict(constraints=json.load(open(d + '/c.json'))['constraints'], provable=int(dict(x.split('=') for x in sp.split(',')).get('commitpub', 0)) <= 2))
            shutil.rmtree(d)
        inp, out = zk.path('circuits.json'), zk.path('behaviours.ndjson')
        with open(inp, 'w') as f:
            json.dump(known, f)
        r = zk.tlc('Ceremony', {'ZK_IN': inp, 'ZK_OUT': out}, consts={'Depth': depth, 'MaxPower': power}, workers=1,
                   extra=('-simulate', 'num=%d' % n, '-depth', str(depth + 5), '-seed', str(self.rng.randrange(1, 1 << 30))))
        if not r.ok:
            raise Broken('%s violated in Ceremony:\n%s' % (r.violated, r.text[-3000:]))
        self.count(r)
        plans = zk.lines(out)
        self.models.append('Ceremony: %d behaviours of %d steps, %d states looked at' % (len(plans), depth, r.distinct))
        res = []
        for i, plan in enumerate(plans):
            s = Scenario('behaviour-%d' % i).batch(self.rng.choice([None, None, 2, 3, 5]))
            res.append(s.behaviour(plan, pool, part))
        return res

    def vectors(self, module, want, batches=(None,), keep=lambda d: True, cpus=None, more=None, same=None):
        """verification vectors of Gen1 / Gen2 replayed; their verdicts must be the specification's; more(d): further (batch, CPUs);
        same(d): bytes lo:hi that are the same in all draws of the verification"""
        self.need('z')
        out = zk.path(module + '.ndjson')
        for n in (out, out + '.bases'):
            if os.path.exists(n):
                os.remove(n)
        r = zk.tlc(module, {'ZK_OUT': out, 'ZK_WANT': want, 'ZK_DEEP': '1' if self.thorough else '0'}, timeout=850, xmx='16g')
        if not r.ok:
            raise Broken(r.text[-3000:])
        self.count(r)
        bases = {}
        for d in zk.lines(out + '.bases'):
            k = str(d.get('power', d.get('name')))
            bases[k] = zk.path(module + '.base.' + k)
            with open(bases[k], 'wb') as f:
                f.write(bytes.fromhex(d['bytes']))
        vs = [d for d in zk.lines(out) if keep(d)]
        if not vs:
            raise Broken('no vectors')
        jobs = [(i, d, b, cpus, None) for i, d in enumerate(vs) for b in batches]
        if more:
            jobs += [(i, d, b, n, None) for i, d in enumerate(vs) for b, n in more(d)]
        if same:
            jobs += [(i, d, None, cpus, w) for i, d in enumerate(vs) for w in same(d)]

        def one(j):
            i, d, b, cpus, w = j
            fn = zk.path('v%d.%s.%s.%s' % (i, b, cpus, w))
            with open(fn, 'wb') as f:
                f.write(bytes.fromhex(d['bytes']))
            if module == 'Gen1':
                a = ['p1v', fn] if d['base'] == 0 else ['p1vt', fn, bases[str(d['power'])]]
            else:
                a = ['p2v', fn, bases[d['origin']]]
            env = {'ZKV_BATCH': str(b)} if b else {}
            if w:
                env.update(ZKV_RAND='%s/%d' % (zk.SEED, i), ZKV_SAME=w)
            p = zk.run([zk.TOOLS['z']] + a, zk.WORK, env, cpus)
            os.remove(fn)
            return d, '%s, bytes %s of all draws the same' % (b, w) if w else b, p
        seen = {}
        with concurrent.futures.ThreadPoolExecutor(zk.POOL) as ex:
            for d, b, p in ex.map(one, jobs):
                seen[d['accept']] = seen.get(d['accept'], 0) + 1
                if (p.rc == 0) != d['accept']:
                    self.violation('%s: verification %s a file that must be %s (%s), batch %s' % (
                        d['id'], 'accepts' if p.rc == 0 else 'rejects', 'accepted' if d['accept'] else 'rejected', ','.join(d['fails']), b),
                        dict(kind='vector', module=module, vector=d, batch=b, base=open(bases[str(d['power'])], 'rb').read().hex() if module == 'Gen1'
                             else open(bases[d['origin']], 'rb').read().hex(), rc=p.rc, output=p.out.decode('utf-8', 'replace')[-2000:]))
        self.traces += len(jobs)
        self.evaluations += len(jobs)
        self.distinct |= {d['id'] for d in vs if not d['accept'] or d['fam'] != 'honest'}
        fams = {}
        for d in vs:
            fams[d['fam']] = fams.get(d['fam'], 0) + 1
        self.notes.append('%s vectors by family: %s; accepted/rejected runs: %s/%s; batches %s' % (module, fams, seen.get(True, 0), seen.get(False, 0), list(batches)))
        for d in vs[:: max(1, len(vs) // 3)][:3]:
            self.sample(dict(vector=d['id'], accept=d['accept'], fails=d['fails'], bytes=d['bytes'][:200]))
        log('vectors %s/%s: %d replayed' % (module, want or 'all', len(jobs)))

    # ------------------------------------------------------------ code -> specification
    def traces_of(self, scenarios, cpus=None, label='trace', pairs=()):
        """pairs: (scenario, variant, what) whose effects must be the same"""
        self.need('z', 'gtool')
        scenarios = list(scenarios)
        if not scenarios:
            return
        t = time.time()
        zk.play(scenarios, cpus=cpus)
        t1 = time.time()
        scenarios += [zk.same(a, b, self.prop, what) for a, b, what in pairs]
        bad, r = zk.validate(scenarios, label)
        self.count(r)
        self.traces += len(scenarios)
        n = sum(len(s.steps) for s in scenarios)
        self.evaluations += n
        self.distinct |= {json.dumps([(k, str(v)) for e in s.plan for k, v in sorted(e.items())]) for s in scenarios}
        other = {}
        for b in bad:
            if self.prop in b['props']:
                s = scenarios[b['scn'] - 1]
                self.violation('%s, step %d (%s): %s' % (b['name'], b['line'], b['op'], b['what']),
                               dict(kind='scenario', name=s.name, env=s.env, plan=s.plan, deviation=b, seed=zk.SEED, step=clip(s.steps[b['line'] - 1])))
            else:
                for q in b['props']:
                    other[q] = other.get(q, 0) + 1
        if other:
            log('deviations that concern other properties: %s' % other)
        for s in scenarios[:: max(1, len(scenarios) // 3)][:3]:
            self.sample(dict(scenario=s.name, env=s.env, steps=[' '.join('%s=%s' % (k, v) for k, v in e.items() if k != 'env') for e in s.plan][:12]))
        ops = {}
        for s in scenarios:
            for e in s.steps:
                ops[e['op']] = ops.get(e['op'], 0) + 1
        self.notes.append('%s: %d scenarios, steps by command: %s' % (label, len(scenarios), ops))
        log('%d scenarios, %d steps: played in %.1f s, validated in %.1f s' % (len(scenarios), n, t1 - t, time.time() - t1))
        return bad

    # ------------------------------------------------------------ end
    def finish(self, title):
        d = os.path.join(zk.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        known = [w for p, w in known_findings() if p == self.prop]
        new = []
        for what, replay in self.violations:
            k = [w for w in known if what.startswith(w)]
            if k:
                log('KNOWN-FINDING: property=%s %s' % (self.prop, what))
            else:
                new.append((what, replay))
        self.notes += sorted(set(zk.PLAIN))
        cov = dict(notes=self.notes, models=self.models, samples=self.samples or ['none'])
        if self.level == 'model_checking':
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, steps_compared=self.evaluations)
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct),
                       rule='cases are enumerated by the specification; distinct ones that damage, fault or alias something are non-trivial',
                       states=self.states, transitions=self.transitions)
        ev = dict(property=self.prop, tier=self.tier, seed=int(zk.SEED), level=self.level, coverage=cov, wall_s=round(time.time() - self.start, 2),
                  violations=len(new), assumptions=ASSUMPTIONS)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not new:
            log('%s holds on everything explored (%s): %d states, %d replayed or validated, %.1f s' % (self.prop, title, self.states, self.traces, ev['wall_s']))
            return 0
        rd = os.path.join(zk.VERIF, 'build', 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, (what, replay) in enumerate(new[:5]):
            fn = os.path.join(rd, '%s-%d.json' % (self.prop, i + 1))
            with open(fn, 'w') as f:
                json.dump({**{'detail' if k == 'what' else k: v for k, v in replay.items()}, 'property': self.prop, 'what': what}, f, indent=1)
            log('VIOLATION property=%s replay=%s' % (self.prop, fn))
            log('  ' + what[:600])
        log('%d violations' % len(new))
        return 1


ASSUMPTIONS = [
    'gnark-crypto computes the curve and the pairing correctly (its decoder and pairing are used by the code under test; the expected bytes come from an independent implementation in java/Curve.java)',
    'elements of the groups are represented by their discrete logarithms; discrete logarithms and the hash function are as hard as usual',
    'properties over all inputs are checked on the enumerated or generated ones described here',
]


def clip(step):
    return {k: (v if len(str(v)) < 3000 else str(v)[:3000] + '...') for k, v in step.items()}
