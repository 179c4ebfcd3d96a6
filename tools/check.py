#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo's current tree
check.py replay FILE                 repeats what a VIOLATION line's file describes"""
import os, sys, traceback, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import zk, ctx, plans


def replay(name):
    d = json.load(open(name))
    zk.SEED = d.get('seed', zk.SEED)
    c = ctx.Ctx(d['property'], 'quick', 'model_checking')
    c.need('z', 'gtool')
    if d['kind'] == 'vector':
        f, b = zk.path('file'), zk.path('base')
        for n, h in ((f, d['vector']['bytes']), (b, d['base'])):
            with open(n, 'wb') as o:
                o.write(bytes.fromhex(h))
        a = ['p2v', f, b] if d['module'] == 'Gen2' else ['p1v', f] if d['vector']['base'] == 0 else ['p1vt', f, b]
        p = zk.run([zk.TOOLS['z']] + a, zk.WORK, {'ZKV_BATCH': str(d['batch'])} if d['batch'] else None)
        print(p.out.decode('utf-8', 'replace'))
        print('exit status %d, must be %s' % (p.rc, '0' if d['vector']['accept'] else 'another than 0 because of ' + ', '.join(d['vector']['fails'])))
        return int((p.rc == 0) != d['vector']['accept'])
    if d['kind'] == 'scenario':
        s = zk.Scenario(d['name'])
        s.plan, s.env = d['plan'], d['env']
        zk.play([s])
        bad, _ = zk.validate([s])
        for b in bad:
            print(b)
        return int(bool(bad))
    print(json.dumps(d, indent=1))
    return 0


def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    title, level, plan = plans.PLANS[prop]
    c = ctx.Ctx(prop, tier, level)
    plan(c)
    return c.finish(title)


if __name__ == '__main__':
    try:
        rc = main()
    except zk.Broken as e:
        print('ERROR: %s' % e, flush=True)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
