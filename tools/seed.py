"""seed.py <id> : (re)make /verif/seeded/<id> from tools/seeds/<id>.py and confirm it in /repo (applied, built, tested, demonstrated, undone)"""
import json, os, re, subprocess, sys
V = '/verif'
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(sid, run_checks):
    g = {}
    exec(open('%s/tools/seeds/%s.py' % (V, sid)).read(), g)
    d = '%s/seeded/%s' % (V, sid)
    os.makedirs(d, exist_ok=True)
    assert sh('git -C %s status --porcelain' % R).stdout.strip() == '', 'repo dirty'
    try:
        for f, old, new in g['edits']:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
    finally:
        sh('git -C %s checkout -- .' % R)
    open(d + '/demo.cpp', 'w').write(g['demo'])
    open(d + '/demo.sh', 'w').write(open(V + '/tools/demo.sh.in').read().replace('@EXTRA@', g.get('extra', '')))
    json.dump(g['meta'], open(d + '/meta.json', 'w'), indent=1)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    print('demo unchanged:', r0.returncode, r0.stdout[-300:], r0.stderr[-600:])
    try:
        a = sh('git -C %s apply %s/patch.diff' % (R, d))
        assert a.returncode == 0, a.stderr
        t = sh('bash /opt/vp/test.sh /tmp/seed-out.json')
        o = json.load(open('/tmp/seed-out.json'))
        bad = base - set(o['passed'])
        print('tests failing with patch:', len(bad), sorted(bad)[:5])
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        print('demo patched:', r1.returncode, r1.stdout[-300:], r1.stderr[-300:])
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and not bad
        print('SEED', sid, 'OK' if ok else 'REJECTED')
        if run_checks:
            for p in run_checks:
                c = sh('bash %s/check.sh %s quick' % (V, p), cwd=V)
                print('check', p, '->', c.returncode)
                print('   ' + c.stdout.strip().replace('\n', '\n   ')[:1500], c.stderr[-500:])
    finally:
        sh('git -C %s checkout -- .' % R)
        sh('bash /opt/vp/build.sh')


main(sys.argv[1], sys.argv[2:])
