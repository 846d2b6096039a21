"""Plants a bug: python3 tools/plant.py SPEC.py [--check] — SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python).
Writes seeded/ID, confirms: applies, builds, stable tests pass, demo passes clean and fails patched; --check runs the property's check too."""
import json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    spec = runpy.run_path(sys.argv[1])
    if sh('git -C %s status --porcelain' % R).stdout.strip():
        sys.exit('/repo is not clean')
    d = os.path.join(V, 'seeded', spec['ID'])
    os.makedirs(d, exist_ok=True)
    ok = True
    try:
        for f, old, new in spec['EDITS']:
            p = os.path.join(R, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                raise SystemExit('%s: old text occurs %d times' % (f, s.count(old)))
            open(p, 'w', newline='').write(s.replace(old, new))
        open(d + '/patch.diff', 'w', newline='').write(subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
        open(d + '/demo.py', 'w').write(spec['DEMO'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
cd "$work"
HOME="$work" PYTHONPATH="/repo/_build/src:/opt/vp/venv/lib/python3.12/site-packages" timeout 250 /opt/vp/venv/bin/python3 "$here/demo.py"
rc=$?
cd /
rm -rf "$work"
exit $rc
''')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/test.sh /tmp/plant.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base if isinstance(base, list) else base.get('passed') or base.get('stable') or list(base.values())[0]
        try:
            got = set(json.load(open('/tmp/plant.json'))['passed'])
        except Exception:
            got = set()
        miss = [t for t in stable if t not in got]
        if miss:
            ok = False
            print('tests fail:', miss[:5], b.stdout[-1500:] if len(miss) > 100 else '')
        r = sh('bash %s/demo.sh' % d, cwd=R)
        print('patched demo rc', r.returncode, r.stdout[-300:])
        ok &= r.returncode != 0
        if '--check' in sys.argv:
            c = sh('./check %s' % spec['PROPERTY'], cwd=V)
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
            print('check rc', c.returncode, len(v), v[:1], '' if v else c.stdout[-300:])
    finally:
        sh('git -C %s checkout -- .' % R)
    b = sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=R)
    print('clean demo rc', r.returncode, r.stdout[-300:] if r.returncode else '')
    ok &= r.returncode == 0
    print(spec['ID'], 'KEEP' if ok else 'REJECTED')
    if not ok:
        sh('rm -rf %s' % d)


main()
