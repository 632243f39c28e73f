#!/usr/bin/env python3
"""Plant one seeded change: mkseed.py SPEC.py  (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)."""
import os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, 'tools', 'seedkit')


def sh(cmd, cwd):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    sid = ns['ID']
    work = '/tmp/seedwork'
    shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call('cp -a /repo %s' % work, shell=True)
    try:
        d = os.path.join(V, 'seeded', sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in ('stub.py', 'kit.py', 'demo.sh'):
            shutil.copy(os.path.join(KIT, f), d)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write('import stub\n' + ns['DEMO'].lstrip('\n'))
        rc0, o0 = sh('bash %s/demo.sh' % d, work)
        for f, old, new in ns['EDITS']:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('EDIT: %s matches %d times' % (f, s.count(old)))
                shutil.rmtree(d)
                return 2
            open(p, 'w').write(s.replace(old, new))
        rc, patch = sh('git diff', work)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        rc1, o1 = sh('bash %s/demo.sh' % d, work)
        rct, ot = sh('PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors tests 2>&1 | tail -3', work)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ok = rc0 == 0 and rc1 != 0 and '6 passed' in ot
        print(sid, 'demo base', rc0, 'patched', rc1, '|', ot.strip().splitlines()[-1][-60:], '|', 'OK' if ok else 'BAD')
        if not ok:
            print(o0[-1500:]); print(o1[-600:])
        # the check against the patched copy
        r = subprocess.run([os.path.join(V, 'check'), ns['PROPERTY'], 'quick'], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=work))
        tail = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
        print('   check exit', r.returncode, '|', ' || '.join(x[:150] for x in tail[-3:]))
        return 0 if ok else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main(sys.argv[1]))
