"""Plant changes: seed.py add SPEC.py | seed.py run [ID...]  (development aid)

SPEC.py defines SEEDS = [dict(id, property, file, edits=[(old, new)], needs,
breaks, demo)].  Each is applied to /repo, built, tested, demonstrated, checked
and undone.  No check reads the result."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))

SH = '''#!/bin/bash
# Run in /repo after the build: exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$t SCRATCH=$t
/opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


def tests_ok():
    out = '/tmp/seed_tests.json'
    r = sh('bash /opt/vp/test.sh %s' % out)
    try:
        d = json.load(open(out))
    except Exception:      # noqa
        return False, r.stdout[-400:]
    want = BASE['stable']
    got = d.get('passed', [])
    names = [x if isinstance(x, str) else x.get('name') for x in want]
    miss = [n for n in names if n not in got]
    return not miss, miss


def demo(d):
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    return r.returncode, (r.stdout + r.stderr)[-300:]


def checks(prop, all_=False):
    m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    out = {}
    procs = []
    for c in m['checks']:
        if all_ or c['property'] == prop:
            procs.append((c['property'], subprocess.Popen(
                c['quick_cmd'], shell=True, cwd=VERIF, text=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for p, pr in procs:
        o = pr.communicate()[0]
        out[p] = (pr.returncode, o)
    return out


def run(sid, all_=False):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        print(sid, 'DOES NOT APPLY', r.stderr[:200])
        return
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print(sid, 'BUILD FAILS', b.stdout[-300:], b.stderr[-300:])
            return
        t, miss = tests_ok()
        rc, o = demo(d)
        ck = checks(meta['property'], all_)
    finally:
        clean()
    caught = {p: x[0] for p, x in ck.items() if x[0]}
    print(sid, meta['property'], 'tests', 'ok' if t else miss, 'demo', rc,
          'checks', caught or 'MISSED')
    for p, x in ck.items():
        if x[0]:
            for ln in x[1].splitlines():
                if 'VIOLATION' in ln or x[0] == 2:
                    print('   ', ln[:200])
                    break
    if rc == 0:
        print('    DEMO DOES NOT FAIL', o)
    return


def rundemos(ids):
    sh('bash /opt/vp/build.sh')
    for s in ids:
        rc, o = demo(os.path.join(SEEDED, s))
        if rc:
            print(s, 'DEMO FAILS ON CLEAN TREE', o)


def add(spec):
    g = {}
    exec(open(spec).read(), g)
    ids = []
    for s in g['SEEDS']:
        clean()
        ok = True
        for e in s['edits']:
            f, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = os.path.join('/repo', f)
            t = open(p, newline='').read()
            if t.count(old) != 1:
                print(s['id'], 'edit matches', t.count(old), 'times:',
                      old[:60])
                ok = False
                break
            open(p, 'w', newline='').write(t.replace(old, new))
        if not ok:
            clean()
            continue
        d = os.path.join(SEEDED, s['id'])
        os.makedirs(d, exist_ok=True)
        diff = sh('git -C /repo diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        clean()
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(
            g.get('PRELUDE', '') + s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ids.append(s['id'])
    for i in ids:
        run(i)
    rundemos(ids)


if __name__ == '__main__':
    if sys.argv[1] == 'add':
        add(sys.argv[2])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith('-')] or \
            sorted(os.listdir(SEEDED))
        for i in ids:
            run(i, '--all' in sys.argv)
        rundemos(ids)
