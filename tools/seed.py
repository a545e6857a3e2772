"""planted bugs: seed.py make SPEC.py   write seeded/<id>/ from specifications and confirm them
                 seed.py verify ID...   confirm again      seed.py check ID... [-p PROPERTY]   run the checks against them

Everything happens in a scratch copy of /repo that is bind-mounted over /repo in a private mount namespace."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def inside(repo, cmd, cwd='/repo', timeout=1200):
    return subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {repo} /repo && cd {cwd} && {cmd}'],
                          capture_output=True, text=True, timeout=timeout)


def scratch():
    d = tempfile.mkdtemp(prefix='seed-')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d


def stable(repo, d):
    r = inside(repo, f'bash /opt/vp/build.sh && bash /opt/vp/test.sh {d}/out.json')
    try:
        out = json.load(open(d + '/out.json'))
    except OSError:
        return 'build or tests did not run: ' + r.stdout[-300:] + r.stderr[-500:]
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(out.get('passed') or [k for k, v in out.items() if v == 'passed'])
    bad = [t for t in base if t not in passed]
    return bad and f'{len(bad)} stable tests fail: {bad[:3]}'


def verify(id, clean=None, tests=True):
    d = scratch()
    try:
        f = os.path.join(SEEDED, id)
        elsewhere = d + '/demo'
        shutil.copytree(f, elsewhere, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = inside(d + '/repo', f'bash {elsewhere}/demo.sh', timeout=300)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stdout[-500:] + r.stderr[-1500:]
        r = sh(f'git apply {f}/patch.diff', cwd=d + '/repo')
        if r.returncode:
            return 'patch does not apply: ' + r.stderr
        r = inside(d + '/repo', f'bash {elsewhere}/demo.sh', timeout=300)
        if not r.returncode:
            return 'demo passes with the patch'
        print('   demo:', ((r.stdout + r.stderr).strip().splitlines() or ['(silent)'])[-1][:200])
        return (stable(d + '/repo', d) if tests else '') or ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(id, props, extra=''):
    d = scratch()
    try:
        f = os.path.join(SEEDED, id)
        r = sh(f'git apply {f}/patch.diff', cwd=d + '/repo')
        assert not r.returncode, r.stderr
        for p in props:
            r = inside(d + '/repo', f'python3 check.py {p} {extra}', cwd=V)
            out = [l for l in r.stdout.splitlines() if l.strip()]
            print(f'   {id} {p}: rc={r.returncode}', ' | '.join(x[:170] for x in out if not x.startswith('  inputs'))[:600], r.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(spec):
    ns = runpy.run_path(spec)
    for s in ns['SEEDS']:
        d = scratch()
        try:
            repo = d + '/repo'
            for file, old, new in s['edits']:
                p = os.path.join(repo, file)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], file, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git diff', cwd=repo).stdout
        finally:
            shutil.rmtree(d, ignore_errors=True)
        f = os.path.join(SEEDED, s['id'])
        os.makedirs(f, exist_ok=True)
        open(f + '/patch.diff', 'w').write(diff)
        open(f + '/demo.sh', 'w').write('#!/bin/bash\ncd "${PWD:-/repo}"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                                        'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f + '/demo.sh', 0o755)
        open(f + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        if s.get('schemas'):
            shutil.copytree(os.path.join(V, 'data', 'metaschemas'), f + '/metaschemas', dirs_exist_ok=True)
            shutil.copy(os.path.join(V, 'tools', 'demo_catalog.py'), f)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(f + '/meta.json', 'w'), indent=1)
        bad = verify(s['id'])
        print(s['id'], bad or 'confirmed', flush=True)
        if bad:
            shutil.rmtree(f)
        else:
            check(s['id'], [s['property']])


if __name__ == '__main__':
    a = sys.argv[2:]
    if sys.argv[1] == 'make':
        for x in a:
            make(x)
    elif sys.argv[1] == 'verify':
        for x in a or sorted(os.listdir(SEEDED)):
            print(x, verify(x) or 'confirmed', flush=True)
    else:
        props = [a[i + 1] for i, x in enumerate(a) if x == '-p']
        ids = [x for i, x in enumerate(a) if x != '-p' and (not i or a[i - 1] != '-p')] or sorted(os.listdir(SEEDED))
        for x in ids:
            m = json.load(open(os.path.join(SEEDED, x, 'meta.json')))
            check(x, props or [m['property']])
