#!/usr/bin/env python3
"""replay.py FILE: run one recorded counterexample on the plain, unmodified code of /repo.

Exit 1 and print what fails if the violation reproduces, 0 if the property holds on that input.
(With '-' it reads a request on stdin; that mode serves the checks.)"""
import json
import os
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PLAIN = '/opt/venv/bin/python'


def setup(overlay):
    sys.path.insert(0, HERE)
    sys.path.insert(0, overlay)
    sys.setrecursionlimit(4000)


def run_one(case, inputs):
    from symex.session import ConcreteSession, Failed, Abort
    scratch = tempfile.mkdtemp(prefix='jschon-replay-')
    s = ConcreteSession([tuple(x) for x in inputs], scratch)
    try:
        try:
            case.fn(s, **case.params)
            return {'outcome': 'holds'}, s
        except Failed as e:
            return {'outcome': 'violation', 'message': str(e.msg), 'key': e.key}, s
        except Abort as e:
            return {'outcome': 'outside-domain', 'message': str(e)}, s
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-5:]]
            return {'outcome': 'violation', 'message': f'unexpected {type(e).__name__}: {e} at {loc}',
                    'key': f'unexpected-{type(e).__name__}'}, s
        finally:
            for c in reversed(s.cleanups):
                c()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load(prop, tier):
    import importlib
    mod = importlib.import_module(f'harness.{prop.lower()}')
    cases = {c.name: c for c in mod.cases(tier)}
    if hasattr(mod, 'prepare'):
        mod.prepare()
    return cases


def serve(overlay):
    setup(overlay)
    req = json.loads(sys.stdin.read())
    if req['mode'] == 'one':
        rec = req['rec']
        try:
            cases = load(rec['property'], rec.get('tier', 'quick'))
        except Exception as e:
            print(json.dumps({'outcome': 'violation' if rec['case'] == '__setup__' else 'error', 'key': 'setup',
                              'message': 'setup fails: ' + ''.join(traceback.format_exception(e))[-800:]}))
            return
        if rec['case'] == '__setup__':
            print(json.dumps({'outcome': 'holds'}))
            return
        print(json.dumps(run_one(cases[rec['case']], rec['inputs'])[0]))
        return
    from symex.session import plain
    cases = load(req['property'], req['tier'])
    ok, bad = 0, []
    for it in req['items']:
        r, s = run_one(cases[it['case']], it['inputs'])
        obs = json.loads(json.dumps([plain(o) for o in s.observations]))
        if r['outcome'] == 'holds' and obs == it['obs']:
            ok += 1
        elif len(bad) < 5:
            bad.append({'case': it['case'], 'inputs': it['inputs'], 'result': r, 'plain': obs, 'symbolic': it['obs']})
    print(json.dumps({'ok': ok, 'bad': bad}))


def main():
    if sys.argv[1] == '--overlay':
        serve(sys.argv[2])
        return 0
    rec = json.load(open(sys.argv[1]))
    sys.path.insert(0, HERE)
    from symex import runner
    overlay = runner.make_overlay()
    try:
        r = runner.replay_plain(rec, overlay)
    finally:
        shutil.rmtree(overlay, ignore_errors=True)
    print(json.dumps(r, indent=1))
    return 1 if r.get('outcome') == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main())
