"""Runs the cases of one property: explores each case's paths in worker processes, replays every
counterexample on plain code, validates sampled paths against plain code, writes evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JSCHON_REPO', '/repo')
PLAIN_PY = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'


def make_overlay():
    d = tempfile.mkdtemp(prefix='jschon-overlay-')
    shutil.copytree(os.path.join(REPO, 'jschon'), os.path.join(d, 'jschon'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    for v in ('2019-09', '2020-12', 'next'):
        src = os.path.join(VERIF, 'data', 'metaschemas', v)
        dst = os.path.join(d, 'jschon', 'catalog', f'json-schema-{v}')
        if os.path.isdir(src) and not (os.path.isdir(dst) and os.listdir(dst)):
            shutil.copytree(src, dst, dirs_exist_ok=True)
    return d


def source_digest():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(os.path.join(REPO, 'jschon')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                with open(os.path.join(root, f), 'rb') as fh:
                    h.update(f.encode() + fh.read())
    return h.hexdigest()[:16]


class Case:
    """One harness function with one fixed set of (structural) parameters."""

    def __init__(self, name, fn, weight=1.0, bounds='', tier='quick', reach=(), thorough_only=False, **params):
        self.name, self.fn, self.params, self.weight, self.bounds = name, fn, params, weight, bounds
        self.tier = 'thorough' if thorough_only else tier
        self.reach = reach


def load_module(prop):
    return importlib.import_module(f'harness.{prop.lower()}')


def setup_symbolic(overlay):
    sys.path.append(SITE)
    from symex import instrument
    import rfc3986 as _r
    roots = {'jschon': (overlay, True), 'rfc3986': (SITE, True), 'harness': (VERIF, False)}
    for m in [m for m in sys.modules if m.partition('.')[0] in roots]:
        del sys.modules[m]
    instrument.activate(roots)
    from rfc3986 import normalizers, misc
    instrument.rfc_models(normalizers, misc)
    return instrument


def clean_log(log):
    return [[n, int(v)] for n, v in log]


# ------------------------------------------------------------------ worker

def run_case(prop, case, budget, known, overlay, tier, want_samples, outq):
    """executed in a forked worker"""
    try:
        res = _run_case(prop, case, budget, known, overlay, tier, want_samples)
    except BaseException as e:
        res = {'case': case.name, 'error': ''.join(traceback.format_exception(e))[-3000:]}
    return res


def _run_case(prop, case, budget, known, overlay, tier, want_samples):
    from symex import engine as eng_mod, instrument, session as sess_mod
    from symex.engine import Engine, Violation, Control
    instrument.FUNCS.clear()
    instrument.NATIVE.clear()
    t0 = time.monotonic()
    eng = Engine(deadline=t0 + budget)
    s = sess_mod.SymSession(eng)
    samples, viols, spurious = [], [], []
    seen_known = {}

    def fn():
        s.reset()
        instrument.VFS = instrument.VirtualFS()
        instrument.HASHED.count = 0
        try:
            case.fn(s, **case.params)
        except Control:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-5:]]
            raise Violation(f'unexpected {type(e).__name__}: {_msg(e)} at {loc}', f'unexpected-{type(e).__name__}')
        finally:
            for c in reversed(s.cleanups):
                c()
        return s.observations

    stride = [1]

    def on_path(obs, log):
        n = eng.paths
        if n % stride[0] == 0 and len(samples) < 4000:
            try:
                samples.append([clean_log(log), [sess_mod.plain(o) for o in obs]])
            except Control:
                pass
            if len(samples) >= want_samples * 2:
                del samples[::2]
                stride[0] *= 2

    def on_violation(v, log):
        rec = {'property': prop, 'case': case.name, 'inputs': clean_log(log), 'message': _text(v.msg), 'key': v.key,
               'tier': tier}
        kf = match_known(known, rec)
        if kf is not None and kf in seen_known:
            seen_known[kf]['count'] += 1
            return False
        r = replay_plain(rec, overlay)
        if r.get('outcome') == 'violation':
            rec['message'] = r.get('message', rec['message'])
            rec['key'] = r.get('key', rec['key'])
            kf = match_known(known, rec)
            if kf is not None:
                seen_known[kf] = {'count': 1, 'rec': rec}
                return False
            viols.append(rec)
            return True
        rec['replay'] = r
        spurious.append(rec)
        return len(spurious) >= 25

    exhausted = eng.explore(fn, on_path, on_violation)
    st = eng.stats()
    st.update(case=case.name, bounds=case.bounds, exhausted=bool(exhausted), wall=time.monotonic() - t0,
              samples=samples[:want_samples], violations=viols, spurious=spurious, known=seen_known,
              funcs=dict(instrument.FUNCS), native=dict(instrument.NATIVE), reached=dict(s.reached),
              missing=[r for r in case.reach if r not in s.reached])
    return st


def _msg(e):
    try:
        return _text(str(e))[:200]
    except BaseException:
        return '?'


def _text(m):
    try:
        from symex.values import parts
        return parts(m)[0] if isinstance(m, str) else str(m)
    except BaseException:
        return '<message>'


def match_known(known, rec):
    for k in known:
        if k['property'] == rec['property'] and rec['key'] is not None and rec['key'] == k['key']:
            return k['id']
    return None


def replay_plain(rec, overlay):
    try:
        p = subprocess.run([PLAIN_PY, '-B', os.path.join(VERIF, 'replay.py'), '--overlay', overlay, '-'],
                           input=json.dumps({'mode': 'one', 'rec': rec}), capture_output=True, text=True, timeout=120,
                           env=plain_env())
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception as e:
        return {'outcome': 'error', 'message': f'{type(e).__name__}: {e}'}


def plain_env():
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')
    env.pop('PYTHONPATH', None)
    return env


def validate_samples(prop, tier, results, overlay):
    """re-run sampled completed paths on plain code; -> (validated, mismatches)"""
    items = [{'case': r['case'], 'inputs': log, 'obs': obs} for r in results for log, obs in r.get('samples', [])]
    if not items:
        return 0, []
    chunks = [items[i::8] for i in range(8)]
    ps = []
    for c in chunks:
        if c:
            p = subprocess.Popen([PLAIN_PY, '-B', os.path.join(VERIF, 'replay.py'), '--overlay', overlay, '-'],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                 env=plain_env())
            ps.append((p, c))
    import threading
    outs = [None] * len(ps)

    def go(i, p, c):
        outs[i] = p.communicate(json.dumps({'mode': 'batch', 'property': prop, 'tier': tier, 'items': c}))
    ts = [threading.Thread(target=go, args=(i, p, c)) for i, (p, c) in enumerate(ps)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ok, bad = 0, []
    for (p, c), out in zip(ps, outs):
        try:
            r = json.loads(out[0].strip().splitlines()[-1])
            ok += r['ok']
            bad += r['bad']
        except Exception as e:
            bad.append({'error': f'{e} {out[1][-500:]}'})
    return ok, bad


# ------------------------------------------------------------------ known findings

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


# ------------------------------------------------------------------ main

def _child(conn, args):
    # own process group so that the parent can end the replay subprocesses too
    os.setpgid(0, 0)
    try:
        conn.send(run_case(*args, None))
    finally:
        conn.close()
        os._exit(0)


def main(prop, tier, seed, jobs=None, only=None, budget=None, verbose=False):
    t0 = time.monotonic()
    overlay = make_overlay()
    try:
        return _main(prop, tier, seed, jobs or os.cpu_count() or 4, only, budget, verbose, overlay, t0)
    finally:
        shutil.rmtree(overlay, ignore_errors=True)


def _main(prop, tier, seed, jobs, only, budget, verbose, overlay, t0):
    setup_symbolic(overlay)
    try:
        mod = load_module(prop)
        cases = [c for c in mod.cases(tier) if tier == 'thorough' or c.tier == 'quick']
        if hasattr(mod, 'prepare'):
            mod.prepare()
    except Exception:
        # the code under test cannot even be imported or set up: replay decides whether that is real
        traceback.print_exc()
        rec = {'property': prop, 'case': '__setup__', 'inputs': [], 'message': 'module or catalog setup fails',
               'key': 'setup', 'tier': tier}
        r = replay_plain(rec, overlay)
        if r.get('outcome') == 'violation':
            path = write_replay(rec)
            print(f'VIOLATION property={prop} replay={path}')
            print(r.get('message'))
            write_evidence(prop, tier, seed, [], 0, [], 1, time.monotonic() - t0, [], mod_doc={})
            return 1
        return 2
    if only:
        cases = [c for c in cases if only in c.name]
    known = load_known(prop)
    total = budget or (float(os.environ.get('VERIF_BUDGET', 0)) or (getattr(mod, 'QUICK_S', 150) if tier == 'quick'
                                                                    else getattr(mod, 'THOROUGH_S', 820)))
    # heavier cases first; each gets a share of what remains
    order = sorted(cases, key=lambda c: -c.weight)
    want = max(3, min(60, (1200 if tier == 'quick' else 4000) // max(1, len(order))))
    results, running = [], {}
    deadline = t0 + total
    ctx = mp.get_context('fork')
    queue = list(order)
    stop = False
    errors = []
    while (queue or running) and not stop:
        while queue and len(running) < jobs:
            c = queue.pop(0)
            left = max(5.0, deadline - time.monotonic())
            wsum = c.weight + sum(q.weight for q in queue)
            share = min(left, max(60.0 if tier == "quick" else 120.0, left * jobs * c.weight / max(wsum, 1e-9) * 2.5))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, (prop, c, share, known, overlay, tier, want)))
            p.start()
            b.close()
            running[a] = (p, c, time.monotonic() + share + 150)
        for conn in mp.connection.wait(list(running), timeout=0.5):
            p, c, _ = running.pop(conn)
            try:
                r = conn.recv()
            except EOFError:
                r = {'case': c.name, 'error': 'worker died'}
            p.join()
            results.append(r)
            if verbose:
                print(f"  {r['case']}: " + (r.get('error', '')[-300:] or
                      f"paths={r['paths']} aborted={r['aborted']} q={r['queries']} wall={r['wall']:.1f} solver={r['solver_s']:.1f} "
                      f"exh={r['exhausted']} unk={r['unknown']} div={r['divergences']} {r['divergence_samples'][:1]} pins={r['pins']} capped={r['pin_capped']} "
                      f"spurious={len(r['spurious'])} missing={r['missing']} viol={len(r['violations'])} known={list(r['known'])}"),
                      flush=True)
                for v in r.get('spurious', [])[:3]:
                    print('    SPURIOUS', v['message'], v['inputs'][:12], v['replay'].get('outcome'), v['replay'].get('message'))
            if r.get('violations'):
                stop = True
        for conn in [x for x, v in running.items() if time.monotonic() > v[2]]:
            p, c, _ = running.pop(conn)
            kill(p)
            results.append({'case': c.name, 'error': 'worker overran its budget'})
    for p, c, _ in running.values():
        kill(p)
    errors = [r for r in results if 'error' in r]
    good = [r for r in results if 'error' not in r]
    viols = [v for r in good for v in r['violations']]
    kf = {}
    for r in good:
        for k, d in r['known'].items():
            kf.setdefault(k, d)
    validated, mism = (0, [])
    if not viols:
        validated, mism = validate_samples(prop, tier, good, overlay)
    rc = 0
    for k in sorted(kf):
        f = next(x for x in known if x['id'] == k)
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if viols:
        path = write_replay(viols[0])
        print(f'VIOLATION property={prop} replay={path}')
        print(f"  case {viols[0]['case']}: {viols[0]['message']}")
        print(f"  inputs {viols[0]['inputs'][:40]}")
        rc = 1
    incomplete = [r['case'] for r in good if not r['exhausted'] or r['unknown'] or r['divergences'] or r['pin_capped']]
    spurious = [v for r in good for v in r['spurious']]
    missing = [(r['case'], m) for r in good for m in r['missing'] if r['exhausted']]
    if rc == 0:
        if errors:
            for e in errors[:3]:
                print('ERROR', e['case'], e['error'][-1500:])
            print(len(errors), 'cases ended in an error')
        if mism:
            print('MISMATCH between symbolic path and plain run:', json.dumps(mism[:3])[:3000])
        if spurious:
            print(f'INCONCLUSIVE {len(spurious)} counterexamples did not reproduce on the real code, e.g. '
                  f"{spurious[0]['case']}: {spurious[0]['message']}")
        if missing:
            print('NOT-REACHED', missing)
        if incomplete:
            print('INCOMPLETE (bounds not exhausted):', ', '.join(incomplete))
        if errors and not good:
            rc = 2
    tot = lambda k: sum(r[k] for r in good)
    print(f"{prop} {tier}: cases={len(good)} paths={tot('paths')} branches={tot('branches')} queries={tot('queries')} "
          f"unsat={tot('unsat')} solver={tot('solver_s'):.1f}s validated={validated} mismatches={len(mism)} "
          f"wall={time.monotonic() - t0:.1f}s rc={rc}")
    write_evidence(prop, tier, seed, good, validated, mism, len(viols), time.monotonic() - t0,
                   [e['case'] + ': ' + e['error'][-200:] for e in errors],
                   mod_doc={'bounds': getattr(mod, 'BOUNDS', ''), 'assumptions': getattr(mod, 'ASSUMPTIONS', [])},
                   incomplete=incomplete, spurious=spurious, known=sorted(kf), missing=missing)
    return rc


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.kill()
    p.join()


def write_replay(rec):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps(rec, indent=1)
    path = os.path.join(d, f"{rec['property']}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.json")
    with open(path, 'w') as f:
        f.write(body)
    return path


BASE_ASSUMPTIONS = [
    'CPython 3.12 semantics of the operations modelled in symex/instrument.py, symex/values.py and symex/regex.py '
    '(validated on every run by re-executing sampled paths on plain CPython and comparing the observations)',
    'hash() is treated as an injective uninterpreted function of the hashed value',
    'floats are decimals n/10^k of at most 15 significant digits, compared exactly',
    'z3 5.3 (python bindings) answers correctly',
]


def write_evidence(prop, tier, seed, good, validated, mism, nviol, wall, errors, mod_doc, incomplete=(), spurious=(),
                   known=(), missing=()):
    funcs = sorted({q for r in good for q in r['funcs'] if q.startswith('jschon')})
    dep = sorted({q for r in good for q in r['funcs'] if not q.startswith('jschon')})
    pins, native = {}, {}
    for r in good:
        for k, v in r['pins'].items():
            pins[k] = pins.get(k, 0) + v
        for k, v in r['native'].items():
            native[k] = native.get(k, 0) + v
    tot = lambda k: sum(r[k] for r in good)
    reached = {}
    for r in good:
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
    samples = []
    for r in good[:12]:
        for log, obs in r['samples'][:2]:
            samples.append({'case': r['case'], 'inputs': log[:60], 'observations': obs[:6]})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('branches') + tot('choices'),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'exhaustive': bool(good) and not incomplete and not errors,
            'meaning': 'states = feasible paths of the harness over the real code, each standing for every input '
                       'that satisfies its path condition; transitions = branch decisions explored',
            'number_of_cases': len(good),
            'cases': {'columns': ['case', 'paths', 'outside domain', 'queries', 'unsat', 'assertions by solver', 'assertions by path',
                                  'solver s', 'wall s', 'exhausted', 'symbolic inputs'],
                      'largest': [[r['case'], r['paths'], r['aborted'], r['queries'], r['unsat'], r['asserts_solver'], r['asserts_path'],
                                   round(r['solver_s'], 2), round(r['wall'], 2), r['exhausted'], r['max_vars']]
                                  for r in sorted(good, key=lambda r: -r['paths'])[:400]],
                      'names': [r['case'] for r in good][:4000]},
            'reached': reached,
            'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'),
            'queries_unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 3),
            'assertions_discharged_by_solver': tot('asserts_solver'),
            'assertions_decided_by_path': tot('asserts_path'),
            'functions_encoded': funcs, 'library_functions_encoded': dep,
            'bounds': mod_doc.get('bounds', ''),
            'incomplete_cases': list(incomplete), 'reachability_witnesses_missing': [list(m) for m in missing],
            'counterexamples_not_reproduced': len(spurious), 'known_findings_seen': list(known),
            'concretised': pins, 'unmodelled_library_calls': native,
            'trace_mismatches': mism[:3], 'errors': errors, 'source_digest': source_digest(),
        },
        'assumptions': BASE_ASSUMPTIONS + list(mod_doc.get('assumptions', [])),
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f)
