#!/opt/veriftools/pyvenv/bin/python
"""Decides one property: explores its harnesses symbolically, replays what the solver finds on the real code, writes
/verif/evidence/<id>.json.

usage: run_check.py PROPERTY [quick|thorough]     (an id, or the name the harnesses use)        exit 0 held, 1 violated, 2 no answer
       run_check.py --worker HARNESS MODULE TIER OUT.json   (internal)
"""
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYPY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
KNOWN_FILE = os.path.join(HERE, 'known_findings.txt')
BUDGET = {'quick': 780.0, 'thorough': 820.0}


import props      # noqa: E402


def harness_modules():
    d = os.path.join(HERE, 'harness')
    return sorted(f[2:-3] for f in os.listdir(d) if f.startswith('h_') and f.endswith('.py'))


def known_ids(prop):
    ids = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=<id> key=<key> <description>
                parts = line[len('finding:'):].split()
                kv = dict(p.split('=', 1) for p in parts[:2])
                if kv.get('property') == props.id_of(prop):
                    ids[kv['key']] = ' '.join(parts[2:])
    return ids


# --------------------------------------------------------------------------------------------------------- worker
def load_symbolic(modules):
    from symex import loader
    import harness.env as env          # plain copy, shared with the instrumented code through overrides
    overrides = dict(env.stand_ins())
    overrides['harness.env'] = env
    from symex import symctypes
    overrides.update(symctypes.modules())
    env_mod = env
    finder = loader.install(os.path.join(HERE, 'harness'), overrides)
    for k in [k for k in sys.modules if k == 'harness' or k.startswith('harness.')]:
        del sys.modules[k]
    sys.modules['harness.env'] = env_mod
    import harness.api as api
    import harness
    harness.env = env_mod
    for m in modules:
        importlib.import_module('harness.h_' + m)
    api.add_beside()
    return api, finder


class FunctionTrace(object):
    """which functions of the code under test were executed symbolically"""
    def __init__(self, finder):
        self.finder = finder
        self.seen = {}
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, 'verif')
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, self.start)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)

    def start(self, code, offset):
        f = code.co_filename
        m = self.finder.sources.get(f)
        if m and m.startswith('infi.asi'):
            self.seen[(m, code.co_qualname)] = True
        return sys.monitoring.DISABLE

    def functions(self):
        return sorted('%s:%s' % k for k in self.seen if '<module>' not in k[1] and '<lambda>' not in k[1]
                      and '<listcomp>' not in k[1])


def run_concrete(modules, jobs, thorough, known=(), timeout=600):
    d = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        jf, of = os.path.join(d, 'jobs.json'), os.path.join(d, 'out.json')
        with open(jf, 'w') as fd:
            json.dump({'modules': ['h_' + m for m in modules], 'jobs': jobs, 'thorough': thorough, 'known': list(known)}, fd)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=REPO)
        env.pop('PYTHONPATH', None)
        p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'harness', 'concrete.py'), jf, of],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE, timeout=timeout)
        if p.returncode != 0:
            return None, p.stderr.decode('utf-8', 'replace')[-3000:]
        return json.load(open(of))['results'], None
    finally:
        for f in ('jobs.json', 'out.json'):
            try:
                os.unlink(os.path.join(d, f))
            except OSError:
                pass
        os.rmdir(d)


def worker(hname, module, tier, out):
    t0 = time.time()
    thorough = tier == 'thorough'
    mods = [module]
    from symex import core
    from symex.ctx import SymCtx
    res = {'harness': hname}
    import_error = None
    try:
        api, finder = load_symbolic(mods)
        h = api.REGISTRY[hname]
    except Exception:
        res['error'] = 'loading: ' + traceback.format_exc()[-3000:]
        json.dump(res, open(out, 'w'))
        return
    trace = FunctionTrace(finder)
    lim = dict(paths=20000, seconds=100.0 if not thorough else 500.0)
    lim.update(h.thorough if thorough else h.quick)
    share, left = (float(x) for x in os.environ.get('VERIF_SECONDS', '0,100000').split(','))
    lim['seconds'] = max(20.0, min(left, max(lim['seconds'], share)))
    eng = core.Engine(core.Limits(**lim))
    core.ENG = eng
    ctx = SymCtx(eng, api, thorough, known_ids(h.prop))
    paths = []          # (kind, values, observations)
    uncaught = []       # (values, text)
    gaps = []
    rnd = random.Random(SEED)
    cap = 400 if thorough else 120
    seen = [0]
    import harness.env as env

    from symex import state, symctypes

    def body():
        ctx.begin()
        symctypes.reset()
        state.STATE.restore()
        env.CURRENT[0] = None
        try:
            return h.fn(ctx)
        finally:
            env.CURRENT[0] = None

    def on_path(kind, value):
        core.ENG = eng
        try:
            model = eng.current_model()
        except core._Abort:
            eng.aborted = None
            return
        values = eng.input_values(model)
        if kind == 'exc':
            text = ''.join(traceback.format_exception(type(value), value, value.__traceback__))[-2500:]
            uncaught.append((values, text))
            return
        if kind in ('gap', 'cut'):
            gaps.append((values, '%s: %s' % (kind, value)))
            return
        seen[0] += 1
        item = (values, ctx.model_observations(model))
        if len(paths) < cap:
            paths.append(item)
        else:
            i = rnd.randrange(seen[0])
            if i < cap:
                paths[i] = item

    try:
        eng.explore(body, on_path)
    except core.NonDeterminism as e:
        res['error'] = 'non-determinism: %s' % e
    except Exception:
        res['error'] = 'engine: ' + traceback.format_exc()[-3000:]
    symbolic_s = time.time() - t0

    # replay: candidates first, then the witnesses of the paths
    jobs, meta = [], []

    def job(kind, values, info):
        jobs.append({'harness': hname, 'values': values})
        meta.append((kind, values, info))
    per_label = {}
    for label, values in ctx.failures:
        per_label[label] = per_label.get(label, 0) + 1
        if per_label[label] <= 12:
            job('failure', values, label)
    for values, text in uncaught[:60]:
        job('uncaught', values, text)
    for values, text in gaps[:60]:
        job('gap', values, text)
    for fid, (label, values) in ctx.found_known.items():
        job('known', values, [fid, label])
    for values, obs in paths:
        job('path', values, obs)
    violations, mismatches, inconclusive, validated, unreproduced = [], [], [], 0, 0
    known_seen = []
    if jobs:
        results, err = run_concrete(mods, jobs, thorough, ctx.known_ids)
        if results is None:
            res['error'] = (res.get('error') or '') + ' replay failed: ' + err
            results = []
        for (kind, values, info), r in zip(meta, results):
            bad = list(r['failures'])
            if r.get('uncaught'):
                bad.append('uncaught exception %s' % r['uncaught'])
            # (what was found before an assumption failed was found within all assumptions made until then)
            if bad:
                violations.append({'harness': hname, 'values': values, 'labels': bad, 'found_by': kind,
                                   'traceback': r.get('traceback')})
                continue
            if kind in ('failure', 'uncaught', 'known'):
                unreproduced += 1
            if kind == 'failure':
                inconclusive.append('counterexample for %r did not reproduce: %s' % (info, json.dumps(values)[:600]))
            elif kind == 'uncaught':
                inconclusive.append('symbolic exception did not reproduce: %s' % info[-1200:])
            elif kind == 'gap':
                inconclusive.append(info)
            elif kind == 'known':
                if any(k[0] == info[0] for k in r['known']):
                    known_seen.append(info[0])
                    unreproduced -= 1
                else:
                    inconclusive.append('known finding %s did not reproduce' % info[0])
            else:
                obs = r['observations']
                if r.get('skip') or json.loads(json.dumps(info)) != obs:
                    mismatches.append({'values': values, 'symbolic': info, 'concrete': obs, 'skip': r.get('skip')})
                else:
                    validated += 1
    trunc = dict(eng.stats.truncations)
    res.update(paths=eng.stats.paths, infeasible=eng.stats.infeasible, decisions=eng.stats.decisions,
               queries=eng.stats.queries, solver_s=eng.stats.solver_s, obligations=eng.stats.obligations,
               discharged=eng.stats.discharged, trivial=eng.stats.trivial, unknown=eng.stats.unknown,
               truncations=trunc, labels=ctx.labels, reached=ctx.reached,
               missing_reach=[l for l in h.reach if l not in ctx.reached],
               functions=trace.functions(), violations=violations, mismatches=mismatches[:10],
               n_mismatches=len(mismatches), inconclusive=inconclusive[:10], n_inconclusive=len(inconclusive), n_unreproduced=unreproduced,
               validated=validated, bounds=h.bounds, prop=h.prop, known_seen=known_seen,
               candidates=len(ctx.failures), gaps=len(gaps), uncaught=len(uncaught),
               samples=[{'harness': hname, 'inputs': compact(v), 'observed': o[:6]} for v, o in paths[:2]],
               symbolic_s=round(symbolic_s, 2), wall_s=round(time.time() - t0, 2))
    with open(out, 'w') as fd:
        json.dump(res, fd)


def compact(values):
    """fold name[i] byte inputs into one hex string"""
    out, arrays = {}, {}
    for k, v in values.items():
        if k.endswith(']') and '[' in k:
            n, i = k[:-1].rsplit('[', 1)
            arrays.setdefault(n, {})[int(i)] = v
        else:
            out[k] = v
    for n, d in arrays.items():
        out[n] = ''.join('%02x' % d.get(i, 0) for i in range(max(d) + 1))
    return out


# ----------------------------------------------------------------------------------------------------------- main
def list_harnesses(prop):
    """names of the harnesses of a property; read from a registry built without loading the code under test"""
    import harness.api as api
    for m in harness_modules():
        importlib.import_module('harness.h_' + m)
    api.add_beside()
    slug = props.slug_of(prop)
    return {h.name: h.module for h in api.REGISTRY.values() if h.prop == slug}


def main():
    if sys.argv[1] == '--worker':
        return worker(*sys.argv[2:6])
    prop = props.id_of(sys.argv[1])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    names = list_harnesses(prop)
    only = os.environ.get('VERIF_ONLY')
    if only:
        names = dict((n, m) for n, m in names.items() if only in n)
    skip = os.environ.get('VERIF_SKIP')
    if skip:
        names = dict((n, m) for n, m in names.items() if skip not in n)
    if not names:
        print('no harness for %s' % prop)
        return 2
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    pending, running, results = list(names), [], []
    deadline = t0 + BUDGET[tier]
    violated = False
    while pending or running:
        while pending and len(running) < jobs:
            n = pending.pop(0)
            of = os.path.join(tmp, n.replace('/', '_') + '.json')
            ef = open(of + '.err', 'wb')
            # an equal share of the time that is left, with room for the replays
            left = deadline - time.time() - 100
            env = dict(os.environ, VERIF_SECONDS='%f,%f' % (left / (-(-len(pending) // jobs) + 1), left))
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--worker', n, names[n], tier, of], stdout=ef,
                                 stderr=ef, cwd=HERE, env=env)
            running.append((n, p, of, ef))
        time.sleep(0.05)
        still = []
        for n, p, of, ef in running:
            if p.poll() is None:
                if time.time() > deadline:
                    p.kill()
                    p.wait()
                    ef.close()
                    results.append({'harness': n, 'error': 'out of time'})
                else:
                    still.append((n, p, of, ef))
                continue
            ef.close()
            try:
                results.append(json.load(open(of)))
                if results[-1].get('violations') and not violated:
                    # the verdict is known: what runs may add to it for a while, nothing else is started
                    violated = True
                    results.extend({'harness': x, 'error': 'not run, there was a violation'} for x in pending)
                    pending, deadline = [], min(deadline, time.time() + 45)
            except Exception:
                results.append({'harness': n, 'error': 'worker died (%s): %s' % (
                    p.returncode, open(of + '.err', 'rb').read().decode('utf-8', 'replace')[-2000:])})
        running = still
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    return report(prop, tier, results, time.time() - t0)


def report(prop, tier, results, wall):
    results.sort(key=lambda r: r['harness'])
    known = known_ids(prop)
    violations = [v for r in results for v in r.get('violations', [])]
    errors = [(r['harness'], r['error']) for r in results if r.get('error')]
    total = lambda k: sum(r.get(k, 0) for r in results)
    vacuous = [(r['harness'], r.get('missing_reach')) for r in results if not r.get('error') and
               (r.get('missing_reach') or not r.get('obligations'))]
    for r in results:
        line = '%-44s paths=%-5s queries=%-6s obligations=%s/%s validated=%-4s solver=%.1fs wall=%.1fs' % (
            r['harness'], r.get('paths'), r.get('queries'), r.get('discharged'), r.get('obligations'),
            r.get('validated'), r.get('solver_s', 0), r.get('wall_s', 0))
        print(line)
        if r.get('truncations'):
            print('   INCOMPLETE %s' % r['truncations'])
        for m in r.get('mismatches', [])[:3]:
            print('   MISMATCH (encoding vs real code) %s' % json.dumps(m)[:1500])
        for m in r.get('inconclusive', [])[:3]:
            print('   INCONCLUSIVE %s' % m[:1500])
        if r.get('error'):
            print('   ERROR %s' % r['error'])
    for h, miss in vacuous:
        print('   VACUOUS %s: not reached: %s' % (h, miss))
    for key in sorted(set(k for r in results for k in r.get('known_seen', []))):
        print('KNOWN-FINDING: property=%s %s %s' % (prop, key, known.get(key, '')))
    ev = {
        'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': total('paths'),
            'transitions': total('decisions'),
            'traces_validated_against_impl': total('validated'),
            'samples': [s for r in results for s in r.get('samples', [])][:12],
            'obligations': total('obligations'), 'discharged': total('discharged'),
            'discharged_by_simplification': total('trivial'),
            'solver_queries': total('queries'), 'solver_seconds': round(total('solver_s'), 2),
            'solver_unknown': total('unknown'),
            'infeasible_paths': total('infeasible'),
            'counterexample_candidates': total('candidates'),
            'encoding_mismatches': total('n_mismatches'), 'inconclusive_paths': total('n_inconclusive'),
            'truncations': {r['harness']: r['truncations'] for r in results if r.get('truncations')},
            'functions_encoded': sorted(set(f for r in results for f in r.get('functions', []))),
            'bounds': {r['harness']: r.get('bounds', '') for r in results},
            'checks_proved': {r['harness']: r.get('labels', {}) for r in results},
            'reached': {r['harness']: r.get('reached', {}) for r in results},
            'errors': ['%s: %s' % e for e in errors],
            'explanation': 'states = feasible paths of the real code explored symbolically; transitions = branch '
                           'decisions taken on them; every obligation is path condition => checked property, '
                           'decided by the solver over all input values in the bounds; traces_validated = solver '
                           'witnesses of paths run on the real code under its own interpreter, with equal outputs',
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fd:
        json.dump(ev, fd, indent=1, sort_keys=True)
    if violations:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        shown = set()
        for v in violations:
            key = (v['harness'], tuple(v['labels']))
            if key in shown or len(shown) >= 6:
                continue
            shown.add(key)
            path = os.path.join(d, '%s-%s-%d.json' % (prop, v['harness'].replace('/', '_'), len(shown)))
            with open(path, 'w') as fd:
                json.dump(dict(v, property=prop, inputs=compact(v['values'])), fd, indent=1, sort_keys=True)
            print('  %s: %s with %s' % (v['harness'], '; '.join(v['labels']), json.dumps(compact(v['values']))[:700]))
            if v.get('traceback'):
                print('    ' + v['traceback'].strip().splitlines()[-1])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('NO ANSWER from %d of %d harnesses' % (len(errors), len(results)))
        return 2
    stuck = [r['harness'] for r in results if r.get('n_unreproduced') or r.get('n_mismatches')]
    if stuck:
        print('NO ANSWER: the encoding disagrees with the real code in %s' % ', '.join(stuck))
        return 2
    if [1 for h, miss in vacuous if not next(r for r in results if r['harness'] == h).get('truncations')]:
        return 2
    if any(not r.get('discharged') for r in results):
        print('NO ANSWER: a harness decided nothing')
        return 2
    print('property=%s held: %d paths, %d obligations discharged, %d witnesses replayed, %.1fs' % (
        prop, total('paths'), total('discharged'), total('validated'), wall))
    return 0


ASSUMPTIONS = [
    'the execution engine (/verif/symex) represents CPython semantics of the operations the code uses; checked on '
    'every run by replaying path witnesses on the real code under PyPy and comparing outputs',
    'infi.instruct, six and infi.pyutils are the versions installed in /opt/venv; infi.instruct is executed '
    'symbolically from its source, not modelled',
    'text built by formatting symbolic numbers (messages, repr) is not part of any property but P29 and P30',
    'bounds per harness are listed under coverage.bounds; values, lengths and histories outside them are not claimed',
]

if __name__ == '__main__':
    sys.exit(main())
