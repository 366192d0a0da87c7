#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] [--only HARNESS] [-v]

Symbolic check of one property: explores every harness of the property with
symx over the sources in /repo/src/avb, replays counterexamples and path
witnesses on the real package, prints VIOLATION / KNOWN-FINDING / INCONCLUSIVE
lines and rewrites evidence/<PROP>.json.  Run with python3-vt.
"""
import argparse
import json
import multiprocessing as mp
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ['TZ'] = ':' + os.path.join(HERE, 'harness', 'zone.tz')     # not UTC, and with one summer time (see symx/shims.py)
time.tzset()

PY = '/opt/venv/bin/python'
NCPU = max(2, min(8, os.cpu_count() or 2))

TIERS = {
    'quick': {'job_s': 100, 'query_ms': 15000, 'max_paths': 4000, 'total_s': 420, 'witnesses': 2},
    'thorough': {'job_s': 500, 'query_ms': 60000, 'max_paths': 40000, 'total_s': 3000, 'witnesses': 5},
}


def load_known(prop):
    """{id: text} of the findings recorded for a property."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                kid, _, what = rest.partition(' ')
                out[kid.split('=', 1)[1]] = what
    return out


def child(conn, hname, job, known, cfg):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.setrecursionlimit(3000)
        from harness import REG
        from symx import api
        h = REG[hname]
        cfg = dict(cfg)
        cfg.update(h.opts.get(cfg['tier'], {}))
        if h.opts.get('ext'):
            from symx import extload
            cfg['ext'] = extload.loader(job)
        res = api.run_job(h.fn, job, known, cfg)
        if h.opts.get('ext'):
            res['functions'] = sorted(set(res['functions']) | set('_ext_core.cpp:' + f for f in extload.called()))
    except BaseException:
        res = {'job': job, 'complete': False, 'error': traceback.format_exc()[-2000:], 'failures': [],
               'known_hits': {}, 'witnesses': [], 'covers': {}, 'checks': {}, 'stats': None, 'functions': [],
               'files': [], 'wall_s': 0, 'where': None}
    try:
        conn.send(json.dumps(res))
    except BaseException:
        pass
    conn.close()
    os._exit(0)


def run_jobs(jobs, known, cfg, verbose, deadline):
    ctx = mp.get_context('fork')
    todo, live, results = list(jobs), [], []

    def lost(job, why):
        return {'job': job, 'complete': False, 'error': why, 'failures': [], 'known_hits': {}, 'witnesses': [],
                'covers': {}, 'checks': {}, 'stats': None, 'functions': [], 'files': [], 'wall_s': 0, 'where': None}
    while todo or live:
        while todo and len(live) < NCPU:
            if time.time() > deadline:
                results.append(lost(todo.pop(0), 'not started: total budget'))
                continue
            job = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, job['harness'], job, known, cfg))
            p.start()
            b.close()
            live.append((p, a, job, time.time() + cfg['job_s'] + 3 * cfg['query_ms'] / 1000.0 + 30))
        from multiprocessing.connection import wait
        wait([x[1] for x in live], timeout=1.0)
        for item in list(live):
            p, a, job, dl = item
            r = None
            if a.poll():
                try:
                    r = json.loads(a.recv())
                except EOFError:
                    r = lost(job, 'worker died')
            elif not p.is_alive() and not a.poll():
                r = lost(job, 'worker died')
            elif time.time() > dl:
                r = lost(job, 'worker timeout')
            if r is not None:
                if p.is_alive():
                    p.join(2)
                    if p.is_alive():
                        p.kill()
                p.join()
                a.close()
                live.remove(item)
                results.append(r)
                if verbose:
                    st = r['stats'] or {}
                    print('  %-40s %-28s paths=%s cut=%s obl=%s/%s q=%s fail=%d inc=%s %.1fs %s' % (
                        r['job']['harness'], json.dumps(r['job']['param'])[:28], st.get('paths'), st.get('cut'),
                        st.get('discharged'), st.get('obligations'), st.get('queries'), len(r['failures']),
                        (st.get('inconclusive') or [])[:2], r['wall_s'], r['where'] or ''), flush=True)
                    for m in sorted(set(f['msg'] for f in r['failures']))[:20]:
                        print('      fails: %s' % m)
                    if r['error']:
                        print(r['error'])
    return results


def replay(cases, known, tmp, opts):
    """Concrete results of the cases, in order."""
    if not cases:
        return []
    py = opts.get('python', PY)
    env = dict(os.environ)
    env.update(opts.get('env', {}))
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    n = max(1, min(NCPU, len(cases) // 20))

    def start(k, part):
        src = os.path.join(tmp, 'cases%d.json' % k)
        dst = os.path.join(tmp, 'out%d.json' % k)
        if os.path.exists(dst):
            os.unlink(dst)
        with open(src, 'w') as f:
            json.dump({'known_ids': known, 'cases': part, 'timeout': 20}, f)
        log = open(dst + '.log', 'wb')
        p = subprocess.Popen([py, os.path.join(HERE, 'harness', 'replay_main.py'), src, dst], env=env, cwd=tmp,
                             stdout=log, stderr=subprocess.STDOUT)
        log.close()
        return p, dst

    live = [(k, cases[k::n], start(k, cases[k::n]), []) for k in range(n)]
    outs = {}
    while live:
        k, part, (p, dst), got = live.pop(0)
        try:
            p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        res = []
        try:
            with open(dst) as f:
                res = [json.loads(x) for x in f if x.endswith('\n')]
        except (OSError, ValueError):
            pass
        got = got + res
        rest = part[len(res):]
        if rest:
            with open(dst + '.log', 'rb') as f:
                log = f.read().decode('utf-8', 'replace')
            asan = [x for x in log.split('\n') if 'ERROR: AddressSanitizer' in x]
            if opts.get('isolate') and (p.returncode in (-4, -6, -7, -8, -11) or asan) and len(got) < 4000:
                # the case it was working on made the process crash
                got = got + [{'failed': ['the process crashes: %s' % (asan[0].strip() if asan else p.returncode)],
                              'known': [], 'obs': [], 'assume': False, 'exc': None}]
                rest = rest[1:]
                if rest:
                    live.append((k, rest, start(k, rest), got))
                    continue
            else:
                print('replay process failed: %s' % log[-600:])
                got = got + [None] * len(rest)
        outs[k] = got
    out = [None] * len(cases)
    for k in range(n):
        for i, r in enumerate(outs[k]):
            out[k + i * n] = r
    return out


def is_ext(c):
    from harness import REG
    return REG[c['harness']].opts.get('replay') == 'ext'


def norm(v):
    if isinstance(v, list) and len(v) == 2 and v[0] == 'f':
        f = v[1]
        return int(f) if isinstance(f, float) and f == f and abs(f) < 1e15 and f == int(f) else f
    if isinstance(v, list) and len(v) == 2 and v[0] == 'd':
        import struct
        return norm(['f', struct.unpack('>d', struct.pack('>Q', v[1]))[0]])
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, bool):
        return int(v)
    return v


def obs_equal(a, b):
    """Symbolic observations vs concrete ones; unevaluable (None) ones are skipped."""
    if len(a) != len(b):
        return False
    for (n1, v1), (n2, v2) in zip(a, b):
        if n1 != n2:
            return False
        if v1 is None and v2 is not None:
            continue
        x, y = norm(v1), norm(v2)
        if x == y:
            continue
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x - y) <= 1e-9 * max(1, abs(x)):
            continue
        return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--param')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    prop = args.prop
    cfg = dict(TIERS[args.tier], tier=args.tier)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg['seed'] = seed
    known = load_known(prop)
    from harness import REG
    import harness.all   # noqa
    import symx.api      # noqa
    hs = [h for h in REG.values() if h.prop == prop and (not args.only or args.only in h.name)]
    if not hs:
        print('no harness for %s' % prop)
        return 0
    jobs = []
    for h in hs:
        for p in h.params(args.tier):
            if args.param is None or p == json.loads(args.param):
                jobs.append({'harness': h.name, 'param': p, 'weight': h.opts.get('weight', 1)})
    jobs.sort(key=lambda j: -j['weight'])
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    started = None
    if any(h.opts.get('ext') for h in hs):
        from symx import extload
        extload.prepare()
    if any(h.opts.get('replay') == 'ext' for h in hs):
        from symx import extload
        started = extload.build_start(tmp)
    results = run_jobs(jobs, list(known), cfg, args.v, t0 + cfg['total_s'])

    violations, inconclusive = [], []
    hits = {}
    validated = 0
    samples = []
    try:
        groups = {}
        for r in results:
            k = REG[r['job']['harness']].opts.get('replay', 'pure')
            g = groups.setdefault(k, [])
            for f in r['failures'][:6]:
                g.append(('fail', r, f))
            for kid, c in r['known_hits'].items():
                g.append(('known:' + kid, r, c))
            for w in r['witnesses']:
                g.append(('wit', r, w))
        for kind, items in groups.items():
            opts = {}
            if kind == 'ext':
                from symx import extload
                opts = extload.replay_opts(started)
                if opts is None:
                    inconclusive.append('extension build for replay failed')
                    continue
            outs = replay([c for _, _, c in items], list(known), tmp, opts)
            for (what, r, c), o in zip(items, outs):
                name = '%s %s' % (c['harness'], json.dumps(c['param']))
                if o is None:
                    inconclusive.append('%s: replay did not run' % name)
                    continue
                for kid in o['known']:
                    hits.setdefault(kid, c)
                if o['failed']:
                    violations.append((what, c, o))
                    continue
                if what == 'fail':
                    inconclusive.append('%s: counterexample to "%s" does not reproduce on the real code%s' % (
                        name, c['msg'], ' (assumption)' if o['assume'] else ''))
                    if args.v:
                        print('NOT REPRODUCED', name, json.dumps(c['inputs'])[:300])
                elif what == 'wit':
                    if o['assume']:
                        inconclusive.append('%s: witness violates an assumption concretely' % name)
                    elif not obs_equal(c['obs'], o['obs']):
                        inconclusive.append('%s: model and implementation observations differ' % name)
                        if args.v:
                            print('OBS', name, json.dumps(c['inputs'])[:300])
                            for a, b in zip(c['obs'], o['obs']):
                                if not obs_equal([a], [b]):
                                    print('   sym', a, 'conc', b)
                    else:
                        validated += 1
                        if len(samples) < 8:
                            samples.append({'harness': c['harness'], 'param': c['param'], 'inputs': c['inputs']})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    tot = {k: 0 for k in ('queries', 'sat', 'unsat', 'unknown', 'paths', 'cut', 'decisions', 'obligations',
                          'discharged', 'trivial', 'concretised')}
    solver_s = 0.0
    functions, files = set(), set()
    per = {}
    for r in results:
        name = '%s %s' % (r['job']['harness'], json.dumps(r['job']['param']))
        if r['error']:
            inconclusive.append('%s: %s' % (name, r['error'].strip().split('\n')[-1]))
        st = r['stats']
        if st:
            for k in tot:
                tot[k] += st[k]
            solver_s += st['solver_s']
            for x in sorted(set(st['inconclusive'])):
                inconclusive.append('%s: %s' % (name, x))
            if not r['failures'] and (st['paths'] == 0 or not r['checks']):
                inconclusive.append('%s: vacuous (no completed path reached an assertion)' % name)
            h = per.setdefault(r['job']['harness'], {'instances': 0, 'paths': 0, 'queries': 0, 'obligations': 0,
                                                     'solver_s': 0.0, 'wall_s': 0.0})
            h['instances'] += 1
            h['paths'] += st['paths']
            h['queries'] += st['queries']
            h['obligations'] += st['obligations']
            h['solver_s'] = round(h['solver_s'] + st['solver_s'], 3)
            h['wall_s'] = round(h['wall_s'] + r['wall_s'], 3)
        functions.update(r['functions'])
        files.update(r['files'])

    for kid, what in known.items():
        if kid in hits:
            print('KNOWN-FINDING: property=%s id=%s %s' % (prop, kid, what))
        else:
            print('note: recorded finding %s was not reached in this run' % kid)
    vio_out = []
    rdir = os.path.join(HERE, 'evidence', 'replays')
    if violations:
        os.makedirs(rdir, exist_ok=True)
    for i, (what, c, o) in enumerate(violations[:20]):
        path = os.path.join(rdir, '%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump({'known_ids': list(known), 'cases': [c], 'timeout': 20,
                       'run': '%s%s %s/harness/replay_main.py %s /dev/stdout' % (
                           'VERIF_AVB_PATH=<directory with avb and its compiled extension> ' if is_ext(c) else '',
                           extload.PYPY if is_ext(c) else PY, HERE, path),
                       'kind': what, 'failed': o['failed'], 'exc': o['exc']}, f, indent=1)
        vio_out.append({'replay': path, 'failed': o['failed'], 'harness': c['harness'], 'param': c['param']})
        print('VIOLATION property=%s replay=%s %s %s: %s' % (prop, path, c['harness'], json.dumps(c['param']),
                                                             '; '.join(o['failed'])[:300]))
    for x in inconclusive[:40]:
        print('INCONCLUSIVE %s' % x)
    wall = time.time() - t0
    print('%s %s: %d instances, %d paths (+%d cut), %d obligations (%d discharged), %d queries, solver %.1fs, '
          '%d replays agree, %d inconclusive, %d violations, wall %.1fs' % (
              prop, args.tier, len(results), tot['paths'], tot['cut'], tot['obligations'], tot['discharged'],
              tot['queries'], solver_s, validated, len(inconclusive), len(violations), wall))

    bounds = []
    for h in hs:
        doc = ' '.join((h.fn.__doc__ or '').split())
        bounds.append('%s: %s' % (h.name, doc))
    ev = {
        'property': prop, 'tier': args.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['decisions'],
            'traces_validated_against_impl': validated,
            'samples': samples,
            'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'],
            'queries_unknown': tot['unknown'], 'solver_s': round(solver_s, 3),
            'obligations': tot['obligations'], 'obligations_discharged': tot['discharged'],
            'paths_cut': tot['cut'], 'harness_instances': len(results), 'harnesses': per,
            'functions_encoded': sorted(functions), 'files_encoded': sorted(files),
            'bounds': bounds, 'inconclusive': inconclusive[:200],
            'known_findings_reproduced': sorted(hits),
        },
        'assumptions': [
            'symx environment model: struct, io, uuid, datetime, codecs and dict/set as described in DESIGN.md; '
            'checked by replaying path witnesses on the real package',
            'claims hold within the bounds stated per harness; everything listed as inconclusive is not claimed',
        ],
        'violations': len(violations),
        'violations_found': vio_out,
        'wall_s': round(wall, 3),
    }
    if not args.no_evidence and not args.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
