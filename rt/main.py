"""Entry point: python -m rt.main PROPERTY [--replay FILE]

Parent: shards the workload over worker processes, merges what they observed,
writes evidence/<PROPERTY>.json, prints the verdict.
Exit 0 held, 1 violated, 2 inconclusive, 3 the harness itself failed.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VP_REPO', '/repo')


def child_env(seed):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('PYTHON'):
            del env[k]
    env.update(PYTHONPATH=REPO + os.pathsep + HERE,
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TZ='UTC',
               PYTHONHASHSEED=str(seed % 4294967295),
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', LC_ALL='C.UTF-8', VP_REPO=REPO)
    return env


def load_known(prop):
    """known_findings.txt: 'open: property=ID sig=SIGNATURE text' lines."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('open:'):
                continue
            parts = line.split(None, 3)
            p = parts[1].split('=', 1)[1]
            s = parts[2].split('=', 1)[1]
            if p == prop:
                out[s] = parts[3] if len(parts) > 3 else ''
    return out


def blame(e, root):
    """The innermost frame of the code under test in a traceback, if any."""
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if os.path.realpath(f.filename).startswith(root):
            return '%s line %d' % (os.path.relpath(f.filename, root),
                                   f.lineno)


def setup_violation(e):
    return dict(signature='set-up:' + type(e).__name__, count=1, stream=None,
                index=None, case=None, data=None,
                message='%s while the workload was being set up: %s (%s)' % (
                    type(e).__name__, str(e)[:300],
                    blame(e, os.path.realpath(REPO) + os.sep)))


def worker(args):
    from rt.core import Context, Inconclusive
    root = os.path.realpath(REPO) + os.sep
    try:
        mod = importlib.import_module('rt.props.' + args.prop)
    except Exception as e:
        if not blame(e, root):
            raise
        # the code under test raised while the workload was being set up
        with open(args.out, 'w') as f:
            json.dump(dict(status='ok', violations=[setup_violation(e)]), f)
        return
    import auxi
    if not os.path.realpath(auxi.__file__).startswith(root):
        raise RuntimeError('auxi was not imported from ' + REPO)
    replay = json.load(open(args.replay)) if args.replay else None
    ctx = Context(args.prop, args.tier, args.seed, args.shard, args.nshards,
                  replay, args.deadline)
    import warnings
    warnings.simplefilter('ignore')
    scratch = os.getcwd()
    cov = None
    if args.cov:
        from rt.cover import Cover
        cov = Cover([os.path.join(REPO, p) for p in
                     getattr(mod, 'TARGETS', [])])
        cov.start()
    t0 = time.time()
    status = 'ok'
    err = None
    try:
        mod.run(ctx)
    except Inconclusive as e:
        status, err = 'inconclusive', str(e)
    except Exception as e:
        if blame(e, root):
            v = setup_violation(e)
            ctx.violations.setdefault(v['signature'], v)
        else:
            status, err = 'error', traceback.format_exc()
    if cov:
        cov.stop()
    res = dict(status=status, error=err, events=dict(ctx.events),
               evaluations=ctx.evaluations,
               distinct=[h.hex() for h in ctx.distinct],
               samples=ctx.samples, violations=list(ctx.violations.values()),
               required=ctx.required, timed_out=ctx.timed_out,
               notes=ctx.notes, wall=time.time() - t0,
               coverage=cov.result() if cov else None,
               rule=getattr(mod, 'RULE', ''),
               assumptions=getattr(mod, 'ASSUMPTIONS', []))
    with open(args.out, 'w') as f:
        json.dump(res, f)


def parent(args):
    t0 = time.time()
    nshards = 1 if args.replay else args.jobs
    limit = 800 if args.tier == 'thorough' else 420
    soft = args.budget if args.budget else (
        600 if args.tier == 'thorough' else 300)
    work = tempfile.mkdtemp(prefix='rt-%s-' % args.prop)
    procs = []
    results = []
    try:
        for k in range(nshards):
            cwd = os.path.join(work, 'w%d' % k)
            os.mkdir(cwd)
            out = os.path.join(work, 'r%d.json' % k)
            cmd = [PY, '-W', 'ignore', '-m', 'rt.main', args.prop, '--worker',
                   '--tier', args.tier, '--seed', str(args.seed),
                   '--shard', str(k), '--nshards', str(nshards),
                   '--deadline', str(t0 + soft), '--out', out]
            if args.replay:
                cmd += ['--replay', os.path.abspath(args.replay)]
            if k == 0 and not args.replay:
                cmd += ['--cov']
            log = open(os.path.join(work, 'l%d' % k), 'w+')
            procs.append((subprocess.Popen(
                cmd, cwd=cwd, env=child_env(args.seed), stdout=log,
                stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL),
                out, log))
        for p, out, log in procs:
            left = max(1, t0 + limit - time.time())
            try:
                p.wait(left)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                results.append(dict(status='inconclusive',
                                    error='watchdog: worker did not finish'))
                continue
            if not os.path.exists(out):
                log.seek(0)
                results.append(dict(status='error', error=log.read()[-4000:]))
            else:
                results.append(json.load(open(out)))
    finally:
        for p, _, log in procs:
            if p.poll() is None:
                p.kill()
            log.close()
        shutil.rmtree(work, ignore_errors=True)
    return finish(args, results, t0)


def finish(args, results, t0):
    known = load_known(args.prop)
    events = {}
    distinct = set()
    evaluations = 0
    samples = []
    viols = {}
    required = {}
    errors = []
    inconcl = []
    coverage = None
    timed_out = False
    rule = ''
    assumptions = []
    for r in results:
        if r['status'] == 'error':
            errors.append(r['error'])
        if r['status'] == 'inconclusive':
            inconcl.append(r['error'])
        for k, v in r.get('events', {}).items():
            events[k] = events.get(k, 0) + v
        distinct.update(r.get('distinct', []))
        evaluations += r.get('evaluations', 0)
        for s in r.get('samples', []):
            if len(samples) < 4:
                samples.append(s)
        for v in r.get('violations', []):
            o = viols.get(v['signature'])
            if o is None:
                viols[v['signature']] = v
            else:
                o['count'] += v['count']
        for k, v in r.get('required', {}).items():
            required[k] = v
        if r.get('coverage'):
            coverage = r['coverage']
        timed_out = timed_out or r.get('timed_out', False)
        rule = r.get('rule') or rule
        assumptions = r.get('assumptions') or assumptions
    missing = {k: (events.get(k, 0), v) for k, v in required.items()
               if events.get(k, 0) < v}
    new = [v for s, v in sorted(viols.items()) if s not in known]
    listed = [s for s in sorted(known) if s in viols]
    for s in listed:
        print('KNOWN-FINDING: property=%s %s [%s]' % (
            args.prop, known[s], s))
    cov = dict(evaluations=evaluations, distinct_nontrivial=len(distinct),
               rule=rule, samples=samples, monitor_events=events,
               shards=len(results), stopped_by_time_budget=timed_out,
               known_findings_observed=listed)
    if coverage:
        cov['lines_reached_by_shard0'] = coverage
    ev = dict(property=args.prop, tier=args.tier, seed=args.seed,
              level='exploration', coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if not args.replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', args.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new):
            path = os.path.join(rdir, '%s-%s-%d-%d.json' % (
                args.prop, args.tier, args.seed, i))
            with open(path, 'w') as f:
                json.dump(dict(v, property=args.prop, tier=args.tier,
                               seed=args.seed), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (args.prop, path))
            print('  %s (x%d): %s' % (v['signature'], v['count'],
                                      v['message']))
            if i >= 7:
                print('  ... %d more signatures' % (len(new) - i - 1))
                break
        return 1
    for e in errors[:1]:
        print('HARNESS-ERROR property=%s\n%s' % (args.prop, e))
    if errors:
        return 3
    for e in inconcl:
        print('INCONCLUSIVE property=%s %s' % (args.prop, e))
    if missing and not args.replay:
        print('INCONCLUSIVE property=%s monitors not reached: %s' % (
            args.prop, missing))
        return 2
    if inconcl:
        return 2
    print('HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d '
          'wall=%.1fs events=%s' % (args.prop, args.tier, args.seed,
                                    evaluations, len(distinct),
                                    time.time() - t0,
                                    json.dumps(events, sort_keys=True)))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--cov', action='store_true')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--nshards', type=int, default=1)
    ap.add_argument('--deadline', type=float, default=None)
    ap.add_argument('--out')
    args = ap.parse_args()
    if args.replay and not args.worker:
        r = json.load(open(args.replay))
        args.tier = args.tier or r['tier']
        args.seed = r['seed'] if args.seed is None else args.seed
    if args.tier is None:
        args.tier = os.environ.get('VERIF_TIER', 'quick')
    if args.seed is None:
        args.seed = int(os.environ.get('VERIF_SEED', '1'))
    if args.worker:
        worker(args)
        return 0
    return parent(args)


if __name__ == '__main__':
    sys.exit(main())
