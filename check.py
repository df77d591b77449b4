#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]    decides one property on /repo's working tree
   check.py --replay FILE               runs one recorded case again
   check.py --cases PROPERTY [tier]     only runs TLC, keeps the cases (development)

Exit 0: the property held on everything explored.  Exit 1: violated (a VIOLATION line says where
the failing case was recorded).  Exit 2: the check itself could not run."""
import concurrent.futures as cf
import json, os, shutil, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
from tlc import run_tlc, ToolError
import run as R
import plan


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        return replay_one(args[1])
    only_cases = False
    if args and args[0] == '--cases':
        only_cases, args = True, args[1:]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    base = os.path.join(VERIF, '.work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix='%s-' % prop, dir=base)
    try:
        return check(prop, tier, seed, work, t0, only_cases)
    except ToolError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)


def check(prop, tier, seed, work, t0, only_cases):
    p = plan.plan(prop, tier, seed)
    runs = p['tlc']
    ex = cf.ThreadPoolExecutor(max_workers=1 + p.get('tlc_parallel', 4))
    built = None if only_cases else ex.submit(R.builds, p['features'], work, ['dev', 'wrap'] if p.get('wrap') else ['dev'])
    futs = [ex.submit(run_tlc, work=work, **r) for r in runs]
    results = []
    for r, f in zip(runs, futs):
        res = f.result()
        print('tlc %-24s %8d states %9d generated  %6d cases  %.1fs' % (res.name, res.states, res.transitions, len(res.lines), res.wall), flush=True)
        if not res.ok:
            # the specification does not depend on the code: this is an error of the specification
            raise ToolError('specification %s: %s\n%s' % (r['module'], res.violated, res.output[-3000:]))
        results.append(res)
    lines = []
    for res in results:
        lines += res.lines
    lines = p.get('order', lambda x: x)(lines)
    cases_file = os.path.join(work, 'cases.jsonl')
    with open(cases_file, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    if only_cases:
        print('cases: %d' % len(lines))
        return 0
    vhs, bt = built.result()
    vh = vhs[0]
    print('harness built in %.1fs' % bt, flush=True)
    tr = time.time()
    cases, checks, fails = 0, 0, []
    for x in vhs:
        if not fails:
            c2, k2, f2 = R.replay(x, cases_file, work, shards=p.get('shards', R.NCPU), limit=p.get('limit', R.CASE_LIMIT), pool=p.get('pool'))
            for y in f2:
                y.build = 'dev' if x == vh else 'wrap'
            cases, checks, fails = cases + c2, checks + k2, fails + f2
    print('replayed %d cases, %d comparisons in %.1fs' % (cases, checks, time.time() - tr), flush=True)
    # traces recorded from the code, checked against a trace specification
    traces = 0
    cov_extra = {}
    if not fails and p.get('after'):
        for fn in p['after']:
            c2, f2, st, tn, extra = fn(vh, work, tier, seed)
            traces += c2
            fails += f2
            cov_extra.update(extra)
            cov_extra['trace_states'] = cov_extra.get('trace_states', 0) + st
            cov_extra['trace_transitions'] = cov_extra.get('trace_transitions', 0) + tn
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r.states for r in results) + cov_extra.get('trace_states', 0),
            'transitions': sum(r.transitions for r in results) + cov_extra.get('trace_transitions', 0),
            'traces_validated_against_impl': cases + traces,
            'comparisons': checks,
            'samples': [json.loads(R.clip(l)) if len(l) <= 1500 else R.clip(l) for l in pick(lines, 3)],
            'models': [{'name': r.name, 'states': r.states, 'transitions': r.transitions, 'behaviours': len(r.lines), 'wall_s': round(r.wall, 1)} for r in results],
        },
        'assumptions': p.get('assumptions', []),
        'violations': len(fails),
        'wall_s': round(time.time() - t0, 1),
    }
    ev['coverage'].update({k: v for k, v in cov_extra.items()})
    ev['coverage'].update(R.NOTES)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if cases + traces == 0 and not fails:
        raise ToolError('nothing was checked')
    if fails:
        rp = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rp, exist_ok=True)
        for k, x in enumerate(fails[:5]):
            path = os.path.join(rp, '%s-%d.json' % (prop, k))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'features': p['features'], 'build': getattr(x, 'build', 'dev'), 'message': x.msg, 'case': x.case}, f, indent=1)
            print('  case %d: %s' % (x.line_no, R.clip(x.msg, 600)))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1
    print('OK %s %s: %d states, %d cases replayed, %.0fs' % (prop, tier, ev['coverage']['states'], cases + traces, time.time() - t0))
    return 0


def pick(lines, k):
    if not lines:
        return []
    small = sorted(lines, key=len)
    return [small[(len(small) - 1) * i // max(1, k - 1)] for i in range(min(k, len(small)))]


def replay_one(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix='replay-', dir=os.path.join(VERIF, '.work'))
    try:
        vh, _ = R.build(d['features'], work, d.get('build', 'dev'))
        f = os.path.join(work, 'cases.jsonl')
        open(f, 'w').write(d['case'] + '\n')
        _, _, fails = R.replay(vh, f, work, shards=1)
        for x in fails:
            print(x.msg)
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1 if fails else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
