"""Runner: shards a property's scenarios over processes, merges verdicts, writes evidence.

    python -m vmon.run C01 [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--jobs N]

exit 0: held on everything explored     exit 1: VIOLATION line(s)     exit 3: inconclusive
"""
import argparse
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FINDINGS = os.path.join(VERIF, 'known_findings.jsonl')
DEADLINE = {'quick': 420, 'thorough': 780}
CASE_WATCHDOG_S = 240     # cases take milliseconds to a few seconds


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def load(prop):
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import coax
    got = os.path.realpath(coax.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f'coax imported from {got}, not from {REPO}')
    from vmon import core
    mod = importlib.import_module(f'checks.{prop.lower()}')
    return core, mod


def run_case(core, prop, scen, index, seed, tier):
    """Run one case. Returns (mon, violation-dict or None, status)."""
    m = core.Mon(prop, scen.name, index, seed, tier)
    status, viol = 'ok', None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_WATCHDOG_S)
    try:
        scen.func(m)
    except core.Skip:
        status = 'skip'
    except core.Violation as e:
        status = 'violation'
        viol = {'rule': e.rule, 'detail': e.detail[:4000], 'key': e.key}
    except (MemoryError, KeyboardInterrupt):
        raise
    except CaseTimeout:
        status = 'violation'
        viol = {'rule': 'bounded-progress', 'key': None,
                'detail': f'the case did not finish within {CASE_WATCHDOG_S} s (normally at most a few seconds)',
                'traceback': traceback.format_exc()[-6000:]}
    except Exception as e:  # the real code raised where the workload is inside its domain
        status = 'violation'
        tb = traceback.format_exc()
        viol = {'rule': 'unexpected-exception', 'key': None,
                'detail': f'{type(e).__name__}: {str(e)[:1500]}', 'traceback': tb[-6000:]}
    finally:
        signal.alarm(0)
    if viol is not None:
        viol.update(property=prop, scenario=scen.name, index=index, seed=seed, tier=tier,
                    trace=list(m.trace))
    return m, viol, status


def child(args):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    from vmon import cov
    lines = cov.Lines(os.path.join(REPO, 'coax'))
    lines.start()
    core, _ = load(args.prop)
    k, n = map(int, args.shard.split('/'))
    scens = [s for s in core.SCENARIOS.values() if not args.only or s.name in args.only.split(',')]
    counts = {s.name: getattr(s, args.tier) for s in scens}
    if args.scale != 1:
        counts = {a: max(1, int(b * args.scale)) for a, b in counts.items()}
    todo = [(i / max(1, counts[s.name]), s, i) for s in scens for i in range(counts[s.name])]
    todo.sort(key=lambda t: t[0])          # spread every scenario evenly over the run
    # deal cases to shards so that every scenario is spread over all shards
    pos, mine = collections.Counter(), []
    offs = {s.name: j for j, s in enumerate(scens)}
    for _, s, i in todo:
        if (pos[s.name] + offs[s.name]) % n == k:
            mine.append((s, i))
        pos[s.name] += 1
    out = dict(events=collections.Counter(), evaluations=0, cases=0, skipped=0, timeouts=0,
               keys=set(), samples={}, violations=[], known=[], planned=len(mine), cut=0,
               per_scenario=collections.Counter(), time=collections.Counter(),
               floors={s.name: s.floor for s in scens})
    deadline = t0 + args.deadline
    for s, i in mine:
        if time.time() > deadline:
            out['cut'] += 1
            continue
        t1 = time.time()
        with open(args.out + '.cur', 'w') as f:
            json.dump({'scenario': s.name, 'index': i, 't': t1}, f)
        m, viol, status = run_case(core, args.prop, s, i, args.seed, args.tier)
        out['time'][s.name] += time.time() - t1
        out['cases'] += 1
        out['skipped'] += status == 'skip'
        out['timeouts'] += status == 'timeout'
        out['per_scenario'][s.name] += status != 'skip'
        out['events'] += m.events
        out['evaluations'] += m.evaluations
        out['keys'] |= m.keys
        out['known'] += m.known
        for x in m.samples:
            if len(out['samples'].setdefault(s.name, [])) < 1:
                out['samples'][s.name].append(x)
        if viol:
            out['violations'].append(viol)
            if len(out['violations']) >= 4:
                break
    out['keys'] = sorted(out['keys'])
    out['lines'] = sorted(lines.hit)
    with open(args.out, 'w') as f:
        json.dump(out, f, default=str)


def known_keys(prop):
    keys = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith(('#', 'fixed:')):
                    continue
                rec = json.loads(line)
                if rec['property'] == prop:
                    keys[rec['key']] = rec
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1)))
    ap.add_argument('--deadline', type=float)
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--only')
    ap.add_argument('--shard')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    args.deadline = args.deadline or DEADLINE[args.tier]
    if args.replay:
        return replay(args)
    if args.shard:
        return child(args)

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f'vmon-{args.prop}-')
    outs, procs = [], []
    try:
        for k in range(args.jobs):
            o = os.path.join(tmp, f'{k}.json')
            outs.append(o)
            cmd = [sys.executable, '-m', 'vmon.run', args.prop, '--tier', args.tier,
                   '--seed', str(args.seed), '--shard', f'{k}/{args.jobs}', '--out', o,
                   '--deadline', str(args.deadline), '--scale', str(args.scale)]
            if args.only:
                cmd += ['--only', args.only]
            err = open(o + '.err', 'w')
            cwd = os.path.join(tmp, f'cwd{k}')
            os.mkdir(cwd)
            env = dict(os.environ, PYTHONPATH=VERIF, TMPDIR=cwd)
            procs.append(subprocess.Popen(cmd, cwd=cwd, env=env, stderr=err,
                                          stdout=subprocess.DEVNULL))
        hard = args.deadline + 90 if args.tier == "thorough" else CASE_WATCHDOG_S + args.deadline + 70
        broken, crashes = [], []
        for p, o in zip(procs, outs):
            try:
                p.wait(max(1, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if not os.path.exists(o):
                with open(o + '.err') as f:
                    broken.append((p.returncode, f.read()[-3000:]))
                crashes += crash_report(args, p.returncode, o, broken[-1][1])
        parts = [json.load(open(o)) for o in outs if os.path.exists(o)]
        if crashes:
            parts.append(dict(events={}, per_scenario={}, time={}, keys=[], violations=crashes, floors={}, known=[],
                              evaluations=0, cases=0, skipped=0, timeouts=0, cut=0, samples={}))
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return conclude(args, parts, broken, t0)


def crash_report(args, rc, out, err):
    """A worker that was ended by a fault of its own (not by us, not by the memory limit), or that was stuck in one case
    where no Python code runs, is a violation by the case it was in."""
    try:
        with open(out + '.cur') as f:
            cur = json.load(f)
    except (OSError, ValueError):
        return []
    v = dict(property=args.prop, scenario=cur['scenario'], index=cur['index'], seed=args.seed, tier=args.tier,
             trace=[], key=None, traceback=err)
    if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL, -signal.SIGBUS):
        return [dict(v, rule='process-crash', detail=f'the process died with signal {-rc}')]
    if rc == -signal.SIGKILL and time.time() - cur['t'] > CASE_WATCHDOG_S + 60:
        return [dict(v, rule='bounded-progress', detail='the case hung outside Python code')]
    return []


def conclude(args, parts, broken, t0):
    mod_rule = {}
    sys.path.insert(0, VERIF)
    meta = json.load(open(os.path.join(VERIF, 'checks', 'meta.json'))).get(args.prop, mod_rule)
    events, per, times = collections.Counter(), collections.Counter(), collections.Counter()
    keys, samples, violations, floors, known = set(), [], [], {}, []
    ev = cases = skipped = timeouts = cut = 0
    for p in parts:
        events.update(p['events'])
        per.update(p['per_scenario'])
        times.update(p['time'])
        keys |= set(p['keys'])
        violations += p['violations']
        floors.update(p['floors'])
        known += p['known']
        ev += p['evaluations']
        cases += p['cases']
        skipped += p['skipped']
        timeouts += p['timeouts']
        cut += p['cut']
        for s, xs in p['samples'].items():
            if not any(y['scenario'] == s for y in samples):
                samples += xs
    executed = lines_executed(args, parts)
    listed = known_keys(args.prop)
    real, seen_known = [], collections.OrderedDict()
    for v in violations:
        if v.get('key') and v['key'] in listed:
            seen_known.setdefault(v['key'], v)
        else:
            real.append(v)
    for k in known:
        if k['key'] in listed:
            seen_known.setdefault(k['key'], k)
        else:
            real.append(k)
    inconclusive = []
    if broken and not real:
        inconclusive.append(f'{len(broken)} worker process(es) died: {broken[0]}')
    if not args.only and args.scale == 1:
        for s, fl in floors.items():
            for name, minimum in fl.items():
                minimum = (minimum + 1) // 2       # declared: what is typical at quick; required: half of it
                if events.get(name, 0) < minimum:
                    inconclusive.append(f'{s}: only {events.get(name, 0)} "{name}" events '
                                        f'(< {minimum}): the monitor was not reached')
    if timeouts:
        inconclusive.append(f'{timeouts} case(s) hit the watchdog')
    wall = time.time() - t0
    evidence = {
        'property': args.prop, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': cases, 'distinct_nontrivial': len(keys),
            'rule': meta.get('rule', ''),
            'samples': samples[:12],
            'oracle_evaluations': ev,
            'cases_per_scenario': dict(per), 'skipped_out_of_domain': skipped,
            'cases_cut_by_deadline': cut,
            'library_lines_executed': executed,
            'events': {k: v for k, v in sorted(events.items()) if not k.startswith('oracle:')},
            'oracle_evaluations_by_rule': {k[7:]: v for k, v in sorted(events.items())
                                           if k.startswith('oracle:')},
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(real),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{args.prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)

    print(f'{args.prop} [{args.tier} seed={args.seed}] cases={cases} oracle_evaluations={ev} '
          f'distinct={len(keys)} skipped={skipped} cut={cut} wall={wall:.1f}s')
    if args.v:
        for s, t in times.most_common():
            print(f'   {s}: {per[s]} cases, {t:.1f}s cpu')
    for k, v in seen_known.items():
        print(f'KNOWN-FINDING: property={args.prop} {listed[k]["what"]}')
    if real:
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for n, v in enumerate(real):
            sig = (v.get('scenario'), v.get('rule'))
            if sig in shown or len(shown) >= 6:
                continue
            shown.add(sig)
            rp = os.path.join(rdir, f'{args.prop}-{n}.json')
            with open(rp, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print(f"  {v.get('scenario')}[{v.get('index')}] {v.get('rule')}: {v.get('detail', '')[:600]}")
            print(f'VIOLATION property={args.prop} replay={rp}')
        return 1
    if inconclusive:
        for x in inconclusive:
            print('INCONCLUSIVE:', x)
        return 3
    return 0


def lines_executed(args, parts):
    """{file: 'executed/executable lines inside functions'} for the files of the library the run went through"""
    from vmon import cov
    hit = collections.defaultdict(set)
    for p in parts:
        for f, n in p.get('lines', ()):
            hit[f].add(n)
    try:
        rows = cov.table(os.path.join(REPO, 'coax'), hit)
    except (OSError, SyntaxError):
        return {}
    if os.environ.get('VERIF_LINES'):        # for tools/lines.py
        with open(os.path.join(os.environ['VERIF_LINES'], args.prop + '.json'), 'w') as f:
            json.dump({k: sorted(v) for k, v in hit.items()}, f)
    return {f: f'{len(a)}/{len(b)}' for f, (a, b) in sorted(rows.items()) if a}


def replay(args):
    with open(args.replay) as f:
        v = json.load(f)
    core, _ = load(v['property'])
    m, viol, status = run_case(core, v['property'], core.SCENARIOS[v['scenario']], v['index'],
                               v['seed'], v['tier'])
    print('status:', status)
    if viol:
        print(json.dumps(viol, indent=1, default=str))
        print(viol.get('traceback', ''))
        print(f"VIOLATION property={v['property']} replay={args.replay}")
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
