"""check PROPERTY [--replay FILE] [--seed N] [--tier quick|thorough] [--max N]"""
import os, sys, time, json, pickle, random, zlib, shutil, tempfile, importlib, traceback, hashlib, warnings
import multiprocessing as mp
from . import envs, runner

ENOUGH = int(os.environ.get('VMON_ENOUGH', '15'))          # violating jobs after which a run ends
FINDINGS = os.path.join(envs.VERIF, 'known_findings.txt')


def load_findings(pid):
    """Lines 'finding: property=ID key=KEY text'."""
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith('finding:') and f'property={pid} ' in l:
                key = l.split('key=')[1].split()[0]
                out[key] = l.split('key=' + key, 1)[1].strip()
    return out


def _judge(a):
    modname, job, obs = a
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    try:
        return job['id'], importlib.import_module(modname).judge(job, obs)
    except ImportError:
        return job['id'], {'error': traceback.format_exc()[-2500:]}
    except Exception:
        # what was observed does not even have the documented form
        return job['id'], {'viol': ['what was observed cannot be interpreted: ' + traceback.format_exc()[-1200:]]}


def main():
    args = sys.argv[1:]
    pid = args[0]
    opt = {args[i]: args[i + 1] for i in range(1, len(args) - 1, 2)}
    seed = int(opt.get('--seed', os.environ.get('VERIF_SEED', '1') or 1))
    tier = opt.get('--tier', os.environ.get('VERIF_TIER', 'quick') or 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    modname = f'vmon.checks.{pid.lower()}'
    mod = importlib.import_module(modname)
    t0 = time.time()
    budget = float(os.environ.get('VMON_BUDGET', getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 3000)))
    hard = 780 if tier == 'quick' else 6 * 3600
    scratch = tempfile.mkdtemp(prefix=f'vm{pid}_', dir='/tmp')
    rc = 2
    try:
        rng = random.Random(zlib.crc32(pid.encode()) * 1000003 + seed * 2 + (tier == 'thorough'))
        if '--replay' in opt:
            with open(opt['--replay'], 'rb') as f: jobs = [pickle.load(f)]
            jobs[0]['id'] = 0
        else:
            jobs = mod.make_jobs(rng, tier)
            if '--max' in opt: jobs = jobs[:int(opt['--max'])]
            for i, j in enumerate(jobs): j['id'] = i
        for j in jobs: j.setdefault('mod', modname)
        by = {j['id']: j for j in jobs}
        r = runner.Runner(scratch, t0 + min(budget, hard))
        res, pend, bad = {}, [], 0
        findings = load_findings(pid)
        ctx = mp.get_context('fork')
        with ctx.Pool(int(os.environ.get('VMON_JUDGES', '6'))) as pool:     # forked before any thread is started
            r.run(jobs, getattr(mod, 'WORKERS', 7))
            while True:
                live = r.alive()
                while not r.q.empty():
                    jid, obs = r.q.get()
                    pend.append(pool.apply_async(_judge, ((modname, by[jid], obs),)))
                for p in [p for p in pend if p.ready()]:
                    jid, v = p.get(); res[jid] = v
                    pend.remove(p)
                    bad += bool(v.get('viol')) or any(k not in findings for k, _ in v.get('known', []))
                if bad >= ENOUGH: r.deadline = 0            # more violations would not change the verdict
                if not live and not pend and r.q.empty(): break
                time.sleep(0.02)
        for k in list(r.obs): r.obs[k] = None
        rc = report(pid, mod, tier, seed, by, res, r, time.time() - t0, replaying='--replay' in opt)
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get('VMON_KEEP'): shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def brief(job):
    return {k: v for k, v in job.items() if k not in ('mod',)}


def report(pid, mod, tier, seed, by, res, r, wall, replaying=False):
    findings = load_findings(pid)
    viols, known, errors, events, sigs, nontriv = [], {}, [], {}, set(), 0
    samples = []
    evaluations = 0
    for jid in sorted(res):
        v = res[jid]
        if 'error' in v: errors.append((jid, v['error'])); continue
        evaluations += v.get('evals', 1)
        for k, n in v.get('events', {}).items(): events[k] = events.get(k, 0) + n
        for s in v.get('sig', []):
            sigs.add(s)
        if v.get('sample') and len(samples) < 5: samples.append(v['sample'])
        for m in v.get('viol', []): viols.append((jid, m))
        for key, m in v.get('known', []):
            if key in findings: known.setdefault(key, []).append((jid, m))
            else: viols.append((jid, m))
    rd = os.path.join(envs.VERIF, 'replays')
    os.makedirs(rd, exist_ok=True)
    shown = set()
    for jid, m in viols:
        if jid in shown or len(shown) >= 10: continue
        shown.add(jid)
        path = os.path.join(rd, f'{pid}_{seed}_{jid}.pkl')
        if not replaying:
            with open(path, 'wb') as f: pickle.dump(by[jid], f, protocol=4)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'   {m[:1500]}')
        print(f'   job: {str(brief(by[jid]))[:1500]}')
    for key, lst in known.items():
        print(f'KNOWN-FINDING: property={pid} {findings[key]} [{len(lst)} observations, e.g. {lst[0][1][:200]}]')
    for jid, e in errors[:3]: print(f'CHECK-ERROR job {jid}: {e}\n   job: {str(brief(by[jid]))[:1200]}', file=sys.stderr)
    for n in r.notes: print('note:', n, file=sys.stderr)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
                       'samples': samples or ['none'], 'jobs_planned': len(by), 'jobs_observed': len(res),
                       'monitored_events': events, 'violations_seen': len(viols), 'known_findings_seen': {k: len(v) for k, v in known.items()},
                       'notes': r.notes[:10]},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(envs.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(envs.VERIF, 'evidence', f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'{pid} {tier} seed {seed}: {evaluations} evaluations of {len(res)}/{len(by)} jobs, {len(sigs)} distinct, '
          f'events {events}, {len(viols)} violations, {len(known)} known findings, {len(errors)} errors, {wall:.1f} s')
    if viols: return 1
    if errors: return 2
    need = 1 if replaying else getattr(mod, 'MIN_DISTINCT', 5)
    if len(sigs) < need or (not replaying and len(res) < 0.3 * len(by)):
        print('the monitors observed too little to decide', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    main()
