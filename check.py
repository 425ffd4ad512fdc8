#!/usr/bin/env python3-vt
"""check.py <property id> [--thorough]: decide one property against /repo's current tree."""
import os, sys, time, json, tempfile, shutil, base64, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from collections import Counter

def main(pid, tier, seed):
    t0 = time.time()
    from cgv import runner, build, props, replay
    from cgv.runner import G, REG
    runner.load_specs()
    P = props.PROPS[pid]
    G.work = tempfile.mkdtemp(prefix='cgv_%s_' % pid); G.seed = seed; G.quick = tier == 'quick'
    G.deadline = t0 + float(os.environ.get('CGV_LIMIT', 700 if tier == 'quick' else 7200)); G.vac = ('sse2',)
    try:
        pre, jobs, select = props.plan(pid, tier)
        comp = runner.compile_all(jobs)
        builderr = {k: v for k, v in comp.items() if v}
        work, missing = select(G.work, set(k for k, v in comp.items() if not v))
        res = runner.run(work)
        if all(not d['fails'] for d in res): res += closure(pid, res, work, runner, props, comp)
        if tier == 'thorough' and pid not in props.RELATIONAL and all(not d['fails'] for d in res):
            res += runner.run([('sample', w[1], w[2], w[3]) for w in work if w[0] == 'contract' and w[2] == 'inline' and replay.runs(build.CONFIGS[w[1]])])
    finally:
        shutil.rmtree(G.work, ignore_errors=True)
    return report(pid, P, tier, seed, t0, res, work, builderr, missing, comp)

def closure(pid, res, work, runner, props, comp):
    """the contracts the proofs above relied on, discharged here as well (transitively)"""
    if pid in props.RELATIONAL: return []
    done = {(w[1], w[3]) for w in work if w[0] == 'contract' and w[2] == 'inline'}
    out = []; cur = res
    while cur:
        new = sorted({(d['cfg'], u) for d in cur for u in d.get('used', ())} - done)
        new = [(c, u) for c, u in new if not comp.get((c, 'inline'), 'not built') and u in runner.REG.c and props.allowed(runner.REG.c[u], c)]
        done |= set(new)
        cur = runner.run([('contract', c, 'inline', u) for c, u in new]) if new else []
        for d in cur: d['dep'] = True
        out += cur
        if any(d['fails'] for d in cur): break
    return out

def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'FINDINGS.txt')):
            m = re.match(r'known: property=(\S+) function=(\S+) config=(\S+) cell=(\S+) \| (.*)', l)
            if m and m.group(1) == pid: out.append(m.groups()[1:])
    except FileNotFoundError: pass
    return out

def write_replay(pid, k, f, d):
    rd = os.path.join(HERE, 'replays'); os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, '%s-%d.json' % (pid, k))
    rec = dict(property=pid, obligation=f['obligation'], function=d['fn'], config=d['cfg'], api=d.get('api', 'inline'), verifier_status=f['status'], note=f.get('note'), finding=f['finding'])
    fd = f['finding']
    if fd and fd.get('program'):
        cf = path[:-5] + '.c'
        with open(cf, 'w') as g: g.write(fd['program'])
        rec['finding'] = {x: y for x, y in fd.items() if x != 'program'}
        rec['replay_program'] = cf
        rec['replay_how'] = 'compile with the command in finding.compile, feed the input as binary (parameters in order, 4 bytes per number), compare the output cell with finding.required'
    with open(path, 'w') as g: json.dump(rec, g, indent=1, default=str)
    return path

def report(pid, P, tier, seed, t0, res, work, builderr, missing, comp):
    for f in glob.glob(os.path.join(HERE, 'replays', pid + '-*')): os.unlink(f)
    known = known_findings(pid)
    fails = []; broken = []; kf = []
    smp = [d for d in res if d.get('mode') == 'sample']; res = [d for d in res if d.get('mode') != 'sample']
    for (cfg, api), e in builderr.items():
        fails.append((dict(obligation='%s/%s: the translation unit of this configuration compiles' % (cfg, api), kind='build', finding=None, status='clang: ' + e[:2500]), dict(fn='*', cfg=cfg, api=api)))
    for m in missing:
        fails.append((dict(obligation='%s is defined in %s/%s' % (m[2], m[0], m[1]), kind='extraction', finding=None, status='no definition found'), dict(fn=m[2], cfg=m[0], api=m[1])))
    skipped = [d for d in res if d.get('skipped')]
    for d in res:
        if d.get('broken'):
            if str(d.get('error')).startswith('vacuous'): broken.append(d)
            else: fails.append((dict(obligation='%s: verification condition' % d['fn'], kind='extraction', finding=None, status=d.get('error'), note=d.get('trace')), d))
        for f in d['fails']:
            cell = f['finding']['cell'] if f['finding'] and f['finding'].get('cell') else '?'
            hit = [k for k in known if k[0] == d['fn'] and k[1] in ('*', d['cfg']) and k[2] in ('*', cell)]
            if hit: kf.append(hit[0])
            else: fails.append((f, d))
    for d in skipped: fails.append((dict(obligation='%s: verification condition' % d['fn'], kind='time', finding=None, status='not reached within the time limit'), d))
    obs = sum(d['obs'] for d in res); proved = sum(d['proved'] for d in res)
    side = Counter(); back = Counter(); kinds = Counter(); used = set(); inl = set(); approx = set()
    for d in res:
        for k, v in d.get('side', {}).items(): side[k] += v
        for k, v in d.get('backends', {}).items(): back[k] += v
        for k, v in d.get('kinds', {}).items(): kinds[k] += v
        used |= set(d.get('used', ())); inl |= set(d.get('inlined', ())); approx |= set(d.get('approx', ()))
    ns = sum(side.values()) if pid == 'C28' else 0
    fns = sorted({d['fn'] for d in res}); cfgs = sorted({d['cfg'] for d in res})
    if back.get('executor'): pass
    bad = len(fails)
    deps = sorted({d['fn'] for d in res if d.get('dep')})
    vacn = sum(1 for d in res if d.get('vac'))
    from cgv import props
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=bad,
        coverage=dict(obligations=obs + ns, discharged=proved + ns, checker_cmd='python3-vt /verif/check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
            trusted_base=props.TRUSTED, functions_under_contract=len(fns), functions=fns, configurations=cfgs,
            function_configuration_pairs=len(res), postcondition_and_side_goals=obs, discharged_by_backend=dict(back), discharged_by_kind=dict(kinds),
            access_checks_discharged_by_executor=dict(side), solver_time_s=round(sum(d.get('t_smt', 0) for d in res), 2), solver_calls=sum(d.get('smt', 0) for d in res),
            path_cases=sum(d.get('cases', 0) for d in res), verifier_time_s=round(sum(d.get('time', 0) for d in res), 2),
            callee_contracts_used=sorted(used), callee_contracts_discharged_here=deps, callees_inlined=sorted(inl), vacuity_guards_passed=vacn, bounded=[],
            sampled_executions=dict(note='not part of the decision: compiled code against the contracts, to check the extraction and the models of the intrinsics', functions_and_configurations=sum(1 for d in smp if d.get('sampled')), runs=sum(d.get('sampled', 0) for d in smp), deviations=[dict(d['deviation'], function=d['fn'], config=d['cfg']) for d in smp if d.get('deviation')], not_run=sorted({'%s (%s): %s' % (d['fn'], d['cfg'], d.get('unsampled')) for d in smp if d.get('unsampled')} | {'%s (%s): %s' % (d['fn'], d['cfg'], d.get('error') or 'not reached') for d in smp if d.get('skipped') or d.get('broken')})[:40]) if smp else None,
            undischarged=[f['obligation'] + ' [' + d['cfg'] + ']' for f, d in fails][:60], hardware_approximations_read_as_exact=sorted(approx),
            known_findings=len(kf)),
        assumptions=props.assumptions(pid))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for d in smp:
        if d.get('deviation'): print('note: %s (%s): a sampled execution deviates from the contract beyond rounding: %s' % (d['fn'], d['cfg'], d['deviation']))
    for k in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    print('%s: %d obligations, %d discharged, %d functions, %d configurations, %.1f s' % (pid, obs + ns, proved + ns, len(fns), len(cfgs), time.time() - t0))
    if broken:
        print('check error: vacuous contract(s): ' + ', '.join(d['fn'] for d in broken), file=sys.stderr); return 2
    if not res or not obs + ns:
        print('check error: no obligation was generated', file=sys.stderr)
        if not fails: return 2
    if not fails: return 0
    conf = [(f, d) for f, d in fails if f['finding'] and f['finding']['kind'] == 'confirmed']
    conf.sort(key=lambda x: x[0]['finding'].get('compile') is None)      # replays on compiled code first
    seen = set(); k = 0
    for f, d in conf:
        if d['fn'] in seen or k >= 4: continue
        seen.add(d['fn']); fd = f['finding']
        path = write_replay(pid, k, f, d); k += 1
        print('failed obligation: %s (%s, %s): observed %s, required %s' % (f['obligation'], d['cfg'], d.get('api', 'inline'), str(fd.get('observed'))[:200], str(fd.get('required'))[:200]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if not conf:
        f, d = max(fails, key=lambda x: x[0]['finding'] is not None)
        for g, e in fails[:5]: print('undischarged obligation: %s (%s): %s' % (g['obligation'], e['cfg'], str(g['status'])[:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, write_replay(pid, 0, f, d)))
    return 1

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    sys.exit(main(a[0], tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
