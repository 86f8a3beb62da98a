#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only run-name] [--replay FILE]"""
import sys, os, json, time, shutil, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import runner, checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    spec = checks.CHECKS[a.pid]
    t0 = time.time()
    os.makedirs(runner.EVID + '/replays', exist_ok=True)
    lk = runner.lock()
    scratch = os.path.join(runner.BUILD, f'run-{a.pid}-{os.getpid()}')
    rc = 0
    tot = {}
    perrun, samples, notes, known_seen, vio = [], [], [], {}, None
    try:
        for r in spec['runs']:
            if a.only and r['name'] != a.only:
                continue
            if r.get('tier') and r['tier'] != a.tier:
                continue
            ex = runner.Explorer(a.pid, r, a.tier, os.path.join(scratch, r['name']))
            try:
                ex.build()
            except runner.BuildError as e:
                # the library (or a harness against its public interface) no longer builds
                path = f'{runner.EVID}/replays/{a.pid}-build.txt'
                open(path, 'w').write(str(e))
                print(str(e)[-2000:])
                if not r.get('build_is_property'):
                    print('error: the library or the harness does not build')
                    return 2
                vio = dict(violation='does not build: ' + str(e)[-300:], run=r['name'], path=path)
                break
            if a.replay:
                v = json.load(open(a.replay))
                if v.get('run') != r['name']:
                    continue
                m = ex.replay(v)
                print(('VIOLATION property=%s replay=%s\n%s' % (a.pid, a.replay, m)) if m else 'no violation')
                return 1 if m else 0
            budget = r.get('budget', (240, 3000))[1 if a.tier == 'thorough' else 0]
            st, known, smp, v, errs = ex.explore(budget, print)
            st['run'] = r['name']
            perrun.append(st)
            if ex.ref and not v:
                st2, v, errs2 = ex.compare(budget, print)
                st['reference'] = {k: st2[k] for k in ('cases', 'executions', 'states')}; st['compared'] = st2.get('compared', 0)
                errs = errs + errs2
            for k, n in st.items():
                if k in ('cases', 'total_cases', 'executions', 'states', 'mpi_calls', 'steps', 'outcomes', 'sched_points', 'truncated_cases'):
                    tot[k] = tot.get(k, 0) + n
            tot['max_choices'] = max(tot.get('max_choices', 0), st['max_choices'])
            tot['capped'] = tot.get('capped', 0) | st['capped']
            tot['states_capped'] = tot.get('states_capped', 0) | st['states_capped']
            samples += [f"{r['name']}: {s}" for s in smp[:2]]
            for k, (c, m) in known.items():
                known_seen[k] = (known_seen.get(k, (0, m))[0] + c, m)
            notes += [f"{r['name']}: {e}" for e in errs]
            print(f"[{a.pid}/{r['name']}] cases {st['cases']}/{st['total_cases']} executions {st['executions']} states {st['states']} mpi calls {st['mpi_calls']} outcomes {st['outcomes']} max choices {st['max_choices']} capped {st['capped']} truncated {st['truncated_cases']} {st['wall_s']} s", flush=True)
            for e in errs:
                print('note:', e)
            if v:
                v['run'] = r['name']; v['property'] = a.pid; v['tier'] = a.tier
                v['replay_cmd'] = f'python3 check.py {a.pid} --tier {a.tier} --replay <this file>'
                path = f'{runner.EVID}/replays/{a.pid}-{r["name"]}.json'
                json.dump(v, open(path, 'w'), indent=1)
                v['path'] = path
                vio = v
                break
            if errs and st['cases'] < st['total_cases'] and not st['capped']:
                # a worker died without a reproducible violation: an error of the check itself
                rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    cov = dict(states=tot.get('states', 0), transitions=tot.get('mpi_calls', 0) + tot.get('steps', 0),
               traces_validated_against_impl=tot.get('executions', 0), samples=samples[:6] or ['(none)'],
               cases_completed=tot.get('cases', 0), cases_total=tot.get('total_cases', 0),
               distinct_outcomes=tot.get('outcomes', 0), scheduling_points=tot.get('sched_points', 0), longest_choice_sequence=tot.get('max_choices', 0),
               exhaustive=bool(not tot.get('capped') and not tot.get('truncated_cases') and not vio and not a.only),
               time_cap_hit=bool(tot.get('capped')), state_table_full=bool(tot.get('states_capped')), cases_truncated_by_execution_cap=tot.get('truncated_cases', 0),
               runs=perrun, rule=spec['rule'], notes=notes)
    if spec['level'] in ('fault_enumeration', 'exploration'):
        cov.update(evaluations=tot.get('executions', 0), distinct_nontrivial=tot.get('states', 0))
    ev = dict(property=a.pid, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=spec['level'], coverage=cov,
              assumptions=spec['assumptions'], wall_s=round(time.time() - t0, 2), violations=1 if vio else 0)
    json.dump(ev, open(f'{runner.EVID}/{a.pid}.json', 'w'), indent=1)
    for k, text in runner.known_list(a.pid):
        if k in known_seen:
            print(f'KNOWN-FINDING: property={a.pid} {text} (seen {known_seen[k][0]} times)')
    if vio:
        print('case:', vio.get('describe', '')[:1500])
        print('what:', vio['violation'][:1500])
        print(f"VIOLATION property={a.pid} replay={vio['path']}")
        return 1
    return rc


sys.exit(main())
