#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough] [--facts DIR]: decide one property from /repo's current source.

Exit 0: no obligation of the property is refuted.  Exit 1: VIOLATION line(s).  Every obligation ends as
proven (shown on every analysed path), refuted (a precisely analysed path contradicts it) or undecided."""
import sys, os, json, time, subprocess, tempfile, shutil, re
import multiprocessing as mp

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import props


def work(arg):
    facts, g, part, deep, limit, end = arg
    import signal
    limit = max(10, min(limit, int(end - time.time())))
    sys.setrecursionlimit(20000)
    import fw
    from program import Program
    props.load()
    P = Program(facts)
    R = fw.Res(P, g)
    R.error = None
    t = time.time()

    def alarm(*_):
        raise TimeoutError()
    import engine
    engine.Eng.deadline = t + limit * 0.4
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        fw.GROUPS[g][0](R, part, deep)
    except fw.Missing as e:
        R.error = 'anchor not found: %s' % e
    except fw.Undecided as e:
        R.error = str(e)
    except TimeoutError:
        R.error = 'time limit of %d s reached' % limit
    except RecursionError:
        R.error = 'recursion limit reached'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        R.error = 'analysis stopped: %s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
    R.stats['functions'] = sorted(R.stats['functions'])
    return dict(group=g, part=part, error=R.error, stats=R.stats, notes={str(k): v for k, v in R.notes.items()},
                cuts={str(k): v for k, v in R.cuts.items()}, secs=time.time() - t,
                obs=[(o.name, o.verdict, o.where, o.detail, o.trace) for o in R.obs.values()])


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    deep = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pr = props.PROPS[pid]
    tmp = None
    if '--facts' in sys.argv:
        facts = sys.argv[sys.argv.index('--facts') + 1]
    else:
        tmp = tempfile.mkdtemp(prefix='facts.')
        facts = tmp
        r = subprocess.run(['bash', os.path.join(V, 'lib', 'extract.sh'), facts], stdout=sys.stderr)
        if r.returncode:
            print('ERROR: /repo does not compile or facts could not be extracted', file=sys.stderr)
            shutil.rmtree(tmp)
            sys.exit(2)
    try:
        props.load()
        import fw
        jobs = []
        for gname, rx in pr['groups']:
            parts = fw.GROUPS[gname][1] or [None]
            if callable(parts):
                parts = parts(deep)
            for p in parts:
                jobs.append((facts, gname, p, deep, 2400 if deep else 420, t0 + (7200 if deep else 720)))
        jobs.sort(key=lambda j: -props.COST.get(j[1], 0))
        with mp.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
            res = list(pool.imap_unordered(work, jobs, chunksize=1))
    finally:
        if tmp:
            shutil.rmtree(tmp)
    filt = dict(pr['groups'])
    res.sort(key=lambda r: (r['group'], str(r['part'])))
    obs, errors = [], []
    fns, stats, notes, cuts = set(), {}, {}, {}
    for r in res:
        rx = filt[r['group']]
        for o in r['obs']:
            if rx is None or re.search(rx, o[0]):
                obs.append((r['group'],) + tuple(o))
        if r['error']:
            errors.append('%s%s: %s' % (r['group'], ':%s' % r['part'] if r['part'] else '', r['error']))
        fns |= set(r['stats'].pop('functions'))
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in r['cuts'].items():
            cuts[k] = cuts.get(k, 0) + v
    known = load_known(pid)
    bad, quiet = [], []
    for o in obs:
        if o[2] == 'refuted':
            key = '%s/%s' % (o[0], o[1])
            (quiet if key in known else bad).append(o)
    undecided = ['%s/%s: %s' % (o[0], o[1], o[4]) for o in obs if o[2] == 'unknown'] + errors
    cov = {
        'explanation': pr['rule'],
        'obligations': len(obs),
        'discharged': sum(o[2] == 'proven' for o in obs),
        'undecided': undecided[:60],
        'functions_analysed': len(fns), 'functions': sorted(fns),
        'abstract_paths': stats.get('paths', 0), 'branches_decided': stats.get('branches', 0),
        'call_sites_evaluated': stats.get('calls', 0), 'panic_edges_reached': stats.get('panics', 0),
        'instructions_interpreted': stats.get('steps', 0),
        'library_calls_without_model': dict(sorted(notes.items(), key=lambda x: -x[1])[:15]),
        'widened_loops': dict(list(cuts.items())[:15]),
        'samples': ['%s/%s @ %s: %s' % (o[0], o[1], o[3], o[2]) for o in obs[:: max(1, len(obs) // 25)]][:30],
        'groups': sorted({'%s %.1fs' % (g, sum(r['secs'] for r in res if r['group'] == g)) for g in filt}),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(bad), assumptions=props.ASSUME)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in quiet:
        print('KNOWN-FINDING: property=%s %s/%s' % (pid, o[0], o[1]))
    print('%s: %d obligations, %d proven, %d refuted, %d undecided, %d functions, %.1f s' % (
        pid, len(obs), cov['discharged'], len(bad) + len(quiet), len(undecided), len(fns), time.time() - t0))
    for u in undecided[:10]:
        print('  undecided: ' + u[:300])
    if bad:
        rp = os.path.join(V, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for g, name, verdict, where, detail, trace in bad:
                f.write('rule: %s / %s\nat: %s\nwhat: %s\npath condition (last facts):\n' % (g, name, where, detail))
                for x in trace:
                    f.write('   %s\n' % x)
                f.write('\n')
        for g, name, verdict, where, detail, trace in bad[:8]:
            print('  %s / %s at %s: %s' % (g, name, where, detail[:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


def load_known(pid):
    out = set()
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) obligation=(.*?) :: ', l)
            if m and m.group(1) == pid:
                out.add(m.group(2))
    return out


if __name__ == '__main__':
    main()
