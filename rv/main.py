"""Driver of one runtime-monitoring check.

It imports neither dolfin nor xii.  It starts worker processes (fresh
interpreters that import the code under test from /repo), hands every worker a
slice of the seeded workload, and collects what the monitors in the workers
report.  It survives a worker that crashes or hangs: a fatal signal raised while
the code under test executes a case is itself an observation.

exit 0  held on everything explored       exit 1  VIOLATION line(s) printed
exit 2  inconclusive: the machinery failed or a monitor was never reached
"""
import argparse, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time
import threading, queue

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('RV_REPO', '/repo')


def load_known():
    """known_findings.txt -> {(property, key): text}; 'fixed:' lines suppress nothing"""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                fields = line.split(None, 3)      # finding: property=X key=Y text
                prop = fields[1].split('=', 1)[1]
                key = fields[2].split('=', 1)[1]
                out[(prop, key)] = fields[3]
    return out


class Worker:
    def __init__(self, prop, tier, seed, todo, env, scratch, n, replay):
        self.todo = list(todo)
        self.n = n
        self.current, self.started, self.proc = None, None, None
        self.done = False
        self.args = (prop, tier, seed, replay)
        self.env, self.scratch = env, scratch
        self.log = os.path.join(scratch, 'worker%d.log' % n)

    def start(self, q):
        prop, tier, seed, replay = self.args
        cmd = [sys.executable, '-B', '-W', 'ignore', os.path.join(HERE, 'worker.py'), prop, tier, str(seed),
               ','.join(map(str, self.todo))] + ([replay] if replay else [])
        cwd = os.path.join(self.scratch, 'cwd%d' % self.n)
        os.makedirs(cwd, exist_ok=True)
        self.proc = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=open(self.log, 'ab'), cwd=cwd,
                                     env=self.env, start_new_session=True)
        self.started, self.current = time.time(), None

        def pump(p=self.proc, w=self):
            for line in p.stdout:
                if line.startswith(b'@RV '):
                    try:
                        q.put((w, p, json.loads(line[4:])))
                    except ValueError:
                        pass
            q.put((w, p, {'k': 'eof'}))
        threading.Thread(target=pump, daemon=True).start()

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--failfast', action='store_true', help='end at the first violation, write no files (development)')
    a = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if a.replay:
        rp = json.load(open(a.replay))
        tier, seed = rp['tier'], rp['seed']
    prop = a.property
    scratch = tempfile.mkdtemp(prefix='rv-%s-' % prop)
    env = dict(os.environ)
    jit = os.environ.get('RV_JIT') or os.path.join(scratch, 'jit')
    os.makedirs(jit, exist_ok=True)
    env.update(DIJITSO_CACHE_DIR=jit, PYTHONPATH=REPO + ':' + HERE, TMPDIR=scratch, RV_REPO=REPO,
               MPLCONFIGDIR=os.path.join(scratch, 'mpl'), RV_SCRATCH=scratch, OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', TQDM_DISABLE='1')
    code = 2
    try:
        code = drive(a, prop, tier, seed, scratch, env, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def drive(a, prop, tier, seed, scratch, env, t0):
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(HERE, 'worker.py'), prop, tier, str(seed), '--plan'],
                       env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    plan = None
    for line in r.stdout.splitlines():
        if line.startswith(b'@RV '):
            plan = json.loads(line[4:])
    if plan is None:
        sys.stderr.write(r.stderr.decode(errors='replace')[-4000:])
        # The code under test cannot even be imported: nothing was observed
        print('INCONCLUSIVE property=%s could not load the workload' % prop)
        return 2
    ncases = plan['n']
    ids = list(range(ncases)) if not a.replay else [json.load(open(a.replay))['case']]
    jobs = a.jobs or min(8, os.cpu_count() or 1, max(1, len(ids)))
    budget = a.budget or plan.get('budget', {}).get(tier) or (420 if tier == 'quick' else 3000)
    case_timeout = plan.get('case_timeout', 300)

    q = queue.Queue()
    # Longest-first interleave; static partition keeps runs deterministic
    workers = [Worker(prop, tier, seed, ids[i::jobs], env, scratch, i, None) for i in range(jobs)]
    for w in workers:
        w.start(q)
    events, keys, samples, viol, evals, cases_done, notes = {}, set(), [], [], 0, 0, []
    errors, killed_retry, skipped = [], {}, 0
    per_oracle = {}

    def advance(w):
        if w.todo:
            w.start(q)
        else:
            w.done = True

    while not all(w.done for w in workers):
        try:
            w, p, m = q.get(timeout=1.0)
        except queue.Empty:
            m = None
        now = time.time()
        if m is not None and p is w.proc:
            if m['k'] == 'start':
                w.current, w.started = m['case'], now
            elif m['k'] == 'case':
                cases_done += 1
                evals += m['evals']
                keys.update(m['keys'])
                for k, v in m['events'].items():
                    events[k] = events.get(k, 0) + v
                for k, v in m['oracles'].items():
                    per_oracle[k] = per_oracle.get(k, 0) + v
                if len(samples) < 12 and m.get('samples'):
                    samples.extend(m['samples'][:2])
                viol.extend(m['violations'])
                errors.extend(m['errors'])
                w.todo = [c for c in w.todo if c != m['case']]
                w.current, w.started = None, now
            elif m['k'] == 'eof':
                rc = w.proc.wait()
                if w.done:
                    pass
                elif rc == 0 and not w.todo:
                    w.done = True
                elif w.current is not None:
                    c = w.current
                    if rc == -signal.SIGKILL:
                        killed_retry[c] = killed_retry.get(c, 0) + 1
                        if killed_retry[c] > 1:
                            errors.append('case %d was killed twice (memory?)' % c)
                            w.todo = [x for x in w.todo if x != c]
                    elif rc < 0:
                        viol.append({'case': c, 'key': 'crash:signal%d' % -rc, 'kind': m.get('kind', ''),
                                     'msg': 'the process executing the case died with signal %d' % -rc})
                        w.todo = [x for x in w.todo if x != c]
                    else:
                        errors.append('worker ended with %s in case %s: %s' % (rc, c, tail(w.log)))
                        w.todo = [x for x in w.todo if x != c]
                    advance(w)
                else:
                    errors.append('worker ended with %s between cases: %s' % (rc, tail(w.log)))
                    w.done = True
        for w in workers:
            if not w.done and w.current is not None and now - w.started > case_timeout:
                w.kill()
                w.proc.wait()
                viol.append({'case': w.current, 'key': 'hang', 'msg': 'no answer within %d s' % case_timeout})
                w.todo = [c for c in w.todo if c != w.current]
                advance(w)
        if a.failfast and any((prop, v['key']) not in load_known() for v in viol):
            budget = 0
        if now - t0 > budget:
            for w in workers:
                if not w.done:
                    skipped += len(w.todo)
                    w.kill()
                    w.done = True
    # -- verdict
    known = load_known()
    seen_known, fresh = {}, {}
    for v in viol:
        k = (prop, v['key'])
        if k in known:
            seen_known[k] = seen_known.get(k, 0) + 1
        else:
            fresh.setdefault(v['key'], []).append(v)
    missing = [k for k, n in plan.get('required', {}).items()
               if events.get(k, 0) < n] if not a.replay else []
    wall = round(time.time() - t0, 2)
    cov = {'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': plan['rule'],
           'samples': samples[:8] or ['none'], 'cases_planned': len(ids), 'cases_completed': cases_done,
           'cases_cut_by_time_budget': skipped, 'oracle_evaluations': dict(sorted(per_oracle.items())),
           'monitor_events': dict(sorted(events.items())), 'worker_processes': jobs,
           'known_findings_observed': sum(seen_known.values()),
           'required_monitor_events_missing': missing}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': plan.get('assumptions', []), 'wall_s': wall,
          'violations': sum(map(len, fresh.values()))}
    if not a.replay and not a.failfast:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        tmp = os.path.join(ROOT, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, 'evidence', prop + '.json'))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s [%s, observed %d times]' % (prop, known[k], k[1], seen_known[k]))
    if fresh:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for i, (key, vs) in enumerate(sorted(fresh.items())):
            v = vs[0]
            path = os.path.join(ROOT, 'replays', '%s-%d.json' % (prop, i))
            if a.failfast:
                path = os.devnull
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case': v['case'], 'key': key,
                       'observed': len(vs), 'violation': v,
                       'how': './check.sh %s --replay %s' % (prop, path)}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   [%s] x%d: %s' % (key, len(vs), v['msg'][:600]))
        return 1
    print('property=%s tier=%s seed=%d cases=%d/%d evaluations=%d distinct=%d wall=%.1fs' %
          (prop, tier, seed, cases_done, len(ids), evals, len(keys), wall))
    if errors:
        print('INCONCLUSIVE property=%s machinery errors: %s' % (prop, errors[:3]))
        return 2
    if missing:
        print('INCONCLUSIVE property=%s monitors not reached: %s (events %s)' % (prop, missing, events))
        return 2
    if cases_done == 0:
        print('INCONCLUSIVE property=%s no case completed' % prop)
        return 2
    return 0


def tail(path):
    try:
        return open(path, 'rb').read()[-1500:].decode(errors='replace')
    except OSError:
        return ''


if __name__ == '__main__':
    main()
