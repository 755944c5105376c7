"""check runner:  python3-vt -m nsym.main <property> [quick|thorough] [options]"""
import collections
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def reexec():
    if os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        os.execve(sys.executable, [sys.executable, '-B', '-m', 'nsym.main'] + sys.argv[1:], env)


def worker(conn, others, deadline, slice_s):
    import signal
    for c in others:
        c.close()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    sys.setrecursionlimit(6000)
    from . import loader, explore
    covered = set()
    mon = sys.monitoring
    tool = 4

    def start(code, off):
        f = code.co_filename
        if '/neocore/' in f:
            covered.add((f, code.co_qualname))
        return mon.DISABLE
    mon.use_tool_id(tool, 'nsym')
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    loader.setup()
    while True:
        try:
            job = conn.recv()
        except EOFError:
            job = None
        if job is None:
            explore.NATIVE.stop()
            return
        case, prefixes = job
        try:
            j = explore.Job(case, case.get('cfg', {}))
            if time.time() > deadline:
                conn.send((case['idx'], dict(leftover=prefixes, out_of_time=True)))
                continue
            r = j.run(prefixes, slice_s, deadline)
            r['covered'] = sorted(covered)
            conn.send((case['idx'], r))
        except BaseException:
            import traceback
            conn.send((case['idx'], dict(error=traceback.format_exc(), leftover=[])))


class Pool:
    """worker processes, each with its own pipe: one that dies (a crash inside the solver's native code, or no memory) takes
    nothing with it but the job it had, which is given once more to another worker"""

    def __init__(self, n, deadline, slice_s):
        self.mctx = mp.get_context('fork')
        self.args = (deadline, slice_s)
        self.n = n
        self.todo = collections.deque()
        self.ws = []                # [process, connection, job or None]
        self.died = 0

    def put(self, job, tries=0):
        self.todo.append((job, tries))

    def pending(self):
        return len(self.todo) + sum(w[2] is not None for w in self.ws)

    def spawn(self):
        a, b = self.mctx.Pipe()
        p = self.mctx.Process(target=worker, args=(b, [w[1] for w in self.ws] + [a]) + self.args, daemon=True)
        p.start()
        b.close()
        self.ws.append([p, a, None])

    def step(self, timeout):
        """hand out jobs, then the results that came in: a list of (case index, result); result None: the job is lost"""
        while len(self.ws) < self.n and self.pending() > len(self.ws):
            self.spawn()
        for w in self.ws:
            if w[2] is None and self.todo:
                w[2] = self.todo.popleft()
                try:
                    w[1].send(w[2][0])
                except OSError:
                    pass
        out = []
        conns = {w[1]: w for w in self.ws}
        for c in mp.connection.wait(list(conns), timeout):
            w = conns[c]
            try:
                r = c.recv()
            except (EOFError, OSError):
                self.ws.remove(w)
                c.close()
                w[0].join(1)
                self.died += 1
                if w[2] is not None:
                    job, tries = w[2]
                    if tries < 1:
                        self.put(job, tries + 1)
                    else:
                        out.append((job[0]['idx'], None))
                continue
            w[2] = None
            out.append(r)
        return out

    def drop(self):
        self.todo.clear()

    def stop(self):
        for w in self.ws:
            try:
                w[1].send(None)
            except OSError:
                pass
        t1 = time.time() + 3
        for w in self.ws:
            w[0].join(max(0.1, t1 - time.time()))
        for w in self.ws:
            if w[0].is_alive():
                w[0].kill()


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m:
                out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


def main():
    reexec()
    a = sys.argv[1:]
    prop = a[0]
    tier = a[1] if len(a) > 1 and not a[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = None
    nproc = 8
    verbose = '-v' in a
    for x in a:
        if x.startswith('--case='):
            only = x[7:]
        if x.startswith('-j'):
            nproc = int(x[2:])
    from . import props, loader
    P = props.get(prop)
    cases = P['cases'](tier)
    if only:
        cases = [c for c in cases if re.search(only, c['name'])]
    for i, c in enumerate(cases):
        c['idx'] = i
        c.setdefault('module', P['module'])
        c.setdefault('params', {})
        cfg = dict(P.get('cfg', {}))
        if tier == 'thorough':
            cfg.update(P.get('thorough_cfg', {}))
        cfg.update(c.get('cfg', {}))
        c['cfg'] = cfg
    budget = P.get('budget', {}).get(tier, 280 if tier == 'quick' else 800)
    t0 = time.time()
    deadline = t0 + budget
    slice_s = 6
    nproc = max(1, min(nproc, 8))
    pool = Pool(nproc, deadline, slice_s)
    acc = {}
    # heavier cases first
    for c in sorted(cases, key=lambda c: -c.get('weight', 1)):
        pool.put((c, [[]]))
        acc[c['idx']] = dict(case=c, stats={}, incomplete={}, notes=set(), violations=[], unreproduced=[], known={}, validated=0,
                             mismatches=[], n_mismatch=0, samples=[], labels=set(), checks=0, native=0, unexplored=0, errors=[], ufs=set())
    covered = set()
    stop_new = False
    results = collections.deque()
    while results or pool.pending():
        if not results:
            results.extend(pool.step(5))
            if not results:
                if time.time() > deadline + 60:
                    for c in acc.values():
                        c['unexplored'] += 1
                    break
                continue
        idx, r = results.popleft()
        A = acc[idx]
        if r is None:
            A['incomplete']['a worker process died twice on the same part'] = \
                A['incomplete'].get('a worker process died twice on the same part', 0) + 1
            continue
        if r.get('error'):
            A['errors'].append(r['error'])
            continue
        for k, v in r.get('stats', {}).items():
            A['stats'][k] = A['stats'].get(k, 0) + v
        for k, v in r.get('incomplete', {}).items():
            A['incomplete'][k] = A['incomplete'].get(k, 0) + v
        A['notes'] |= set(r.get('notes', ()))
        A['ufs'] |= set(r.get('ufs', ()))
        A['violations'] += r.get('violations', [])
        A['unreproduced'] += r.get('unreproduced', [])
        A['known'].update(r.get('known', {}))
        A['validated'] += r.get('validated', 0)
        A['mismatches'] += r.get('mismatches', [])
        A['n_mismatch'] += r.get('n_mismatch', 0)
        A['samples'] = (A['samples'] + r.get('samples', []))[:3]
        A['labels'] |= set(r.get('labels', ()))
        A['checks'] += r.get('checks', 0)
        A['native'] += r.get('native_runs', 0)
        covered |= set(map(tuple, r.get('covered', ())))
        if A['violations'] and not verbose:
            stop_new = True
        left = r.get('leftover', [])
        if left:
            if r.get('out_of_time') or time.time() > deadline or stop_new or len(A['violations']) >= 3:
                A['unexplored'] += len(left)
            else:
                n = min(len(left), max(1, nproc * 2 - pool.pending() - len(results)))
                # deepest prefixes last in each chunk; spread shallow (big) ones
                chunks = [left[i::n] for i in range(n)]
                for ch in chunks:
                    pool.put((A['case'], ch))
        if stop_new:
            pool.drop()         # nothing more is handed out
    pool.stop()
    if pool.died:
        print('note: %d worker process(es) died; what they had was given to another' % pool.died)
    wall = time.time() - t0
    return report(prop, tier, P, cases, acc, covered, wall, verbose, only)


def report(prop, tier, P, cases, acc, covered, wall, verbose, only):
    from . import loader
    kf = known_findings()
    tot = {}
    for A in acc.values():
        for k, v in A['stats'].items():
            tot[k] = tot.get(k, 0) + v
    viol = [(A['case'], v) for A in acc.values() for v in A['violations']]
    unrep = [(A['case'], v) for A in acc.values() for v in A['unreproduced']]
    errors = [(A['case']['name'], x) for A in acc.values() for x in A['errors']]
    mism = [(A['case']['name'], x) for A in acc.values() for x in A['mismatches']]
    n_mism = sum(A['n_mismatch'] for A in acc.values())
    incomplete = {}
    for A in acc.values():
        for k, v in A['incomplete'].items():
            incomplete['%s: %s' % (A['case']['name'], k)] = v
        if A['unexplored']:
            incomplete['%s: paths left when the time budget ended' % A['case']['name']] = A['unexplored']
    validated = sum(A['validated'] for A in acc.values())
    checks = sum(A['checks'] for A in acc.values())
    # a case that decided nothing is an error, unless it gave up on what it could not decide (then it is reported as incomplete)
    def gave_up(A):
        return bool(A['incomplete'] or A['unexplored']) and checks > 0
    for A in acc.values():
        if A['unreproduced'] and A['ufs']:
            # the counterexample exists only for other functions than the real ones: undecided
            incomplete['%s: counterexample not reproduced by the real code' % A['case']['name']] = len(A['unreproduced'])
    unrep = [(c, v) for c, v in unrep if not any(A['case'] is c and A['ufs'] for A in acc.values())]
    vacuous = [A['case']['name'] for A in acc.values() if not A['checks'] and not A['violations'] and not A['errors']
               and not A['unreproduced'] and not gave_up(A)]
    missing = []
    for A in acc.values():
        for l in A['case'].get('reach', ()):
            if l not in A['labels']:
                if gave_up(A):
                    incomplete['%s: not reached: %s' % (A['case']['name'], l)] = 1
                else:
                    missing.append('%s:%s' % (A['case']['name'], l))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    exit_code = 0
    lines = []
    known_seen = {}
    for A in acc.values():
        for k, v in A['known'].items():
            if k in kf:
                known_seen.setdefault(k, (A['case'], v))
            else:
                viol.append((A['case'], dict(v, engine_msg='unlisted finding ' + k)))
    for k, (c, v) in sorted(known_seen.items()):
        lines.append('KNOWN-FINDING: property=%s %s %s' % (prop, k, kf[k][1]))
    if viol:
        exit_code = 1
        seen = set()
        n = 0
        for c, v in viol:
            key = (c['name'], v['msg'])
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > 5:
                break
            path = os.path.join(rdir, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, module=c['module'], func=c['func'], params=c['params'], inputs=v['inputs'],
                               message=v['msg'],
                               how='/opt/venv/bin/python -B /verif/replay.py ' + path), f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            lines.append('  case %s: %s' % (c['name'], v['msg'][:300]))
            lines.append('  inputs: %s' % json.dumps(v['inputs'])[:400])
    elif errors:
        exit_code = 2
    elif unrep:
        exit_code = 2
    elif vacuous or missing:
        exit_code = 2
    elif n_mism:
        exit_code = 2
    for n, x in errors[:3]:
        lines.append('ERROR in case %s: %s' % (n, x[-1500:]))
    for c, v in unrep[:4]:
        lines.append('UNREPRODUCED counterexample in case %s: %s inputs=%s native=%s' %
                     (c['name'], v['msg'], json.dumps(v['inputs'])[:300], json.dumps(v['native'])[:200]))
    for n, x in mism[:3]:
        lines.append('ENCODING MISMATCH in case %s: %s' % (n, json.dumps(x)[:900]))
    if vacuous:
        lines.append('VACUOUS cases (no assertion reached): %s' % vacuous[:8])
    if missing:
        lines.append('UNREACHED: %s' % missing[:8])
    for k, v in list(incomplete.items())[:12]:
        lines.append('INCONCLUSIVE: %s (%d)' % (k, v))
    funcs = sorted(set('%s:%s' % (os.path.relpath(f, loader.REPO), q) for f, q in covered
                       if not q.startswith('<') and '<lambda>' not in q))
    funcs = [f for f in funcs if not f.endswith(':<module>')]
    ufs = sorted(set(u for A in acc.values() for u in A['ufs']))
    notes = sorted(set(u for A in acc.values() for u in A['notes']))
    ev = evidence(prop, tier, P, cases, acc, tot, funcs, ufs, notes, incomplete, validated, viol, known_seen, wall, checks, kf)
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths, %d assertions (%d by solver, %d by simplification), %d solver queries %.1fs, '
          '%d traces validated natively, %.1fs wall -> %s' %
          (prop, tier, len(cases), tot.get('paths', 0), tot.get('assertions', 0), tot.get('proved_by_solver', 0),
           tot.get('proved_by_simplifier', 0), tot.get('solver_checks', 0), tot.get('solver_time', 0.0), validated, wall,
           {0: 'holds', 1: 'VIOLATED', 2: 'ERROR'}[exit_code]))
    if verbose:
        for A in sorted(acc.values(), key=lambda A: -A['stats'].get('paths', 0))[:40]:
            print('   %-40s paths=%d checks=%d solver=%.1fs valid=%d labels=%s' %
                  (A['case']['name'], A['stats'].get('paths', 0), A['checks'], A['stats'].get('solver_time', 0.0), A['validated'],
                   sorted(A['labels'])))
        for x in notes:
            print('   note:', x)
    for l in lines:
        print(l)
    sys.stdout.flush()
    return exit_code


def evidence(prop, tier, P, cases, acc, tot, funcs, ufs, notes, incomplete, validated, viol, known_seen, wall, checks, kf):
    samples = []
    for A in acc.values():
        for s in A['samples'][:1]:
            samples.append(dict(case=A['case']['name'], inputs=s))
        if len(samples) >= 6:
            break
    return dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
        wall_s=round(wall, 2), violations=len(viol),
        assumptions=P.get('assume', []),
        coverage=dict(
            states=tot.get('paths', 0), transitions=tot.get('decisions', 0),
            traces_validated_against_impl=validated,
            samples=[json.dumps(s)[:600] for s in samples],
            explanation='states = symbolic paths explored to their end; transitions = symbolic branch decisions the solver '
                        'was asked about or that the path condition settled; each path stands for every input satisfying its path condition',
            branch_alternatives_queued=tot.get('forks', 0), cases=len(cases),
            case_names=[c['name'] for c in cases][:400],
            functions_encoded=funcs, bounds=P.get('bounds', {}).get(tier) or P.get('bounds', {}).get('quick', ''),
            outside_bounds=P.get('outside', ''),
            queries_discharged=tot.get('solver_checks', 0), solver_time_s=round(tot.get('solver_time', 0.0), 2),
            solver_unknown=tot.get('unknown', 0),
            assertions_checked=tot.get('assertions', 0), assertions_proved_by_solver=tot.get('proved_by_solver', 0),
            assertions_proved_by_simplification=tot.get('proved_by_simplifier', 0),
            uninterpreted_functions=ufs, engine_notes=notes,
            incomplete=incomplete, known_findings=sorted(known_seen)))


if __name__ == '__main__':
    sys.exit(main())
