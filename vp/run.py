"""python3-vt -m vp.run PROPERTY TIER"""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback
from . import native, smt, check

ROOT = native.ROOT


def work(conn, W, jobs, prop):
    os.setpgid(0, 0)
    native.die_with_parent()
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        if i is None:
            return
        name, fn, budget = jobs[i]
        j = check.Job(W, name, budget)
        j.prop = prop
        try:
            fn(j)
        except Exception as e:
            j.undecided.append('%s: %s' % (type(e).__name__, e))
            j.notes.append(traceback.format_exc()[-1500:])
        conn.send(j.record())


class Worker:
    """A process with a pipe of its own, so that killing it disturbs nobody else."""

    def __init__(self, W, jobs, prop):
        self.conn, theirs = mp.Pipe()
        self.p = mp.Process(target=work, args=(theirs, W, jobs, prop))
        self.p.start()
        theirs.close()
        self.job = None

    def give(self, i):
        self.job, self.since = i, time.time()
        self.conn.send(i)

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            self.p.kill()
        self.p.join()
        self.conn.close()


def blank(name, wall, why):
    return dict(name=name, proved=0, undecided=['%s: %s' % (name, why)], violations=[], known=[], paths=0, replays=0, concrete=0, samples=[],
                stats=smt.Stats().dict(), funcs=[], wall=wall, notes=[])


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        W = check.World()
        m = importlib.import_module('vp.props.' + prop.lower())
        jobs = m.jobs(W, tier)
    except native.BuildError as e:
        print('the tree does not build: %s' % e)
        return 2
    budget = 120.0 if tier == 'quick' else 1200.0
    only = os.environ.get('VP_ONLY')
    jobs = [(n, f, b if b else budget) for n, f, b in jobs if not only or only in n]
    limit = float(os.environ.get('VP_LIMIT', 600.0 if tier == 'quick' else 6000.0))
    todo = list(range(len(jobs)))
    recs = {}
    ws = [Worker(W, jobs, prop) for _ in range(min(int(os.environ.get('VP_PROCS', '8')), len(jobs)))]
    while len(recs) < len(jobs):
        now = time.time()
        for w in ws:
            if w.job is None and todo and now - t0 < limit:
                w.give(todo.pop(0))
        busy = [w for w in ws if w.job is not None]
        if not busy:
            break
        ready = mp.connection.wait([w.conn for w in busy], timeout=1.0)
        for k, w in enumerate(ws):
            if w.job is None:
                continue
            n, f, b = jobs[w.job]
            if w.conn in ready:
                try:
                    recs[w.job] = w.conn.recv()
                    w.job = None
                    continue
                except (EOFError, OSError):
                    pass
                recs[w.job] = blank(n, time.time() - w.since, 'the worker died')
            elif time.time() - w.since > b + 45 or time.time() - t0 > limit + 60:
                recs[w.job] = blank(n, time.time() - w.since, 'stopped after %d s' % (time.time() - w.since))
            else:
                continue
            w.kill()
            ws[k] = Worker(W, jobs, prop)
    for w in ws:
        w.kill()
    recs = [recs.get(i) or blank(jobs[i][0], 0, 'not reached') for i in range(len(jobs))]
    return report(prop, tier, seed, m, W, recs, time.time() - t0)


def report(prop, tier, seed, m, W, recs, wall):
    st = smt.Stats()
    for r in recs:
        st.add(r['stats'])
    viol = [v for r in recs for v in r['violations']]
    und = [u for r in recs for u in r['undecided']]
    known = sorted({tuple(k) for r in recs for k in r['known']})
    proved = sum(r['proved'] for r in recs)
    rd = os.path.join(native.BUILD, 'replay')
    os.makedirs(rd, exist_ok=True)
    seen = set()
    lines = []
    for n, v in enumerate(viol):
        k = (v['entry'], v['obligation'])
        if k in seen:
            continue
        seen.add(k)
        path = os.path.join(rd, '%s-%d.json' % (prop, n))
        json.dump(v, open(path, 'w'), indent=1)
        lines.append((v, path))
    for i, w in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for v, path in lines[:20]:
        print('%s: %s(%s)%s returned %s, expected %s' % (v['obligation'], v['entry'], ', '.join(str(x[1]) for x in v['args']),
                                                         ' draws=%s' % v['draws'] if v['draws'] else '', v['got'], v['want']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for u in und[:30]:
        print('UNDECIDED ' + str(u)[:400])
    for r in recs:
        for n in r['notes']:
            print('  note %s: %s' % (r['name'], n))
    funcs = sorted({f for r in recs for f in r['funcs']})
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(m, 'LEVEL', 'model_checking'),
              coverage=dict(states=sum(r['paths'] for r in recs), transitions=proved + len(und) + len(viol),
                            traces_validated_against_impl=sum(r['replays'] for r in recs),
                            samples=[s for r in recs for s in r['samples']][:12] or ['no path was explored'],
                            obligations=len(recs), obligations_proved=proved, undecided=und[:50],
                            queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown, solver_s=round(st.time, 2), slowest_query_s=round(st.slow, 2),
                            concrete_runs_bit_exact=sum(r['concrete'] for r in recs),
                            functions_encoded=funcs[:300], bounds=m.BOUNDS, build_s=round(W.build_s, 1)),
              assumptions=m.ASSUMPTIONS, violations=len(lines), wall_s=round(wall, 2))
    d = os.environ.get('VP_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d paths, %d claims decided by the solver, %d undecided, %d queries (%.1f s), %d replays, %d functions, %.1f s'
          % (prop, tier, len(recs), sum(r['paths'] for r in recs), proved, len(und), st.queries, st.time, sum(r['replays'] for r in recs), len(funcs), wall))
    if os.environ.get('VP_TIMES'):
        for r in sorted(recs, key=lambda r: -r['wall'])[:12]:
            print('   %6.1f s  %s' % (r['wall'], r['name']))
    if lines:
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'))
