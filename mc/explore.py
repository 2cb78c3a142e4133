"""Exhaustive explorer.

A check consists of *spaces*.  A space is a finite generator of cases plus a
judge that executes the case on the code under test and compares it with the
model (or with a relation between executions).  Every case of every space is
judged; cases are partitioned over worker processes by index.  Nothing is
sampled: if a space is not finished the check fails with an error exit.
"""
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback
from array import array

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
STATE_CAP = 1500000
HANG_S = 150


class Space:
    def __init__(self, name, gen, judge, bounds):
        self.name, self.gen, self.judge, self.bounds = name, gen, judge, bounds


class Recorder:
    """Counts what a worker actually did."""

    def __init__(self):
        self.cases = 0
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.states = set()
        self.capped = False
        self.samples = []

    def execution(self, *traces, final=None):
        """One execution of the implementation compared with its expectation.

        traces: the event sequence(s) the model went through; each event is a
        transition, each distinct observable history prefix a state.
        """
        self.traces += 1
        st = self.states
        full = len(st) >= STATE_CAP
        if full:
            self.capped = True
        h = 0
        n = 0
        for tr in traces:
            for ev in tr:
                n += 1
                if not full:
                    h = hash((h, ev))
                    st.add(h)
        n += 1                                   # termination step
        if not full:
            st.add(hash((h, 'end', final)))
        self.transitions += n
        if n > 1:
            self.nontrivial += 1


def judge(sp, case, rec):
    """The judge's verdict.

    Judges expect the exceptions that the property allows for; any other one
    that comes out of the code under test is itself a difference.  Trouble of
    the machine or of the harness is not, unless that code ran into it.
    """
    from . import real
    from .engine import HarnessError
    try:
        return sp.judge(case, rec)
    except (Exception, HarnessError, SystemExit) as e:
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if isinstance(e, (HarnessError, MemoryError, OSError, SystemExit)) and not any(
                f.startswith(real.SRC + os.sep) for f in files):
            raise
        return {'problem': 'unexpected %s: %s' % (type(e).__name__, e),
                'traceback': ''.join(traceback.format_exc().splitlines(True)[-12:])}


def _worker(w, nw, spaces, progress, best, conn, seed):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    out = []
    try:
        for si, sp in enumerate(spaces):
            rec = Recorder()
            viol = None
            t0 = time.time()
            total = 0
            for ci, case in enumerate(sp.gen()):
                total = ci + 1
                if ci % nw != w:
                    continue
                if best[0] >= 0 and (best[0], best[1]) < (si, ci):
                    break
                progress[3 * w] = si
                progress[3 * w + 1] = ci
                progress[3 * w + 2] = time.time()
                rec.cases += 1
                r = judge(sp, case, rec)
                if len(rec.samples) < 2 and (ci // nw) % 97 == seed % 97:
                    rec.samples.append(repr(case)[:300])
                if r is not None:
                    viol = (si, ci, repr(case)[:2000], r)
                    with best.get_lock():
                        if best[0] < 0 or (si, ci) < (best[0], best[1]):
                            best[0], best[1] = si, ci
                    break
            if len(rec.samples) < 1 and rec.cases:
                rec.samples.append('case %d' % w)
            out.append(dict(space=si, cases=rec.cases, total=total,
                            transitions=rec.transitions, traces=rec.traces,
                            nontrivial=rec.nontrivial,
                            states=array('q', rec.states).tobytes(), capped=rec.capped,
                            samples=rec.samples, violation=viol,
                            wall=time.time() - t0))
            if viol is not None:
                break
        conn.send(('ok', out))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    conn.close()
    os._exit(0)


def explore(spaces, seed=1, nw=None):
    nw = nw or int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    progress = ctx.Array('d', 3 * nw, lock=False)
    best = ctx.Array('q', [-1, -1])
    procs = []
    for w in range(nw):
        progress[3 * w + 2] = time.time()
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(w, nw, spaces, progress, best, b, seed))
        p.start()
        b.close()
        procs.append([p, a, None])
    hang = None
    pending = set(range(nw))
    while pending:
        for w in sorted(pending):
            p, a, _ = procs[w]
            if a.poll(0.02):
                try:
                    procs[w][2] = a.recv()
                except EOFError:
                    procs[w][2] = ('error', 'worker %d died (exit %s) at space %d case %d' % (
                        w, p.exitcode, progress[3 * w], progress[3 * w + 1]))
                pending.discard(w)
                p.join(5)
            elif time.time() - progress[3 * w + 2] > HANG_S:
                hang = (int(progress[3 * w]), int(progress[3 * w + 1]))
                procs[w][2] = ('hang', hang)
                p.kill()
                pending.discard(w)
        if hang:
            break
    for w in pending:
        procs[w][0].kill()
    errors = [r[1] for _, _, r in procs if r and r[0] == 'error']
    if errors:
        sys.stderr.write(errors[0])
        raise SystemExit(3)
    if hang:
        si, ci = hang
        return [], (si, ci, 'case %d' % ci, {'problem': 'no answer within %d s' % HANG_S})
    stats = []
    viol = None
    for si, sp in enumerate(spaces):
        rows = [r for _, _, (k, o) in procs for r in o if r['space'] == si]
        if not rows:
            break
        states = set()
        capped = False
        n = 0
        for r in rows:
            a = array('q')
            a.frombytes(r['states'])
            n = max(n, len(a))
            if sum(map(len, [states])) < 12000000:
                states.update(a)
            else:
                capped = True
            capped = capped or r['capped']
            v = r['violation']
            if v and (viol is None or v[:2] < viol[:2]):
                viol = v
        stats.append(dict(
            name=sp.name, bounds=sp.bounds, cases=sum(r['cases'] for r in rows),
            transitions=sum(r['transitions'] for r in rows),
            traces=sum(r['traces'] for r in rows),
            nontrivial=sum(r['nontrivial'] for r in rows),
            states=states, capped=capped, samples=[s for r in rows for s in r['samples']][:3],
            wall=round(max(r['wall'] for r in rows), 2),
            total=max(r['total'] for r in rows)))
    return stats, viol


def replay_case(spaces, si, ci):
    """Re-run one case in this (fresh) process."""
    for i, case in enumerate(spaces[si].gen()):
        if i == ci:
            return case, judge(spaces[si], case, Recorder())
    raise SystemExit('no such case')


def _in_child(fn):
    ctx = mp.get_context('fork')
    a, b = ctx.Pipe(False)

    def run():
        try:
            b.send(('ok', fn()))
        except BaseException:
            b.send(('error', traceback.format_exc()))
        b.close()
        os._exit(0)
    p = ctx.Process(target=run)
    p.start()
    b.close()
    r = ('error', 'timeout')
    if a.poll(HANG_S):
        try:
            r = a.recv()
        except EOFError:
            r = ('error', 'died')
    p.kill()
    p.join()
    return r


def known_findings(pid):
    """The committed findings of this property that still fail; never adds any."""
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    from . import real
    from .engine import DEFAULT, Engine
    out = []
    with open(path) as f:
        fs = [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']
    for k in fs:
        env = {n: DEFAULT if v == 'DEFAULT' else v for n, v in k['answers'].items()}
        try:
            got = real.render(*real.compile_source(k['source'], k['xml'], 'page'), Engine(env))
        except Exception as e:
            got = type(e).__name__
        if got not in k['acceptable']:
            out.append(k['what'])
    return out


def main(pid, spaces, tier, seed, level='model_checking', assumptions=(), replay=None):
    t0 = time.time()
    if replay:
        with open(replay) as f:
            d = json.load(f)
        case, r = replay_case(spaces, d['space_index'], d['case_index'])
        print('case:', repr(case)[:3000])
        print('result:', json.dumps(r, indent=1, default=str) if r else 'property holds for this case')
        return 1 if r else 0
    stats, viol = explore(spaces, seed)
    os.makedirs(EVID, exist_ok=True)
    wall = time.time() - t0
    allstates = set()
    for s in stats:
        if len(allstates) < 20000000:
            base = hash(s['name'])
            allstates.update(hash((base, x)) for x in s['states'])
    complete = viol is None
    cov = {
        'states': len(allstates),
        'transitions': sum(s['transitions'] for s in stats),
        'traces_validated_against_impl': sum(s['traces'] for s in stats),
        'cases': sum(s['cases'] for s in stats),
        'evaluations': sum(s['traces'] for s in stats) + sum(s['transitions'] for s in stats),
        'distinct_nontrivial': sum(s['nontrivial'] for s in stats),
        'rule': 'a trace is non-trivial if the model takes at least one observable step before ending',
        'exhaustive': complete,
        'states_is_lower_bound': any(s['capped'] for s in stats),
        'spaces': [{k: v for k, v in s.items() if k != 'states'}
                   | {'states': len(s['states'])} for s in stats],
        'samples': [x for s in stats for x in s['samples']][:12] or ['none'],
    }
    del cov['evaluations']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'wall_s': round(wall, 2), 'assumptions': list(assumptions),
          'violations': 0 if viol is None else 1}
    code = 0
    if viol is not None:
        si, ci, case, detail = viol
        path = os.path.join(EVID, 'replay-%s.json' % pid)
        r = _in_child(lambda: replay_case(spaces, si, ci)[1])
        alone = r[0] == 'ok' and r[1] is not None
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'space': spaces[si].name,
                       'space_index': si, 'case_index': ci, 'case': case,
                       'detail': detail, 'reproduces_in_fresh_process': alone,
                       'how': 'bash /verif/check.sh %s %s --replay %s' % (pid, tier, path)},
                      f, indent=1, default=str)
        print('counterexample in space %s, case %d: %s' % (spaces[si].name, ci, case[:600]))
        for k, v in (detail.items() if isinstance(detail, dict) else [('detail', detail)]):
            print('  %s: %s' % (k, str(v)[:1500]))
        if not alone:
            print('  (needs the preceding history of the worker; does not fail in a fresh process)')
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    else:
        for s in stats:
            # every case index must have been judged by exactly one worker
            if s['cases'] != s['total']:
                print('space %s incomplete: %d of %d' % (s['name'], s['cases'], s['total']))
                code = 3
    for what in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d states, %d transitions, %d traces, %.1f s%s' % (
        pid, tier, cov['cases'], cov['states'], cov['transitions'],
        cov['traces_validated_against_impl'], wall, '' if code == 0 else ' -> exit %d' % code))
    if '-v' in sys.argv:
        for s in stats:
            print('   %-28s cases %8d  states %8d  %.1fs' % (s['name'], s['cases'], len(s['states']), s['wall']))
    return code
