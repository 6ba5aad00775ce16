#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--seconds S] [--workers N] [--targets a,b]
check.py PROPERTY --replay FILE [--trace]

Explores seeded simulated runs of one property; exit 0 when every run satisfied
it, exit 1 and a VIOLATION line when one did not (after minimising it and
replaying it exactly in a fresh process)."""
import queue, argparse, json, os, sys, time, random, subprocess, multiprocessing as mp, traceback, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from world import World, ArtError, TARGETS
from simlib import SimDead
from core import Ctx, Stats, seed_of
from props import PROPS

REPLAYS = os.path.join(B.VERIF, 'replay')
KNOWN = os.path.join(B.VERIF, 'KNOWN_FINDINGS')
EVID = os.path.join(B.VERIF, 'evidence')


def canon(case):
    return json.loads(json.dumps(case))


def known_list(pid):
    """lines 'known: property=ID case=<file under known/> <what fails>'"""
    o = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('known: property=%s ' % pid):
                f = l.split(' case=')[1].split()[0]
                o.append((json.load(open(os.path.join(B.VERIF, 'known', f))), l.split(' case=')[1].split(' ', 1)[1].strip()))
    return o


class Judge:
    def __init__(self, prop, ctx):
        self.p, self.ctx = prop, ctx

    def __call__(self, case):
        for attempt in (0, 1):
            self.ctx.obs = []
            self.ctx.last = None
            try:
                return self.p.judge(self.ctx, case)
            except SimDead as e:
                self.ctx.sim.close()
                self.ctx.sim = self.ctx.w.sim_ = None
                self.ctx.sim = self.ctx.w.sim()
                if attempt:
                    self.ctx.st.extra['simulator_restarts'] = self.ctx.st.extra.get('simulator_restarts', 0) + 1
                    return None


def make_case(prop, seed, tname, i):
    r = random.Random(seed_of(seed, prop.pid, tname, i))
    c = prop.gen(tname, r)
    return canon(c) if c is not None else None


def worker(k, prop, world, seed, tasks, nxt, stop, out, deadline):
    world.sim_ = None
    ctx = Ctx(world)
    J = Judge(prop, ctx)
    found = None
    samples = []
    try:
        while not stop.is_set() and time.time() < deadline:
            with nxt.get_lock():
                j = nxt.value
                nxt.value += 1
            if j >= len(tasks):
                break
            tn, lo, hi = tasks[j]
            for i in range(lo, hi):
                if stop.is_set() or time.time() > deadline:
                    break
                c = make_case(prop, seed, tn, i)
                if c is None:
                    continue
                v = J(c)
                ctx.st.cases += 1
                ctx.st.per[tn] = ctx.st.per.get(tn, 0) + 1
                if i == 0 and len(samples) < 2:
                    samples.append({'target': tn, 'case': c, 'obs': ctx.obs_hash()})
                if v:
                    found = (tn, i, c, v)
                    stop.set()
                    break
            if found:
                break
        out.put((k, ctx.st, found, samples, None))
    except Exception:
        stop.set()
        out.put((k, ctx.st, found, samples, traceback.format_exc()))


def minimise(J, case, v, limit_s=60, limit_n=500):
    """greedy: keep any smaller variant that fails with the same class"""
    t0 = time.time(); n = 0
    cls = v[0]

    def fails(c):
        nonlocal n
        n += 1
        w = J(c)
        return w if w and w[0] == cls else None

    def loop(case, v):
        changed = True
        while changed and time.time() - t0 < limit_s and n < limit_n:
            changed = False
            for c in J.p.shrinks(case):
                c = canon(c)
                if c == case:
                    continue
                w = fails(c)
                if w:
                    case, v, changed = c, w, True
                    break
                if time.time() - t0 > limit_s or n >= limit_n:
                    break
        return case, v
    case, v = loop(case, v)
    # from rates to an explicit list of decisions
    p = case.get('pert')
    if p and any(p['rate'].values()) and J(case) and J.ctx.last is not None and J.ctx.last.rec is not None:
        c = canon(dict(case, pert=dict(p, rate={}, replay=[list(x) for x in J.ctx.last.rec])))
        w = fails(c)
        if w:
            limit_n += 400; limit_s += 40
            case, v = loop(c, w)
    return case, v, n


def write_replay(prop, seed, tn, i, case, v, obs):
    os.makedirs(REPLAYS, exist_ok=True)
    d = {'property': prop.pid, 'target': tn, 'found': {'seed': seed, 'index': i}, 'case': case, 'class': v[0], 'violation': v[1], 'obs': obs}
    f = os.path.join(REPLAYS, '%s-%s.json' % (prop.pid, hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]))
    with open(f, 'w') as h:
        json.dump(d, h, indent=1, ensure_ascii=False)
    return f


def new_world(prop, targets=None):
    need = prop.need() if targets is None else [n for n in targets if n in TARGETS]
    return World(need, extra_tools=prop.extra_tools())


def replay(prop, fn, trace):
    d = json.load(open(fn))
    w = new_world(prop)
    ctx = Ctx(w)
    ctx.trace = trace
    v = Judge(prop, ctx)(d['case'])
    if trace:
        for sp, r in ctx.traces:
            print('---- run: verdict %s %s' % (r.verdict, r.msg)); print(r.trace)
    o = ctx.obs_hash()
    if v and v[0] == d['class']:
        print('replayed: %s (observation %s, recorded %s)' % (v[1], o, d['obs']))
        if o == d['obs']:
            print('VIOLATION property=%s replay=%s' % (prop.pid, fn))
            return 1
        print('not the recorded execution')
        return 3
    print('no violation on this tree')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('SIM_JOBS', '8')))
    ap.add_argument('--targets')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    prop = PROPS[a.pid]
    if a.replay:
        return replay(prop, a.replay, a.trace)
    t0 = time.time()
    targets = a.targets.split(',') if a.targets else list(prop.targets)
    try:
        w = new_world(prop, targets if a.targets else None)
    except B.BuildError as e:
        print('build failed:\n' + str(e)[-3000:])
        return 2
    tb = time.time() - t0
    skipped = [n for n in targets if n in TARGETS and any(x in w.bad for x in TARGETS[n].arts)]
    if w.bad:
        print('artefacts that do not build: %s; targets left out: %s' % (w.bad, skipped))
        targets = [n for n in targets if n not in skipped]
    if hasattr(prop, 'prepare'):
        prop.prepare(w)
    if w.sim_:
        w.sim_.close(); w.sim_ = None
    limit = a.seconds or (75 if a.tier == 'quick' else 660)
    deadline = time.time() + limit
    CH = 5
    per = {n: (a.cases or prop.cases(n, a.tier)) for n in targets}
    tasks = []
    k = 0
    while any(k < m for m in per.values()):
        for n in targets:
            if k < per[n]:
                tasks.append((n, k, min(k + CH, per[n])))
        k += CH
    nxt = mp.Value('i', 0); stop = mp.Event(); out = mp.Queue()
    ps = [mp.Process(target=worker, args=(i, prop, w, a.seed, tasks, nxt, stop, out, deadline)) for i in range(a.workers)]
    te = time.time()
    for p in ps:
        p.start()
    st = Stats(); found = []; samples = []; errs = []
    for _ in ps:
        while True:
            try:
                _, s, f, sm, e = out.get(timeout=5)
                break
            except queue.Empty:
                if not any(p.is_alive() for p in ps) and out.empty():
                    print('a worker ended without an answer: %s' % [p.exitcode for p in ps])
                    return 2
        st.merge(s); samples += sm
        if f:
            found.append(f)
        if e:
            errs.append(e)
    for p in ps:
        p.join()
    te = time.time() - te
    if errs:
        print(errs[0])
        return 2
    # violations
    rc = 0
    nviol = 0
    note = []
    known = known_list(prop.pid)
    ctx = Ctx(w)
    J = Judge(prop, ctx)
    for case, what in known:
        v = J(case['case'])
        if v:
            print('KNOWN-FINDING: property=%s %s' % (prop.pid, what))
    found.sort(key=lambda f: (f[0], f[1]))
    for tn, i, c, v in found[:3]:
        v2 = J(c); o1 = ctx.obs_hash()
        v3 = J(c); o2 = ctx.obs_hash()
        if not v2 or not v3 or o1 != o2:
            rc = rc or 2
            note.append('case %s/%d did not repeat itself exactly: not reported (%s)' % (tn, i, v[1][:300]))
            print('NOTE ' + note[-1])
            continue
        m, mv, n = minimise(J, c, v2)
        mv = J(m) or mv
        obs = ctx.obs_hash()
        fn = write_replay(prop, a.seed, tn, i, m, mv, obs)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), prop.pid, '--replay', fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 1:
            # fall back to the unminimised case
            J(c)
            fn = write_replay(prop, a.seed, tn, i, c, v2, ctx.obs_hash())
            r = subprocess.run([sys.executable, os.path.abspath(__file__), prop.pid, '--replay', fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            mv = v2
        if r.returncode != 1:
            rc = rc or 2
            note.append('case %s/%d did not replay in a fresh process: not reported (%s)' % (tn, i, r.stdout[-300:]))
            print('NOTE ' + note[-1])
            continue
        nviol += 1
        print('property %s fails on %s (seed %d, case %d, minimised in %d steps): %s' % (prop.pid, tn, a.seed, i, n, mv[1]))
        print('VIOLATION property=%s replay=%s' % (prop.pid, fn))
        rc = 1
        break
    wall = time.time() - t0
    ev = {
        'property': prop.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': prop.level,
        'coverage': {
            'evaluations': st.runs, 'distinct_nontrivial': len(st.nontrivial),
            'rule': prop.rule if hasattr(prop, 'rule') else 'distinct scheduler histories (hash of the sequence of actors that ran) among the simulated runs of this check that did real work (non-empty output, or the injected fault fired)',
            'samples': samples[:4], 'cases': st.cases, 'cases_per_target': st.per, 'planned_cases': sum(per.values()),
            'simulated_steps': st.steps, 'simulated_ticks': st.ticks, 'scheduling_choices': st.choices, 'context_switches': st.switches,
            'faults_fired': st.faults, 'verdicts': st.verdicts, 'distinct_schedules': len(st.scheds), 'distinct_outputs': len(st.outs), 'output_bytes': st.bytes,
            'runs_per_hour': int(st.runs / max(te, .001) * 3600), 'seeds_per_hour': int(st.cases / max(te, .001) * 3600),
            'exploration_s': round(te, 1), 'build_s': round(tb, 1), 'workers': a.workers,
            'real_components': sorted(st.tools), 'stub_components': sorted(st.stubs) + ['simulated kernel pipes, files, scheduler and allocator seam'],
            'targets_left_out': skipped, 'extra': st.extra, 'notes': note,
        },
        'assumptions': ['lttoolbox, ICU, libxml2 and libc run as installed', 'one address-space layout; heap contents and layout vary by seed',
                        'a read or write never fails with EINTR'],
        'wall_s': round(wall, 1), 'violations': nviol,
    }
    if not a.no_evidence:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, ensure_ascii=False)
    print('%s %s: %d cases, %d runs, %d distinct schedules, %.0f runs/s, build %.0fs, total %.0fs, violations %d' % (
        prop.pid, a.tier, st.cases, st.runs, len(st.scheds), st.runs / max(te, .001), tb, wall, nviol))
    return rc


if __name__ == '__main__':
    sys.exit(main())
