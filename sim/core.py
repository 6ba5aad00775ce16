"""Case plumbing shared by every property: building a run from a case, counting
what was explored, and the perturbation (schedule, buffers, heap) of a case."""
import hashlib, random
from simlib import pipeline
from world import TARGETS
from gen import Gen, text

RATES = [
    {},
    {'switch': .3, 'short_read': .5, 'short_write': .3, 'stall': .05},
    {'short_read': .95, 'short_write': .9, 'switch': .6},
    {'switch': .5, 'stall': .3},
    {'short_read': .02, 'short_write': .02, 'switch': .05, 'stall': .01},
]
JUNK = [0, 0x5a, 0xff, 1, 0xa5, 0x41]


def seed_of(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big')


class Stats:
    def __init__(self):
        self.runs = 0; self.steps = 0; self.ticks = 0; self.cases = 0
        self.faults = {}; self.scheds = set(); self.outs = set(); self.per = {}; self.verdicts = {}
        self.choices = 0; self.switches = 0; self.bytes = 0; self.tools = set(); self.stubs = set(); self.nontrivial = set()
        self.extra = {}

    def merge(self, o):
        for k in ('runs', 'steps', 'ticks', 'cases', 'choices', 'switches', 'bytes'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for n in ('faults', 'per', 'verdicts', 'extra'):
            d = getattr(self, n)
            for k, v in getattr(o, n).items():
                d[k] = max(d.get(k, 0), v) if k.startswith('max') else d.get(k, 0) + v
        for n in ('scheds', 'outs', 'tools', 'stubs', 'nontrivial'):
            getattr(self, n).update(getattr(o, n))


class Ctx:
    def __init__(self, world):
        self.w = world
        self.sim = world.sim()
        self.st = Stats()
        self.obs = []
        self.last = None
        self.trace = False
        self.traces = []

    def run(self, spec):
        if self.trace:
            spec = dict(spec, trace=1)
        r = self.sim.run(spec)
        s = self.st
        if r.verdict == 'cpu' and spec.get('cpu', 5) < 40:     # slow or endless: only a long run without any I/O counts as endless
            s.extra['slow_runs'] = s.extra.get('slow_runs', 0) + 1
            r = self.sim.run(dict(spec, cpu=40))
        s.runs += 1; s.steps += r.steps; s.ticks += r.now; s.choices += r.choices; s.switches += r.switches
        s.verdicts[r.verdict] = s.verdicts.get(r.verdict, 0) + 1
        for k, v in r.faults.items():
            if v:
                s.faults[k] = s.faults.get(k, 0) + v
        s.scheds.add(r.sched_hash)
        for x in spec['stages']:
            (s.stubs if x['tool'] == 'ltproc' else s.tools).add(x['tool'])
        for o in r.outs:
            s.bytes += len(o)
            s.outs.add(hash(o) & 0xffffffffff)
        self.obs.append(r.hash)
        if self.trace:
            self.traces.append((spec, r))
        return r

    def obs_hash(self):
        return hashlib.sha256(repr(self.obs).encode()).hexdigest()[:16]


def gen_pert(r, nst, strong=None):
    p = {'seed': r.getrandbits(40), 'rate': dict(r.choice(RATES[1:])),
         'bufs': [[r.choice([1, 2, 7, 64, 4096, 4096]), r.choice([1, 3, 64, 4096, 4096])] for _ in range(nst)],
         'caps': {k: r.choice([1, 2, 16, 64, 4096, 65536]) for k in range(nst + 1)},
         'junk': r.choice(JUNK), 'heapseed': r.choice([0, r.getrandbits(20)])}
    if p['junk'] or p['heapseed']:
        p['rate']['heap'] = 0
    return p


NOPERT = {'seed': 1, 'rate': {}, 'bufs': [], 'caps': {}, 'junk': 0, 'heapseed': 0}


def make_spec(ctx, t, ops, pert=NOPERT, faults=(), **kw):
    st, c = pipeline(t.stages, ops)
    for i, s in enumerate(st):
        if i < len(pert['bufs']):
            s['ibuf'], s['obuf'] = pert['bufs'][i]
    sp = {'stages': st, 'clients': [c], 'seed': pert['seed'], 'rate': pert['rate'], 'disk': ctx.w.disk(t),
          'caps': pert['caps'], 'junk': pert['junk'], 'heapseed': pert['heapseed'], 'cpu': 5}
    if 'replay' in pert:
        sp['replay'] = pert['replay']
    if faults:
        sp['faults'] = list(faults)
    sp.update(kw)
    return sp


def sig(r):
    return (r.verdict, [a['status'] if a['done'] else None for a in r.acts], r.outs)


def show(b, n=160):
    s = repr(b)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]


def reqbytes(t, case):
    return [text(u) + t.tail for u in case['reqs']]


def gen_reqs(t, r, n, small=False, feats=None):
    g = Gen(r.getrandbits(48), feats=feats, small=small)
    g.f -= t.nofeats
    return [g.request(t.kind) for _ in range(n)]


def bad_end(r):
    """a run that did not end by itself, or ended in a memory error"""
    if r.verdict != 'done':
        return '%s %s' % (r.verdict, r.msg)
    return None


def stage_names(t):
    return [s['tool'] for s in t.stages]
