"""The properties: how a case is generated, run and judged."""
import copy, functools, os, random, re, tempfile
from simlib import S, pipeline
from world import TARGETS, Target, ARTS, World, ArtError, artpath
from gen import text, Gen
from core import *
from stream import *
import uniq as U, models as M
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')

ALL = [n for n, t in TARGETS.items() if 'known' not in t.tags and 'c13' not in t.tags]      # the others are only run for known findings, or by C13
NUL = [n for n in ALL if TARGETS[n].nul]
ONESHOT = [n for n, t in TARGETS.items() if not t.nul]
PIPES = [n for n, t in TARGETS.items() if len(t.stages) > 1]
FORMATTERS = [n for n in ONESHOT if n.startswith(('des', 're', 'pre', 'post'))]
# NULs a target may add when its input ends (the stages that answer the end of input as well)
SLOW = {'pipe-full': 3, 'pipe-transfer': 2, 'pipe-chunks': 1.5}


class Prop:
    pid = None
    targets = []
    level = 'exploration'
    quick = 30          # cases per target
    thorough = 400

    def cases(self, tname, tier):
        n = self.quick if tier == 'quick' else self.thorough
        return max(4, int(n / SLOW.get(tname, 1)))

    def gen(self, tname, r):
        raise NotImplementedError

    def judge(self, ctx, case):
        raise NotImplementedError

    def tools(self):
        return {}

    def need(self):
        return [n for n in self.targets if n in TARGETS]

    def extra_tools(self):
        return []

    def shrinks(self, case):
        """smaller variants of a case, most aggressive first"""
        if 'reqs' in case:
            q = case['reqs']
            keep = case.get('keep', 1)
            if len(q) > keep:
                if len(q) > 4:
                    h = len(q) // 2
                    yield dict(case, reqs=q[h:]); yield dict(case, reqs=q[:h])
                for i in range(len(q)):
                    if len(q) - 1 >= keep:
                        yield dict(case, reqs=q[:i] + q[i + 1:])
            for i, u in enumerate(q):
                if len(u) > 3:
                    h = len(u) // 2
                    yield dict(case, reqs=q[:i] + [u[h:]] + q[i + 1:]); yield dict(case, reqs=q[:i] + [u[:h]] + q[i + 1:])
                for k in range(len(u)):
                    yield dict(case, reqs=q[:i] + [u[:k] + u[k + 1:]] + q[i + 1:])
            if case.get('batches') and any(b != 1 for b in case['batches']):
                yield dict(case, batches=[1] * len(q))
        p = case.get('pert')
        if p:
            def w(**k):
                return dict(case, pert=dict(p, **k))
            if p['bufs']:
                yield w(bufs=[])
                for i in range(len(p['bufs'])):
                    if p['bufs'][i] != [4096, 4096]:
                        yield w(bufs=p['bufs'][:i] + [[4096, 4096]] + p['bufs'][i + 1:])
            if p['caps']:
                yield w(caps={})
                for k in list(p['caps']):
                    yield w(caps={a: b for a, b in p['caps'].items() if a != k})
            if p['junk']:
                yield w(junk=0)
            if p['heapseed']:
                yield w(heapseed=0)
            if 'replay' not in p:
                if any(p['rate'].values()):
                    yield w(rate={})
                    for k in p['rate']:
                        if p['rate'][k]:
                            yield w(rate=dict(p['rate'], **{k: 0}))
            else:
                rp = p['replay']
                n = len(rp)
                c = max(1, n // 2)
                while c >= 1 and n:
                    for i in range(0, n, c):
                        yield w(replay=rp[:i] + rp[i + c:])
                    c //= 2
        if case.get('cut'):
            yield dict(case, cut=case['cut'] // 2); yield dict(case, cut=case['cut'] - 1)


def steps_budget(nbytes, nst):
    return 20000 + 400 * (nbytes + 400) * nst


# ------------------------------------------------------------------ C01
class C01(Prop):
    pid = 'C01'
    targets = ALL
    quick = 2000
    thorough = 40000

    def gen(self, tn, r):
        t = TARGETS[tn]
        n = r.choice([1, 2, 3, 4]) if t.nul else 1
        reqs = gen_reqs(t, r, n)
        if not t.nul and r.random() < .3:       # bigger document
            reqs = [sum(gen_reqs(t, r, 4), [])]
        return {'target': tn, 'reqs': reqs, 'pert': gen_pert(r, len(t.stages)), 'final': r.random() < .9}

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        data = b''.join(x + b'\0' for x in q) if t.nul else b''.join(q)
        if t.nul and not c['final']:
            data = data[:-1]
        ref = ctx.run(make_spec(ctx, t, [('s', data)]))
        p = ctx.run(make_spec(ctx, t, [('s', data)], c['pert'], maxsteps=10 * steps_budget(len(data), len(t.stages))))
        ctx.last = p
        if ref.verdict == 'done' and any(ref.outs):
            ctx.st.nontrivial.add(p.sched_hash)
        if sig(ref) != sig(p):
            return ('differs', 'input %s: reference run %s, perturbed run %s' % (show(data), show(sig(ref), 400), show(sig(p), 400)))


# ------------------------------------------------------------------ C02
def batch_ops(q, batches, tail=b''):
    ops, k, i = [], 0, 0
    for b in batches:
        grp = q[i:i + b]
        if not grp:
            break
        ops.append(('s', b''.join(x + b'\0' for x in grp)))
        k += len(grp); i += b
        ops.append(('a', k))
    while i < len(q):
        ops.append(('s', q[i] + b'\0')); i += 1; k += 1; ops.append(('a', k))
    return ops


class C02(Prop):
    pid = 'C02'
    targets = NUL
    quick = 2000
    thorough = 40000

    def gen(self, tn, r):
        t = TARGETS[tn]
        n = r.choice([1, 2, 3, 5])
        batches = []
        while sum(batches) < n:
            batches.append(r.choice([1, 1, 1, 2, 3]))
        return {'target': tn, 'reqs': gen_reqs(t, r, n), 'batches': batches, 'pert': gen_pert(r, len(t.stages)), 'split': r.random() < .3}

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        ops = batch_ops(q, c['batches'])
        if c.get('split'):      # the NUL is sent on its own
            o2 = []
            for o in ops:
                if o[0] == 's' and len(o[1]) > 1:
                    o2 += [('s', o[1][:-1]), ('s', o[1][-1:])]
                else:
                    o2.append(o)
            ops = o2
        n = sum(len(x) + 1 for x in q)
        p = ctx.run(make_spec(ctx, t, ops, c['pert'], maxsteps=steps_budget(n, len(t.stages)) * 4))
        ctx.last = p
        if p.verdict == 'done':
            ctx.st.nontrivial.add(p.sched_hash)
        pieces = p.outs[0].split(b'\0') if p.outs else []
        if p.verdict != 'done':
            return ('stuck', 'requests %s: %s %s; the client had received %s' % (show(q, 400), p.verdict, p.msg, show(p.outs, 300)))
        if p.clis[0]['nuls'] < len(q):
            return ('missing', 'requests %s: only %d responses; stages ended with %s; received %s' % (
                show(q, 400), p.clis[0]['nuls'], [a['status'] for a in p.acts], show(pieces, 300)))


# ------------------------------------------------------------------ C03
MARK = {'lu': '^*%s$ ', 'lupre': '^*%s$ ', 'lusurf': '^%s/*%s$ ', 'bil': '^*%s/*%s$ ', 'chunk': '^default<default>{^*%s$}$ ', 'amb': '^%s/*%s$ ',
        'caps': '^*%s/*%s$ ', 'text': '%s ', 'wtext': '%s ', 'wgen': '%s ', 'plain': '%s '}


def marker(k):
    s = ''
    for _ in range(3):
        s += chr(97 + k % 24); k //= 24
    return 'zq' + s + 'qz'


MRE = re.compile(rb'zq([a-z]{3})qz', re.I)


def marks(b):
    o = []
    for m in MRE.findall(b):
        m = m.lower()
        if not o or o[-1] != m:
            o.append(m)
    return o


class C03(Prop):
    pid = 'C03'
    targets = NUL
    quick = 2000
    thorough = 40000

    def gen(self, tn, r):
        t = TARGETS[tn]
        n = r.choice([1, 2, 3, 4, 6, 9])
        reqs = gen_reqs(t, r, n, small=n > 4)
        ids = r.sample(range(24 ** 3), 2 * n)
        for k in range(n):
            x = r.random()
            a, b = (MARK[t.kind].replace('%s', marker(ids[2 * k + e])) for e in (0, 1))
            if x < .8 or not reqs[k]:
                reqs[k] = [a] + reqs[k]
            if x > .3:
                reqs[k] = reqs[k] + ([' '] if t.kind in ('text', 'wtext', 'wgen', 'plain') else []) + [b]
            if x > .95:
                reqs[k] = []
        return {'target': tn, 'reqs': reqs, 'batches': [r.choice([1, 1, n, 2])] * n, 'pert': gen_pert(r, len(t.stages)), 'await': r.random() < .5}

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        ops = batch_ops(q, c['batches']) if c['await'] else [('s', b''.join(x + b'\0' for x in q))]
        n = sum(len(x) + 1 for x in q)
        p = ctx.run(make_spec(ctx, t, ops, c['pert'], maxsteps=steps_budget(n, len(t.stages)) * 4))
        ctx.last = p
        if p.verdict != 'done':
            return ('stuck', 'requests %s: %s %s' % (show(q, 400), p.verdict, p.msg))
        out = p.outs[0].split(b'\0')
        if len(out) - 1 < len(q):
            return ('fewer', 'requests %s: %d responses %s' % (show(q, 400), len(out) - 1, show(out, 300)))
        if any(out[len(q):]):
            return ('tail', 'requests %s: bytes after the last response: %s' % (show(q, 400), show(out[len(q):], 300)))
        if len(out) - 1 - len(q) > len(t.stages):
            return ('extra', 'requests %s: %d extra NULs at the end of input' % (show(q, 300), len(out) - 1 - len(q)))
        for k, x in enumerate(q):
            if marks(x):
                ctx.st.nontrivial.add(p.sched_hash)
            # (random rules may drop, copy or rewrite a word)
            if (not set(marks(out[k])) <= set(marks(x)) if 'rand' in t.tags else marks(x) != marks(out[k])):
                return ('mixed', 'request %d %s is answered by %s (all: %s)' % (k, show(x, 300), show(out[k], 300), show(out, 300)))


# ------------------------------------------------------------------ C04
# stages whose requests end with their NUL whatever comes before it
CUTSAFE = ['wblank-attach', 'wblank-detach', 'posttransfer']


class C04(Prop):
    pid = 'C04'
    targets = NUL
    quick = 1000
    thorough = 20000

    def gen(self, tn, r):
        t = TARGETS[tn]
        n = r.choice([2, 2, 3, 4, 6])
        reqs = gen_reqs(t, r, n)
        if r.random() < .15:                  # a long session
            big = gen_reqs(t, r, r.choice([30, 80]), small=True)
            reqs = big + reqs[:2]
        if r.random() < .3:
            reqs[-1] = list(r.choice(reqs[:-1]))
        c = {'target': tn, 'reqs': reqs, 'pert': gen_pert(r, len(t.stages)), 'check': r.choice(['last', 'all']), 'keep': 2}
        if tn in CUTSAFE and r.random() < .3:
            c['ends'] = [r.choice([0, 0, r.random()]) for _ in reqs]
        return c

    def shrinks(self, case):
        yield from Prop.shrinks(self, case)
        if 'ends' in case:
            yield {k: v for k, v in case.items() if k != 'ends'}

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        if 'ends' in c:     # requests that end in the middle of whatever it is
            q = [char_cut(x, 1 - f) for x, f in zip(q, c['ends'])]
        n = sum(len(x) + 1 for x in q)
        p = ctx.run(make_spec(ctx, t, [('s', b''.join(x + b'\0' for x in q))], c['pert'], maxsteps=steps_budget(n, len(t.stages)) * 4))
        ctx.last = p
        if p.verdict != 'done':
            return ('stuck', 'requests %s: %s %s' % (show(q, 400), p.verdict, p.msg))
        out = p.outs[0].split(b'\0')
        ks = list(range(len(q)))
        if c['check'] == 'last' or len(q) > 8:
            ks = ks[-2:]
        for k in ks:
            f = ctx.run(make_spec(ctx, t, [('s', q[k] + b'\0')]))
            if f.verdict != 'done':
                return ('stuck-fresh', 'request %s alone: %s %s' % (show(q[k], 400), f.verdict, f.msg))
            a = f.outs[0].split(b'\0')[0]
            b = out[k] if k < len(out) else None
            if a:
                ctx.st.nontrivial.add(p.sched_hash)
            if a != b:
                return ('history', 'after %s, request %s is answered %s; a fresh process answers %s' % (
                    show(q[:k], 300), show(q[k], 300), show(b, 300), show(a, 300)))


# ------------------------------------------------------------------ C05
def char_cut(b, frac):
    s = b.decode('utf-8', 'surrogatepass')
    return s[:int(len(s) * frac + 1e-9)].encode('utf-8', 'surrogatepass')


class C05(Prop):
    pid = 'C05'
    targets = ALL
    quick = 1500
    thorough = 30000
    level = 'fault_enumeration'

    def gen(self, tn, r):
        t = TARGETS[tn]
        n = r.choice([1, 2, 3]) if t.nul else 1
        reqs = gen_reqs(t, r, n, small=r.random() < .6)
        mode = r.choice(['cut', 'cut', 'cut'] + (['crash'] * 3 if len(t.stages) > 1 else []))
        return {'target': tn, 'reqs': reqs, 'mode': mode, 'frac': r.random(), 'stage': r.randrange(len(t.stages)),
                'snap': r.choice([0, r.randrange(1, 1 << 20)]), 'where': r.choice(['in', 'out']), 'pert': gen_pert(r, len(t.stages)) if r.random() < .5 else dict(NOPERT)}

    def shrinks(self, case):
        yield from Prop.shrinks(self, case)
        if case['mode'] == 'cut':
            for f in (.5, .9, .98):
                yield dict(case, frac=case['frac'] * f)

    def cut(self, b, c):
        # half of the cuts come right after a character with a meaning in the stream format
        if c.get('snap'):
            k = [x for x in b'\\^$[]{}/<>@#*:;+~&"\n' if x in b]
            if k:
                x = k[c['snap'] % len(k)]
                at = [i + 1 for i, y in enumerate(b) if y == x]
                return b[:at[int(c['frac'] * len(at)) % len(at)]]
        return char_cut(b, c['frac'])

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        if t.nul:
            a, b = b''.join(x + b'\0' for x in q[:-1]), q[-1]
        else:
            a, b = b'', b''.join(q)
        data, faults = a + b, []
        killed = None
        mode = c['mode']
        if mode == 'cut':
            data = a + self.cut(b, c)
        elif mode == 'eio':
            at = len(a + char_cut(b, c['frac']))
            faults = [{'kind': 'eio_read', 'actor': 0, 'at': at}]
        else:
            killed = c['stage']
            data = data + b'\0'
            if c['where'] == 'in':
                faults = [{'kind': 'crash', 'actor': killed, 'path': 'in', 'at': int(len(data) * c['frac'])}]
            else:
                import copy
                pre = copy.copy(t); pre.stages = t.stages[:killed + 1]
                x = ctx.run(make_spec(ctx, pre, [('s', data)]))
                if x.verdict != 'done':
                    return ('stuck', 'input %s: %s %s' % (show(data, 400), x.verdict, x.msg))
                faults = [{'kind': 'crash', 'actor': killed, 'path': 'out', 'at': len(char_cut(x.outs[0], c['frac']))}]
        p = ctx.run(make_spec(ctx, t, [('s', data)], c['pert'], faults, maxsteps=steps_budget(len(data), len(t.stages)) * 4,
                              maxmem=(48 << 20) + 2000 * len(data)))
        ctx.last = p
        what = {'cut': 'input ending after %s' % show(data, 400), 'eio': 'input %s failing with EIO at byte %s' % (show(data, 400), faults and faults[0]['at']),
                'crash': 'input %s, stage %s killed (%s)' % (show(data, 400), c['stage'], faults)}[mode]
        if p.verdict != 'done':
            return ('stuck', '%s: %s %s (stage %s)' % (what, p.verdict, p.msg, p.cur))
        for i, x in enumerate(p.acts):
            gone = any(y['status'] for y in p.acts[i + 1:])      # a later stage gave up: SIGPIPE is the expected end
            # a stage killed in the middle of writing a character: lttoolbox refuses half a UTF-8 character with an exception
            half = mode == 'crash' and c['where'] == 'in' and i > killed and x['sig'] == 6 and 'expected byte' in x['err'] and 'from stream' in x['err']
            if x['sig'] and not (i == killed or half or (x['sig'] == 13 and gone)):
                return ('signal', '%s: stage %d ends with signal %d: %s' % (what, i, x['sig'], x['err']))
        if mode != 'crash' or p.faults.get('crash'):
            ctx.st.nontrivial.add(p.sched_hash)
        if t.nul and len(q) > 1:
            full = ctx.run(make_spec(ctx, t, [('s', a)]))
            want = full.outs[0].split(b'\0')[:len(q) - 1]
            got = p.outs[0].split(b'\0')
            if mode == 'crash':
                while got and got[-1] == b'':
                    got.pop()
                got = got[:-1]
                if got[:len(want)] != want[:len(got)]:
                    return ('earlier', '%s: responses %s instead of %s' % (what, show(got, 300), show(want, 300)))
            elif got[:len(want)] != want:
                return ('earlier', '%s: responses %s instead of %s' % (what, show(got, 300), show(want, 300)))


# ------------------------------------------------------------------ C06
ARTN = sorted(a for a in ARTS if a != 'hg.prob')


class C06(Prop):
    pid = 'C06'
    targets = ARTN
    quick = 3000
    thorough = 60000
    level = 'fault_enumeration'

    def need(self):
        return []

    def extra_tools(self):
        return sorted({ARTS[a][0] for a in ARTN})

    def gen(self, a, r):
        k = r.choice(['enospc', 'enospc', 'eio_write', 'eio_write', 'open_enospc', 'open_fail', 'eio_close', 'quota'])
        return {'target': a, 'kind': k, 'frac': r.choice([0, r.random(), r.random(), r.random(), .9999]), 'pert': gen_pert(r, 1)}

    def judge(self, ctx, c):
        a = c['target']
        try:
            good, disk = ctx.w.art(a), ctx.w.artdisk(a)
        except ArtError:
            return None                 # C07's to report
        p = c['pert']
        at = int(len(good) * c['frac'])
        kw = {}
        if c['kind'] == 'quota':
            kw['quota'] = at
        else:
            kw['faults'] = [{'kind': c['kind'], 'actor': 0, 'path': artpath(a), 'at': at}]
        sp = World.art_spec(a, seed=p['seed'], rate=p['rate'], junk=p['junk'], heapseed=p['heapseed'], disk=disk, **kw)
        if 'replay' in p:
            sp['replay'] = p['replay']
        if p['bufs']:
            sp['stages'][0]['ibuf'], sp['stages'][0]['obuf'] = max(64, p['bufs'][0][0]), p['bufs'][0][1]
        r = ctx.run(sp)
        ctx.last = r
        fired = sum(r.faults.get(k, 0) for k in ('enospc', 'eio_write', 'open_fail'))
        if not fired and c['kind'] not in ('open_fail',):
            return
        ctx.st.nontrivial.add((a, c['kind'], at))
        what = '%s with %s at byte %d of %s' % (a, c['kind'], at, len(good))
        if r.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, r.verdict, r.msg))
        if r.acts[0]['status'] == 0:
            got = r.disk.get(artpath(a))
            return ('silent', '%s: exit status 0, the file %s' % (what, 'is missing' if got is None else 'holds %d bytes' % len(got)))
        if r.acts[0]['sig'] in (11, 7, 8):
            return ('signal', '%s: signal %d' % (what, r.acts[0]['sig']))


# ------------------------------------------------------------------ C07
class C07(Prop):
    pid = 'C07'
    targets = ARTN
    quick = 2500
    thorough = 50000

    def need(self):
        return []

    extra_tools = C06.extra_tools

    def gen(self, a, r):
        return {'target': a, 'pert': gen_pert(r, 1)}

    def judge(self, ctx, c):
        a = c['target']
        try:
            good, disk = ctx.w.art(a), ctx.w.artdisk(a)
        except ArtError as e:
            ctx.last = e.res
            return ('fails', str(e)[:400])
        p = c['pert']
        sp = World.art_spec(a, seed=p['seed'], rate=p['rate'], junk=p['junk'], heapseed=p['heapseed'], disk=disk)
        if 'replay' in p:
            sp['replay'] = p['replay']
        if p['bufs']:
            sp['stages'][0]['ibuf'], sp['stages'][0]['obuf'] = p['bufs'][0]
        r = ctx.run(sp)
        ctx.last = r
        ctx.st.nontrivial.add((a, r.hash))
        if r.verdict != 'done':
            return ('stuck', '%s: %s %s' % (a, r.verdict, r.msg))
        got = r.disk.get(artpath(a))
        if r.acts[0]['status'] != 0:
            return ('fails', '%s: exit status %d without any failing write: %s' % (a, r.acts[0]['status'], r.acts[0]['err'][:200]))
        if got != good:
            return ('differs', '%s: %s bytes differ from the reference build (%d bytes)' % (a, got and len(got), len(good)))


# ------------------------------------------------------------------ session helper
def session(ctx, t, q, pert, nul=None, **kw):
    """run requests q in one session; returns (result, answers or None)"""
    nul = t.nul if nul is None else nul
    data = b''.join(x + b'\0' for x in q) if nul else b''.join(q)
    p = ctx.run(make_spec(ctx, t, [('s', data)], pert, maxsteps=steps_budget(len(data), len(t.stages)) * 4, **kw))
    ctx.last = p
    if p.verdict != 'done':
        return p, None
    if nul:
        return p, p.outs[0].split(b'\0')
    return p, [p.outs[0]]


# ------------------------------------------------------------------ C08
WHERE = {'bil': 'tl', 'chunk': 'all', 'lupre': 'all', 'lu': 'all', 'lusurf': 'all', 'amb': 'all'}
MULTISET = {'interchunk', 'pipe-chunks', 'pipe-transfer', 'pipe-full'}


class C08(Prop):
    """conservation of superblanks, word-bound blanks stay with their words"""
    pid = 'C08'
    targets = [n for n in NUL if n not in ('transfer', 'transfer-cw', 'transfer-x', 'pipe-g')]
    quick = 2000
    thorough = 40000

    def gen(self, tn, r):
        t = TARGETS[tn]
        n = r.choice([1, 1, 2, 3])
        g = Gen(r.getrandbits(48))
        g.f -= t.nofeats
        if r.random() < .8:
            g.f |= {'sb', 'wb'}
        ids = U.Ids(r.randrange(5000))
        where = WHERE.get(t.kind)
        if tn in ('pipe-full', 'pipe-transfer', 'pipe-caps') and t.kind != 'amb':
            where = None            # the words must stay in the dictionaries
        reqs = [[U.uniq(x, t.kind, ids, where) for x in g.request(t.kind)] for _ in range(n)]
        return {'target': tn, 'reqs': reqs, 'pert': gen_pert(r, len(t.stages))}

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        if any(balanced(x.decode('utf-8', 'replace')) for x in q):
            return None                     # (a shrunk case may fall apart)
        p, out = session(ctx, t, q, c['pert'])
        if out is None:
            return ('stuck', 'requests %s: %s %s' % (show(q, 400), p.verdict, p.msg))
        for k, x in enumerate(q):
            a = x.decode(); b = out[k].decode('utf-8', 'replace') if k < len(out) else None
            w = self.one(ctx, t, c, p, a, b)
            if w:
                return (w[0], 'request %s answered %s: %s' % (show(a, 500), show(b, 500), w[1]))

    def one(self, ctx, t, c, p, a, b):
        if b is None:
            return ('missing', 'no answer')
        if t.name == 'posttransfer':
            a = re.sub(' +', ' ', a)
        bad = balanced(b)
        if bad:
            return ('malformed', bad)
        A, B = sbs(a), sbs(b)
        if A or '[[' in a:
            ctx.st.nontrivial.add(p.sched_hash)
        have = set(mks(b))
        if 'rand' in t.tags and t.stages[0]['tool'] == 'interchunk':
            # random rules drop or copy chunk contents: only the blanks between the chunks are followed
            A = [x for k, x in tokens(a) if k == 'sb']
            B = [x for x in B if x in A or x not in sbs(a)]
        elif t.kind == 'chunk':
            # a rule may reject a chunk away: what was inside it goes with it
            A = []
            for k, x in tokens(a):
                ch = chunk(x) if k == 'lu' else None
                if k == 'sb':
                    A.append(x)
                elif ch:
                    m = mks(ch[1])
                    gone = m and not (set(m) & have)
                    A += [y for y in sbs(ch[1]) if not gone or y in B]
        if t.name in MULTISET or 'rand' in t.tags:
            A, B = sorted(A), sorted(B)
        if A != B:
            lost = [x for x in A if A.count(x) > B.count(x)]; new = [x for x in B if B.count(x) > A.count(x)]
            return ('superblank', 'superblanks lost %r, added %r%s' % (sorted(set(lost)), sorted(set(new)), '' if lost or new else ', reordered'))
        if t.name in ('wblank-attach', 'wblank-detach', 'pipe-full'):
            ok = {z for k, x in tokens(a) if k == 'wb' for z in wbparts(x)}
            for k, x in tokens(b):
                if k == 'wb' and not set(wbparts(x)) <= ok:
                    return ('wblank', 'word-bound blank %r was not in the input' % x)
            return None
        if t.kind in ('caps', 'text') or 'rand' in t.tags:
            return None
        W = {}
        anyp = set()
        for m, ps, x in U.words(a):
            anyp.update(ps)
            for y in m:
                W.setdefault(y, []).extend(ps)
        for m, ps, x in U.words(b):
            ps = [z for z in ps if not z.startswith('c:')]
            if not set(ps) <= anyp:
                return ('wblank', '%r carries %r, which no input word had' % (x, ps))
            if not m:
                continue
            al = {z for y in m for z in W.get(y, [])}
            if not set(ps) <= al:
                return ('wblank', '%r carries %r, which belongs to other words' % (x, ps))
            if len(ps) != len(set(ps)):
                return ('wblank', '%r carries %r twice' % (x, ps))
            first = [z for z in W.get(m[0], []) if not z.startswith('c:')]
            if not set(first) <= set(ps):
                return ('wblank', '%r lost its word-bound blank %r' % (x, first))


# ------------------------------------------------------------------ C09
def tagged_ok(tg, pi, po):
    """is the tagged unit po (parts) a legal disambiguation of the ambiguous unit pi in this output mode?"""
    fam, fl = tg
    sf, an = pi[0], pi[1:]
    unk = an[0][:1] == '*'
    amb = len(an) > 1 and not unk
    if fam == 'st' or fam == 'lsw':
        if fam == 'lsw':
            fl = fl.replace('f', '')
        if 'm' in fl:
            # a tagger that works on ambiguity classes marks what is ambiguous to it
            if po[0][:1] == '=' and sf[:1] != '=' and amb:
                po = [po[0][1:]] + po[1:]
            elif amb and fam == 'st':
                return False
        if 'p' in fl:
            if po[0] != sf:
                return False
            po = po[1:]
        if 'f' in fl:
            return sorted(po) == sorted(an)
        return len(po) == 1 and po[0] in an
    if 'm' in fl and amb and po[0][:1] == '=' and sf[:1] != '=':
        po = [po[0][1:]] + po[1:]
    if 'f' in fl:
        return len(po) >= 2 and po[0] == sf and set(po[1:]) <= set(an) and len(po) <= len(pi)
    if 'p' in fl:
        return len(po) == 2 and po[0] == sf and po[1] in an
    return len(po) == 1 and po[0] in an


FRESHTAG = ['fresh-hmm', 'fresh-lsw', 'fresh-uni1', 'fresh-uni2', 'fresh-uni3']


class C09(Prop):
    """tagger refinement"""
    pid = 'C09'
    targets = [n for n in NUL if n.startswith('tagger')] + FRESHTAG[:2]
    quick = 6000
    thorough = 120000

    def extra_tools(self):
        return ['tagger']

    def shrinks(self, c):
        yield from PROPS['C14'].shrinks(c)

    def fresh_gen(self, tn, r):
        import train
        c = PROPS['C14'].fresh_gen(tn, r)
        t = train.Tsx(c['tsx'])
        for q in c['reqs']:
            for _ in range(r.choice([0, 1, 2])):
                w = r.choice(sorted(train.ODD)); a = train.ODD[w]
                q.insert(r.randint(0, len(q)), '^%s/%s$%s' % (w, '/'.join(a), r.choice([' ', '', ' [<b>] '])))
        return c

    def fresh(self, ctx, c):
        import tagger, itertools
        x = PROPS['C14']
        try:
            why, m, data, t, desc = x.fresh_model(ctx, c)
        except tagger.Skip:
            return None
        if not why:
            why, ans, r = x.fresh_tag(ctx, c, data)
        if why:
            return why[0], why[1] + '; model of ' + desc
        for a, b in ans:
            A, B = tokens(a), tokens(b)
            ctx.st.nontrivial.add(r.hash)
            if len(A) != len(B) or [y for y in A if y[0] != 'lu'] != [y for y in B if y[0] != 'lu']:
                return ('outside', 'request %s answered %s: text outside the lexical units or their number changed; model of %s' % (show(a, 400), show(b, 400), desc))
            for (k1, u), (_, v) in zip(A, B):
                if k1 != 'lu':
                    continue
                pi = parts(u)
                if len(pi) > 2 and '+' in u:   # known finding: parts of different analyses may be joined
                    ps = [[y for _, y in t.classify(an)] for an in pi[1:]]
                    pi = pi[:1] + ['+'.join(y) for y in itertools.product(*[list(dict.fromkeys(z)) for z in zip(*ps)])]
                if not tagged_ok((c['target'][6:9], c['fl']), pi, parts(v)):
                    return ('choice', 'request %s: %r became %r; model of %s' % (show(a, 300), u, v, desc))

    def gen(self, tn, r):
        if tn in FRESHTAG:
            return self.fresh_gen(tn, r)
        t = TARGETS[tn]
        n = r.choice([1, 1, 2, 3, 6])
        return {'target': tn, 'reqs': gen_reqs(t, r, n), 'pert': gen_pert(r, 1), 'final': r.random() < .7}

    def judge(self, ctx, c):
        if c['target'] in FRESHTAG:
            return self.fresh(ctx, c)
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        if any(balanced(x.decode('utf-8', 'replace')) for x in q):
            return None
        if len(q) == 1 and not c['final']:
            p, out = session(ctx, t, q, c['pert'], nul=False)
            if out:
                out = out[0].split(b'\0')
        else:
            p, out = session(ctx, t, q, c['pert'])
        if out is None:
            return ('stuck', 'requests %s: %s %s' % (show(q, 400), p.verdict, p.msg))
        for k, x in enumerate(q):
            a = x.decode(); b = out[k].decode('utf-8', 'replace') if k < len(out) else ''
            A, B = tokens(a), tokens(b)
            ctx.st.nontrivial.add(p.sched_hash)
            if len(A) != len(B) or [y for y in A if y[0] != 'lu'] != [y for y in B if y[0] != 'lu']:
                return ('outside', 'request %s answered %s: text outside the lexical units or their number changed' % (show(a, 400), show(b, 400)))
            for (k1, u), (_, v) in zip(A, B):
                if k1 != 'lu':
                    continue
                if not tagged_ok(t.tg, parts(u), parts(v)):
                    return ('choice', 'request %s: %r became %r' % (show(a, 300), u, v))


# ------------------------------------------------------------------ C10
MODEL = {'pretransfer': lambda a: M.pretransfer(a), 'pretransfer-e': lambda a: M.pretransfer(a, compound=True), 'pretransfer-n': lambda a: M.pretransfer(a, surface=True),
         'posttransfer': M.posttransfer, 'wblank-attach': M.wblank_attach, 'wblank-detach': M.wblank_detach}
RELMODEL = {'cleanstream': lambda a, b: M.cleanstream_check(a, b, 0, 0), 'cleanstream-n': lambda a, b: M.cleanstream_check(a, b, 1, 0),
            'cleanstream-b': lambda a, b: M.cleanstream_check(a, b, 0, 1), 'extract-caps': lambda a, b: M.extract_caps_check(a, b, 0),
            'extract-caps-s': lambda a, b: M.extract_caps_check(a, b, 1)}


class C10(Prop):
    """refinement of small reference models"""
    pid = 'C10'
    targets = list(MODEL) + list(RELMODEL)
    quick = 8000
    thorough = 160000

    def gen(self, tn, r):
        t = TARGETS[tn]
        n = r.choice([1, 1, 2, 3, 6]) if t.nul else 1
        return {'target': tn, 'reqs': gen_reqs(t, r, n), 'pert': gen_pert(r, 1)}

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        if any(balanced(x.decode('utf-8', 'replace')) for x in q):
            return None
        p, out = session(ctx, t, q, c['pert'])
        if out is None:
            return ('stuck', 'requests %s: %s %s' % (show(q, 400), p.verdict, p.msg))
        for k, x in enumerate(q if t.nul else [b''.join(q)]):
            a = x.decode(); b = out[k].decode('utf-8', 'replace') if k < len(out) else ''
            ctx.st.nontrivial.add(p.sched_hash)
            if c['target'] in MODEL:
                w = MODEL[c['target']](a)
                if w != b:
                    return ('model', 'request %s answered %s, expected %s' % (show(a, 400), show(b, 400), show(w, 400)))
            else:
                e = RELMODEL[c['target']](a, b)
                if e:
                    return ('model', 'request %s answered %s: %s' % (show(a, 400), show(b, 400), e))


# ------------------------------------------------------------------ C11
def docnorm(fmt, b):
    """documents equal up to character references for characters outside ASCII"""
    import html
    s = b.decode('utf-8', 'replace')
    if fmt.startswith('html'):
        def h(m):
            x = html.unescape(m.group(0))
            return x if len(x) == 1 and ord(x) > 127 else m.group(0)
        s = re.sub(r'&#?\w+;', h, s)
    if fmt.startswith('rtf'):       # line ends mean nothing in RTF
        s = re.sub(r"\\'([0-9a-f][0-9a-f])", lambda m: bytes([int(m.group(1), 16)]).decode('cp1252', 'replace'), s)
        s = re.sub(r"\\u(\d+)\?", lambda m: chr(int(m.group(1))), s).replace('\n', '').replace('\r', '')
    return s


class C11(Prop):
    """deformat | reformat gives the document back"""
    pid = 'C11'
    targets = [n for n, t in TARGETS.items() if 'rt' in t.tags]
    quick = 3000
    thorough = 60000

    def gen(self, tn, r):
        t = TARGETS[tn]
        if r.random() < .5:
            g = Gen(r.getrandbits(32)); g.r = r
            reqs = [[g.u_soup(t.kind[1:]) for _ in range(r.randint(1, 6))]]
        else:
            reqs = [sum(gen_reqs(t, r, r.choice([1, 1, 3])), [])]
        c = {'target': tn, 'reqs': reqs, 'pert': gen_pert(r, 2)}
        if r.random() < .3:
            c['fault'] = {'kind': r.choice(['enospc', 'eio_write', 'open_fail', 'open_enospc', 'eio_read']), 'actor': -1, 'path': '*', 'at': r.choice([0, 1, 100, 4095, 4096, 8000, r.randrange(20000)])}
            if all(len(u) < 8000 for u in reqs[0]):
                reqs[0].append(' ' * r.choice([8193, 9000, 20000]) if r.random() < .5 else '<!--' + 'xé' * r.choice([4100, 9000]) + '-->')
        return c

    def shrinks(self, case):
        if case.get('fault') and case['fault']['at']:
            yield dict(case, fault=dict(case['fault'], at=0))
        yield from Prop.shrinks(self, case)
        for i, u in enumerate(case['reqs'][0]):
            if len(u) > 40:
                for v in (u[:len(u) // 2], u[len(u) // 2:]):
                    yield dict(case, reqs=[case['reqs'][0][:i] + [v] + case['reqs'][0][i + 1:]])

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        data = b''.join(reqbytes(t, c))
        kw = {'faults': [c['fault']]} if c.get('fault') else {}
        p = ctx.run(make_spec(ctx, t, [('s', data), ('c',)], c['pert'], maxsteps=10 * steps_budget(len(data), 2), wantdisk=1, **kw))
        ctx.last = p
        if p.outs[0]:
            ctx.st.nontrivial.add(p.sched_hash)
        what = '%s%s' % (show(data, 400), ' with %s' % c['fault'] if kw else '')
        if p.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, p.verdict, p.msg))
        st = [a['status'] for a in p.acts]
        if any(a['sig'] in (4, 6, 7, 8, 11) for a in p.acts):
            return ('signal', '%s: signals %s' % (what, [a['sig'] for a in p.acts]))
        same = docnorm(t.kind[1:], data) == docnorm(t.kind[1:], p.outs[0])
        fired = kw and sum(p.faults.get(k, 0) for k in ('enospc', 'eio_write', 'eio_read', 'open_fail'))
        if fired:
            if not same and not any(st):
                return ('silent', '%s: came back as %s with exit status 0' % (what, show(p.outs[0], 400)))
            return
        if any(st) or not same:
            return ('differs', '%s: came back as %s (exit statuses %s)' % (what, show(p.outs[0], 400), st))
        left = sorted(set(p.disk) - {artpath(a) for a in t.arts})
        if left:
            return ('left', '%s: files left behind: %s' % (what, left))


# ------------------------------------------------------------------ C13
def rulestarget(t):
    if t.stages[0]['tool'] == 'multiple-translations':
        f = t.stages[0]['args'][0].split('/')[-1][:-4]
        return os.path.join(DATA, 'gen.t1x' if f == 't1x' else f), 't1x', 'bil', False, 'mult'
    if len(t.stages) != 1 or t.stages[0]['tool'] not in ('transfer', 'interchunk', 'postchunk'):
        return
    a = t.stages[0]['args']
    f = [x for x in a if isinstance(x, str) and x[-4:] in ('.t1x', '.t2x', '.t3x')]
    return f[0], f[0][-3:], 'n' if '-n' in a else 'b' if '-b' in a or f[0][-3:] != 't1x' else 'bil', '-w' in a


RULED = {n: rulestarget(t) for n, t in TARGETS.items() if rulestarget(t)}


# rule files drawn anew for every few cases: (tool, options, language, input)
FRESH = {'fresh-t1': ('transfer', ['-b'], 't1x', 'bil'), 'fresh-t1w': ('transfer', ['-b', '-w'], 't1x', 'bil'), 'fresh-t1n': ('transfer', ['-n'], 't1x', 'lupre'),
         'fresh-t2': ('interchunk', [], 't2x', 'chunk'), 'fresh-t2w': ('interchunk', ['-w'], 't2x', 'chunk'),
         'fresh-t3': ('postchunk', [], 't3x', 'chunk'), 'fresh-t3w': ('postchunk', ['-w'], 't3x', 'chunk')}


def freshtarget(tn):
    tool, opts, lang, kind = FRESH[tn]
    return Target(tn, [S(tool, '-z', *opts, '/sim/r.' + lang, '/sim/r.bin')], kind)


class C13(Prop):
    """transfer, interchunk and postchunk do what their rules say"""
    pid = 'C13'
    targets = list(RULED) + list(FRESH)
    quick = 8000
    thorough = 160000
    interp = {}

    def extra_tools(self):
        return ['preprocess-transfer', 'transfer', 'interchunk', 'postchunk']

    def cases(self, tname, tier):
        return Prop.cases(self, tname, tier) // (3 if tname in FRESH else 1)

    def fresh(self, ctx, tn, n):
        """the rule file, compiled by the tree under test, and its interpreter"""
        import rules, rulegen, io
        k = tn, n
        if k not in self.interp:
            if len(self.interp) > 300:
                self.interp.clear()
            tool, opts, lang, kind = FRESH[tn]
            x = rulegen.fresh(n, lang, opts)
            if n % 4 == 1:
                x = rulegen.notes(x, n)
            st, cl = pipeline([S('preprocess-transfer', '/sim/r.' + lang, '/sim/r.bin')], [('c',)])
            r = ctx.run({'stages': st, 'clients': [cl], 'wantdisk': 1, 'cpu': 60, 'maxsteps': 50000000, 'disk': {'/sim/r.' + lang: x.encode()}})
            ctx.last = r
            if r.verdict != 'done' or r.acts[0]['status'] != 0:
                return ('compile', 'apertium-preprocess-transfer fails on rule file %d: %s %s %s' % (n, r.verdict, r.msg, r.acts)), None
            self.interp[k] = rules.Rules(io.StringIO(x), lang, 'n' if '-n' in opts else 'b', '-w' in opts), r.disk, r.hash
        else:
            ctx.obs.append(self.interp[k][2])
        return self.interp[k][:2]

    def gen(self, tn, r):
        if tn in FRESH:
            t = freshtarget(tn)
            rf = r.getrandbits(30)
            return {'target': tn, 'rules': rf, 'reqs': [q for _ in range(3) for q in gen_reqs(t, r, r.choice([1, 2, 4]))], 'pert': gen_pert(r, 1)}
        t = TARGETS[tn]
        n = r.choice([1, 1, 2, 3, 6]) if t.nul else 1
        if RULED[tn][2] == 'bil':     # word-bound blanks are only supported after a separate lookup
            t = copy.copy(t); t.nofeats = set(t.nofeats) | {'wb'}
        return {'target': tn, 'reqs': gen_reqs(t, r, n), 'pert': gen_pert(r, 1)}

    def judge(self, ctx, c):
        import rules
        kw = {}
        if c['target'] in FRESH:
            t = freshtarget(c['target']); R = None, FRESH[c['target']][2]
            I, disk = self.fresh(ctx, c['target'], c['rules'])
            if disk is None:
                return I
            kw['disk'] = disk
        else:
            t = TARGETS[c['target']]; R = RULED[c['target']]
            I = None
        if I is None and c['target'] not in self.interp:
            kw = {}
            if R[2] == 'bil':
                a = t.stages[0]['args']
                fd, f = tempfile.mkstemp('.bin')
                os.write(fd, ctx.w.art('bil.bin')); os.close(fd)
                kw['bil'] = rules.Bil(f, '-c' in a)
                if '-x' in a:
                    kw['ext'] = rules.Bil(f, False)
                os.unlink(f)
            self.interp[c['target']] = (rules.Mult if R[4:] else rules.Rules)(*R[:4], **kw)
        if I is None:
            I = self.interp[c['target']]; kw = {}
        q = reqbytes(t, c)
        if any(balanced(x.decode('utf-8', 'replace')) for x in q):
            return None
        p, out = session(ctx, t, q, c['pert'], **kw)
        if out is None:
            return ('stuck', 'requests %s: %s %s' % (show(q, 400), p.verdict, p.msg))
        for k, x in enumerate(q if t.nul else [b''.join(q)]):
            a = x.decode(); b = out[k].decode('utf-8', 'replace') if k < len(out) else ''
            if R[4:]:
                w = I.answer(a)
                if I.hits:
                    ctx.st.nontrivial.add(p.sched_hash)
                if w != b:
                    return ('multiple', 'request %s: the answer is %s, patterns and dictionary make %s' % (show(a, 400), show(b, 600), show(w, 600)))
                continue
            w = I.run(a)
            got = rules.words(b, R[1] == 't2x' or R[1] == 't1x' and not I.lu)
            if I.hits:
                ctx.st.nontrivial.add(p.sched_hash)
            if w != got:
                i = next((i for i in range(min(len(w), len(got))) if w[i] != got[i]), min(len(w), len(got)))
                return ('rules', 'request %s: word %d of the answer is %s, the rules say %s' % (show(a, 400), i + 1, show(got[i], 200) if i < len(got) else 'missing', show(w[i], 200) if i < len(w) else 'missing'))


# ------------------------------------------------------------------ C14
CORPUS = {'u1.prob': 'gen.tagged', 'u2.prob': 'gen.tagged', 'u3.prob': 'gen.tagged', 'hu1.prob': 'h.utagged', 'hu2.prob': 'h.utagged', 'hu3.prob': 'h.utagged'}
RATED = [n for n in NUL if TARGETS[n].tg and (TARGETS[n].tg[0] in ('hmm', 'lsw') or TARGETS[n].arts[0] in CORPUS)]


class C14(Prop):
    """taggers choose what their model rates best"""
    pid = 'C14'
    targets = RATED + FRESHTAG
    quick = 8000
    thorough = 160000
    model = {}

    def extra_tools(self):
        return ['tagger']

    def fresh_gen(self, tn, r):
        import train
        c = {'target': tn, 'fl': r.choice(['', '', 'p', 'f', 'm', 'pfm']), 'z': r.random() < .6, 'pert': gen_pert(r, 1)}
        n = r.choice([1, 1, 2, 3, 5]) if c['z'] else 1
        if tn[6:9] == 'uni':
            voc = train.vocab(r)
            wt = [r.random() ** 3 for _ in voc]
            draw = lambda k: [r.choices(voc, wt)[0] for _ in range(k)]
            c['corp'] = [['^%s/%s$' % (s, '/'.join(a if r.random() < .08 else [a[int(len(a) * r.random() ** 2)]])) for s, a in draw(r.choice([1, 3, 10, 30]))]]
            c['reqs'] = [['^%s/%s$%s' % (s, '/'.join(a), r.choice([' ', '', ' [<b>] '])) if r.random() < .95 else '^zz/*zz$ ' for s, a in draw(r.randint(0, 6))] for _ in range(n)]
            return c
        c['tsx'] = train.tsx(r)
        t = train.Tsx(c['tsx'])
        c['corp'] = train.corpus(r, t, r.choice([1, 2, 4]))
        c['reqs'] = [['^%s/%s$%s' % (s, a, b) for s, a, ch, b in (x.split('\t') for x in q[:len(q) - (r.random() < .3)])] for q in train.corpus(r, t, n)]
        c['pseed'] = r.choice([0, r.getrandbits(30), r.getrandbits(30)])
        if tn[6:9] == 'hmm' and r.random() < .04:       # a run of ambiguous words whose probability is less than any number
            amb = [u for q in c['reqs'] for u in q if u.count('/') > 1]
            if amb:
                q = r.choice([q for q in c['reqs'] if q]); i = r.randrange(len(q))
                q[i:i] = [r.choice(amb) for _ in range(r.choice([150, 400, 800]))]
        return c

    def shrinks(self, c):
        yield from Prop.shrinks(self, c)
        q = c.get('corp', [])
        for i, u in enumerate(q):
            if len(q) > 1:
                yield dict(c, corp=q[:i] + q[i + 1:])
            if len(u) > 3:
                h = len(u) // 2
                yield dict(c, corp=q[:i] + [u[h:]] + q[i + 1:]); yield dict(c, corp=q[:i] + [u[:h]] + q[i + 1:])
            for k in range(len(u)):
                if len(u) > 1 and (c['target'][6:9] == 'uni' or k < len(u) - 1):
                    yield dict(c, corp=q[:i] + [u[:k] + u[k + 1:]] + q[i + 1:])

    @staticmethod
    def fresh_model(ctx, c):
        """train the model of a fresh case: (why it failed, the model for the reference, the model file, tag definitions, what it is)"""
        import train, tagger
        f = artpath; run = PROPS['C15'].run
        fam = c['target'][6:9]; t = m = None
        if fam == 'uni':
            how = c['target'][-1]
            corp = ' '.join(x for q in c['corp'] for x in q) + '\n'
            e, coef = train.unigram(int(how), [parts(u)[1:] for y, u in tokens(corp) if y == 'lu'])
            m = tagger.Counts(e, coef, int(how))
            disk = {f('m.tagged'): corp.encode()}
            args = ['-s', '0', '-u', how, f('m.prob'), f('m.tagged')]
        else:
            lsw = fam == 'lsw'
            t = train.Tsx(c['tsx'])
            k = train.Corpus(t, c['corp'], [])
            corp = k.tagged
            disk = {f('m.tsx'): c['tsx'].encode(), f('m.dic'): k.dic.encode(), f('m.untagged'): k.untagged.encode(), f('m.tagged'): k.tagged.encode()}
            args = ['-w', '-t', '1', f('m.dic'), f('m.untagged'), f('m.tsx'), f('m.prob')] if lsw else ['-s', '0', f('m.dic'), f('m.tsx'), f('m.prob'), f('m.tagged'), f('m.untagged')]
        desc = '%s; corpus %s%s%s' % (' '.join(args[:4]), show(corp, 500), ', definitions ' + show(c['tsx'], 1000) if 'tsx' in c else '', ', parameters drawn with seed %d' % c['pseed'] if c.get('pseed') else '')
        data, r = run(ctx, c, args, disk)
        if data is None:
            return ('fails', 'apertium-tagger %s: %s %s %s' % (desc, r.verdict, r.msg, [(x['status'], x['err'][-300:]) for x in r.acts])), m, data, t, desc
        if fam != 'uni':
            try:
                if c.get('pseed'):
                    data = tagger.redraw(data, lsw, c['pseed'])
                m = (tagger.Lsw if lsw else tagger.Hmm)(t, tagger.Prob(data, lsw))
            except (IndexError, KeyError):
                return ('fails', 'the model file cannot be read: %s' % desc), m, data, t, desc
        return None, m, data, t, desc

    @staticmethod
    def fresh_tag(ctx, c, data):
        q = [''.join(u) for u in c['reqs']]
        fam = c['target'][6:9]
        mode = ['-u', c['target'][-1]] if fam == 'uni' else ['-w'] if fam == 'lsw' else []
        z = c['z']
        inp = ''.join(s + '\0' for s in q) if z else q[0] if q else ''
        data, r = PROPS['C15'].run(ctx, c, mode + ['-g'] + (['-z'] if z else []) + ['-' + x for x in c['fl']] + [artpath('m.prob')], {artpath('m.prob'): data}, inp.encode())
        if r.verdict != 'done' or r.acts[0]['status'] != 0:
            return ('stuck', 'tagging %s: %s %s %s' % (show(inp, 400), r.verdict, r.msg, [(x['status'], x['err'][-300:]) for x in r.acts])), [], r
        out = r.outs[0].decode('utf-8', 'replace')
        return None, list(zip(q, out.split('\0') + [''] * len(q))) if z else [(x, out) for x in q[:1]], r

    def fresh(self, ctx, c):
        import tagger
        try:
            why, m, data, t, desc = self.fresh_model(ctx, c)
        except tagger.Skip:
            return None
        if why:
            return why
        try:
            want = [m.answer([parts(u) for y, u in tokens(''.join(s)) if y == 'lu'], c['fl']) for s in c['reqs']]
        except tagger.Skip:
            return None
        why, ans, r = self.fresh_tag(ctx, c, data)
        if why:
            return why[0], why[1] + '; model of ' + desc
        for (s, b), (w, hits) in zip(ans, want):
            if hits:
                ctx.st.nontrivial.add(r.hash)
            got = [u for y, u in tokens(b) if y == 'lu']
            if w != got:
                j = next((j for j in range(min(len(w), len(got))) if w[j] != got[j]), min(len(w), len(got)))
                return ('choice', 'request %s: unit %d of the answer is %s, the model prefers %s; model of %s' % (show(s, 400), j + 1, show(got[j], 200) if j < len(got) else 'missing', show(w[j], 200) if j < len(w) else 'nothing', desc))

    def gen(self, tn, r):
        if tn in FRESHTAG:
            return self.fresh_gen(tn, r)
        t = TARGETS[tn]
        n = r.choice([1, 1, 2, 3, 6])
        return {'target': tn, 'reqs': gen_reqs(t, r, n), 'pert': gen_pert(r, 1)}

    def judge(self, ctx, c):
        import tagger
        if c['target'] in FRESHTAG:
            return self.fresh(ctx, c)
        t = TARGETS[c['target']]; a = t.arts[0]
        if a not in self.model:
            if a in CORPUS:
                with open(os.path.join(DATA, CORPUS[a])) as f:
                    self.model[a] = tagger.Unigram(f.read(), int(a[-6]))
            else:
                lsw = t.tg[0] == 'lsw'
                self.model[a] = (tagger.Lsw if lsw else tagger.Hmm)(tagger.Tsx(os.path.join(DATA, 'h.tsx' if a[0] == 'h' and a != 'hmm.prob' else 'gen.tsx')), tagger.Prob(ctx.w.art(a), lsw))
        m = self.model[a]
        q = reqbytes(t, c)
        if any(balanced(x.decode('utf-8', 'replace')) for x in q):
            return None
        p, out = session(ctx, t, q, c['pert'])
        if out is None:
            return ('stuck', 'requests %s: %s %s' % (show(q, 400), p.verdict, p.msg))
        for k, x in enumerate(q):
            s = x.decode(); b = out[k].decode('utf-8', 'replace') if k < len(out) else ''
            try:
                w, hits = m.answer([parts(u) for y, u in tokens(s) if y == 'lu'], t.tg[1])
            except tagger.Skip:
                continue
            got = [u for y, u in tokens(b) if y == 'lu']
            if hits:
                ctx.st.nontrivial.add(p.sched_hash)
            if w != got:
                i = next((i for i in range(min(len(w), len(got))) if w[i] != got[i]), min(len(w), len(got)))
                return ('choice', 'request %s: unit %d of the answer is %s, the model prefers %s' % (show(s, 400), i + 1, show(got[i], 200) if i < len(got) else 'missing', show(w[i], 200) if i < len(w) else 'nothing'))


# ------------------------------------------------------------------ C15
TRAIN = ['hmm-s0', 'hmm-sn', 'hmm-t', 'hmm-r', 'hmm-a', 'dic-f', 'lsw-t', 'lsw-r', 'uni-1', 'uni-2', 'uni-3']


def close(a, b):
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-200


def PARTS(t):
    try:
        return len(t.classify('x<adj>+y<pr>')) == 2
    except Exception:
        return False


class C15(Prop):
    """training estimates what its corpora say, and tagging goes by it"""
    pid = 'C15'
    targets = TRAIN
    quick = 4000
    thorough = 50000

    def need(self):
        return []

    def extra_tools(self):
        return ['tagger', 'tagger-apply-new-rules', 'filter-ambiguity']

    def gen(self, tn, r):
        import train
        x = train.tsx(r)
        t = train.Tsx(x)
        n = r.choice([1, 2, 4, 8])
        uni = tn.startswith('uni')
        x2 = train.tsx(r, x) if tn == 'hmm-a' else ''
        reqs = train.corpus(r, t, n, amb=uni, unk=not uni)
        extra = [w for w in r.sample(sorted(train.POOL), r.randint(0, 8))]
        return {'target': tn, 'tsx': x, 'tsx2': x2, 'file': r.random() < .5, 'reqs': reqs, 'extra': extra, 'n': r.randint(1, 4), 'pert': gen_pert(r, 1), 'tag': r.random() < .5,
                'skew': r.choice(['unit', 'part']) if tn.startswith('hmm-s') and r.random() < .1 else ''}

    def run(self, ctx, c, args, disk, inp=None, tool='tagger'):
        st, cl = pipeline([S(tool, *args)], ([('s', inp)] if inp is not None else []) + [('c',)])
        p = c['pert']
        spec = {'stages': st, 'clients': [cl], 'wantdisk': 1, 'cpu': 20, 'maxsteps': 20000000, 'disk': disk, 'seed': p['seed'], 'rate': p['rate'], 'junk': p['junk'], 'heapseed': p['heapseed']}
        if p['bufs']:
            st[0]['ibuf'], st[0]['obuf'] = p['bufs'][0]
        r = ctx.run(spec)
        ctx.last = r
        if r.verdict != 'done' or r.acts[0]['status'] != 0:
            return None, r
        return r.disk.get(args[-1] if tool == 'filter-ambiguity' else artpath('m.prob')), r

    def filter(self, ctx, c, t, k, disk):
        f = artpath
        out = f('o.dic')
        # once from the dictionary, once from running text
        for src, units in (('m.dic', k.dicw), ('m.untagged', k.words)):
            data, r = self.run(ctx, c, [f('m.tsx')] + ([f(src), out] if c['file'] else []), disk, None if c['file'] else disk[f(src)], tool='filter-ambiguity')
            what = 'apertium-filter-ambiguity on %s, definitions %s' % (show(disk[f(src)], 500), show(c['tsx'], 1200))
            if r.verdict != 'done' or r.acts[0]['status'] != 0 or c['file'] and data is None:
                return ('fails', '%s: %s %s, status %s' % (what, r.verdict, r.msg, [x['status'] for x in r.acts]))
            got = (data if c['file'] else r.outs[0]).decode('utf-8', 'replace')
            exp, seen = [], set()
            for w in units[:-1]:
                if w and frozenset(w) not in seen:
                    seen.add(frozenset(w)); exp.append(sorted(w.values()))
            ls = [parts(u) for y, u in tokens(got) if y == 'lu']
            gl = [sorted(a[a[0] == '+':] for a in x[1:]) for x in ls]
            ctx.st.nontrivial.add(r.hash)
            if gl != exp:
                i = next((i for i in range(min(len(gl), len(exp))) if gl[i] != exp[i]), min(len(gl), len(exp)))
                return ('filter', '%s: entry %d is %s, the next word of a new ambiguity class has %s' % (what, i + 1, gl[i:i + 1], exp[i:i + 1]))

    def judge(self, ctx, c):
        import train, tagger
        t = train.Tsx(c['tsx'])
        try:
            extra = []
            for w in c['extra']:
                try:
                    t.words(train.POOL[w]); extra.append(w)
                except train.Skip:
                    pass
            k = train.Corpus(t, c['reqs'], extra)
        except train.Skip:
            return None
        fam, how = c['target'].split('-')
        f = lambda n: artpath(n)
        disk = {f('m.tsx'): c['tsx'].encode(), f('m.dic'): k.dic.encode(), f('m.untagged'): k.untagged.encode(), f('m.tagged'): k.tagged.encode()}
        show1 = 'corpus %s, definitions %s' % (show(k.tagged if fam == 'uni' or how[0] == 's' else k.untagged, 500), show(c['tsx'], 1200))
        w = ['-w'] if fam == 'lsw' else []
        if fam == 'dic':
            return self.filter(ctx, c, t, k, disk)
        n = str(c['n'])
        if c.get('skew'):                      # the analysed text lacks the end of the tagged text
            one = c['skew'] == 'part'
            disk[f('m.tagged')] += b'^x/x<adj>+y<pr>$' if one and PARTS(t) else b'^x/x<adj>$'
            disk[f('m.untagged')] += b'^x/x<adj>$' if one and PARTS(t) else b''
            disk[f('m.dic')] += b'^x/x<adj>$'
        if fam == 'uni':
            steps = [['-s', '0', '-u', how, f('m.prob'), f('m.tagged')]]
        elif how in ('s0', 'a') or how == 'r' and fam == 'hmm':
            steps = [['-s', '0', f('m.dic'), f('m.tsx'), f('m.prob'), f('m.tagged'), f('m.untagged')]]
        elif how == 'sn':
            steps = [['-s', n, f('m.dic'), f('m.untagged'), f('m.tsx'), f('m.prob'), f('m.tagged'), f('m.untagged')]]
        else:
            steps = [w + ['-t', '0' if how == 'r' else n, f('m.dic'), f('m.untagged'), f('m.tsx'), f('m.prob')]]
        if how == 'r':
            steps.append(w + ['-r', n, f('m.untagged'), f('m.prob')])
        for a in steps:
            data, r = self.run(ctx, c, a, disk)
            if c.get('skew'):
                if r.verdict != 'done' or r.acts[0]['status'] != 1:
                    return ('aligned', 'tagged and analysed text differ in length: %s %s, exit status %s' % (r.verdict, r.msg, [x['status'] for x in r.acts]))
                return None
            if data is None:
                return ('fails', 'apertium-tagger %s: %s %s %s on %s' % (' '.join(a), r.verdict, r.msg, [(x['status'], x['err'][-300:]) for x in r.acts], show1))
            disk[f('m.prob')] = data
        ctx.st.nontrivial.add(r.hash)
        t2 = t
        if how == 'a':                         # the rules of another definition file put into the model
            disk[f('n.tsx')] = c['tsx2'].encode()
            data, r = self.run(ctx, c, ['-i', f('m.prob'), '-o', f('m.prob'), '-x', f('n.tsx')], disk, tool='tagger-apply-new-rules')
            if data is None:
                return ('fails', 'apertium-tagger-apply-new-rules: %s %s %s on %s' % (r.verdict, r.msg, [(x['status'], x['err'][-300:]) for x in r.acts], show1))
            disk[f('m.prob')] = data
            show1 += ', then the rules of %s' % show(c['tsx2'], 1200)
            t2 = train.Tsx(c['tsx2'])
        if fam == 'uni':
            e, coef = train.unigram(int(how), k.readings)
            try:
                m = train.Uni(data, int(how))
            except IndexError:
                return ('model', 'the model file cannot be read; %s' % show1)
            flat = lambda d, s: {kk: v for a in d for kk, v in (flat(d[a], s + (a,)).items() if isinstance(d[a], dict) else [(s + (a,), d[a])])}
            for x, y in zip(m.m, e):
                g, w = flat(x, ()), {a: v * coef for a, v in flat(y, ()).items()}
                if g != w:
                    d = next(a for a in list(w) + list(g) if g.get(a) != w.get(a))
                    return ('counts', 'model counts %s %s times, the corpus %s; %s' % (d, g.get(d), w.get(d), show1))
            return None
        m = train.Prob(data, fam == 'lsw')
        names = ['TAG_' + x if i < 7 else x for i, x in enumerate(t.names)]
        for what, g, w in (('tags', m.array[:len(names)], names), ('open class', set(m.open), t.open), ('forbidden pairs', m.forbid, t2.forbid), ('enforced followers', m.enforce, t2.enforce),
                           ('ambiguity classes', set(m.output), k.classes())):
            if g != w:
                return ('model', '%s of the model are %s, not %s; %s' % (what, g, w, show1))
        if fam == 'hmm':
            h = train.HmmRef(t, k.classes())
            if how == 't':
                h.kupiec(k)
            else:
                h.supervised(k)
            if how == 'a':
                h.t = t2; h.rules(); h.t = t
                t2.discard = t.discard; t = t2
            elif how != 's0':
                h.baumwelch(k, c['n'])
            for i in range(h.N):
                for j in range(h.N):
                    if not close(m.A[i][j], h.A[i][j]):
                        return ('transition', 'probability of %s after %s is %r in the model, %r by the corpus; %s' % (t.names[j], t.names[i], m.A[i][j], h.A[i][j], show1))
            ix = {s: q for q, s in enumerate(m.output)}
            for (i, s), v in h.B.items():
                if not close(m.B[i][ix[s]], v):
                    return ('emission', 'probability of the class %s from %s is %r in the model, %r by the corpus; %s' % (sorted(t.names[x] for x in s), t.names[i], m.B[i][ix[s]], v, show1))
        else:
            h = train.LswRef(t)
            h.init(k)
            h.train(k, c['n'])
            for x in set(h.D) | set(m.D):
                if not close(m.D.get(x, 0), h.D.get(x, 0)):
                    return ('window', 'weight of %s is %r in the model, %r by the corpus; %s' % ([t.names[y] for y in x], m.D.get(x, 0), h.D.get(x, 0), show1))
        if c['tag']:
            q = k.untagged
            data, r = self.run(ctx, c, w_args(fam) + ['-g', f('m.prob')], disk, q.encode())
            if r.verdict != 'done':
                return ('stuck', 'tagging %s: %s %s' % (show(q, 400), r.verdict, r.msg))
            b = r.outs[0].decode('utf-8', 'replace')
            want, hits = (tagger.Lsw if fam == 'lsw' else tagger.Hmm)(t, m).answer([parts(u) for y, u in tokens(q) if y == 'lu'], '')
            got = [u for y, u in tokens(b) if y == 'lu']
            if want != got:
                i = next((i for i in range(min(len(want), len(got))) if want[i] != got[i]), min(len(want), len(got)))
                return ('choice', '%s: unit %d is tagged %s, the model prefers %s; %s' % (show(q, 400), i + 1, got[i:i + 1], want[i:i + 1], show1))


def w_args(fam):
    return ['-w'] if fam == 'lsw' else []


# ------------------------------------------------------------------ C16
class C16(C15):
    """the perceptron tagger: features, averaged weights and choices"""
    pid = 'C16'
    targets = ['mtx', 'train']
    quick = 10000
    thorough = 50000

    def extra_tools(self):
        return ['tagger', 'perceptron-trace']

    def gen(self, tn, r):
        import train, percep
        g = percep.MtxGen(r)
        c = {'target': tn, 'tsx': train.tsx(r), 'mtx': g.tree(), 'pert': gen_pert(r, 1), 'reqs': percep.corpus(r, r.choice([1, 2]) if tn == 'mtx' else r.choice([1, 1, 2, 2, 3]))}
        if g.loops:           # known finding: the slots of loop variables are not set before they are destroyed; with 255 new memory reads 0
            c['pert'] = dict(c['pert'], junk=255)
        if tn == 'train':
            c['n'] = r.choice([1, 2, 2, 3, 4][:{1: 5, 2: 4, 3: 2}[len(c['reqs'])]])
            c['test'] = percep.corpus(r, r.randint(1, 4), 3)
            c['nul'] = [i < len(c['test']) - 1 and r.random() < .4 for i in range(len(c['test']))]
            if r.random() < .3:
                c['skip'] = [[r.randint(0, len(c['reqs'])), q, r.choice(['surf', 'surf', 'drop', 'add', 'avail']), r.randrange(5)] for q in percep.corpus(r, r.choice([1, 1, 2]))]
        return c

    def shrinks(self, c):
        for x in Prop.shrinks(self, c):
            yield dict(x, pert=dict(x['pert'], junk=c['pert']['junk']))
        m = c['mtx']
        if len(m['feats']) > 1:
            for i in range(len(m['feats'])):
                yield dict(c, mtx=dict(m, feats=m['feats'][:i] + m['feats'][i + 1:]))
        for i, f in enumerate(m['feats']):
            if len(f) > 1:
                for j in range(len(f)):
                    yield dict(c, mtx=dict(m, feats=m['feats'][:i] + [f[:j] + f[j + 1:]] + m['feats'][i + 1:]))
        if c.get('n', 1) > 1:
            yield dict(c, n=1)
        for i in range(len(c.get('skip', []))):
            yield dict(c, skip=c['skip'][:i] + c['skip'][i + 1:])
            yield dict(c, skip=c['skip'][:i] + [[0] + c['skip'][i][1:]] + c['skip'][i + 1:])
        if len(c.get('test', [])) > 1:
            for i in range(len(c['test'])):
                yield dict(c, test=c['test'][:i] + c['test'][i + 1:], nul=[False] * (len(c['test']) - 1))

    def tool(self, ctx, c, tool, args, disk, inp=None):
        st, cl = pipeline([S(tool, *args)], ([('s', inp)] if inp is not None else []) + [('c',)])
        p = c['pert']
        spec = {'stages': st, 'clients': [cl], 'wantdisk': 1, 'cpu': c.get('cpu', 20), 'maxsteps': 20000000, 'disk': disk, 'seed': p['seed'], 'rate': p['rate'], 'junk': p['junk'], 'heapseed': p['heapseed']}
        if p['bufs']:
            st[0]['ibuf'], st[0]['obuf'] = p['bufs'][0]
        r = ctx.run(spec)
        ctx.last = r
        return r

    def judge(self, ctx, c):
        import train, percep
        t = train.Tsx(c['tsx'])
        m = c['mtx']
        f = artpath
        if not any(c['reqs']):
            return None
        reqs = [q for q in c['reqs'] if q and q[-1].startswith('.\t')]
        both = [(percep.text(q), percep.text(q, True)) for q in reqs]
        for pos, q, kind, k in c.get('skip', []):       # sentences that do not fit: left out with --skip-on-error
            if q and q[-1].startswith('.\t'):
                both.insert(pos, percep.damage(q, kind, k))
        un, tg = (''.join(x) + '\n' for x in zip(*both)) if both else ('\n', '\n')
        x = percep.xml(m, f('m.tsx'))
        disk = {f('m.tsx'): c['tsx'].encode(), f('m.mtx'): x.encode(), f('m.untagged'): un.encode(), f('m.tagged'): tg.encode()}
        desc = 'corpus %s,%s features %s' % (show(tg, 400), ' untagged %s,' % show(un, 400) if c.get('skip') else '', show(x[x.find('<defns'):], 1500))
        why = None
        for swap in (False, True)[:1 if c.get('strict') else 2]:          # which operand of a comparison comes first is left open
            ft = percep.Features(m, t, swap)
            try:
                why = (self.paths if c['target'] == 'mtx' else self.model)(ctx, c, ft, reqs, disk, desc)
            except percep.TooMany:
                ctx.st.skipped = getattr(ctx.st, 'skipped', 0) + 1
                return None
            if why is None:
                return None
        return why

    def paths(self, ctx, c, ft, reqs, disk, desc):
        import percep
        r = self.tool(ctx, c, 'perceptron-trace', ['path', artpath('m.mtx'), artpath('m.untagged'), artpath('m.tagged')], disk)
        if r.verdict != 'done' or r.acts[0]['status'] != 0:
            return ('fails', 'apertium-perceptron-trace path: %s %s %s; %s' % (r.verdict, r.msg, [(a['status'], a['sig'], a['err'][-300:]) for a in r.acts], desc))
        ctx.st.nontrivial.add(r.hash)
        got = []
        for b in r.outs[0].split(b'Sentence ')[1:]:
            b = b.split(b'\nLU:')[0].strip(b'\n').split(b'\n')
            if b and b[-1].startswith(b'LU:'):
                b.pop()
            got.append((b[1], set(b[2:])))
        k = 0
        for q in reqs:
            u = percep.units(q)
            s = percep.Sent(u, ft)
            right = [None if x is None and len(s.un[i][1]) != 1 else s.un[i][1][x or 0] for i, x in enumerate(s.right)]
            for i, w in enumerate(s.un):
                for a in w[1]:
                    tagged = right[:i] + [a] + right[i + 1:]
                    for j, mo in enumerate(a):
                        want = {b'%d; %s: 1' % (y[0], b', '.join(y[1:])) for y in ft.at(tagged, s.un, i, j)}
                        if k >= len(got):
                            return ('trace', 'nothing is traced for %s of %s; %s' % (mo, w[0], desc))
                        g = got[k]; k += 1
                        name = (mo[0] + ''.join('<%s>' % y for y in mo[1])).encode()
                        if g[0] != name:
                            return ('trace', '%s is traced instead of %s; %s' % (show(g[0]), show(name), desc))
                        if g[1] != want:
                            return ('features', 'features of %s in word %d are %s, not %s; %s' % (show(name), i + 1, sorted(g[1] - want), sorted(want - g[1]), desc))

    def model(self, ctx, c, ft, reqs, disk, desc):
        import percep
        b = c['mtx']['beam'] or 4
        sents = [percep.Sent(percep.units(q), ft) for q in reqs]
        want = percep.train_all(sents, c['n'], b)
        r = self.tool(ctx, c, 'tagger', ['-x'] + ['-e'] * bool(c.get('skip')) + ['-s', str(c['n']), artpath('m.prob'), artpath('m.tagged'), artpath('m.untagged'), artpath('m.mtx')], disk)
        if r.verdict != 'done' or r.acts[0]['status'] != 0 or artpath('m.prob') not in r.disk:
            return ('fails', 'training: %s %s %s; %s' % (r.verdict, r.msg, [(a['status'], a['sig'], a['err'][-300:]) for a in r.acts], desc))
        ctx.st.nontrivial.add(r.hash)
        disk = {artpath('m.prob'): r.disk[artpath('m.prob')]}
        r = self.tool(ctx, c, 'perceptron-trace', ['model', artpath('m.prob')], disk)
        if r.verdict != 'done' or r.acts[0]['status'] != 0:
            return ('fails', 'apertium-perceptron-trace model: %s %s; %s' % (r.verdict, r.msg, desc))
        got = {}
        for l in r.outs[0].split(b'\n== Weights ')[1].split(b'\n')[1:]:
            if l:
                k, v = l.rsplit(b': ', 1)
                got[k] = got.get(k, 0) + float(v)
        fits = []
        for w in want:
            e = {}
            for k, v in w.items():
                k = b'%d; %s' % (k[0], b', '.join(k[1:]))
                e[k] = e.get(k, 0) + float(v)
            if e.keys() == got.keys() and all(abs(v - got[k]) <= 1e-5 * max(1, abs(v)) for k, v in e.items()):
                fits.append(w)
        if not fits:
            return ('weights', 'the weights %s come from none of the %d ways to train %d times, such as %s; %s' % (
                show(str(sorted(got.items())), 400), len(want), c['n'], show(str([(k, str(v)) for k, v in sorted(want[0].items())]), 400), desc))
        ts = [q for q in c['test'] if q and q[-1].startswith('.\t')]
        inp = ''.join(percep.text(q) + ('\0' if n else '') for q, n in zip(ts, c['nul']))
        r = self.tool(ctx, c, 'tagger', ['-x', '-g'] + ['-z'] * any(c['nul']) + [artpath('m.prob')], disk, inp.encode())
        if r.verdict != 'done' or r.acts[0]['status'] != 0:
            return ('fails', 'tagging %s: %s %s; %s' % (show(inp, 300), r.verdict, r.msg, desc))
        out = [u[1:-1] for y, u in tokens(r.outs[0].decode('utf-8', 'replace')) if y == 'lu']
        i = 0
        for q in ts:
            us = percep.units(q)
            g = tuple(out[i:i + len(us)]); i += len(us)
            ok = False
            for w in fits[:20]:
                s = percep.Sent(us, ft)
                for p in percep.tag(s, w, b):
                    if g == tuple('*' + u[0] if k is None else u[1][k] for u, k in zip(us, p)):
                        ok = True
            if not ok:
                s = percep.Sent(us, ft)
                return ('choice', '%s is tagged %s, the model prefers %s; %s' % (show(percep.text(q), 300), g, [tuple('*' + u[0] if k is None else u[1][k] for u, k in zip(us, p)) for p in percep.tag(s, fits[0], b)][:3], desc))


# ------------------------------------------------------------------ C12
class C17(C16):
    """capitalisation rules are compiled and applied as they say"""
    pid = 'C17'
    targets = ['caps', 'caps-k']
    quick = 20000
    thorough = 200000

    def extra_tools(self):
        return ['compile-caps', 'restore-caps']

    def gen(self, tn, r):
        import caps
        n = r.choice([1, 1, 2, 3])
        return {'target': tn, 'rules': caps.rules(r), 'reqs': [caps.words(r) for _ in range(n)], 'tails': [r.choice(['', '', '\n', ' [</b>]\n']) for _ in range(n)], 'pert': gen_pert(r, 1), 'nul': r.random() < .9 or n > 1}

    def shrinks(self, c):
        for x in Prop.shrinks(self, c):
            if len(x['reqs']) == len(x['tails']):
                yield x
        if len(c['reqs']) > 1:
            for i in range(len(c['reqs'])):
                yield dict(c, reqs=c['reqs'][:i] + c['reqs'][i + 1:], tails=c['tails'][:i] + c['tails'][i + 1:])
        if len(c['rules']) > 1:
            for i in range(len(c['rules'])):
                yield dict(c, rules=c['rules'][:i] + c['rules'][i + 1:])
        for i, (w, ns) in enumerate(c['rules']):
            for j in range(len(ns)):
                if len(ns) > 1:
                    yield dict(c, rules=c['rules'][:i] + [[w, ns[:j] + ns[j + 1:]]] + c['rules'][i + 1:])
                if ns[j][0] in ('or', 'rep'):
                    yield dict(c, rules=c['rules'][:i] + [[w, ns[:j] + ns[j][-1] + ns[j + 1:]]] + c['rules'][i + 1:])
                elif ns[j][0] == 'm':
                    for k in ns[j][1]:
                        m = {a: b for a, b in ns[j][1].items() if a != k}
                        yield dict(c, rules=c['rules'][:i] + [[w, ns[:j] + [['m', m]] + ns[j + 1:]]] + c['rules'][i + 1:])

    def judge(self, ctx, c):
        import caps
        keep = c['target'] == 'caps-k'
        x = caps.xml(c['rules'])
        fx, fb = artpath('c.crx'), artpath('c.bin')
        what = 'rules %s' % show(x[x.find('<rules>'):], 1500)
        r = self.tool(ctx, c, 'compile-caps', [fx, fb], {fx: x.encode()})
        if r.verdict != 'done' or r.acts[0]['status'] != 0 or fb not in r.disk:
            return ('compile', '%s: %s %s, status %s' % (what, r.verdict, r.msg, [a['status'] for a in r.acts]))
        inp = [caps.text(q, t) for q, t in zip(c['reqs'], c['tails'])]
        data = ''.join(q + ('\0' if c['nul'] else '') for q in inp)
        r = self.tool(ctx, c, 'restore-caps', ['-z'] * c['nul'] + ['-k'] * keep + [fb], {fb: r.disk[fb]}, data.encode())
        what += ', input %s' % show(data, 600)
        if r.verdict != 'done' or r.acts[0]['status'] != 0:
            return ('stuck', '%s: %s %s, status %s' % (what, r.verdict, r.msg, [a['status'] for a in r.acts]))
        got = r.outs[0].decode('utf-8', 'replace')
        got = got.split('\0')[:-1] if c['nul'] else [got]
        if len(got) != len(inp):
            return ('answers', '%s: %d answers: %s' % (what, len(got), show(r.outs[0], 400)))
        for q, t, o in zip(c['reqs'], c['tails'], got):
            exp, tail = caps.restore(c['rules'], q, t, keep)
            if len(exp) > 1:
                ctx.st.nontrivial.add(r.sched_hash)
            if not caps.accepts(exp, tail, o):
                return ('caps', '%s: %s came back as %s, the rules say %s' % (what, show(caps.text(q, t), 300), show(o, 300), show(''.join('|'.join(sorted(e)) for e in exp) + tail, 300)))


class C18(C16):
    """mode files say what modes.xml says, or the failure is reported"""
    pid = 'C18'
    targets = ['dev', 'rel', 'full', 'full-rel', 'full-local', 'fault', 'fault-full']
    quick = 20000
    thorough = 300000

    def extra_tools(self):
        return ['gen-modes']

    def gen(self, tn, r):
        import modes
        c = {'target': tn, 'modes': modes.draw(r), 'style': r.randrange(16), 'pert': gen_pert(r, 1), 'stale': r.random() < .4, 'verbose': r.random() < .1}
        if tn.startswith('fault'):
            c.update(kind=r.choice(['enospc', 'eio_write', 'eio_close', 'open_fail', 'open_enospc', 'quota', 'mkdir_fail']), which=r.randrange(100), frac=r.choice([0, .9999, r.random(), r.random()]))
        return c

    def shrinks(self, c):
        yield from Prop.shrinks(self, c)
        ms = c['modes']
        for k in ('style', 'stale', 'verbose'):
            if c[k]:
                yield dict(c, **{k: 0})
        for i, (n, ins, dbg, steps) in enumerate(ms):
            if len(ms) > 1:
                yield dict(c, modes=ms[:i] + ms[i + 1:])
            for j in range(len(steps)):
                if len(steps) > 1:
                    yield dict(c, modes=ms[:i] + [[n, ins, dbg, steps[:j] + steps[j + 1:]]] + ms[i + 1:])
                for k in range(len(steps[j][2])):
                    yield dict(c, modes=ms[:i] + [[n, ins, dbg, steps[:j] + [[steps[j][0], steps[j][1], steps[j][2][:k] + steps[j][2][k + 1:]]] + steps[j + 1:]]] + ms[i + 1:])

    def judge(self, ctx, c):
        import modes, posixpath
        tn = c['target']
        full = 'full' in tn
        src = 'modes.xml' if tn in ('rel', 'full-rel', 'full-local') else '/sim/x/modes.xml'
        inst = '/sim/inst/share'
        args = ['-v'] * c['verbose'] + ['-f'] * full + ['-l'] * (tn == 'full-local') + [src] + [inst] * full
        x = modes.xml(c['modes'], c['style'])
        outdir = posixpath.dirname(src) if full else posixpath.join(posixpath.dirname(src), 'modes')
        exp = {posixpath.join('.' if tn == 'full-local' else outdir, k): v for k, v in modes.reference(c['modes'], inst if full else posixpath.dirname(src), '/sim/cwd', full).items()}
        disk = {src: x.encode()}
        if c['stale']:
            disk.update({k: b'an older and much longer mode file | ' * 40 for k in sorted(exp)})
        kw, at, name = {}, 0, None
        if 'kind' in c:
            if not exp:
                return
            name = sorted(exp)[c['which'] % len(exp)]
            at = int(len(min(exp[name]).encode()) * c['frac'])
            if c['kind'] == 'quota':
                at = int(sum(len(min(v).encode()) for v in exp.values()) * c['frac'])
                kw['quota'] = at
            elif c['kind'] == 'mkdir_fail':
                kw['faults'] = [{'kind': 'mkdir_fail', 'actor': 0, 'path': '', 'at': 0}]
            else:
                kw['faults'] = [{'kind': c['kind'], 'actor': 0, 'path': name, 'at': at}]
        st, cl = pipeline([S('gen-modes', *args)], [('c',)])
        p = c['pert']
        spec = {'stages': st, 'clients': [cl], 'wantdisk': 1, 'cpu': 10, 'maxsteps': 2000000, 'disk': disk, 'seed': p['seed'], 'rate': p['rate'], 'junk': p['junk'], 'heapseed': p['heapseed'], **kw}
        if p['bufs']:
            st[0]['ibuf'], st[0]['obuf'] = p['bufs'][0]
        r = ctx.run(spec)
        ctx.last = r
        what = '%s of %s' % (' '.join(args), show(x, 1500))
        fired = sum(r.faults.get(k, 0) for k in ('enospc', 'eio_write', 'open_fail'))
        if r.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, r.verdict, r.msg))
        if fired:
            ctx.st.nontrivial.add((c['kind'], at, len(exp)))
            if r.acts[0]['status'] == 0:
                return ('silent', '%s with %s at byte %d of %s: exit status 0' % (what, c['kind'], at, name))
            if r.acts[0]['sig'] in (11, 7, 8):
                return ('signal', '%s with %s at byte %d of %s: signal %d' % (what, c['kind'], at, name, r.acts[0]['sig']))
            return
        if r.acts[0]['status'] != 0:
            return ('fails', '%s: exit status %d: %s' % (what, r.acts[0]['status'], r.acts[0]['err'][:200]))
        ctx.st.nontrivial.add(hash(x) & 0xffffffffff)
        got = {k: v.decode('utf-8', 'replace') for k, v in r.disk.items() if k != src}
        if set(got) != set(exp):
            return ('files', '%s wrote %s too many and not %s' % (what, sorted(set(got) - set(exp)), sorted(set(exp) - set(got))))
        for k in sorted(exp):
            if got[k] not in exp[k]:
                return ('mode', '%s: %s holds %s, expected %s' % (what, k, show(got[k], 600), show(min(exp[k]), 600)))


class C19(C16):
    """the parts of a .docx document: text moves between adjacent runs only"""
    pid = 'C19'
    targets = ['docx', 'docx-name', 'docx-file', 'docx-pretty']
    quick = 4000
    thorough = 60000

    def extra_tools(self):
        return ['adapt-docx']

    def gen(self, tn, r):
        import docx
        d = docx.draw(r)
        if tn == 'docx-file':
            d = d[:1]
        return {'target': tn, 'docs': d, 'sep': r.choice(['\n', '\n', ' ', '\n\n', '\t']), 'end': r.random() < .8, 'again': r.random() < .2, 'pert': gen_pert(r, 1), 'n': tn == 'docx-name' or tn != 'docx' and r.random() < .3}

    def shrinks(self, c):
        yield from Prop.shrinks(self, c)
        ds = c['docs']
        if c['again']:
            yield dict(c, again=False)
        if c['n']:
            yield dict(c, n=False)
        for i, d in enumerate(ds):
            if len(ds) > 1:
                yield dict(c, docs=ds[:i] + ds[i + 1:])
            if d[2] != 'ok':
                yield dict(c, docs=ds[:i] + [[d[0], d[1], 'ok', 0]] + ds[i + 1:])
            for m in reversed(list(re.finditer(r'(?s)<w:p>.*?</w:p>|<w:r>.*?</w:r>|<w:r w.*?</w:r>|<w:rPr.*?</w:rPr>|<w:rPr/>|<w:pPr.*?</w:pPr>|<!-- c -->|(?<=>)[^<]', d[1]))):
                yield dict(c, docs=ds[:i] + [[d[0], d[1][:m.start()] + d[1][m.end():], d[2], d[3]]] + ds[i + 1:])

    def judge(self, ctx, c):
        import docx
        tn, ds = c['target'], c['docs']
        disk, faults = {}, []
        for n, x, st, f in ds:
            b = x.encode()
            if st == 'cut':
                b = b[:int(len(b.rstrip()) * f)]
            if st != 'gone':
                disk[n] = b
            if st == 'open':
                faults.append({'kind': 'open_fail', 'actor': 0, 'path': n, 'at': 0})
            elif st == 'read':
                faults.append({'kind': 'eio_read', 'actor': 0, 'path': n, 'at': int(len(b) * f)})
        pretty, byfile = tn == 'docx-pretty', tn == 'docx-file'
        args = ['-n'] * c['n'] + ['-p'] * pretty + (['-f', ds[0][0]] if byfile else [])
        asked = ds * (2 if c['again'] and not byfile else 1)
        names = c['sep'].join(d[0] for d in asked) + '\n' * c['end']
        st, cl = pipeline([S('adapt-docx', *args)], [('s', b'' if byfile else names.encode()), ('c',)])
        p = c['pert']
        spec = {'stages': st, 'clients': [cl], 'cpu': 10, 'maxsteps': 2000000, 'disk': disk, 'faults': faults, 'seed': p['seed'], 'rate': p['rate'], 'junk': p['junk'], 'heapseed': p['heapseed']}
        if p['bufs']:
            st[0]['ibuf'], st[0]['obuf'] = p['bufs'][0]
        r = ctx.run(spec)
        ctx.last = r
        what = '%s of %s' % (' '.join(args), ' | '.join('%s (%s): %s' % (n, st, show(x, 700)) for n, x, st, f in ds))
        if r.verdict != 'done' or r.acts[0]['status'] != 0:
            return ('stuck', '%s: %s %s status %s' % (what, r.verdict, r.msg, r.acts[0]['status']))
        out = r.outs[0]
        if not out.endswith(b'\0') or b'\0' in out[:-1]:
            return ('nul', '%s: the answer does not end in one NUL: %s' % (what, show(out, 300)))
        if pretty:
            got = [x for x in re.split(rb'(?m)^(?=<\?xml|<file name="[^"]*"/> <\?xml)', out[:-1]) if x]
        else:
            got = out[:-1].split(b'\n')
            if got.pop() != b'':
                return ('lines', '%s: the last line does not end: %s' % (what, show(out, 300)))
        want = [d for d in asked if d[2] == 'ok']
        if len(got) != len(want):
            return ('lines', '%s: %d documents came out, expected %d: %s' % (what, len(got), len(want), show(out, 600)))
        bad = [d[0] for d in asked if d[2] != 'ok']
        err = r.acts[0]['err']
        for n in bad:
            if n not in (err if isinstance(err, str) else err.decode('utf-8', 'replace')):
                return ('silent', '%s: nothing says that %s could not be read: %s' % (what, n, err[:300]))
        for g, (n, x, _, _) in zip(got, want):
            pre = ('<file name="%s"/> ' % n).encode() if c['n'] else b''
            if not g.startswith(pre + b'<?xml'):
                return ('name', '%s: %s came out as %s' % (what, n, show(g, 200)))
            t = docx.parse(g[len(pre):])
            for loose in (False, True):
                exp, moved = docx.expected(x, loose)
                e = docx.diff(docx.bare(t), docx.bare(exp)) if pretty else docx.diff(t, exp)
                if not e:
                    break
            if moved:
                ctx.st.nontrivial.add(hash(x) & 0xffffffffff)
            if e:
                return ('text', '%s: %s: %s: %s' % (what, n, e, show(g, 900)))


NOFILES = ('cleanstream', 'wblank-attach', 'wblank-detach', 'wblank-mode')      # commands that only know standard input and output


def datafile(x):
    return isinstance(x, str) and x.startswith(('/sim/art/', os.path.join(DATA, '')))


class C20(Prop):
    """files named on the command line and null flush change how bytes are delivered, not which"""
    pid = 'C20'
    targets = [n for n in ALL if len(TARGETS[n].stages) == 1 and ('-z' in TARGETS[n].stages[0]['args'] or TARGETS[n].stages[0]['tool'] not in NOFILES)]
    quick = 2000
    thorough = 40000

    def gen(self, tn, r):
        t = TARGETS[tn]
        z = '-z' in t.stages[0]['args']
        files = t.stages[0]['tool'] not in NOFILES
        m = r.choice((['in', 'inout', 'inout', 'gone', 'noopen', 'nowrite'] if files else []) + ['noz'] * 2 * z + ['noz-inout'] * (z and files))
        n = r.choice([1, 2, 3]) if t.nul and m not in ('noz', 'noz-inout') else 1
        return {'target': tn, 'reqs': gen_reqs(t, r, n), 'mode': m, 'stale': r.random() < .5, 'final': r.random() < .8, 'pert': gen_pert(r, 1)}

    def shrinks(self, case):
        yield from Prop.shrinks(self, case)
        if case['stale']:
            yield dict(case, stale=False)

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        m = c['mode']
        q = reqbytes(t, c)
        data = b''.join(x + b'\0' for x in q) if t.nul else b''.join(q)
        noz = m.startswith('noz')
        if t.nul and not c['final'] and not noz:
            data = data[:-1]
        ref = ctx.run(make_spec(ctx, t, [('s', data)]))
        if ref.verdict != 'done':
            return ('stuck', 'input %s: %s %s' % (show(data, 400), ref.verdict, ref.msg))
        u = copy.copy(t)
        st = dict(t.stages[0]); args = list(st['args'])
        want = ref.outs[0]
        if noz:
            args = [a for a in args if a != '-z']
            data = data[:-1]
            want = want.rstrip(b'\0')
        disk = ctx.w.disk(t); faults = []
        files = m not in ('noz',)
        if files:
            args.append('/sim/in')
            if m != 'gone':
                disk['/sim/in'] = data
            if m in ('inout', 'noz-inout', 'nowrite'):
                args.append('/sim/out')
                if c['stale']:
                    disk['/sim/out'] = b'an older answer ' * 200
            if m == 'noopen':
                faults = [{'kind': 'open_fail', 'actor': 0, 'path': '/sim/in', 'at': 0}]
            elif m == 'nowrite':
                faults = [{'kind': 'open_fail', 'actor': 0, 'path': '/sim/out', 'at': 0}]
        st['args'] = args
        u.stages = [st]
        p = ctx.run(make_spec(ctx, u, [('c',)] if files else [('s', data)], c['pert'], faults=faults, maxsteps=10 * steps_budget(len(data), 1), disk=disk, wantdisk=1))
        ctx.last = p
        what = '%s %s on %s' % (st['tool'], ' '.join(str(a) for a in args), show(data, 400))
        if p.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, p.verdict, p.msg))
        if m in ('gone', 'noopen', 'nowrite'):
            if m == 'gone' or sum(p.faults.get(k, 0) for k in ('open_fail',)):
                ctx.st.nontrivial.add((m, p.sched_hash))
                if p.acts[0]['status'] == 0:
                    return ('silent', '%s ends with status 0 although the file cannot be opened' % what)
            return
        out = p.outs[0]
        if m in ('inout', 'noz-inout'):
            if out:
                return ('both', '%s writes %s to standard output as well' % (what, show(out, 200)))
            out = p.disk.get('/sim/out', b'')
        if files and p.disk.get('/sim/in') != data:
            return ('input', '%s: the input file was changed' % what)
        if noz:
            out = out.rstrip(b'\0')
        if want:
            ctx.st.nontrivial.add(p.sched_hash)
        if out != want or p.acts[0]['status'] != ref.acts[0]['status']:
            return ('differs', '%s answers %s (status %s), from standard input%s %s (status %s)' % (what, show(out, 400), p.acts[0]['status'], ' with -z' * noz, show(want, 400), ref.acts[0]['status']))


def mbread(b, i):
    """a number as lttoolbox writes it: the two highest bits say how many bytes follow"""
    if i >= len(b):
        return None, i
    k = b[i] >> 6
    if i + k >= len(b):
        return None, i
    v = b[i] & 63
    for j in range(k):
        v = v << 8 | b[i + 1 + j]
    return v, i + 1 + k


@functools.lru_cache(None)
def optional_tails(b):
    """where the last part of an HMM or LSW model (its discard rules), which may be absent, can begin"""
    r = set()
    for i in range(max(0, len(b) - 4000), len(b)):
        n, j = mbread(b, i)
        if not n or n > 500:
            continue
        while n and j < len(b):
            m, j = mbread(b, j)
            if m is None:
                break
            while m and j is not None:
                v, j2 = mbread(b, j)
                if v is None:
                    j = None
                    break
                m -= 1; j = j2
            if j is None:
                break
            n -= 1
        if n == 0 and j == len(b):
            r.add(i)
    return r


class C21(Prop):
    """a data file that is missing, unreadable or incomplete is reported, never used"""
    pid = 'C21'
    targets = [n for n in ALL if n != 'tagger-auto-x' and len(TARGETS[n].stages) == 1 and any(datafile(x) for x in TARGETS[n].stages[0]['args'])] + ['make:' + a for a in ARTN]
    quick = 2000
    thorough = 40000
    level = 'fault_enumeration'

    def need(self):
        return [n for n in self.targets if n in TARGETS]

    extra_tools = C06.extra_tools

    def gen(self, tn, r):
        c = {'target': tn, 'file': r.randrange(60), 'mode': r.choice(['missing', 'open_fail', 'eio', 'eio', 'cut', 'cut', 'cut', 'cut', 'end', 'empty', 'whole']), 'frac': r.random(), 'stale': r.random() < .3, 'pert': gen_pert(r, 1)}
        if tn in TARGETS:
            c['reqs'] = gen_reqs(TARGETS[tn], r, r.choice([1, 1, 2]) if TARGETS[tn].nul else 1, small=True)
        return c

    def shrinks(self, case):
        if 'reqs' in case:
            yield from Prop.shrinks(self, case)
        elif case['pert'] != NOPERT:
            yield dict(case, pert=NOPERT)
        if case['stale']:
            yield dict(case, stale=False)

    def judge(self, ctx, c):
        tn = c['target']; m = c['mode']; p = c['pert']
        a = tn[5:] if tn.startswith('make:') else None
        try:
            if a:
                tool, args = ARTS[a][:2]
                args = [artpath(a) if x == '@O' else x for x in args]
                disk = dict(ctx.w.artdisk(a))
                made = artpath(a) if artpath(a) not in disk else None
            else:
                t = TARGETS[tn]
                tool, args, disk, made = t.stages[0]['tool'], list(t.stages[0]['args']), ctx.w.disk(t), None
        except ArtError:
            return None                 # C07's to report
        files = sorted({x for x in args if datafile(x) and x != made})
        inner = {}              # files that a data file names
        for x in files:
            if x.endswith('.mtx'):
                inner.update((os.path.join(os.path.dirname(x), y), x) for y in re.findall(r'coarse-tags tag="([^"/]+)"', open(x).read()))
        files += sorted(inner)
        f = files[c['file'] % len(files)]
        b = disk.pop(f, None)
        binary = b is not None
        if b is None:
            b = open(f, 'rb').read()
        # text: an incomplete corpus is a corpus, and lttoolbox's InputFile asks a file that fails for ever
        xml = not binary and f.rsplit('.', 1)[1] in ('t1x', 't2x', 't3x', 'tsx', 'crx', 'mtx', 'xml')
        if not binary and not xml and m in ('eio', 'cut', 'end', 'empty'):
            m = ('missing', 'open_fail')[c['file'] & 1]
        name = '/sim/in' + ('' if binary else '.' + f.rsplit('.', 1)[1])
        args = [name if x == f else x for x in args]
        if f in inner:
            name = '/sim/' + os.path.basename(f)
            disk['/sim/in.mtx'] = open(inner[f], 'rb').read()
            args = ['/sim/in.mtx' if x == inner[f] else x for x in args]
        if name.endswith('.mtx'):           # names its .tsx relative to itself
            for x in os.listdir(DATA):
                if x.endswith('.tsx'):
                    disk['/sim/' + x] = open(os.path.join(DATA, x), 'rb').read()
        faults = []
        end = len(b if binary else b.rstrip())
        at = {'end': end - 1, 'empty': 0}.get(m, int(end * c['frac']))
        if m in ('cut', 'end', 'empty'):
            if f.endswith('.prob') and at in optional_tails(b):
                return
            disk[name] = b[:at]
        elif m == 'whole':
            disk[name] = b
        elif m != 'missing':
            disk[name] = b
            faults = [{'kind': 'open_fail' if m == 'open_fail' else 'eio_read', 'actor': 0, 'path': name, 'at': 0 if m == 'open_fail' else at}]
        if c['stale'] and made:
            disk[made] = b'an older file'
        before = disk.get(name)
        kw = dict(disk=disk, wantdisk=1, maxsteps=50000000, maxmem=256 << 20, cpu=20)
        if a:
            st, cl = pipeline([S(tool, *args)], [('c',)])
            sp = {'stages': st, 'clients': [cl], 'seed': p['seed'], 'rate': p['rate'], 'junk': p['junk'], 'heapseed': p['heapseed'], 'faults': faults, **kw}
            if 'replay' in p:
                sp['replay'] = p['replay']
            if p['bufs']:
                sp['stages'][0]['ibuf'], sp['stages'][0]['obuf'] = p['bufs'][0]
        else:
            u = copy.copy(t); u.stages = [dict(t.stages[0], args=args)]
            q = reqbytes(t, c)
            sp = make_spec(ctx, u, [('s', b''.join(x + b'\0' for x in q) if t.nul else b''.join(q))], p, faults=faults, **kw)
        r = ctx.run(sp)
        ctx.last = r
        what = '%s %s with %s %s' % (tool, ' '.join(str(x) for x in args), f, {'missing': 'missing', 'whole': 'whole', 'open_fail': 'that cannot be opened', 'eio': 'failing with EIO at byte %d of %d' % (at, len(b))}.get(m, 'ending after byte %d of %d' % (at, len(b))))
        if faults and not sum(r.faults.get(k, 0) for k in ('open_fail', 'eio_read')):
            return
        ctx.st.nontrivial.add((tn, f, m, at))
        # a crash is no answer either: what counts is that nobody takes the result for one
        if m != 'whole' and r.verdict in ('signal', 'assert', 'mem'):
            return
        if r.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, r.verdict, r.msg))
        if m == 'whole':
            if r.acts[0]['status']:
                return ('refused', '%s: exit status %d although the file is whole: %s' % (what, r.acts[0]['status'], r.acts[0]['err'][:300]))
        elif r.acts[0]['status'] == 0:
            return ('silent', '%s: exit status 0, output %s' % (what, show(r.outs[0] if r.outs else b'', 300)))
        if m != 'whole' and r.disk.get(name) != before:
            return ('changed', '%s: the file itself was changed' % what)
        if m != 'whole' and a and made and tool != 'filter-ambiguity' and r.disk.get(made) != disk.get(made):     # (a filter: opens its output first)
            return ('left', '%s: exit status %s, and %s in place of the older file' % (what, r.acts[0]['status'], show(r.disk.get(made) or b'', 100)))


class C22(Prop):
    """output that cannot be written is reported"""
    pid = 'C22'
    # commands that print something about a file; what they need, and what they print it about
    PRINT = {'print-model': ('hx.prob', 'perceptron-trace', ['model', artpath('hx.prob')]),
             'print-mtx': (None, 'perceptron-trace', ['mtx', os.path.join(DATA, 'h.mtx')]),
             'print-path': (None, 'perceptron-trace', ['path', os.path.join(DATA, 'gen.mtx'), os.path.join(DATA, 'h.untagged'), os.path.join(DATA, 'h.tagged')]),
             'print-dic': (None, 'filter-ambiguity', [os.path.join(DATA, 'h.tsx'), os.path.join(DATA, 'h.dic')]),
             'print-docx': (None, 'adapt-docx', ['-n', '-f', '/sim/d.xml'])}
    targets = [n for n in ALL if len(TARGETS[n].stages) == 1] + list(PRINT)
    quick = 2000
    thorough = 40000
    level = 'fault_enumeration'

    def need(self):
        return [n for n in self.targets if n in TARGETS]

    def extra_tools(self):
        return ['perceptron-trace', 'filter-ambiguity', 'adapt-docx'] + C06.extra_tools(self)

    def gen(self, tn, r):
        if tn in self.PRINT:
            c = {'target': tn, 'kind': r.choice(['enospc', 'eio_write']), 'frac': r.choice([0, r.random(), r.random(), 1]), 'pert': gen_pert(r, 1)}
            if tn == 'print-docx':
                import docx
                c['doc'] = docx.part(r)
            return c
        t = TARGETS[tn]
        files = t.stages[0]['tool'] not in NOFILES
        return {'target': tn, 'reqs': gen_reqs(t, r, r.choice([1, 1, 2, 3]) if t.nul else 1), 'kind': r.choice(['enospc', 'eio_write', 'quota' if files else 'enospc']),
                'file': files and r.random() < .4, 'frac': r.choice([0, r.random(), r.random(), 1]), 'pert': gen_pert(r, 1)}

    def shrinks(self, c):
        if c['target'] not in self.PRINT:
            yield from Prop.shrinks(self, c)
        elif c['pert'] != NOPERT:
            yield dict(c, pert=NOPERT)

    def judge_print(self, ctx, c):
        art, tool, args = self.PRINT[c['target']]
        disk = {}
        if art:
            try:
                disk = {artpath(art): ctx.w.art(art)}
            except ArtError:
                return None             # C07's to report
        if 'doc' in c:
            disk['/sim/d.xml'] = c['doc'].encode()
        st, cl = pipeline([S(tool, *args)], [('c',)])
        sp = {'stages': st, 'clients': [cl], 'seed': 0, 'rate': {}, 'disk': disk, 'wantdisk': 1, 'maxsteps': 50000000, 'maxmem': 512 << 20, 'cpu': 60}
        ref = ctx.run(sp)
        what = '%s %s' % (tool, ' '.join(args))
        if ref.verdict != 'done' or ref.acts[0]['status'] or not ref.outs[0]:
            return ('stuck', '%s: %s %s, status %s, output %s' % (what, ref.verdict, ref.msg, [a['status'] for a in ref.acts], show(ref.outs[0] if ref.outs else b'', 100)))
        want = ref.outs[0]
        at = min(len(want) - 1, int(c['frac'] * len(want)))
        p = c['pert']
        sp = dict(sp, seed=p['seed'], rate=p['rate'], junk=p['junk'], heapseed=p['heapseed'], faults=[{'kind': c['kind'], 'actor': 0, 'path': '', 'at': at}])
        if 'replay' in p:
            sp['replay'] = p['replay']
        if p['bufs']:
            sp['stages'][0]['ibuf'], sp['stages'][0]['obuf'] = p['bufs'][0]
        r = ctx.run(sp)
        ctx.last = r
        what += ', %s after byte %d of %d' % (c['kind'], at, len(want))
        if r.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, r.verdict, r.msg))
        if not sum(r.faults.get(k, 0) for k in ('enospc', 'eio_write')):
            return ('nofault', '%s: the whole output was never written' % what)
        ctx.st.nontrivial.add(r.sched_hash)
        if r.acts[0]['status'] == 0:
            return ('silent', '%s: exit status 0' % what)
        if r.acts[0]['sig']:
            return ('signal', '%s: signal %d' % (what, r.acts[0]['sig']))
        if not want.startswith(r.outs[0]):
            return ('prefix', '%s: what was written, %s, is not the beginning of %s' % (what, show(r.outs[0], 300), show(want, 300)))

    def judge(self, ctx, c):
        if c['target'] in self.PRINT:
            return self.judge_print(ctx, c)
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        data = b''.join(x + b'\0' for x in q) if t.nul else b''.join(q)
        ref = ctx.run(make_spec(ctx, t, [('s', data)]))
        if ref.verdict != 'done':
            return ('stuck', 'input %s: %s %s' % (show(data, 400), ref.verdict, ref.msg))
        want = ref.outs[0]
        if not want or ref.acts[0]['status']:
            return
        at = min(len(want) - 1, int(c['frac'] * len(want)))
        kind = c['kind']
        u = copy.copy(t); st = dict(t.stages[0]); args = list(st['args'])
        disk = ctx.w.disk(t); kw = {}
        named = c['file'] or kind == 'quota'
        if named:
            args += ['/sim/in', '/sim/out']
            disk['/sim/in'] = data
        st['args'] = args; u.stages = [st]
        if kind == 'quota':
            kw['quota'] = sum(len(b) for b in disk.values()) + at
        else:
            kw['faults'] = [{'kind': kind, 'actor': 0, 'path': '/sim/out' if named else '', 'at': at}]
        p = ctx.run(make_spec(ctx, u, [('c',)] if named else [('s', data)], c['pert'], maxsteps=10 * steps_budget(len(data), 1), disk=disk, wantdisk=1, **kw))
        ctx.last = p
        what = '%s %s on %s, %s after byte %d of %d' % (st['tool'], ' '.join(str(a) for a in args), show(data, 400), kind, at, len(want))
        if p.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, p.verdict, p.msg))
        if not sum(p.faults.get(k, 0) for k in ('enospc', 'eio_write')):
            return ('nofault', '%s: the whole output was never written' % what)
        ctx.st.nontrivial.add(p.sched_hash)
        if p.acts[0]['status'] == 0:
            return ('silent', '%s: exit status 0' % what)
        if p.acts[0]['sig']:
            return ('signal', '%s: signal %d' % (what, p.acts[0]['sig']))
        out = p.disk.get('/sim/out', b'') if named else p.outs[0]
        if not want.startswith(out):
            return ('prefix', '%s: what was written, %s, is not the beginning of %s' % (what, show(out, 300), show(want, 300)))


class C23(Prop):
    """translation memories: the segments of two documents, paired in order"""
    pid = 'C23'
    targets = ['tmx', 'tmx-file', 'tmx-fault']
    quick = 20000
    thorough = 200000
    FAULTS = ['gone', 'open_in', 'open_out', 'open_tmp', 'enospc', 'eio_write']

    def extra_tools(self):
        return ['tmxbuild']

    def gen(self, tn, r):
        import tmx
        a, b, e1, e2 = tmx.draw(r)
        langs = r.choice([['en', 'es'], ['eng', 'spa'], ['x-a', 'x-b'], ['en', 'en']])
        opts = r.choice([[], [], [], ['-m', '20'], ['-p', '0.5'], ['-e', '0.9', '-w', '10', '-s', '7'], ['-l', '3', '-d', '4']])
        c = {'target': tn, 'a': a, 'b': b, 'ends': [e1, e2], 'langs': langs, 'opts': opts, 'pert': gen_pert(r, 1), 'old': r.random() < .4}
        if tn == 'tmx-fault':
            k = r.choice(self.FAULTS)
            c['fault'] = [k, r.choice(['/sim/a', '/sim/b'] if k in ('gone', 'open_in') else ['/sim/out'] if k == 'open_out' else ['tmp0', 'tmp1', 'tmp2'] if k == 'open_tmp' else ['', '/sim/out', 'tmp0', 'tmp1', 'tmp2']), r.random()]
        return c

    def shrinks(self, c):
        yield from Prop.shrinks(self, c)
        if c['opts']:
            yield dict(c, opts=[])
        if c['ends'] != ['', '']:
            yield dict(c, ends=['', ''])
        for i in range(max(len(c['a']), len(c['b']))):
            yield dict(c, a=c['a'][:i] + c['a'][i + 1:], b=c['b'][:i] + c['b'][i + 1:])
        for k in 'ab':
            for i in range(len(c[k])):
                yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
            for i, x in enumerate(c[k]):
                for m in re.finditer(r'\[[^\]]*\]|(?<![\\\[\]])[^\s.?!\[\]\\]+\s', x):
                    yield dict(c, **{k: c[k][:i] + [x[:m.start()] + x[m.end():]] + c[k][i + 1:]})

    def judge(self, ctx, c):
        import tmx
        a, b = (''.join(c[k]) + e for k, e in zip('ab', c['ends']))
        tn = c['target']
        f = c.get('fault')
        named = tn == 'tmx-file' or f and f[1] == '/sim/out'
        st, cl = pipeline([S('tmxbuild', *c['opts'], *c['langs'], '/sim/a', '/sim/b', *(['/sim/out'] if named else []))], [('c',)])
        p = c['pert']
        disk = {'/sim/a': a.encode(), '/sim/b': b.encode()}
        if named and c['old']:
            disk['/sim/out'] = b'older text\n' * 400
        base = {'stages': st, 'clients': [cl], 'cpu': 10, 'maxsteps': 20000000, 'disk': disk, 'seed': p['seed'], 'rate': p['rate'], 'junk': p['junk'], 'heapseed': p['heapseed'], 'wantdisk': 1}
        if p['bufs']:
            st[0]['ibuf'], st[0]['obuf'] = p['bufs'][0]
        what = 'tmxbuild %s of %r and %r' % (' '.join(c['opts']), a[:600], b[:600])
        x = ctx.run(base)
        ctx.last = x
        if x.verdict != 'done' or x.acts[0]['status']:
            return ('stuck', '%s: %s %s status %s: %s' % (what, x.verdict, x.msg, x.acts[0]['status'], str(x.acts[0]['err'])[:200]))
        got = (x.disk.get('/sim/out', b'') if named else x.outs[0])
        if named and x.outs[0]:
            return ('stdout', '%s: text on standard output: %s' % (what, show(x.outs[0], 200)))
        left = sorted(set(x.disk) - set(disk) - {'/sim/out', '/dev/null'})
        if left:
            return ('left', '%s: leaves %s behind' % (what, left))
        v = re.search(rb'creationtoolversion="([^"]*)"', got)
        us = tmx.units(a, b)
        want = tmx.tmx(c['langs'][0], c['langs'][1], us, v.group(1).decode() if v else '?').encode()
        if got != want:
            n = next((i for i, (y, z) in enumerate(zip(got, want)) if y != z), min(len(got), len(want)))
            return ('text', '%s: %s where %s is owed' % (what, show(got[max(0, n - 80):n + 200], 400), show(want[max(0, n - 80):n + 200], 400)))
        if us:
            ctx.st.nontrivial.add(hash(want) & 0xffffffffff)
        if not f:
            return
        k, path, frac = f
        d = dict(disk)
        faults = []
        size = len(want)
        if path.startswith('tmp'):
            i = int(path[3])
            if i == 2 and tmx.unlike(tmx.lines(tmx.segments(a)), tmx.lines(tmx.segments(b))):
                return
            size = [len(''.join(y + '\n' for y in tmx.segments(z)).encode()) for z in (a, b)][i] if i < 2 else 1 if us else 0
            path = '/tmp/file%06d' % (i + 1)
        at = int(frac * size)
        if k == 'gone':
            del d[path]
        elif k.startswith('open'):
            faults = [{'kind': 'open_fail', 'actor': 0, 'path': path, 'at': 0}]
        else:
            if at >= size:
                return
            faults = [{'kind': k, 'actor': 0, 'path': path, 'at': at}]
        y = ctx.run(dict(base, disk=d, faults=faults))
        ctx.last = y
        what += ', %s of %s at %d' % (k, path or 'standard output', at)
        if y.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, y.verdict, y.msg))
        left = sorted(z for z in y.disk if z.startswith('/tmp/'))
        if left:
            return ('left', '%s: leaves %s behind' % (what, left))
        if k != 'gone' and not sum(y.faults.values()):
            if path.startswith('/tmp/'):
                return          # another name, or not that much in it
            return ('nofault', '%s: the fault was never met' % what)
        if y.acts[0]['status'] == 0:
            return ('silent', '%s: exit status 0' % what)
        if y.acts[0]['sig']:
            return ('signal', '%s: signal %d' % (what, y.acts[0]['sig']))


class C24(C13):
    """tracing describes the run and does not change it"""
    pid = 'C24'
    targets = [n for n in RULED if not RULED[n][4:] and TARGETS[n].nul and not set('tT') & {x[1:] for x in TARGETS[n].stages[0]['args'] if isinstance(x, str)}] \
        + list(FRESH) + [n for n in NUL if TARGETS[n].tg and 'tagger' == TARGETS[n].stages[0]['tool']]
    quick = 4000
    thorough = 80000

    def extra_tools(self):
        return C13.extra_tools(self) + ['tagger']

    def gen(self, tn, r):
        if tn in FRESH or tn in RULED:
            c = C13.gen(self, tn, r)
            c['reqs'] = c['reqs'][:4]
            c['trace'] = r.choice(['-t', '-t', '-t', '-T']) if 't1' in tn or 'transfer' in tn else '-t'
        else:
            c = {'target': tn, 'reqs': gen_reqs(TARGETS[tn], r, r.choice([1, 1, 2, 4])), 'pert': gen_pert(r, 1), 'trace': '-d'}
        return c

    def judge(self, ctx, c):
        import rules
        tn = c['target']; kw = {}
        R = I = None
        if tn in FRESH:
            t = freshtarget(tn)
            I, disk = self.fresh(ctx, tn, c['rules'])
            if disk is None:
                return I
            kw['disk'] = disk
            src = disk['/sim/r.' + FRESH[tn][2]].decode()
        else:
            t = TARGETS[tn]
            if tn in RULED:
                R = RULED[tn]
                src = open(R[0]).read()
                if R[2] != 'bil':
                    I = rules.Rules(*R[:4])
        q = reqbytes(t, c)
        if any(balanced(x.decode('utf-8', 'replace')) for x in q):
            return None
        a, out = session(ctx, t, q, c['pert'], **kw)
        if out is None:
            return                          # C13's and C05's to report
        u = copy.copy(t)
        s0 = t.stages[0]
        u.stages = [dict(s0, args=s0['args'][:1] + [c['trace']] + s0['args'][1:])]
        if s0['args'][0] != '-z':
            u.stages[0]['args'] = [c['trace']] + list(s0['args'])
        b, got = session(ctx, u, q, c['pert'], **kw)
        what = '%s on requests %s' % (' '.join([s0['tool']] + [x if isinstance(x, str) else '(data)' for x in u.stages[0]['args']]), show(q, 500))
        if got is None:
            return ('stuck', '%s: %s %s' % (what, b.verdict, b.msg))
        if got != out or a.acts[0]['status'] != b.acts[0]['status']:
            return ('changed', '%s: the answers are %s, without the option %s' % (what, show(got, 500), show(out, 500)))
        if I is None:
            ctx.st.nontrivial.add(b.sched_hash)
            return
        err = b.acts[0]['err']
        whole = len(err) < 60000
        text = re.sub(r'<!--.*?-->', lambda m: '\n' * m.group(0).count('\n'), src, flags=re.S)
        line = [text.count('\n', 0, m.end()) + 1 for m in re.finditer(r'<rule\b[^>]*>', text)]
        want = []
        for x in q:
            I.run(x.decode(), want)
        if tn in FRESH and 't1' not in tn or R and R[1] != 't1x':
            want = [x for x in want if x[0] == 'm']
        have = [(k == 'Applied' and 'a' or 'm', int(n) - 1, int(l), w) for k, n, l, w in re.findall(r'^apertium-\w+: (?:(Applied|Matched) r|R)ule (\d+) line (\d+)(.*?)(?=\n\napertium-|\Z)', err, re.M | re.S)]
        if I.hits:
            ctx.st.nontrivial.add(b.sched_hash)
        for i, x in enumerate(want):
            if i >= len(have):
                if whole:
                    return ('trace', '%s: the trace ends before rule %d %s' % (what, x[1] + 1, show(' '.join(x[2]), 200)))
                break
            y = have[i]
            if not whole and i == len(have) - 1:
                break
            at, ok = 0, x[0] == y[0] and x[1] == y[1] and line[x[1]] == y[2]
            for w in x[2]:
                w = rules.split_unescaped(w, '{')[0]       # the trace shows the blanks of a chunk too
                at = y[3].find(w, at)
                if at < 0:
                    ok = False
                    break
                at += len(w)
            if not ok:
                return ('trace', '%s: line %d of the trace is %s rule %d line %d%s; the rules %s rule %d line %d on %s' % (
                    what, i + 1, y[0], y[1] + 1, y[2], show(y[3], 200), 'apply' if x[0] == 'a' else 'match', x[1] + 1, line[x[1]], show(' '.join(x[2]), 200)))
        if whole and len(have) > len(want):
            return ('trace', '%s: the trace names one rule more: %s' % (what, have[len(want)]))


class C26(Prop):
    """a source file with a mistake in it is refused"""
    pid = 'C26'
    targets = ['t1x', 't2x', 't3x', 'crx', 'tsx', 'mtx']
    quick = 20000
    thorough = 200000
    level = 'exploration'

    def need(self):
        return []

    def extra_tools(self):
        return ['preprocess-transfer', 'compile-caps', 'tagger', 'filter-ambiguity']

    MISTAKES = {'t': ['cat', 'attr', 'noattr', 'macro', 'tag', 'xml', None], 'c': ['lemma', 'surface', 'select', 'repeat', 'negative', 'tag', 'xml', None],
                's': ['label', 'mult', 'tag', 'item', 'xml', None], 'm': ['var', 'macro', 'const', 'tag', 'type', 'xml', None]}

    def gen(self, tn, r):
        import caps
        c = {'target': tn, 'mistake': r.choice(self.MISTAKES[tn[0] if tn not in ('tsx', 'mtx') else tn[1] if tn == 'tsx' else 'm']), 'n': r.randrange(1 << 30), 'at': r.randrange(1 << 30), 'stale': r.random() < .6, 'lines': r.random() < .5, 'notes': r.choice([0, r.randrange(1, 1 << 30)]), 'pert': gen_pert(r, 1)}
        if tn == 'crx':
            c['rules'] = caps.rules(r)
        return c

    def shrinks(self, c):
        if c['pert'] != NOPERT:
            yield dict(c, pert=NOPERT)
        for k, v in (('stale', False), ('lines', False), ('notes', 0)):
            if c.get(k):
                yield dict(c, **{k: v})
        for k in (0, c['n'] // 2):
            if k != c['n']:
                yield dict(c, n=k)
        if c['at'] > 300:
            yield dict(c, at=c['at'] % 97)
            yield dict(c, at=c['at'] % 17)
        if c.get('rules') and len(c['rules']) > 1:
            for i in range(len(c['rules'])):
                yield dict(c, rules=c['rules'][:i] + c['rules'][i + 1:])

    def source(self, c):
        """the text of the case, without the mistake"""
        import caps, rulegen
        tn, n = c['target'], c['n']
        if tn == 'crx':
            return caps.xml(c['rules'])
        if tn in ('tsx', 'mtx'):
            fs = ['gen.tsx', 'h.tsx'] if tn == 'tsx' else ['gen.mtx', 'h.mtx', 'hg.mtx']
            return open(os.path.join(DATA, fs[n % len(fs)])).read()
        fs = [f for f in rulegen.FILES + ['gen.' + tn] if f.endswith(tn)]
        if n % 2:
            return open(os.path.join(DATA, fs[n // 2 % len(fs)])).read()
        return rulegen.fresh(n // 2 % 100000, tn, 'chunk')

    def spoil(self, c, s):
        """the text with the mistake, where the mistake is, or None"""
        tn, m, at = c['target'], c['mistake'], c['at']

        def sub(rx, f, lo=0, hi=None):
            ms = [x for x in re.compile(rx).finditer(s, lo, len(s) if hi is None else hi)]
            if not ms:
                return
            x = ms[at % len(ms)]
            y = f(x)
            return s[:x.start()] + y + s[x.end():], x.end() if len(y) > len(x.group()) and y.startswith(x.group()) else x.start()
        ins = lambda t: lambda x: x.group() + t
        if m == 'xml':
            return [lambda: sub(r'</[a-z-]+>', lambda x: ''), lambda: sub(r'</[a-z-]+>', lambda x: '</nothing>'), lambda: sub(r'(?<=[\w"/])>', lambda x: ''),
                    lambda: sub(r'="[^"<&]*"', lambda x: x.group()[:-1]), lambda: sub(r'="', lambda x: '"'), lambda: sub(r'="', lambda x: '="&nothing;')][at // 1000 % 6]()
        if tn in ('t1x', 't2x', 't3x'):
            lo = s.find('<section-rules')
            if m == 'cat':
                return sub(r'<pattern-item n="[^"]*"', lambda x: x.group()[:-1] + 'nothing"')
            if m == 'attr':
                return sub(r'(<clip [^>]*part=")([^"]*)"', lambda x: x.group(1) + 'nothing"', lo)
            if m == 'noattr':
                return sub(r'(<clip [^>]*)part="([^"]*)"', lambda x: x.group(1), lo)
            if m == 'macro':
                return sub(r'(?s)<def-macro .*?</def-macro>', lambda x: x.group() * 2)
            return sub(r'<(def-cat|def-attr|def-list) [^/>]*>|<section-def-(cats|attrs|vars|lists)>', ins('<nothing/>'), 0, lo)
        if tn == 'crx':
            if m == 'tag':
                return sub(r'<(rule|or|repeat)\b[^/>]*>', ins('<nothing/>'))
            if m in ('lemma', 'surface'):
                o = {'lemma': 'trglem', 'surface': 'trgsurf'}[m]
                return sub(r'<match', ins(' %s="ab" %s="aa"' % (m, o))) if not re.search(' (%s|%s)=' % (m, o), s) else None
            if m == 'select':
                return sub(r' select="[^"]*"', lambda x: ' select="nothing"')
            return sub(r'<repeat from="(\d+)" upto="(\d+)"', lambda x: '<repeat from="%d" upto="%s"' % ((int(x.group(2)) + 1, x.group(2)) if m == 'repeat' else (-1, x.group(2))))
        if tn == 'tsx':
            if m == 'label':
                return sub(r'(?s)<def-label .*?</def-label>', lambda x: x.group() * 2)
            if m == 'mult':
                return sub(r'(?s)<def-mult .*?</def-mult>', lambda x: x.group() * 2)
            if m == 'item':
                return sub(r'<label-sequence>(<label-item[^>]*/>)?', ins('<tags-item tags="n"/>'))
            return sub(r'<(tagset|def-label [^>]*|def-mult [^>]*|forbid|enforce-rules|preferences|discard-on-ambiguity)>', ins('<nothing/>'))
        if m == 'var':
            return sub(r'<var name="[^"]*"', lambda x: '<var name="nothing"')
        if m == 'macro':
            return sub(r'<macro name="[^"]*"', lambda x: '<macro name="nothing"')
        if m == 'const':
            return sub(r'<join name="[^"]*"', lambda x: '<join name="nothing"')
        if m == 'type':
            return [lambda: sub(r'<wrdaddr/>', lambda x: '<int val="1"/>'), lambda: sub(r'<tokaddr/>', lambda x: '<wrdaddr/>'), lambda: sub(r'<pred>', ins('<int val="1"/>')), lambda: sub(r'<sentlen/>', lambda x: '<macro name="coarse"><wrdaddr/></macro>') if 'name="coarse"' in s else None,
                    lambda: sub(r'<pred>', ins('<macro name="tags"><wrdaddr/></macro>')) if 'name="tags"' in s or 'as="tags"' in s else None][at // 1000 % 5]()
        return sub(r'<(feats|feat|out|defns|pred|not|and|or)>', ins('<nothing/>'))

    def judge(self, ctx, c):
        import rulegen
        tn, p = c['target'], c['pert']
        s = self.source(c)
        plain = s
        if c['lines']:
            s = s.replace('><', '>\n<')
        if c.get('notes') and not c['mistake']:
            s = rulegen.notes(s, c['notes'])
        line = None
        if c['mistake']:
            x = self.spoil(c, s)
            if x is None or x[0] == s:
                return
            s, line = x[0], s.count('\n', 0, x[1]) + 1
        name, out = '/sim/art/in.' + tn, '/sim/art/out.bin'
        disk = {name: s.encode()}
        rd = lambda f: open(os.path.join(DATA, f), 'rb').read()
        h = 'h' if '<tagger name="h"' in s or 'h.tsx' in s else 'gen'
        if tn == 'tsx':
            args = [['-s', '0', os.path.join(DATA, h + '.dic'), name, out, os.path.join(DATA, h + '.tagged'), os.path.join(DATA, h + '.untagged')], ['-w', '-t', '2', os.path.join(DATA, h + '.dic'), os.path.join(DATA, h + '.untagged'), name, out], None][c['n'] // 7 % 3]
            tool, args = ('tagger', args) if args else ('filter-ambiguity', [name, os.path.join(DATA, h + '.dic'), out])
        elif tn == 'mtx':
            disk.update({'/sim/art/' + f: rd(f) for f in ('gen.tsx', 'h.tsx')})
            tool, args = 'tagger', ['-x', '-s', '2', out, os.path.join(DATA, h + '.tagged'), os.path.join(DATA, h + '.untagged'), name]
        else:
            tool, args = 'compile-caps' if tn == 'crx' else 'preprocess-transfer', [name, out]
        if c['stale']:
            disk[out] = b'an older file'
        st, cl = pipeline([S(tool, *args)], [('c',)])
        sp = {'stages': st, 'clients': [cl], 'seed': p['seed'], 'rate': p['rate'], 'junk': p['junk'], 'heapseed': p['heapseed'], 'faults': [], 'disk': disk, 'wantdisk': 1, 'maxsteps': 50000000, 'maxmem': 512 << 20, 'cpu': 60}
        if 'replay' in p:
            sp['replay'] = p['replay']
        if p['bufs']:
            sp['stages'][0]['ibuf'], sp['stages'][0]['obuf'] = p['bufs'][0]
        r = ctx.run(sp)
        ctx.last = r
        what = '%s with %s in line %s of %s' % (' '.join([tool] + args), {None: 'no mistake'}.get(c['mistake'], 'mistake "%s"' % c['mistake']), line, show(s, 6000))
        # the reader of .mtx files asserts that elements end where they should: an abort is a refusal as well
        aborted = tn == 'mtx' and c['mistake'] and r.verdict in ('signal', 'assert')
        if aborted:
            ctx.st.nontrivial.add((tn, c['mistake'], c['n'], c['at']))
            return
        if r.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, r.verdict, r.msg))
        ctx.st.nontrivial.add((tn, c['mistake'], c['n'], c['at']))
        a = r.acts[0]; o = r.disk.get(out)
        if not c['mistake']:
            if a['status'] or o in (None, b'an older file'):
                return ('refused', '%s: exit status %d: %s' % (what, a['status'], a['err'][:300]))
            if s != plain:
                q = ctx.run(dict(sp, disk=dict(disk, **{name: plain.encode()})))
                if q.verdict != 'done' or q.disk.get(out) != o:
                    return ('notes', '%s: the artefact differs from that of the same file without comments and line ends' % what)
            return
        if a['status'] == 0:
            return ('accepted', '%s: exit status 0' % what)
        if not a['err'].strip():
            return ('silent', '%s: no message' % what)
        if tool != 'filter-ambiguity' and o != (b'an older file' if c['stale'] else None):
            return ('left', '%s: %s left in place of %s' % (what, show(o or b'', 100), 'the older file' if c['stale'] else 'no file'))


class C25(Prop):
    """apertium-tagger-readwords shows how the tagger reads a corpus"""
    pid = 'C25'
    targets = ['read-x', 'read-p', 'read-fault']
    quick = 20000
    thorough = 200000

    def extra_tools(self):
        return ['tagger', 'tagger-readwords']

    def gen(self, tn, r):
        import train
        c = PROPS['C14'].fresh_gen('fresh-hmm', r)
        t = train.Tsx(c['tsx'])
        c.update(target=tn, reqs=[u.split('\t') for q in train.corpus(r, t, r.choice([0, 1, 1, 2, 4])) for u in q], cut=None, n=r.choice([0, 0, 0, 1, 2, 5]), prob=tn == 'read-p' or tn == 'read-fault' and r.random() < .3)
        c['reqs'] = [['^%s/%s$%s' % (s, a, b)] for s, a, ch, b in c['reqs']]
        if r.random() < .3:
            c['reqs'] = c['reqs'][:-1]
        c['head'] = r.choice(['', '', ' ', 'text [<b>] '])
        if tn == 'read-fault':
            c['fault'] = [r.choice(['enospc', 'eio_write']), r.random()]
        return c

    def judge(self, ctx, c):
        import train, tagger
        f = artpath
        try:
            t = train.Tsx(c['tsx'])
            why, known = None, None
            disk = {f('m.tsx'): c['tsx'].encode()}
            if c['prob']:
                why, m, data, t, desc = PROPS['C14'].fresh_model(ctx, dict(c, target='fresh-hmm', pseed=0))
                if why:
                    return why
                disk[f('m.prob')] = data
                known = set(m.out)
            inp = c['head'] + ''.join(''.join(u) for u in c['reqs'])
            want = []; bad = []
            for y, u in tokens(inp):
                if y == 'lu':
                    p = parts(u)
                    for k, w in enumerate(t.words(p[1:])):
                        want.append((p[0] if not k else '', w))
            want.append(('', {tagger.EOF: ''}))
        except tagger.Skip:
            return
        if c['n']:
            want = want[:c['n']]
        line = ['%s {%s}' % (s, ','.join(t.names[i] if i >= len(tagger.PRE) else 'TAG_' + tagger.PRE[i] for i in sorted(w))) for s, w in want]
        if known is not None:
            bad = [(s, x) for (s, w), x in zip(want, line) if frozenset(w) not in known]
        args = (['-p', f('m.prob')] if c['prob'] else ['-x', f('m.tsx')]) + (['-l', str(c['n'])] if c['n'] else [])
        what = 'apertium-tagger-readwords %s on %s, definitions %s' % (' '.join(args), show(inp, 400), show(c['tsx'], 900))
        w = ''.join(x + '\n' for x in line).encode()
        kw = {}
        if 'fault' in c:
            kw['faults'] = [{'kind': c['fault'][0], 'actor': 0, 'path': '', 'at': int(c['fault'][1] * len(w))}]
        st, cl = pipeline([S('tagger-readwords', *args)], [('s', inp.encode()), ('c',)])
        p = c['pert']
        if p['bufs']:
            st[0]['ibuf'], st[0]['obuf'] = p['bufs'][0]
        x = ctx.run({'stages': st, 'clients': [cl], 'cpu': 10, 'maxsteps': 5000000, 'disk': disk, 'seed': p['seed'], 'rate': p['rate'], 'junk': p['junk'], 'heapseed': p['heapseed'], **kw})
        ctx.last = x
        if x.verdict != 'done':
            return ('stuck', '%s: %s %s' % (what, x.verdict, x.msg))
        got = x.outs[0]
        ctx.st.nontrivial.add(hash(w) & 0xffffffffff)
        if kw:
            if not sum(x.faults.values()):
                return ('nofault', '%s: the fault was never met' % what)
            if x.acts[0]['status'] == 0:
                return ('silent', '%s: exit status 0 although the output could not be written' % what)
            if not w.startswith(got):
                return ('text', '%s: wrote %s' % (what, show(got, 400)))
            return
        if x.acts[0]['status']:
            return ('fails', '%s: exit status %d %s' % (what, x.acts[0]['status'], x.acts[0]['err'][-300:]))
        if got != w:
            return ('text', '%s: prints %s, the words are %s' % (what, show(got, 500), show(w, 500)))
        err = x.acts[0]['err']
        if '%d were readed' % len(want) not in err:
            return ('count', '%s: counts %s, there are %d words' % (what, err[-100:], len(want)))
        if known is not None and len(err) < 60000:
            n = err.count('Ambiguity class number out of range')
            if n != len(bad):
                return ('class', '%s: %d words of unknown classes reported, there are %d: %s' % (what, n, len(bad), bad[:10]))


class C12(Prop):
    """memory does not grow with the number of requests"""
    pid = 'C12'
    targets = NUL
    quick = 300
    thorough = 6000

    def gen(self, tn, r):
        t = TARGETS[tn]
        k = r.choice([1, 1, 2])
        g = Gen(r.getrandbits(48), small=True)
        g.f -= t.nofeats | {'long'}
        reqs = [g.request(t.kind) for _ in range(k)]
        pert = dict(NOPERT, heapseed=r.getrandbits(31), junk=r.choice([0, 0x5a, 0xff]))
        return {'target': tn, 'reqs': reqs, 'pert': pert, 'cycles': 3072}     # the token ring of lttoolbox has 2048 places: after 2048 cycles every place has held what it will hold

    def shrinks(self, case):
        if case['pert'] != NOPERT:
            yield dict(case, pert=NOPERT)
        yield from Prop.shrinks(self, case)

    def judge(self, ctx, c):
        t = TARGETS[c['target']]
        q = reqbytes(t, c)
        m = c['cycles']
        script = [x for i in range(m * len(q)) for x in (('s', q[i % len(q)] + b'\0'), ('a', i + 1))] + [('c',)]
        p = ctx.run(make_spec(ctx, t, script, c['pert'], maxsteps=10 ** 8, cpu=100))
        ctx.last = p
        n = m * len(q)
        if p.verdict != 'done':
            return ('stuck', '%d times the requests %s: %s %s' % (m, show(q, 300), p.verdict, p.msg))
        st = p.stamps[0]
        if len(st) < n:
            return ('answers', '%d times the requests %s: %d answers' % (m, show(q, 300), len(st)))
        ctx.st.nontrivial.add(p.sched_hash)
        s = n // 6
        # malloc may hand out up to 16 bytes more than asked for when the rest is too small to be a block
        for i, what, tol in ((2, 'blocks', 0), (1, 'bytes', 1024)):
            a = max(x[i] for x in st[4 * s:5 * s]); b = max(x[i] for x in st[5 * s:])
            if b > a + tol:
                return ('grows', 'answering %s again and again: %d %s of live memory after %d requests, %d after %d' % (show(q, 400), a, what, 5 * s, b, n))


PROPS = {c.pid: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26)}
