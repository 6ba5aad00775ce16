"""Driver side of the simulator: specs, results, worker processes."""
import subprocess, os, json, base64, copy

VERDICTS = ['done', 'deadlock', 'steps', 'mem', 'spin', 'signal', 'assert', 'cpu', 'internal']
KINDS = ['switch', 'short_read', 'short_write', 'stall', 'heap']


def S(tool, *args, copy=0, inp=None, out=None, ibuf=4096, obuf=4096):
    return {'tool': tool, 'copy': copy, 'in': inp, 'out': out, 'args': list(args), 'ibuf': ibuf, 'obuf': obuf}


def pipeline(stages, ops, first=0, caps=None):
    """chain stages by pipes first, first+1, ...; the client sends on the first and receives on the last"""
    st = []
    for i, s in enumerate(stages):
        s = dict(s)
        if s['in'] is None:
            s['in'] = 'p%d' % (first + i)
        if s['out'] is None:
            s['out'] = 'p%d' % (first + i + 1)
        st.append(s)
    return st, {'send': first, 'recv': first + len(stages), 'ops': ops}


class Result:
    __slots__ = ('verdict', 'cur', 'signo', 'msg', 'steps', 'now', 'choices', 'switches', 'sched_hash', 'faults',
                 'acts', 'outs', 'clis', 'stamps', 'hash', 'rec', 'trace', 'disk')

    def status(self, i):
        a = self.acts[i]
        return a['status'] if a['done'] else None


class SimDead(Exception):
    pass


class Sim:
    def __init__(self, rundir, tools):
        self.rundir, self.tools = rundir, tools
        self.p = None
        self.start()

    def start(self):
        env = dict(os.environ)
        env['LD_BIND_NOW'] = '1'
        env['GLIBC_TUNABLES'] = 'glibc.malloc.tcache_count=0'       # the junk fault does not reach what malloc hands out of its per-thread cache
        args = [os.path.join(self.rundir, 'simd'), self.rundir] + ['%s:%d' % kv for kv in sorted(self.tools.items())]
        self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, bufsize=1 << 16)
        if self._field()[0] != 'ready':
            raise SimDead('simulator did not start')

    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill(); self.p.wait()
        self.p.stdout.close()

    def _field(self):
        l = self.p.stdout.readline()
        if not l:
            raise SimDead('simulator ended (%s)' % self.p.poll())
        k, n = l.split()
        n = int(n)
        d = self.p.stdout.read(n)
        self.p.stdout.read(1)
        return k.decode(), d

    @staticmethod
    def encode(spec):
        o = []

        def put(k, d):
            if isinstance(d, str):
                d = d.encode('utf-8')
            elif isinstance(d, int):
                d = b'%d' % d
            o.append(b'%s %d\n' % (k.encode(), len(d))); o.append(d); o.append(b'\n')
        put('seed', spec.get('seed', 1))
        for s in spec['stages']:
            put('stage', '\x1f'.join([s['tool'], str(s['copy']), s['in'], s['out'], str(s['ibuf']), str(s['obuf'])] + list(s['args'])))
        for c in spec['clients']:
            put('client', '%d\x1f%d' % (c['send'], c['recv']))
            for op in c['ops']:
                d = op[1] if len(op) > 1 else b''
                if isinstance(d, int):
                    d = b'%d' % d
                put('op', op[0].encode() + d)
        for f in spec.get('faults', []):
            put('fault', '\x1f'.join([f['kind'], str(f.get('actor', -1)), f.get('path', ''), str(f.get('at', 0))]))
        for k, v in spec.get('caps', {}).items():
            put('cap', '%s\x1f%d' % (k, v))
        for k, v in spec.get('disk', {}).items():
            put('disk', k.encode() + b'\0' + v)
        if 'replay' in spec:
            put('replay', ' '.join('%d:%d' % tuple(x) for x in spec['replay']))
        else:
            r = spec.get('rate', {})
            put('rate', '\x1f'.join(str(int(r.get(k, 0) * 65536)) for k in KINDS))
        for k in ('maxsteps', 'maxmem', 'maxpolls', 'quota', 'junk', 'heapseed', 'rngseed', 'trace', 'cpu', 'nosigpipe', 'wantdisk'):
            if k in spec:
                put(k, int(spec[k]))
        put('go', '')
        return b''.join(o)

    def run(self, spec):
        e = self.encode(spec)
        self.p.stdin.write(b'%016d' % len(e) + e); self.p.stdin.flush()
        r = Result()
        r.acts, r.outs, r.clis, r.stamps, r.disk, r.trace = [], [], [], [], {}, ''
        while True:
            k, d = self._field()
            if k == 'end':
                break
            if k == 'verdict':
                r.verdict = VERDICTS[int(d)]
            elif k in ('cur',):
                r.cur = int(d) - 1
            elif k in ('signo', 'steps', 'now', 'choices', 'switches', 'sched_hash', 'hash'):
                setattr(r, k, int(d))
            elif k == 'msg':
                r.msg = d.decode('utf-8', 'replace')
            elif k == 'faults':
                r.faults = {a: int(b) for a, b in (x.split('=') for x in d.decode().split())}
            elif k == 'act':
                v = [int(x) for x in d.split()]
                r.acts.append({'done': v[0], 'status': v[1], 'sig': v[2], 'consumed': v[3], 'produced': v[4], 'maxlive': v[5], 'live': v[6]})
            elif k == 'err':
                r.acts[-1]['err'] = d.decode('utf-8', 'replace')
            elif k == 'out':
                r.outs.append(d)
            elif k == 'cli':
                v = [int(x) for x in d.split()]
                r.clis.append({'nuls': v[0], 'eof': v[1], 'opdone': v[2]})
            elif k == 'stamps':
                r.stamps.append([tuple(int(y) for y in x.split(b':')) for x in d.split()])
            elif k == 'rec':
                r.rec = None if d == b'overflow' else [tuple(int(y) for y in x.split(b':')) for x in d.split()]
            elif k == 'trace':
                r.trace = d.decode('utf-8', 'replace')
            elif k == 'disk':
                o = 0
                while o < len(d):
                    p = d.index(b'\0', o); q = d.index(b'\0', p + 1)
                    n = int(d[p + 1:q]); r.disk[d[o:p].decode()] = d[q + 1:q + 1 + n]; o = q + 1 + n
        if r.verdict == 'internal':
            raise SimDead('simulator internal error: ' + r.msg)
        return r


def spec_to_json(spec):
    def enc(x):
        if isinstance(x, bytes):
            return {'b64': base64.b64encode(x).decode(), 'text': x.decode('utf-8', 'replace')}
        if isinstance(x, dict):
            return {str(k): enc(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [enc(v) for v in x]
        return x
    return enc(spec)


def spec_from_json(x):
    if isinstance(x, dict):
        if 'b64' in x:
            return base64.b64decode(x['b64'])
        return {k: spec_from_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [spec_from_json(v) for v in x]
    return x
