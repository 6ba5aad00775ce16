#!/usr/bin/env python3
"""cov.py [-l] [file...]: which source lines of /repo the simulated runs reached.
Use: SIM_COVDIR=/tmp/cov SIM_BUILD=/tmp/covbuild python3 sim/check.py C01 ... ; SIM_COVDIR=/tmp/cov python3 sim/cov.py"""
import glob, os, re, struct, subprocess, sys
D = os.environ['SIM_COVDIR']
pcs = {}
for t in glob.glob(D + '/*.tab'):
    maps = []
    for l in open(t[:-4] + '.maps'):
        f = l.split()
        if len(f) > 5 and f[5].endswith('.so') and 'run/' in f[5]:
            a, b = (int(x, 16) for x in f[0].split('-'))
            maps.append((a, b, int(f[2], 16), f[5]))
    data = open(t, 'rb').read()
    for (pc,) in struct.iter_unpack('<Q', data):
        if pc:
            for a, b, o, p in maps:
                if a <= pc < b:
                    pcs.setdefault(p, set()).add(pc - a + o)
                    break
hit, allb = {}, {}
seen = {}
for p, s in pcs.items():
    k = re.sub(r'\.\d+\.so$', '.so', p)
    seen.setdefault(k, set()).update(s)


def lines(so, addrs, dst):
    q = ''.join('%x\n' % a for a in addrs)
    o = subprocess.run(['addr2line', '-e', so], input=q, stdout=subprocess.PIPE, text=True).stdout
    for l in o.split('\n'):
        m = re.match(r'(/repo/\S+|\S+/gen/\S+|\S+\.(?:l|xsl|yy)\S*):(\d+)', l)
        if m:
            dst.setdefault(m.group(1), set()).add(int(m.group(2)))


for so, s in seen.items():
    d = subprocess.run(['objdump', '-d', '--no-show-raw-insn', so], stdout=subprocess.PIPE, text=True).stdout
    ret = []
    nxt = False
    for l in d.split('\n'):
        m = re.match(r'\s+([0-9a-f]+):\t(.*)', l)
        if m:
            if nxt:
                ret.append(int(m.group(1), 16)); nxt = False
            if 'call' in m.group(2) and 'sanitizer_cov_trace_pc' in m.group(2):
                nxt = True
    lines(so, ret, allb)
    lines(so, s, hit)
want = [a for a in sys.argv[1:] if not a.startswith('-')]
tot = th = 0
for f in sorted(allb):
    h = hit.get(f, set()); a = allb[f] | h
    tot += len(a); th += len(h)
    b = os.path.basename(f)
    if want and b not in want:
        continue
    print('%5.1f%% %4d/%4d %s' % (100 * len(h) / len(a), len(h), len(a), f))
    if want:
        src = open(f, errors='replace').read().split('\n')
        for n in sorted(a - h):
            print('      %5d  %s' % (n, src[n - 1][:140] if n <= len(src) else ''))
print('total %d of %d' % (th, tot))
