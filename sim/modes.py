"""modes.xml files drawn at random and what apertium-gen-modes must make of them."""
import posixpath
from xml.sax.saxutils import quoteattr

PROGS = ['lt-proc', 'lt-proc -w', 'lt-proc $1', 'lt-proc -b', 'lt-proc -p', 'lt-proc -g', 'lt-proc -e -w', 'cg-proc', 'cg-proc -1 -n -w', 'apertium-tagger -g $2', 'apertium-tagger',
         'apertium-pretransfer', 'apertium-posttransfer', 'lrx-proc -m', 'lrx-proc', 'apertium-transfer -b', 'apertium-transfer -n', 'apertium-transfer', 'apertium-interchunk',
         'apertium-postchunk', 'hfst-proc -w', 'hfst-proc -g', 'hfst-proc $1', 'lsx-proc', 'lsx-proc -p', 'lsx-proc -w -p', 'rtx-proc', 'apertium-anaphora', 'apertium-extract-caps',
         'apertium-restore-caps', 'apertium-anaphora -x', 'sed "s/a/b/"', 'mytool', 'vislcg3 --grammar', 'lt-proc -b -x', 'hfst-proc -p', 'apertium-transfer -b -n', 'rtx-proc -T', "perl -pe 's/&lt;/</'",
         'ca$1t', 'lt-procx', 'xlt-proc', 'apertium-wblank-attach']
FILES = ['en-es.automorf.bin', 'en-es.autobil.bin', 'en-es.t1x', 'en-es.prob', 'a b.bin', 'en.automorf.x.automorf.bin', 'ünï.automorf.bin', '.deps/en-es.automorf.bin', 'automorf.bin', 'x.automorf-untrimmed.bin', 'en-es.automorfbin', '/usr/share/x.bin']
ARGS = ['-z', '$2', '-w -e', '--x=y', 'a&b', '"q"', 'ñ', '<', '-1.automorf.bin']
SUFF = ['foo', 'morph', 'tagger', 'a-b', 'transfer', 'ñ']
NAMES = ['en-es', 'es-en', 'en-es-tagger', 'en-es-morph', 'en-morph', 'en', '@en-es-morph', 'en-es-chunker', 'ka-ñ', 'en-es-NAMEME', 'es-en-biltrans']


def draw(r):
    ms = []
    for n in r.sample(NAMES, r.choice([1, 1, 2, 3, 4])):
        steps = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
            steps.append([r.choice(PROGS), r.choice(SUFF) if r.random() < .2 else None,
                          [[r.random() < .7, None] for _ in range(r.choice([0, 1, 1, 2, 3]))]])
            for a in steps[-1][2]:
                a[1] = r.choice(FILES if a[0] else FILES + ARGS)
        ms.append([n, r.choice([None, 'yes', 'yes', 'no']), r.choice([None, 'yes', 'yes', 'no', 'YES']), steps])
    return ms


def xml(ms, style=0):
    nl = '\n' if style & 1 else ''
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n']
    if style & 2:
        o.append('<!-- a <mode name="no"/> comment -->\n')
    o.append('<modes>' + nl)
    for n, ins, dbg, steps in ms:
        at = [('name', n)] + ([('install', ins)] if ins else []) + ([('gendebug', dbg)] if dbg else [])
        if style & 4:
            at.reverse()
        o.append('<mode' + ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in at) + '>' + nl + '<pipeline>' + nl)
        for c, sf, args in steps:
            at = [('name', c)] + ([('debug-suff', sf)] if sf else [])
            if style & 4:
                at.reverse()
            o.append('<program' + ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in at) + '>' + nl)
            for f, a in args:
                if style & 2:
                    o.append('<!-- c -->')
                o.append('<%s name=%s/>' % ('file' if f else 'arg', quoteattr(a)) + nl)
            o.append('</program>' + nl)
        o.append('</pipeline>' + nl)
        if style & 8:
            o.append('<preferences><pref path="x"/></preferences>')
        o.append('</mode>' + nl)
    o.append('</modes>\n')
    return ''.join(o)


def suffixes(c):
    """the names of the debugging modes that end in the command c"""
    p = c.startswith
    if p('cg-proc'): return ['-disam']
    if p('apertium-tagger'): return ['-tagger']
    if p('apertium-pretransfer'): return ['-pretransfer']
    if p('apertium-posttransfer'): return ['-posttransfer']
    if p('lrx-proc'): return ['-lex', '-lextor']
    if p('apertium-transfer'): return ['-transfer2'] if ' -n' in c else ['-chunker', '-transfer']
    if p('apertium-interchunk'): return ['-interchunk']
    if p('apertium-postchunk'): return ['-postchunk']
    if '$1' in c: return ['-dgen', '-generador']
    if p('lt-proc'):
        if ' -b' in c: return ['-biltrans']
        if ' -p' in c: return ['-pgen']
        return ['-morph'] if ' -g' in c else ['-morph', '-anmor']
    if p('hfst-proc'): return ['-morph'] if ' -g' in c else ['-morph', '-anmor']
    if p('lsx-proc'): return ['-pgen'] if ' -p' in c else ['-autoseq']
    if p('rtx-proc'): return ['-transfer']
    if p('apertium-anaphora'): return ['-anaph']
    if p('apertium-extract-caps'): return ['-decase']
    if p('apertium-restore-caps'): return ['-recase']
    return ['-NAMEME']


def trace(c):
    """the command c as the last of a debugging mode"""
    for p, o in (('cg-proc', ' -t'), ('lrx-proc', ' -t'), ('apertium-transfer', ' -t'), ('apertium-interchunk', ' -t'), ('apertium-postchunk', ' -t'), ('rtx-proc', ' -r'), ('apertium-anaphora', ' -d')):
        if c.startswith(p):
            return c + o, o
    return c.replace('$1', '-d', 1), ''


def line(steps, filedir, extra='', cwd='/'):
    def arg(f, a):
        return " '%s'" % posixpath.join(cwd, filedir, a) if f else ' ' + a
    return ' | '.join(c + (extra if i == len(steps) - 1 else '') + ''.join(arg(f, a) for f, a in args) for i, (c, args) in enumerate(steps)) + '\n'


def reference(ms, filedir, cwd, installing):
    """file name -> set of acceptable contents"""
    modes = {n: ([(c, a) for c, sf, a in steps], ins == 'yes', '') for n, ins, dbg, steps in ms}
    for n, ins, dbg, steps in sorted(ms, key=lambda m: m[0].encode()):
        if dbg != 'yes':
            continue
        for i, (c, sf, args) in enumerate(steps):
            for s in (['-' + sf] if sf else suffixes(c)):
                if n + s in modes:
                    continue
                t, o = trace(c)
                pre = [(k, a) for k, x, a in steps[:i]] + [(t, args)]
                modes[n + s] = (pre, False, '')
                if '@' + n + s not in modes:
                    un = [(k, [(f, '.automorf-untrimmed.'.join(x.rsplit('.automorf.', 1))) for f, x in a]) for k, a in pre]
                    modes['@' + n + s] = (un, False, o)
    out = {}
    for n, (steps, ins, o) in modes.items():
        if not installing or ins:
            # the option that makes the last command trace may stand twice in an untrimmed mode: it does nothing the second time
            out[n + '.mode'] = {line(steps, filedir, x, cwd) for x in {'', o}}
    return out
