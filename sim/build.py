#!/usr/bin/env python3
"""Builds the simulator and the stage shared objects from /repo's working tree.

Nothing is taken from /repo's own build products: libapertium and every tool
are recompiled from source (flex/xsltproc sources are regenerated), so a check
always sees what the tree does now.  Objects are cached by content hash.
"""
import hashlib, os, re, subprocess, sys, shutil, glob
from concurrent.futures import ThreadPoolExecutor

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(REPO, 'apertium')
JOBS = int(os.environ.get('SIM_JOBS', '8'))

TOOLS = {
    'pretransfer': 'apertium_pretransfer.cc', 'transfer': 'apertium_transfer.cc',
    'interchunk': 'apertium_interchunk.cc', 'postchunk': 'apertium_postchunk.cc',
    'posttransfer': 'apertium_posttransfer.cc', 'cleanstream': 'apertium_cleanstream.cc',
    'wblank-attach': 'wblank-attach.cc', 'wblank-detach': 'wblank-detach.cc',
    'wblank-mode': 'wblank-mode.cc', 'extract-caps': 'apertium_extract_caps.cc',
    'compile-caps': 'apertium_compile_caps.cc', 'restore-caps': 'apertium_restore_caps.cc',
    'tagger': 'apertium_tagger.cc', 'preprocess-transfer': 'transferpp.cc',
    'filter-ambiguity': 'apertium_filter_ambiguity.cc',
    'multiple-translations': 'apertium-multiple-translations.cc',
    'tagger-apply-new-rules': 'apertium_tagger_apply_new_rules.cc',
    'tagger-readwords': 'apertium_tagger_readwords.cc',
    'perceptron-trace': 'apertium_perceptron_trace.cc',
    'tmxbuild': 'apertium_tmxbuild.cc', 'gen-modes': 'gen_modes.cc', 'adapt-docx': 'adapt_docx.cc',
    'prelatex': 'flex:apertium-prelatex.l', 'postlatex': 'flex:apertium-postlatex.l',
    'postlatex-raw': 'flex:apertium-postlatex-raw.l',
}
FORMATS = {'txt': 'txt', 'html': 'html', 'html-noent': 'html-noent', 'html-alt': 'html-alt',
           'rtf': 'rtf', 'wxml': 'wxml', 'latex': 'latex', 'odt': 'odt', 'xlsx': 'xlsx',
           'pptx': 'pptx', 'mediawiki': 'mediawiki', 'xpresstag': 'xpresstag'}
for _f in FORMATS:
    TOOLS['des' + _f] = 'des:' + _f
    TOOLS['re' + _f] = 're:' + _f

INCL = ['-isystem', os.path.join(OUT, 'cfg', 'lt'), '-I' + SRC, '-I' + REPO, '-I/usr/include/utf8cpp', '-I/usr/include/libxml2', '-I' + os.path.join(OUT, 'cfg')]
CXX = ['g++', '-std=c++23', '-O1', '-g1', '-fPIC', '-w', '-fno-gnu-unique', '-D_GLIBCXX_ASSERTIONS',
       '-fno-omit-frame-pointer', '-DHAVE_CONFIG_H']
if os.environ.get('SIM_COVDIR'):        # for finding code no workload reaches: sim/cov.py
    CXX = CXX + ['-fsanitize-coverage=trace-pc', '-O0']
LIBS = ['-llttoolbox', '-lxml2', '-licuio', '-licui18n', '-licuuc', '-licudata']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd) if isinstance(cmd, list) else cmd,
                                     r.stdout.decode('utf-8', 'replace')[-4000:]))
    return r.stdout


def hfile(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def lib_sources():
    """libapertium's sources, from Makefile.am; new .cc files a change adds there are picked up."""
    mk = open(os.path.join(SRC, 'Makefile.am')).read()
    m = re.search(r'cc_sources\s*=((?:[^\n]*\\\n)*[^\n]*\n)', mk)
    return [w for w in m.group(1).replace('\\\n', ' ').split() if w.endswith('.cc')]


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for p in sorted(glob.glob(SRC + '/*.h') + glob.glob(SRC + '/win32/*.h') + [SIM + '/prelude.h', SIM + '/build.py']):
            if p.endswith('apertium_config.h'):
                continue
            h.update(os.path.basename(p).encode()); h.update(hfile(p).encode())
        _hdr = h.hexdigest()
    return _hdr


def ensure_cfg():
    d = os.path.join(OUT, 'cfg')
    os.makedirs(d + '/apertium', exist_ok=True)
    # lttoolbox 3.7.6 reads every character of a unigram or perceptron model as a char: models of words outside ASCII do not work.
    # As with ltfix.cc, the simulated system runs with the library function the code under test is written for.
    os.makedirs(d + '/lt/lttoolbox', exist_ok=True)
    with open('/usr/include/lttoolbox/deserialiser.h') as f:
        h = re.sub(r'\bchar(\s+Deserialiser<UChar>)', r'UChar\1', f.read()).replace('"exception.h"', '<lttoolbox/exception.h>')
    h = re.sub(r'(class Deserialiser<UChar> \{\s*public:\s*inline static) char', r'\1 UChar', h)
    with open(d + '/lt/lttoolbox/deserialiser.h.%d' % os.getpid(), 'w') as f:
        f.write(h)
    os.rename(d + '/lt/lttoolbox/deserialiser.h.%d' % os.getpid(), d + '/lt/lttoolbox/deserialiser.h')
    src = os.path.join(SRC, 'apertium_config.h')
    if not os.path.exists(src):
        src = os.path.join(SIM, 'apertium_config.fallback.h')
        shutil.copy(src, d + '/apertium_config.h')
        shutil.copy(src, d + '/apertium/apertium_config.h')


def compile_one(path, key, extra=(), prelude=True, cwd=None):
    """compile path -> cached object"""
    h = hashlib.sha256((hfile(path) + header_hash() + key + '1' + ' '.join(extra) + ' '.join(CXX)).encode()).hexdigest()[:24]
    obj = os.path.join(OUT, 'obj', os.path.basename(path) + '.' + h + '.o')
    if os.path.exists(obj):
        return obj
    cmd = CXX + INCL + list(extra) + (['-include', SIM + '/prelude.h'] if prelude else []) + ['-c', path, '-o', obj + '.tmp%d' % os.getpid()]
    sh(cmd, cwd=cwd or SRC)
    os.rename(obj + '.tmp%d' % os.getpid(), obj)
    return obj


def gen_flex(kind, name):
    """regenerate the scanner source; returns path of a .cc in OUT/gen"""
    gd = os.path.join(OUT, 'gen'); os.makedirs(gd, exist_ok=True)
    if kind == 'flex':
        lsrc = os.path.join(SRC, name)
        h = hfile(lsrc)[:20]
        cc = os.path.join(gd, name.replace('.', '_') + '.' + h + '.cc')
        if not os.path.exists(cc):
            opts = flex_opts(name)
            sh(['flex'] + opts + ['-o' + cc + '.tmp%d' % os.getpid(), lsrc], cwd=SRC)
            os.rename(cc + '.tmp%d' % os.getpid(), cc)
        return cc
    xsl = os.path.join(SRC, 'deformat.xsl' if kind == 'des' else 'reformat.xsl')
    xml = os.path.join(SRC, name + '-format.xml')
    h = hashlib.sha256((hfile(xsl) + hfile(xml)).encode()).hexdigest()[:20]
    cc = os.path.join(gd, kind + name.replace('-', '_') + '.' + h + '.cc')
    if not os.path.exists(cc):
        t = cc + '.l%d' % os.getpid()
        with open(t, 'wb') as f:
            r = subprocess.run(['xsltproc', xsl, xml], stdout=f, stderr=subprocess.PIPE, cwd=SRC)
        if r.returncode:
            raise BuildError('xsltproc %s: %s' % (xml, r.stderr.decode()))
        sh(['flex', '-Cfer', '-o' + cc + '.tmp%d' % os.getpid(), t], cwd=SRC)
        os.unlink(t)
        os.rename(cc + '.tmp%d' % os.getpid(), cc)
    return cc


def flex_opts(lfile):
    mk = open(os.path.join(SRC, 'Makefile.am')).read()
    m = re.search(r'%s[^\n]*\n((?:\t[^\n]*\n)+)' % re.escape(lfile), mk)
    if m:
        m2 = re.search(r'\$\(FLEX\)\s+((?:-\S+\s+)*)', m.group(1))
        if m2:
            return [o for o in m2.group(1).split() if not o.startswith('-o')]
    return ['-Cfer']


def tool_object(tool):
    spec = TOOLS[tool]
    if spec.startswith('des:') or spec.startswith('re:') or spec.startswith('flex:'):
        kind, name = spec.split(':')
        cc = gen_flex(kind, name)
        obj = compile_one(cc, 'main', extra=('-I' + SRC,))
    else:
        obj = compile_one(os.path.join(SRC, spec), 'main')
    m = obj[:-2] + '.main.o'
    if not os.path.exists(m):
        sh(['objcopy', '--redefine-sym', 'main=sim_tool_main', obj, m + '.tmp%d' % os.getpid()])
        os.rename(m + '.tmp%d' % os.getpid(), m)
    return m


def build(tools, verbose=False):
    """tools: dict tool->copies. Returns the directory with simd and the .so files."""
    for d in ('obj', 'so', 'gen', 'bin'):
        os.makedirs(os.path.join(OUT, d), exist_ok=True)
    ensure_cfg()
    libs = lib_sources()
    jobs = []
    with ThreadPoolExecutor(JOBS) as ex:
        # biggest first
        tl = sorted(tools, key=lambda t: 0 if 'latex' in t or 'rtf' in t else 1)
        ft = {t: ex.submit(tool_object, t) for t in tl if t in TOOLS}
        big = sorted(libs, key=lambda f: -os.path.getsize(os.path.join(SRC, f)))
        fl = [ex.submit(compile_one, os.path.join(SRC, f), 'lib') for f in big]
        fr = ex.submit(compile_one, SIM + '/stage_rt.cc', 'rt', (), False)
        fx = {t: ex.submit(compile_one, os.path.join(SIM, 'stubs', t + '.cc'), 'stub') for t in tools if t not in TOOLS}
        fs = ex.submit(build_simd)
        tobj = {t: f.result() for t, f in ft.items()}
        lobj = [f.result() for f in fl]
        robj = fr.result()
        for t, f in fx.items():
            obj = f.result(); m = obj[:-2] + '.main.o'
            if not os.path.exists(m):
                sh(['objcopy', '--redefine-sym', 'main=sim_tool_main', obj, m])
            tobj[t] = m
        simd = fs.result()
        lh = hashlib.sha256(' '.join(sorted(lobj)).encode()).hexdigest()[:20]
        ar = os.path.join(OUT, 'obj', 'libapertium.' + lh + '.a')
        if not os.path.exists(ar):
            t = ar + '.tmp%d' % os.getpid()
            sh(['ar', 'rcs', t] + sorted(lobj)); os.rename(t, ar)
        key = hashlib.sha256((lh + robj).encode()).hexdigest()
        ver = os.path.join(OUT, 'obj', 'stage.ver')
        if not os.path.exists(ver):
            with open(ver, 'w') as f:
                f.write('{ global: sim_tool_main; sim_dso_flush; *sim_tool_main*; local: *; };\n')

        def link(t):
            h = hashlib.sha256((tobj[t] + key).encode()).hexdigest()[:20]
            so = os.path.join(OUT, 'so', t + '.' + h + '.so')
            if not os.path.exists(so):
                entry = 'sim_tool_main'
                syms = sh(['nm', tobj[t]]).decode()
                tmp = so + '.tmp%d' % os.getpid()
                sh(['g++', '-shared', '-o', tmp, tobj[t], robj, '-Wl,--start-group', ar, '-Wl,--end-group',
                    '-Wl,-Bsymbolic', '-Wl,--version-script=' + ver] + LIBS)
                os.rename(tmp, so)
            return so
        sos = dict(zip(tools, ex.map(link, tools)))
    # a directory of links for exactly this build
    tag = hashlib.sha256((' '.join(sorted('%s:%s' % kv for kv in sos.items())) + repr(sorted(tools.items())) + simd).encode()).hexdigest()[:16]
    d = os.path.join(OUT, 'run', tag)
    if not os.path.exists(os.path.join(d, 'ok')):
        os.makedirs(d, exist_ok=True)
        for t, so in sos.items():
            for k in range(tools[t]):
                dst = os.path.join(d, t + ('.so' if k == 0 else '.%d.so' % k))
                if os.path.lexists(dst):
                    os.unlink(dst)
                if k == 0:
                    os.link(so, dst)
                else:
                    shutil.copy(so, dst)
        if not os.path.exists(d + '/simd'):
            os.link(simd, d + '/simd')
        open(os.path.join(d, 'ok'), 'w').close()
    return d


def build_ltcase():
    p = os.path.join(OUT, 'bin', 'ltcase.%s.so' % hashlib.sha256((hfile(SIM + '/ltfix.cc') + hfile(SIM + '/ltbil.cc') + hfile(SIM + '/build.py')).encode()).hexdigest()[:20])
    if not os.path.exists(p):
        t = p + '.tmp%d' % os.getpid()
        sh(['g++', '-std=c++20', '-O2', '-w', '-shared', '-fPIC', SIM + '/ltfix.cc', SIM + '/ltbil.cc', '-o', t, '-I/usr/include/libxml2', '-Wl,--no-as-needed'] + LIBS + ['-ldl'])
        os.rename(t, p)
    return p


def build_simd():
    h = hashlib.sha256((hfile(SIM + '/sim.cc') + hfile(SIM + '/ltfix.cc') + hfile(SIM + '/build.py')).encode()).hexdigest()[:20]
    p = os.path.join(OUT, 'bin', 'simd.' + h)
    if not os.path.exists(p):
        t = p + '.tmp%d' % os.getpid()
        sh(['g++', '-std=c++20', '-O2', '-g1', '-w', '-rdynamic', '-fno-builtin', SIM + '/sim.cc', SIM + '/ltfix.cc', '-o', t, '-I/usr/include/libxml2',
            '-Wl,--no-as-needed'] + LIBS + ['-ldl'])
        os.rename(t, p)
    return p


if __name__ == '__main__':
    ts = {}
    for a in sys.argv[1:]:
        t, _, c = a.partition(':'); ts[t] = int(c or 1)
    if not ts:
        ts = {t: 2 for t in TOOLS}
    print(build(ts))
