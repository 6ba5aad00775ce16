"""The simulated world: artefacts compiled by the tree under test, and the targets
(stages and pipelines) the checks drive."""
import os, subprocess, hashlib, json
import build as B
from simlib import S, Sim, pipeline

DATA = os.path.join(B.VERIF, 'data')


def d(n):
    return os.path.join(DATA, n)


# artefact name -> (tool, args producing it); @O is the output path
ARTS = {
    't1x.bin': ('preprocess-transfer', [d('gen.t1x'), '@O']),
    't2x.bin': ('preprocess-transfer', [d('gen.t2x'), '@O']),
    't3x.bin': ('preprocess-transfer', [d('gen.t3x'), '@O']),
    **{g + '.bin': ('preprocess-transfer', [d(g), '@O']) for g in ['g%d.t1x' % i for i in range(6)] + ['g%d.t2x' % i for i in range(4)] + ['g%d.t3x' % i for i in range(4)] + ['g6.t1x', 'g7.t1x', 'g6.t2x', 'g7.t2x', 'g6.t3x'] + ['g%d.t1x' % i for i in range(8, 14)] + ['g%d.t2x' % i for i in range(8, 11)] + ['g%d.t3x' % i for i in range(8, 12)]},
    'crx.bin': ('compile-caps', [d('gen.crx'), '@O']),
    'u1.prob': ('tagger', ['-s', '0', '-u', '1', '@O', d('gen.tagged')]),
    'u2.prob': ('tagger', ['-s', '0', '-u', '2', '@O', d('gen.tagged')]),
    'u3.prob': ('tagger', ['-s', '0', '-u', '3', '@O', d('gen.tagged')]),
    'lsw.prob': ('tagger', ['-w', '-t', '2', d('gen.dic'), d('gen.untagged'), d('gen.tsx'), '@O']),
    'hmm.prob': ('tagger', ['-s', '0', d('gen.dic'), d('gen.tsx'), '@O', d('gen.tagged'), d('gen.untagged')]),
    'hs.prob': ('tagger', ['-s', '0', d('h.dic'), d('h.tsx'), '@O', d('h.tagged'), d('h.untagged')]),
    'hb.prob': ('tagger', ['-s', '3', d('h.dic'), d('h.untagged'), d('h.tsx'), '@O', d('h.tagged'), d('h.untagged')]),
    'ht.prob': ('tagger', ['-t', '4', d('h.dic'), d('h.untagged'), d('h.tsx'), '@O']),
    'hw.prob': ('tagger', ['-w', '-t', '2', d('h.dic'), d('h.untagged'), d('h.tsx'), '@O']),
    'hr.prob': ('tagger', ['-r', '2', d('h.untagged'), '@O'], 'hs.prob'),
    'hwr.prob': ('tagger', ['-w', '-r', '2', d('h.untagged'), '@O'], 'hw.prob'),
    'ha.prob': ('tagger-apply-new-rules', ['-i', '@O', '-o', '@O', '-x', d('h.tsx')], 'hb.prob'),
    'hf.dic': ('filter-ambiguity', [d('h.tsx'), d('h.dic'), '@O']),
    'hu1.prob': ('tagger', ['-s', '0', '-u', '1', '@O', d('h.utagged')]),
    'hu2.prob': ('tagger', ['-s', '0', '-u', '2', '@O', d('h.utagged')]),
    'hu3.prob': ('tagger', ['-s', '0', '-u', '3', '@O', d('h.utagged')]),
    'hg.prob': ('tagger', ['-x', '-s', '4', '@O', d('h.tagged'), d('h.untagged'), d('hg.mtx')]),
    'hx.prob': ('tagger', ['-x', '-s', '4', '@O', d('h.tagged'), d('h.untagged'), d('h.mtx')]),
    'xx.prob': ('tagger', ['-x', '-s', '3', '@O', d('gen.tagged'), d('gen.untagged'), d('gen.mtx')]),
}
NATIVE = {'bil.bin': ['lt-comp', 'lr', d('gen.bidix')], 'ana.bin': ['lt-comp', 'lr', d('gen.dix')],
          'gen.bin': ['lt-comp', 'rl', d('gen.dix')]}


def artpath(n):
    return '/sim/art/' + n


class Target:
    """one stage or pipeline.
    kind: input language; nul: answers NUL-terminated requests; extra: NULs it may add at end of input"""
    def __init__(self, name, stages, kind, nul=True, arts=(), tags=(), nofeats=(), tail=b'', tg=None):
        self.name, self.stages, self.kind, self.nul, self.arts, self.tags = name, stages, kind, nul, list(arts), set(tags)
        self.tg = tg                    # taggers: (family, flags)
        self.tail = tail                # what every request must end with (lt-proc waits for a byte after "$" NUL)
        self.nofeats = set(nofeats)     # input features left out: the system library's lt-proc mishandles escapes, restore-caps is cubic in the length of a word

    def tools(self):
        r = {}
        for s in self.stages:
            r[s['tool']] = max(r.get(s['tool'], 0), s['copy'] + 1)
        return r


def A(n):
    return artpath(n)


def make_targets():
    T = []

    def t(*a, **k):
        T.append(Target(*a, **k))
    tr = ['t1x.bin', 'bil.bin']
    t('pretransfer', [S('pretransfer', '-z')], 'lu')
    t('pretransfer-e', [S('pretransfer', '-z', '-e')], 'lu')
    t('pretransfer-n', [S('pretransfer', '-z', '-n')], 'lusurf')
    t('transfer-b', [S('transfer', '-z', '-b', d('gen.t1x'), A('t1x.bin'))], 'bil', arts=['t1x.bin'])
    t('transfer-bw', [S('transfer', '-z', '-b', '-w', d('gen.t1x'), A('t1x.bin'))], 'bil', arts=['t1x.bin'])
    t('transfer', [S('transfer', '-z', d('gen.t1x'), A('t1x.bin'), A('bil.bin'))], 'lupre', arts=tr)
    t('transfer-cw', [S('transfer', '-z', '-c', '-w', d('gen.t1x'), A('t1x.bin'), A('bil.bin'))], 'lupre', arts=tr)
    t('transfer-x', [S('transfer', '-z', '-x', A('bil.bin'), d('gen.t1x'), A('t1x.bin'), A('bil.bin'))], 'lupre', arts=tr)
    t('transfer-n', [S('transfer', '-z', '-n', d('gen.t1x'), A('t1x.bin'))], 'lupre', arts=['t1x.bin'])
    t('interchunk', [S('interchunk', '-z', d('gen.t2x'), A('t2x.bin'))], 'chunk', arts=['t2x.bin'])
    t('postchunk', [S('postchunk', '-z', d('gen.t3x'), A('t3x.bin'))], 'chunk', arts=['t3x.bin'])
    # seeded random rule files (sim/rulegen.py)
    for i in range(6):
        t('transfer-g%d' % i, [S('transfer', '-z', '-b', d('g%d.t1x' % i), A('g%d.t1x.bin' % i))], 'bil', arts=['g%d.t1x.bin' % i], tags=['rand'])
    t('transfer-g4w', [S('transfer', '-z', '-b', '-w', d('g4.t1x'), A('g4.t1x.bin'))], 'bil', arts=['g4.t1x.bin'], tags=['rand'])
    t('transfer-g5n', [S('transfer', '-z', '-n', d('g5.t1x'), A('g5.t1x.bin'))], 'lupre', arts=['g5.t1x.bin'], tags=['rand'])
    t('transfer-g1t', [S('transfer', '-z', '-b', '-t', d('g1.t1x'), A('g1.t1x.bin'))], 'bil', arts=['g1.t1x.bin'], tags=['rand'])
    for i in range(4):
        t('interchunk-g%d' % i, [S('interchunk', '-z', d('g%d.t2x' % i), A('g%d.t2x.bin' % i))], 'chunk', arts=['g%d.t2x.bin' % i], tags=['rand'])
        t('postchunk-g%d' % i, [S('postchunk', '-z', d('g%d.t3x' % i), A('g%d.t3x.bin' % i))], 'chunk', arts=['g%d.t3x.bin' % i], tags=['rand'])
    for i in (6, 7):
        t('transfer-g%d' % i, [S('transfer', '-z', '-b', d('g%d.t1x' % i), A('g%d.t1x.bin' % i))], 'bil', arts=['g%d.t1x.bin' % i], tags=['rand'])
        t('interchunk-g%d' % i, [S('interchunk', '-z', d('g%d.t2x' % i), A('g%d.t2x.bin' % i))], 'chunk', arts=['g%d.t2x.bin' % i], tags=['rand'])
    t('postchunk-g6', [S('postchunk', '-z', d('g6.t3x'), A('g6.t3x.bin'))], 'chunk', arts=['g6.t3x.bin'], tags=['rand'])
    for i in range(8, 14):
        x = {9: ['-n'], 10: ['-w', '-b']}.get(i, ['-b'])
        t('transfer-g%d' % i, [S('transfer', '-z', *x, d('g%d.t1x' % i), A('g%d.t1x.bin' % i))], 'lupre' if i == 9 else 'bil', arts=['g%d.t1x.bin' % i], tags=['rand', 'c13'])
    t('transfer-g13b', [S('transfer', '-z', d('g13.t1x'), A('g13.t1x.bin'), A('bil.bin'))], 'lupre', arts=['g13.t1x.bin', 'bil.bin'], tags=['rand', 'c13'])
    for i in range(8, 12):
        if i < 11:
            t('interchunk-g%d' % i, [S('interchunk', '-z', *(['-w'] if i == 9 else []), d('g%d.t2x' % i), A('g%d.t2x.bin' % i))], 'chunk', arts=['g%d.t2x.bin' % i], tags=['rand', 'c13'])
        t('postchunk-g%d' % i, [S('postchunk', '-z', *(['-w'] if i == 9 else []), d('g%d.t3x' % i), A('g%d.t3x.bin' % i))], 'chunk', arts=['g%d.t3x.bin' % i], tags=['rand', 'c13'])
    t('interchunk-g1w', [S('interchunk', '-z', '-w', d('g1.t2x'), A('g1.t2x.bin'))], 'chunk', arts=['g1.t2x.bin'], tags=['rand'])
    t('postchunk-g1w', [S('postchunk', '-z', '-w', d('g1.t3x'), A('g1.t3x.bin'))], 'chunk', arts=['g1.t3x.bin'], tags=['rand'])
    t('pipe-g', [S('transfer', '-z', '-b', d('g0.t1x'), A('g0.t1x.bin')), S('interchunk', '-z', d('g0.t2x'), A('g0.t2x.bin')), S('postchunk', '-z', d('g2.t3x'), A('g2.t3x.bin'))],
      'bil', arts=['g0.t1x.bin', 'g0.t2x.bin', 'g2.t3x.bin'], tags=['rand'])
    t('posttransfer', [S('posttransfer', '-z')], 'text')
    # taggers: every model family with every output mode; the short names are the plain mode
    for fam, nm, mode, art in [('hmm', 'hmm', [], 'hmm.prob'), ('hmm', 'hs', [], 'hs.prob'), ('hmm', 'hb', [], 'hb.prob'), ('hmm', 'ht', [], 'ht.prob'),
                               ('hmm', 'ha', [], 'ha.prob'), ('hmm', 'hr', [], 'hr.prob'), ('st', 'u1', ['-u', '1'], 'u1.prob'), ('st', 'u2', ['-u', '2'], 'u2.prob'), ('st', 'u3', ['-u', '3'], 'u3.prob'),
                               ('st', 'hu1', ['-u', '1'], 'hu1.prob'), ('st', 'hu2', ['-u', '2'], 'hu2.prob'), ('st', 'hu3', ['-u', '3'], 'hu3.prob'),
                               ('lsw', 'w', ['-w'], 'lsw.prob'), ('lsw', 'hw', ['-w'], 'hw.prob'), ('lsw', 'hwr', ['-w'], 'hwr.prob'),
                               ('st', 'x', ['-x'], 'xx.prob'), ('st', 'hx', ['-x'], 'hx.prob')]:
        modes = ['', 'p', 'f', 'm', 'pfm'] if nm in ('hmm', 'hs', 'u1', 'u2', 'u3', 'w', 'hw', 'x', 'hx') else ['']
        for fl in modes:
            t('tagger-' + nm + (fl and '-' + fl), [S('tagger', *mode, '-g', '-z', *['-' + y for y in fl], A(art))], 'amb', arts=[art], tg=(fam, fl))
    t('tagger-hg', [S('tagger', '-x', '-g', '-z', A('hg.prob'))], 'amb', arts=['hg.prob'], tg=('st', ''), tags=['known'])
    t('tagger-auto-x', [S('tagger', '-g', '-z', A('xx.prob'))], 'amb', arts=['xx.prob'], tg=('st', ''))
    t('tagger-x-b', [S('tagger', '-x', '-g', '-z', '-b', A('xx.prob'))], 'amb', arts=['xx.prob'], tg=('st', ''))
    t('extract-caps', [S('extract-caps', '-z')], 'amb')
    t('extract-caps-s', [S('extract-caps', '-z', '-s')], 'amb')
    t('restore-caps', [S('restore-caps', '-z', A('crx.bin'))], 'caps', arts=['crx.bin'], nofeats=['long'])
    t('restore-caps-k', [S('restore-caps', '-z', '-k', A('crx.bin'))], 'caps', arts=['crx.bin'], nofeats=['long'])
    t('wblank-attach', [S('wblank-attach')], 'wtext')
    t('wblank-detach', [S('wblank-detach')], 'wgen')
    # pipelines (lt-proc is a stand-in around the system library, which mishandles escapes in blanks)
    xfer = [S('ltproc', 'b', A('bil.bin'), 'z'), S('transfer', '-z', '-b', d('gen.t1x'), A('t1x.bin')),
            S('interchunk', '-z', d('gen.t2x'), A('t2x.bin')), S('postchunk', '-z', d('gen.t3x'), A('t3x.bin'))]
    xa = ['t1x.bin', 't2x.bin', 't3x.bin', 'bil.bin']
    t('pipe-chunks', xfer[1:], 'bil', arts=xa[:3])
    t('pipe-transfer', [S('pretransfer', '-z')] + xfer, 'lu', arts=xa, nofeats=['esc'], tail=b'\n')
    t('pipe-tag', [S('tagger', '-g', '-z', A('hmm.prob')), S('pretransfer', '-z')], 'amb', arts=['hmm.prob'])
    t('pipe-full', [S('wblank-attach'), S('ltproc', 'a', A('ana.bin'), 'z'), S('tagger', '-g', '-z', A('hmm.prob')),
                    S('pretransfer', '-z')] + xfer + [S('wblank-detach')], 'plain',
      arts=xa + ['ana.bin', 'hmm.prob'], nofeats=['esc'], tail=b'\n')
    t('pipe-caps', [S('extract-caps', '-z', '-s'), S('restore-caps', '-z', '-k', A('crx.bin'))], 'amb', arts=['crx.bin'], nofeats=['long'])
    # one-shot
    t('cleanstream', [S('cleanstream')], 'amb', nul=False)
    t('cleanstream-n', [S('cleanstream', '-n')], 'amb', nul=False)
    t('cleanstream-b', [S('cleanstream', '-b')], 'bil', nul=False)
    t('multi-trans', [S('multiple-translations', A('t1x.bin'), A('bil.bin'))], 'lupre', nul=False, arts=tr)
    for i in (0, 3, 9, 13):
        t('multi-trans-g%d' % i, [S('multiple-translations', A('g%d.t1x.bin' % i), A('bil.bin'))], 'lupre', nul=False, arts=['g%d.t1x.bin' % i, 'bil.bin'], tags=['c13'])
    t('filter-amb', [S('filter-ambiguity', d('gen.tsx'))], 'amb', nul=False)
    t('prelatex', [S('prelatex')], 'latex', nul=False)
    t('postlatex', [S('postlatex')], 'latex', nul=False)
    t('postlatex-raw', [S('postlatex-raw')], 'latex', nul=False)
    for f in sorted(B.FORMATS):
        k = 'f' + f
        t('des' + f, [S('des' + f)], k, nul=False)
        t('re' + f, [S('re' + f)], 'fre', nul=False)
        for o in ['', 'n', 'i']:
            t('rt-' + f + (o and '-' + o), [S('des' + f, *(['-' + o] if o else [])), S('re' + f)], k, nul=False, tags=['rt'])
    return {x.name: x for x in T}


TARGETS = make_targets()


class World:
    def __init__(self, names, extra_tools=(), verbose=False):
        self.names = list(names)
        tools = {}
        arts = set()
        for n in names:
            for k, v in TARGETS[n].tools().items():
                tools[k] = max(tools.get(k, 0), v)
            arts.update(TARGETS[n].arts)
        for x in extra_tools:
            x, _, c = x.partition(':')
            tools[x] = max(tools.get(x, 0), int(c or 1))
        for a in arts:
            if a in ARTS:
                tools.setdefault(ARTS[a][0], 1)
        self.tools = tools
        self.rundir = B.build(tools)
        self.arts = {}
        self.sim_ = None
        self.bad = {}                   # artefacts the tree under test does not compile
        for a in sorted(arts):
            try:
                self.make_arts([a])
            except ArtError as e:
                self.bad[a] = str(e)

    def sim(self):
        if self.sim_ is None:
            self.sim_ = Sim(self.rundir, self.tools)
        return self.sim_

    def make_arts(self, arts):
        for a in sorted(arts):
            if a in self.arts:
                continue
            if a in NATIVE:
                p = os.path.join(B.OUT, 'art'); os.makedirs(p, exist_ok=True)
                c = NATIVE[a]
                o = os.path.join(p, a + '.' + B.hfile(c[-1])[:16])
                if not os.path.exists(o):
                    B.sh(c + [o + '.tmp%d' % os.getpid()]); os.rename(o + '.tmp%d' % os.getpid(), o)
                self.arts[a] = open(o, 'rb').read()
            else:
                r = self.sim().run(self.art_spec(a, disk=self.artdisk(a)))
                if r.verdict != 'done' or r.acts[0]['status'] != 0:
                    raise ArtError(a, r)
                self.arts[a] = r.disk[artpath(a)]

    def art(self, a):
        """the artefact as built by the tree under test without any fault"""
        if a not in self.arts:
            self.make_arts([a])
        return self.arts[a]

    def artdisk(self, a):
        """what the disk holds before the artefact is made: retraining starts from an existing model"""
        return {artpath(a): self.art(ARTS[a][2])} if len(ARTS[a]) > 2 else {}

    @staticmethod
    def art_spec(a, **kw):
        tool, args = ARTS[a][:2]
        args = [artpath(a) if x == '@O' else x for x in args]
        st, c = pipeline([S(tool, *args)], [('c',)])
        spec = {'stages': st, 'clients': [c], 'wantdisk': 1, 'cpu': 60, 'maxsteps': 50000000}
        spec.update(kw)
        return spec

    def disk(self, t):
        return {artpath(a): self.art(a) for a in t.arts}


class ArtError(Exception):
    def __init__(self, a, r):
        Exception.__init__(self, 'artefact %s: %s %s %s' % (a, r.verdict, r.msg, r.acts))
        self.art, self.res = a, r
