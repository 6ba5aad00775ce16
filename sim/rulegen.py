#!/usr/bin/env python3
"""rulegen.py: writes data/g*.t1x, g*.t2x, g*.t3x (committed): seeded random rule files that
use every instruction of the three rule languages, so that the checks do not depend on what
the hand-written files happen to use.  Run by hand."""
import os, random
from xml.sax.saxutils import quoteattr as q

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
LU_CATS = {'det': ['det.*'], 'adj': ['adj', 'adj.*'], 'nom': ['n', 'n.*'], 'vb': ['vb.*'], 'prn': ['prn', 'prn.*'], 'adv': ['adv'], 'pr': ['pr'],
           'cm': ['cm'], 'sent': ['sent'], 'num': ['num'], 'zz': ['zzz']}
CH_CATS = {'SN': ['SN', 'SN.*'], 'SV': ['SV', 'SV.*'], 'SP': ['SP'], 'NUM': ['NUM'], 'SADV': ['SADV'], 'SADJ': ['SADJ.*', 'SADJ'], 'SENT': ['SENT'], 'DEF': ['default']}
PC = {'nsp': 1, 'detn': 2, 'v': 1, 'adjn': 2, 'ncn': 3, 'n': 1, 'adj': 1, 'sent': 1, 'auxv': 1, 'prdn': 1, 'pv': 1, 'num': 1, 'default': 1}
ATTRS = {'a_num': ['sg', 'pl', 'ND'], 'a_gen': ['m', 'f', 'GD'], 'a_pos': ['n', 'adj', 'vb.*', 'n.acr', 'SN', 'SV'], 'a_tns': ['pri', 'past']}
LITS = ['', 'x', 'Abc', 'ñ', '-', 'cat', 'DOG', 'aa', 'Aa', 'AA', 'of']
TAGS = ['sg', 'pl', 'SN', 'n', 'vb.pri', 'm']


class RG:
    rej = False
    unlimited = False   # of the files drawn during a check
    sparse = False      # few patterns, so that many words and sequences match none
    ext = False         # the later files: conditions and values whose result can always be seen, positions without a word, lemmas with *

    def __init__(self, seed, kind, default=None):
        self.r = random.Random('rules%s%s' % (kind, seed)); self.kind = kind; self.default = default
        self.chunkmode = kind == 't1x' and default == 'chunk'

    def pick(self, x):
        return self.r.choice(x)

    def ch(self, p):
        return self.r.random() < p

    # values
    def side(self):
        return ' side="%s"' % self.pick(['tl', 'tl', 'tl', 'sl', 'sl', 'ref']) if self.kind == 't1x' else ''

    def pos(self, read=False):
        if self.ext and self.kind == 't3x' and read and self.ch(.06):
            return self.n + self.r.randint(1, 2)
        return self.r.randint(1, self.n)

    def probes(self):
        """statements that leave the result of a condition or a value where out shows it"""
        if not self.ext or self.ch(.15):
            return '', ''
        o = []; u = ''; t = ''
        for i in range(self.r.randint(2, 6)):
            v = 'p%d' % i
            if self.ch(.6):
                o.append('<choose><when><test>%s</test><let><var n="%s"/><lit v="y%d"/></let></when><otherwise><let><var n="%s"/><lit v="n%d"/></let></otherwise></choose>' % (self.cond(), v, i, v, i))
            elif self.ch(.25):
                o.append('<let><var n="%s"/>%s</let>' % (v, self.pick([self.tagv, lambda: self.clip('tags')])()))
                t += '<var n="%s"/>' % v
                continue
            else:
                o.append('<let><var n="%s"/>%s</let>' % (v, self.pick([self.lemv, self.lemv, lambda: self.clip('lemh')])()))
            u += '<var n="%s"/><lit v="-"/>' % v
        x = u + '<lit v="-"/><lit-tag v="probe"/>' + t
        if self.kind == 't2x':
            x = '<chunk>%s<lit v="{}"/></chunk>' % x
        else:
            x = '<lu>%s</lu>' % x
            if self.chunkmode:
                x = '<chunk name="probe"><tags><tag><lit-tag v="SN"/></tag></tags>%s</chunk>' % x
        return ''.join(o), '<out>%s</out>' % x

    def clip(self, part, link=False, w=False):
        x = '<clip pos="%d"%s part="%s"' % (self.pos(not w), self.side(), part)
        if self.kind == 't1x' and self.ch(.3 if self.ext else .1):
            x += ' queue="no"'
        if link and self.chunkmode and self.ch(.3):
            x += ' link-to="%d"' % self.r.randint(1, 3)
        return x + '/>'

    def lemv(self, d=0):
        x = self.r.random()
        if x < .35:
            return self.clip(self.pick(['lem', 'lemh', 'lem']))
        if x < .5:
            return '<lit v=%s/>' % q(self.pick(LITS))
        if x < .65:
            return '<var n="%s"/>' % self.pick(self.vl)
        if x < .8:
            return '<get-case-from pos="%d">%s</get-case-from>' % (self.pos(True), self.pick([self.clip('lem'), '<lit v="Word"/>', '<var n="%s"/>' % self.vl[0]]))
        if x < .88:
            return '<case-of pos="%d"%s part="lem"/>' % (self.pos(True), self.side().replace('ref', 'tl'))
        if x < .94 and d < 2:
            return '<concat>%s%s</concat>' % (self.lemv(d + 1), self.lemv(d + 1))
        return self.clip('lemq')

    def tagv(self):
        x = self.r.random()
        if x < .5:
            return self.clip(self.pick(['a_num', 'a_gen', 'a_pos', 'a_tns', 'tags']), True)
        if x < .8:
            return '<lit-tag v="%s"/>' % self.pick(TAGS)
        return '<var n="%s"/>' % self.pick(self.vt)

    def luv(self):
        if self.ext and self.ch(.12):       # often empty
            return self.pick([self.clip('lemq'), self.clip('a_tns'), '<var n="t0"/>'])
        if self.ch(.4):
            return self.clip('whole')
        return self.pick([self.clip('lemh'), self.lemv(), self.clip('lem')]) + ''.join(self.tagv() for _ in range(self.r.randint(1, 3))) + (self.clip('lemq') if self.ch(.2) else '')

    def lu(self):
        if self.ext and self.ch(.06):
            return '<mlu>%s</mlu>' % ''.join('<lu>%s</lu>' % self.pick([self.clip('lemq'), self.clip('a_tns'), '<var n="t0"/>']) for _ in range(self.r.randint(1, 2)))
        if self.ch(.12):
            return '<mlu>%s</mlu>' % ''.join('<lu>%s</lu>' % self.luv() for _ in range(self.r.randint(1, 3)))
        return '<lu>%s</lu>' % self.luv()

    def b(self):
        return '<b/>' if self.n < 2 or self.ch(.3) else '<b pos="%d"/>' % self.r.randint(1, self.n - 1)

    def lus(self):
        o = []
        for i in range(self.r.randint(1, self.n + 1)):
            if i:
                o.append(self.b())
            o.append('<var n="w1"/>' if self.kind == 't1x' and self.ch(.08) else self.lu())
        return ''.join(o)

    def chunk(self):
        if self.kind == 't2x':
            x = self.r.random()
            if x < .5:
                return '<chunk>%s</chunk>' % self.clip('whole')
            p = self.pos()
            return '<chunk>%s%s<clip pos="%d" part="%s"/></chunk>' % (self.pick([self.clip('lem'), self.lemv() + '<lit v="k"/>']), self.tagv() + (self.tagv() if self.ch(.5) else ''), p, 'chcontent')
        nm = 'name="%s"' % self.pick(list(PC)) if self.ch(.7) else 'namefrom="l2"'
        cs = self.pick(['', '', ' case="vcase"', ' case="%s"' % self.pick(self.vl)])
        tags = ''.join('<tag>%s</tag>' % self.pick(['<lit-tag v="%s"/>' % self.pick(['SN', 'SV.past', 'SP']), self.clip('a_num'), '<var n="%s"/>' % self.pick(self.vt)]) for _ in range(self.r.randint(1, 3)))
        return '<chunk %s%s><tags><tag><lit-tag v="%s"/></tag>%s</tags>%s</chunk>' % (nm, cs, self.pick(['SN', 'SV', 'SADV']), tags, self.lus())

    def unit(self):
        if self.kind == 't2x' or self.chunkmode:
            return self.chunk()
        return self.lu()

    def nob(self, f):
        # a blank stays in the queue when it is copied into a variable: such rules duplicate blanks by design
        while True:
            x = f()
            if '<b' not in x:
                return x

    def out(self):
        o = []
        for i in range(self.r.choice([1, 1, 2, 3])):
            if i:
                o.append(self.b())
            o.append('<var n="w0"/>' if self.kind == 't1x' and self.ch(.06) else self.unit())
        return '<out>%s</out>' % ''.join(o)

    # conditions
    def cond(self, d=0):
        x = self.r.random()
        cl = self.pick(['', '', ' caseless="yes"', ' caseless="no"'] + ([' caseless="yes"'] * 3 if self.ext else []))
        if self.ext and self.ch(.25):
            k = self.pick(['begins-with-list', 'ends-with-list', 'in'])
            return '<%s%s>%s<list n="%s"/></%s>' % (k, cl, self.clip(self.pick(['lem', 'lemh'])), self.pick(['li1', 'li2']), k)
        if d < 2 and x < .25:
            k = self.pick(['and', 'or', 'not'])
            return '<%s>%s</%s>' % (k, ''.join(self.cond(d + 1) for _ in range(1 if k == 'not' else self.r.randint(2, 3))), k)
        if x < .5:
            if self.kind == 't3x' and self.ch(.2):
                return '<equal><lu-count/><lit v="%d"/></equal>' % self.r.randint(1, 3)
            return '<equal%s>%s%s</equal>' % (cl, self.tagv(), self.tagv()) if self.ch(.5) else '<equal%s>%s%s</equal>' % (cl, self.lemv(), self.lemv())
        if x < .7:
            k = self.pick(['begins-with', 'ends-with', 'contains-substring'])
            return '<%s%s>%s%s</%s>' % (k, cl, self.lemv(), self.pick(['<lit v="%s"/>' % self.pick(['d', 'c', 's', 'X', 'ca']), self.lemv()]), k)
        if x < .85:
            k = self.pick(['begins-with-list', 'ends-with-list'])
            return '<%s%s>%s<list n="%s"/></%s>' % (k, cl, self.lemv(), self.pick(['li1', 'li2']), k)
        return '<in%s>%s<list n="%s"/></in>' % (cl, self.lemv(), self.pick(['li1', 'li2']))

    # statements
    def let(self):
        x = self.r.random()
        if x < .3:
            return '<let><var n="%s"/>%s</let>' % (self.pick(self.vl), self.lemv())
        if x < .5:
            return '<let><var n="%s"/>%s</let>' % (self.pick(self.vt), self.tagv())
        if x < .6 and self.kind == 't1x':
            return '<let><var n="w0"/>%s</let>' % self.nob(self.unit) if self.ch(.5) else '<let><var n="w1"/>%s</let>' % self.lu()
        if x < .65:
            return '<let><var n="vcase"/><lit v="%s"/></let>' % self.pick(['aa', 'Aa', 'AA'])
        if x < .85:
            return '<let>%s%s</let>' % (self.clip(self.pick(['a_num', 'a_gen', 'a_pos', 'a_tns']), w=True).replace(*['', ''] if self.ext else [' queue="no"', '']), self.tagv())
        return '<let>%s%s</let>' % (self.clip(self.pick(['lem', 'lemh']), w=True), self.lemv())

    def modcase(self):
        return '<modify-case>%s%s</modify-case>' % (self.pick([self.clip('lem', w=True), self.clip('lemh', w=True), '<var n="%s"/>' % self.pick(self.vl)]),
                                                    self.pick(['<lit v="%s"/>' % self.pick(['aa', 'Aa', 'AA']), '<var n="vcase"/>', '<case-of pos="%d"%s part="lem"/>' % (self.pos(), self.side().replace('ref', 'tl'))]))

    def append(self):
        return '<append n="%s">%s</append>' % (self.pick(self.vl[-1:]), ''.join(self.pick(['<lit v="%s"/>' % self.pick(['i', 'ab', 'Z']), self.clip('lem')]) for _ in range(self.r.randint(1, 2))))

    def call(self):
        m = [(a, b) for a, b in self.macros if b <= max(self.n, 1)]
        if not m or self.inmacro:
            return self.append()
        a, b = self.pick(m)
        return '<call-macro n="%s">%s</call-macro>' % (a, ''.join('<with-param pos="%d"/>' % self.pos() for _ in range(b)))

    def choose(self, d, tail):
        w = ''.join('<when><test>%s</test>%s</when>' % (self.cond(), self.stm(d + 1) + tail()) for _ in range(self.r.randint(1, 2)))
        return '<choose>%s%s</choose>' % (w, '<otherwise>%s</otherwise>' % (self.stm(d + 1) + tail()) if self.ch(.8) else '')

    def stm(self, d=0):
        x = self.r.random()
        if x < .35:
            return self.let()
        if x < .5:
            return self.modcase()
        if x < .65:
            return self.append()
        if x < .8:
            return self.call()
        if d < 2:
            return self.choose(d, lambda: '')
        return self.let()

    def span(self):
        """words or chunks the pattern covers"""
        return 1 if self.unlimited and self.kind == 't3x' else self.n

    def rule(self, pat):
        o = []
        if self.rej and self.ch(.75):
            c = '<equal>%s<lit-tag v="%s"/></equal>' % (self.clip('a_num'), self.pick(['sg', 'sg', 'pl', 'ND'])) if self.ch(.8) else '<equal><var n="t0"/><lit-tag v="z"/></equal>'
            o.append('<choose><when><test>%s</test>%s<reject-current-rule shifting="%s"/></when></choose>' % (
                c if self.ch(.7) else '<not>%s</not>' % c, self.pick(['', '', '<let><var n="t0"/><lit-tag v="z"/></let>', '<let><var n="t0"/><lit v=""/></let>']),
                self.pick(['0', 'no', '1', '1', 'yes'] + (['2'] if self.span() > 1 else []) + (['2', '3'] if self.span() > 2 else []))))
        elif self.ch(.3):
            o.append('<choose><when><test>%s</test><reject-current-rule%s/></when></choose>' % (
                self.cond(), self.pick([' shifting="1"', ' shifting="no"', ' shifting="yes"'] + ([' shifting="2"'] if self.span() > 1 else []))))
        for _ in range(self.r.randint(0, 2)):
            o.append(self.stm())
        pr = self.probes()
        if self.ext:
            o.append(pr[0])
        o.append(self.choose(0, self.out) if self.ch(.2) else self.out())
        if self.ext:
            o.append(pr[1])
        for _ in range(self.r.randint(0, 2)):
            o.append(self.stm())
        return '  <rule><pattern>%s</pattern>\n   <action>%s</action></rule>' % (''.join('<pattern-item n="%s"/>' % p for p in pat), '\n     '.join(o))

    def make(self):
        self.vl = ['l0', 'l1', 'l2', 'l3']; self.vt = ['t0', 't1']; self.macros = []; self.inmacro = False
        root = {'t1x': 'transfer', 't2x': 'interchunk', 't3x': 'postchunk'}[self.kind]
        o = ['<?xml version="1.0" encoding="UTF-8"?>', '<%s%s>' % (root, ' default="%s"' % self.default if self.default else '')]
        cats = {'t1x': LU_CATS, 't2x': CH_CATS, 't3x': {k: None for k in PC}}[self.kind]
        o.append('<section-def-cats>')
        for c, ts in cats.items():
            o.append('  <def-cat n="%s">%s</def-cat>' % (c, '<cat-item name="%s"/>' % c if ts is None else ''.join('<cat-item tags="%s"/>' % t for t in ts)))
        if self.kind == 't1x':
            o.append('  <def-cat n="lemcat"><cat-item lemma="dog" tags="n.*"/><cat-item lemma="have" tags="vb.*"/></def-cat>')
        if self.kind == 't1x' and self.ext:
            o.append('  <def-cat n="dstar"><cat-item lemma="d*" tags="n.*"/><cat-item lemma="*e" tags="vb.*"/></def-cat>')
            o.append('  <def-cat n="mid"><cat-item lemma="h*e" tags="n.*"/><cat-item lemma="c*t" tags="n.sg"/><cat-item lemma="*o*" tags="*.pl"/></def-cat>')
        o.append('</section-def-cats><section-def-attrs>')
        for a, ts in ATTRS.items():
            o.append('  <def-attr n="%s">%s</def-attr>' % (a, ''.join('<attr-item tags="%s"/>' % t for t in ts)))
        o.append('</section-def-attrs><section-def-vars>')
        for v in self.vl:
            o.append('  <def-var n="%s" v=%s/>' % (v, q(self.pick(['', 'x', 'Init', '-']))))
        o.append('  <def-var n="l2x"/>')
        if self.ext:
            o += ['  <def-var n="p%d"/>' % i for i in range(6)]
        for v in self.vt:
            o.append('  <def-var n="%s" v=%s/>' % (v, q(self.pick(['', '<sg>', '<z>']))))
        o.append('  <def-var n="vcase" v="%s"/><def-var n="w0"/><def-var n="w1" v=""/>' % self.pick(['aa', 'Aa', 'AA']))
        o.append('</section-def-vars><section-def-lists>')
        o.append('  <def-list n="li1"><list-item v="cat"/><list-item v="gat"/><list-item v="ñandú"/><list-item v="d"/></def-list>')
        o.append('  <def-list n="li2"><list-item v="s"/><list-item v="DOG"/><list-item v=""/></def-list>')
        if self.ext:
            o[-2] = '  <def-list n="li1"><list-item v="ca"/><list-item v="Ho"/><list-item v="house"/><list-item v="b"/><list-item v="TH"/><list-item v="ñandú"/></def-list>'
            o[-1] = '  <def-list n="li2"><list-item v="e"/><list-item v="OG"/><list-item v="cat"/><list-item v="the"/><list-item v="ve"/></def-list>'
        o.append('</section-def-lists><section-def-macros>')
        mac = []
        self.inmacro = True
        for i in range(3):
            self.n = i + 1
            mac.append(('m%d' % i, self.n))
            o.append('  <def-macro n="m%d" npar="%d">%s</def-macro>' % (i, self.n, '\n   '.join(self.stm() for _ in range(self.r.randint(1, 3)))))
        self.inmacro = False; self.macros = mac
        o.append('</section-def-macros><section-rules>')
        names = list(cats)
        pats = []
        if self.kind == 't3x':
            pats = [[c] for c in names if self.ch(.7)]
        else:
            pats = [[c] for c in names if self.ch(.6)]
            names = names + (['lemcat'] * 2 if self.kind == 't1x' else [])
            if self.kind == 't1x' and self.ext:
                names += ['dstar', 'dstar', 'mid', 'mid']
                pats += [['dstar'], ['mid']]
            if self.sparse:
                pats = pats[:self.pick([1, 2, 3])] if not self.ext else pats[-3:]
            while len(pats) < (self.pick([1, 2, 4, 6]) if self.sparse else 16):
                p = [self.pick(names) for _ in range(self.r.choice([2, 2, 2, 3, 3, 4]))]
                if p not in pats:
                    pats.append(p)
        self.r.shuffle(pats)
        for p in pats:
            self.n = PC[p[0]] if self.kind == 't3x' else len(p)
            o.append(self.rule(p))
        o.append('</section-rules></%s>' % root)
        return '\n'.join(o) + '\n'


FILES = ['g%d.t1x' % i for i in range(6)] + ['g%d.t2x' % i for i in range(4)] + ['g%d.t3x' % i for i in range(4)] + ['g6.t1x', 'g7.t1x', 'g6.t2x', 'g7.t2x', 'g6.t3x']     # 6 and 7: full of rejected rules
FILES += ['g%d.t1x' % i for i in range(8, 14)] + ['g%d.t2x' % i for i in range(8, 11)] + ['g%d.t3x' % i for i in range(8, 12)]


def fresh(n, kind, mode):
    """rule file n of the unlimited supply of C13"""
    r = random.Random('fresh%s%s%s' % (n, kind, mode))
    g = RG('fresh%d' % n, kind, None if kind != 't1x' else r.choice(['chunk', 'lu']))
    g.rej = r.random() < .4; g.ext = r.random() < .6; g.sparse = r.random() < .4; g.unlimited = True
    return g.make()


def notes(s, seed, some=('<!-- note -->', ' <!--<nothing/>-->', '\n<!-- a\nb -->\n'), rate=.15):
    """the XML text s with comments between its elements"""
    import re
    q = random.Random(seed); k = re.search(r'<[a-z][^>]*>', s).end(); e = s.rindex('</')
    return s[:k] + re.sub(r'>', lambda x: '>' + (q.choice(some) if q.random() < rate else ''), s[k:e]) + s[e:]


if __name__ == '__main__':
    for f in FILES:
        i, k = int(f[1:f.index('.')]), f[f.index('.') + 1:]
        g = RG(i, k, None if k != 't1x' else 'chunk' if i < 3 or i == 7 or i in (8, 10, 12) else 'lu')
        g.rej = i in (6, 7); g.ext = i >= 8
        s = g.make()
        open(os.path.join(DATA, f), 'w').write(s)
