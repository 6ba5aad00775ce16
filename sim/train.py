"""Reference training: what the estimators of apertium-tagger make of their corpora.  Random tag definition files and corpora."""
import math, re, sys
from fractions import Fraction
from tagger import Tsx, Skip, Prob, split, morphemes, SENT, EOF, UNDEF
ZERO = 1e-10
TINY = sys.float_info.min

LABELS = [('DET', '', ['det.*']), ('VERB', '', ['vb.*']), ('NOUN', '', ['n', 'n.*']), ('NSG', '', ['n.sg']), ('ADJ', '', ['adj', 'adj.*']), ('ADV', '', ['adv']), ('PRN', '', ['prn', 'prn.*']),
          ('PR', '', ['pr']), ('NUM', '', ['num']), ('NP', '', ['np', 'np.*']), ('HAVE', 'have', ['vb.*']), ('BWORD', 'b*', ['n.*', 'vb.pri']), ('PAST', '', ['vb.past']), ('ANY', '', ['*'])]
FINE = ['n.pl', 'n', 'vb.pri', 'vb.past', 'adj', 'np', 'adv', 'adj.sint', 'n.sg', 'vb.*', 'num', 'pr']
POOL = {'the': ['the<det><def>'], 'books': ['book<n><pl>', 'book<vb><pri>'], 'book': ['book<n><sg>', 'book<vb><pri>'], 'close': ['close<adj>', 'close<n><sg>', 'close<vb><pri>'], 'cat': ['cat<n><sg>'],
        'house': ['house<n><sg>', 'house<vb><pri>'], 'big': ['big<adj>'], 'fast': ['fast<adj>', 'fast<adv>', 'fast<n><sg>'], 'he': ['he<prn>'], 'have': ['have<vb><pri>'], 'eaten': ['eat<vb><past>'],
        'well': ['well<adv>', 'well<n><sg>', 'well<adj>'], 'of': ['of<pr>'], 'of the': ['of<pr>+the<det><def>'], 'two': ['two<num>', 'two<n><sg>'], 'ñandú': ['ñandú<n><sg>', 'ñandú<adj>'], ',': [',<cm>'],
        'give him': ['give<vb><inf>+him<prn>'], 'Q': ['q<np>', 'q<n><sg>', 'q<vb><pri>'], 'zork': ['*zork'], 'a\\$b': ['a\\$b<n><sg>', 'a\\$b<adj>'], 'sheep': ['sheep<n><sg>', 'sheep<n><pl>'],
        'put': ['put<vb><pri>', 'put<vb><past>', 'put<n><sg>'], 'take off': ['take<vb><pri>+off<pr>'], '8': ['8<num>'], 'Have': ['Have<vb><past>', 'have<vb><pri>'], 'x\\<y': ['x\\<y<n>', 'x\\<y<adj><sint>'],
        'odd': ['odd<foo>', 'odd<adj>'], 'boo': ['boo<n><pl>', 'boo<vb><pri>', 'boo<vb><past>'], '.': ['.<sent>'],
        'du': ['de<pr>+the<det><def>', 'of<pr>+a<det><ind>'], 'give it': ['give<vb><inf>+it<prn>', 'give<vb><pri>+it<prn>', 'gift<n><sg>+it<prn>'], 'dimelo': ['say<vb><pri>+I<prn>+it<prn>']}
# words the tag definitions may know in part only
ODD = {'pz': ['of<pr>+z<zz><yy>'], 'zp': ['z<zz>+the<det><def>'], 'zz': ['z<zz>+z<yy>'], 'pzd': ['of<pr>+z<zz>+the<det><def>'], 'odd': ['odd<zz>'], 'odder': ['odd<zz>', 'odd<n><sg>', 'odd<yy>'],
       'of the cat': ['of<pr>+the<det><def>+cat<n><sg>']}


def tsx(r, old=None):
    """a tag definition file; with old, the tag set of old with other rules"""
    if old:
        head, tail = old.split('</tagset>\n')
        alln = ['SENT', 'CM'] + re.findall(r'<def-(?:label|mult) name="([^"]*)"', head)
        return head + '</tagset>\n' + rules(r, alln)
    L = [x for x in LABELS if x[0] != 'ANY' and r.random() < .85]
    if not L:
        L = LABELS[:3]
    r.shuffle(L)
    if r.random() < .2:
        L.append(LABELS[-1])
    c = lambda: r.choice([' closed="true"', ' closed="true"', ' closed="false"', ''])
    it = lambda l, t: '<tags-item%s tags="%s"/>' % (' lemma="%s"' % l if l else '', t)
    o = '<?xml version="1.0" encoding="UTF-8"?>\n<tagger name="r"><tagset>\n'
    for k, (n, l, t) in enumerate(L):
        o += '<def-label name="%s"%s>%s</def-label>\n' % (n, c() if k else '', ''.join(it(l, x) for x in t))
    names = [x[0] for x in L]
    li = lambda n: '<label-item label="%s"/>' % n
    mults = []
    for n, a in [('PRDET', [('PR', 'pr'), ('DET', 'det.*')]), ('VBPRN', [('VERB', 'vb.*'), ('PRN', 'prn')]), ('VBPR', [('PAST', 'vb.pri'), ('PR', 'pr')])]:
        if r.random() < .5:
            sq = ''.join(li(x) if x in names and r.random() < .5 else it('', t) for x, t in a)
            o += '<def-mult name="%s"%s><sequence>%s</sequence></def-mult>\n' % (n, c(), sq); mults.append(n)
    o += '</tagset>\n'
    return o + rules(r, ['SENT', 'CM'] + names + mults)


def rules(r, alln):
    li = lambda n: '<label-item label="%s"/>' % n
    o = ''
    if r.random() < .6:
        o += '<forbid>' + ''.join('<label-sequence>%s%s</label-sequence>' % (li(r.choice(alln)), li(r.choice(alln))) for _ in range(r.randint(1, 4))) + '</forbid>\n'
    if r.random() < .5:
        o += '<enforce-rules>' + ''.join('<enforce-after label="%s"><label-set>%s</label-set></enforce-after>' % (
            r.choice(alln), ''.join(li(x) for x in r.sample(alln, min(len(alln), r.randint(2, 5))))) for _ in range(r.randint(1, 2))) + '</enforce-rules>\n'
    for tag, e in (('preferences', 'prefer'), ('discard-on-ambiguity', 'discard')):
        if r.random() < .5:
            o += '<%s>%s</%s>\n' % (tag, ''.join('<%s tags="%s"/>' % (e, r.choice(FINE)) for _ in range(r.randint(1, 3))), tag)
    return o + '</tagger>\n'


def corpus(r, t, n, amb=False, unk=True):
    """n sentences of units 'surface\\tanalyses\\tchosen\\tblank'"""
    ok = []
    for s, a in POOL.items():
        try:
            t.words(a)
            if unk or a[0][0] != '*':
                ok.append((s, a))
        except Skip:
            pass
    o = []
    for _ in range(n):
        q = []
        for s, a in [r.choice(ok) for _ in range(r.randint(0, 7))] + [('.', POOL['.'])]:
            a = list(a)
            if r.random() < .1:
                r.shuffle(a)
            ch = a if amb and r.random() < .2 else [r.choice(a)]
            q.append('\t'.join([s, '/'.join(a), '/'.join(ch), r.choice(['', '', ' ', ' ', '\n', ' [<b>] '])]))
        o.append(q)
    return o


class Corpus:
    """the three files training reads, from the units"""
    def __init__(self, t, reqs, extra):
        u = [x.split('\t') for q in reqs for x in q]
        self.untagged = ''.join('^%s/%s$%s' % (s, a, b) for s, a, c, b in u) + '\n'
        self.tagged = ''.join('^%s/%s$%s' % (s, c, b) for s, a, c, b in u) + '\n'
        words = {}
        for s, a, c, b in u + [[s, '/'.join(POOL[s]), '', ''] for s in extra]:
            if a[0] != '*':
                words.setdefault((s, a))
        self.dic = ''.join('^%s/%s$\n' % w for w in words)
        self.u = u
        self.words = [w for s, a, c, b in u for w in t.words(split(a, '/'))] + [{EOF: ''}]
        self.chosen = [w for s, a, c, b in u for w in t.words(split(c, '/'))] + [{EOF: ''}]
        self.readings = [split(c, '/') for s, a, c, b in u]
        self.dicw = [w for s, a in words for w in t.words(split(a, '/'))] + [{EOF: ''}]
        self.t = t

    def classes(self):
        s = {frozenset(w) for w in self.dicw if w} | {frozenset(self.t.open)}
        return s | {frozenset([i]) for i in range(len(self.t.names))}


class HmmRef:
    def __init__(self, t, classes):
        self.t = t; self.N = len(t.names); self.C = sorted(classes, key=sorted)
        self.A = None

    def tags(self, w):
        return frozenset(w) or frozenset(self.t.open)

    def rules(self):
        A = self.A
        for i, j in self.t.forbid:
            A[i][j] = ZERO
        for i, s in self.t.enforce:
            for j in range(self.N):
                if j not in s:
                    A[i][j] = ZERO
        for i in range(self.N):
            n = sum(A[i])
            A[i] = [x / n if n > 0 else 0 for x in A[i]]

    def supervised(self, c):
        N = self.N
        A = [[1.0] * N for _ in range(N)]; E = {}
        prev = SENT
        for ch, un in zip(c.chosen, c.words):
            cur = next(iter(ch)) if ch else None
            if prev is not None and cur is not None:
                A[prev][cur] += 1
            if cur is not None:
                k = cur, self.tags(un); E[k] = E.get(k, 0) + 1
            prev = cur
        self.A = [[x / sum(r) for x in r] for r in A]
        self.B = {}
        for i in range(N):
            mine = [k for k in self.C if i in k]
            n = sum(E.get((i, k), 0) for k in mine)
            for k in mine:
                self.B[i, k] = (E.get((i, k), 0) + 1.0 / len(mine)) / (n + 1.0)
        self.rules()

    def kupiec(self, c):
        N = self.N
        occ = {k: 1 for k in self.C}; pair = {}
        k1 = frozenset([SENT])
        for w in c.words:
            k2 = self.tags(w)
            occ[k1] += 1; pair[k1, k2] = pair.get((k1, k2), 0) + 1
            k1 = k2
        est = [sum(occ[k] / len(k) for k in self.C if i in k) for i in range(N)]
        tp = [[0.0] * N for _ in range(N)]
        for a in self.C:
            for b in self.C:
                n = (1 + pair.get((a, b), 0)) / (len(a) * len(b)) if a and b else 0
                for i in a:
                    for j in b:
                        tp[i][j] += n
        self.A = [[x / sum(r) if sum(r) > 0 else 0 for x in r] for r in tp]
        self.B = {(i, k): occ[k] / len(k) / est[i] if est[i] > 0 else 0 for k in self.C for i in k}
        self.rules()

    def baumwelch(self, c, n):
        for _ in range(n):
            self.iterate(c)
        self.rules()

    def iterate(self, c):
        A, B, N = self.A, self.B, self.N
        gamma = {}; xsi = {}; phi = {}
        seg = [frozenset([SENT])]
        for w in c.words:
            seg.append(self.tags(w))
            if len(seg[-1]) != 1:
                continue
            # forward, backward over the segment
            al = [{next(iter(seg[0])): 1.0}]
            for p, q in zip(seg, seg[1:]):
                al.append({i: sum(al[-1][j] * A[j][i] * B[i, q] for j in p) or TINY for i in q})
            prob = al[-1][next(iter(seg[-1]))]
            be = {next(iter(seg[-1])): 1.0}
            for t in range(len(seg) - 1, 0, -1):
                q, p = seg[t], seg[t - 1]; nb = {}
                for i in q:
                    for j in p:
                        x = A[j][i] * B[i, q] * be[i]
                        nb[j] = nb.get(j, 0) + x
                        xsi[j, i] = xsi.get((j, i), 0) + al[t - 1][j] * x / prob
                    g = al[t][i] * be[i] / prob
                    gamma[i] = gamma.get(i, 0) + g or TINY
                    phi[i, q] = phi.get((i, q), 0) + g
                be = nb
            seg = [seg[-1]]
        A2 = [[ZERO] * N for _ in range(N)]
        for (i, j), x in xsi.items():
            if x > 0:
                A2[i][j] = x / (gamma.get(i) or TINY)
        B2 = {k: ZERO for k in B}
        for k, x in phi.items():
            if x > 0:
                B2[k] = x / gamma[k[0]]
        self.A = [[x / sum(r) for x in r] for r in A2]
        tot = {}
        for (i, k), x in B2.items():
            tot[i] = tot.get(i, 0) + x
        self.B = {(i, k): x / tot[i] for (i, k), x in B2.items()}


class LswRef:
    def __init__(self, t):
        self.t = t

    def valid(self, *w):
        for a, b in zip(w, w[1:]):
            if (a, b) in self.t.forbid or any(a == i and b not in s for i, s in self.t.enforce):
                return False
        return True

    def windows(self, c):
        s = [frozenset([SENT])] + [frozenset(w) or frozenset(self.t.open) for w in c.words]
        return [[(i, j, k) for i in sorted(a) for j in sorted(b) for k in sorted(d)] for a, b, d in zip(s, s[1:], s[2:])]

    def init(self, c):
        self.D = {}
        for w in self.windows(c):
            v = [x for x in w if self.valid(*x)]
            for x in v:
                self.D[x] = self.D.get(x, 0) + 1.0 / len(v)

    def train(self, c, n):
        for _ in range(n):
            D = {}
            for w in self.windows(c):
                s = sum(self.D.get(x, 0) for x in w)
                if s > ZERO:
                    for x in w:
                        D[x] = D.get(x, 0) + self.D.get(x, 0) / s
            self.D = D


class Uni:
    """decoded unigram model file: nested dicts of strings to counts"""
    def __init__(self, data, model):
        self.d = data; self.p = 0
        tags = lambda: tuple(self.vec(self.str))
        morph = lambda: (self.str(), tags())
        morphs = lambda: tuple(self.vec(morph))
        if model == 1:
            self.m = [self.map(morphs, self.int)]
        elif model == 2:
            self.m = [self.map(lambda: (tags(), morphs()), lambda: self.map(self.str, self.int))]
        else:
            self.m = [self.map(tags, lambda: self.map(self.str, self.int)), self.map(tags, lambda: self.map(self.str, self.int)), self.map(self.str, lambda: self.map(tags, self.int))]
        self.rest = self.d[self.p:]

    def int(self):
        n = self.d[self.p]; v = int.from_bytes(self.d[self.p + 1:self.p + 1 + n], 'big'); self.p += 1 + n
        return v

    def vec(self, f):
        return [f() for _ in range(self.int())]

    def str(self):
        b = b''.join(x.to_bytes(2, 'big') for x in self.vec(self.int))
        return b.decode('utf-16-be', 'surrogatepass')

    def map(self, k, v):
        o = {}
        for _ in range(self.int()):
            x = k(); o[x] = v()
        return o


def unigram(model, readings):
    """the counts, in shares of one, and the unit the smallest share has"""
    coef = 1; o = [{} for _ in range(3 if model == 3 else 1)]
    import re
    tg = lambda s: tuple(re.findall(r'<([^>]*)>', s))

    def add(d, *k):
        for x in k[:-1]:
            d = d.setdefault(x, {})
        d[k[-1]] = d.get(k[-1], 0) + share
    for an in readings:
        if coef % len(an):
            coef *= len(an)
        share = Fraction(1, len(an))
        for a in an:
            m = [(l, tg(t)) for l, t in morphemes(a)]
            if model == 1:
                add(o[0], tuple(m))
            elif model == 2:
                add(o[0], (m[0][1], tuple(m[1:])), m[0][0])
            else:
                add(o[0], m[0][1], m[0][0])
                for x, y in zip(m, m[1:]):
                    add(o[1], x[1], y[0]); add(o[2], y[0], y[1])
    return o, coef


def vocab(r):
    """words with readings that share lemmas, tags and parts"""
    L = ['a', 'b', 'c', 'd'][:r.randint(1, 4)]; T = ['<n>', '<v>', '<adj>', '<n><sg>', '<v><pri>'][:r.randint(2, 5)]
    an = lambda: '+'.join(r.choice(L) + r.choice(T) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3])))
    o = []
    for i in range(r.randint(1, 8)):
        a = []
        for _ in range(r.randint(1, 4)):
            x = an()
            if x not in a:
                a.append(x)
        o.append(('w%d' % i, a))
    return o
