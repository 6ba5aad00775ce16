"""Reference perceptron tagger: a reading of feature files (.mtx), averaged structured perceptron training with a beam and
early update, and tagging by it.  Where scores tie, every choice is allowed.  Random feature files and corpora."""
import itertools
from fractions import Fraction
from tagger import Tsx, split
import train

CAP = 4000


class TooMany(Exception):
    pass


# ---------------------------------------------------------------- expressions: random trees, their XML and their values
UF = ('!TOK_UNDERFLOW!', ('!TUF!',))
OF = ('!TOK_OVERFLOW!', ('!TOF!',))
UT = ('!UNTAGGED!', ('!UT!',))
SETS = ['n sg', 'the books .', 'det NOUN VERB', 'vb pri', 'ADJ TAG_SENT', 'b o']
STRS = ['n', 'book', 'NOUN', '.', 'sg', '-', '_']
CMP = ('eq', 'neq', 'lt', 'lte', 'gt', 'gte')
SLICES = [(0, 1), (0, 2), (0, -1), (0, 3), (1, 0), (2, 0), (1, -1), (-1, 0), (-2, 0), (-3, 0)]


def args(e):
    if isinstance(e, list):
        return {e[1]} if e and e[0] == 'arg' else set().union(*map(args, e)) if e else set()
    return set().union(*map(args, e.values())) if isinstance(e, dict) else set()


LEAF = {'int': ['tokaddr'], 'bool': ['eq', ['tokaddr'], ['int', 1]], 'str': ['ex-surf', ['tokaddr']], 'strarr': ['ex-tags', ['ex-wordoid', ['wrdaddr']]], 'wrd': ['ex-wordoid', ['wrdaddr']],
        'wrdarr': ['ex-wordoids', ['tokaddr']], 'addr': ['wrdaddr']}


class MtxGen:
    def __init__(self, r):
        self.r = r
        self.macros = []; self.sets = []; self.strs = []
        self.inmacro = None
        self.vars = []
        self.loops = 0

    def tree(self):
        r = self.r
        self.sets = [r.choice(SETS) for _ in range(r.randint(0, 2))]
        self.strs = [r.choice(STRS) for _ in range(r.randint(0, 2))]
        ms = []
        for i in range(r.randint(0, 3)):
            kind = r.choice(['int', 'bool', 'str', 'str', 'strarr', 'wrd', 'wrdarr'])
            self.inmacro = r.choice([['addr'], ['addr'], ['int'], ['addr', 'int'], ['int', 'int'], ['str'], ['bool', 'str'], ['wrd']])
            while 1:
                b = self.ex(kind, 3)
                if not (b[0] == 'arg' and kind != 'int' or kind == 'wrd' and b[0] == 'sub' or kind == 'wrdarr' and b[0] == 'for-each'):
                    break          # the reader would take these for expressions of another type
            t = self.inmacro; self.inmacro = None
            ms.append((kind, t, sorted(args(b)), b))
        self.macros = ms
        fs = []
        for i in range(r.randint(1, 5)):
            f = []
            for j in range(r.randint(1, 3)):
                x = r.random()
                if x < .25:
                    f.append(['pred', self.pred()])
                elif x < .4:
                    f.append(['out-many', self.ex('strarr', 3)])
                else:
                    f.append(['out', self.out()])
            fs.append(f)
        if r.random() < .6:          # something that tells the readings apart
            w = ['ex-wordoid', ['wrdaddr']]
            f = [['out', r.choice([['ex-coarse', w], ['join', None, ['ex-tags', w]], ['ex-lemma', w]])]]
            if r.random() < .5:
                f.insert(r.randint(0, 1), ['out', self.out()])
            fs.append(f)
        return {'beam': r.choice([None, 1, 2, 2, 3, 8]), 'coarse': True, 'sets': self.sets, 'strs': self.strs, 'macros': ms, 'feats': fs}

    def pred(self):
        if self.r.random() < .3:
            return ['and', [self.ex('bool', 2) for _ in range(self.r.randint(1, 3))]]
        return self.ex('bool', 3)

    def out(self):
        k = self.r.choice(['str', 'str', 'str', 'bool', 'int'])
        self.nomacro = k != 'str'
        e = self.ex(k, 3)
        self.nomacro = False
        return e

    nomacro = False

    def ex(self, kind, d):
        r = self.r
        nm, self.nomacro = self.nomacro, False
        if d < -3:
            return LEAF[kind]
        if self.inmacro is not None:
            c = [i for i, t in enumerate(self.inmacro) if t == kind]
            if c and not self.vars and r.random() < .5:
                return ['arg', r.choice(c)]
        elif not nm and self.macros and r.random() < .35:
            c = [i for i, m in enumerate(self.macros) if m[0] == kind]
            if c:
                i = r.choice(c); m = self.macros[i]
                v, self.vars = self.vars, []         # a macro is worked out by itself, before the features
                a = {str(j): self.ex(m[1][j], min(2, d - 1)) for j in m[2]}
                self.vars = v
                return ['macro', i, a]
        v = [n for n, t in self.vars if t == kind]
        if v and r.random() < .7 and not nm:
            return ['var', r.choice(v)]
        return getattr(self, 'x_' + kind)(d)

    def x_int(self, d):
        r = self.r
        if d <= 0:
            return r.choice([['tokaddr'], ['wrdidx'], ['sentlen'], ['int', r.randint(-3, 4)]])
        x = r.random()
        if x < .4:
            return self.x_int(0)
        if x < .6:
            return ['iadd', self.ex('int', d - 1), self.ex('int', d - 1)]
        if x < .7:
            return ['toklen']
        if x < .85:
            return ['strlen', self.ex('str', d - 1)]
        return ['arrlen', self.ex('strarr', d - 1)]

    def x_bool(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .3:
            return [r.choice(CMP), self.ex('int', d - 1), self.ex('int', d - 1)]
        if x < .4:
            return ['not', self.ex('bool', d - 1)]
        if x < .47:     # the machine of these two works when the last operand does not decide
            return ['and', [self.ex('bool', d - 1), ['eq', ['int', 1], ['int', 1]]]]
        if x < .54:
            return ['or', [self.ex('bool', d - 1), ['neq', ['int', 1], ['int', 1]]]]
        if x < .75:
            return ['streq', self.ref('strs', STRS), self.ex('str', d - 1)]
        if x < .85:
            return ['strin', self.ref('sets', SETS), self.ex('str', d - 1)]
        return [r.choice(['sethasany', 'sethasall']), self.ref('sets', SETS), self.ex('strarr', d - 1)]

    def ref(self, what, pool):
        n = len(getattr(self, what))
        if n and self.r.random() < .5:
            return ['name', self.r.randrange(n)]
        return ['val', self.r.choice(pool)]

    def x_str(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .15:
            return ['ex-surf', ['tokaddr']] if r.random() < .3 or d < -3 else r.choice([['ex-lemma', self.ex('wrd', d - 1)], ['ex-coarse', self.ex('wrd', d - 1)]])
        if x < .25:
            return ['ex-surf', self.ex('int', d - 1)]
        if x < .4:
            return ['ex-lemma', self.ex('wrd', d - 1)]
        if x < .6:
            return ['ex-coarse', self.ex('wrd', d - 1)]
        if x < .78:
            return ['join', self.ref('strs', STRS) if r.random() < .7 else None, self.ex('strarr', d - 1)]
        if x < .9:
            return ['sub', r.randint(0, 3), self.full('str')]
        return ['slice', r.choice(SLICES), r.choice([['ex-surf', ['tokaddr']], ['ex-lemma', self.ex('wrd', 0)], ['ex-coarse', self.ex('wrd', 0)]])]

    def full(self, of):
        """an array that is never empty"""
        if of == 'str':
            return ['ex-tags', self.ex('wrd', 0)]
        return ['ex-wordoids', self.ex('int', 1)]

    def x_strarr(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .3:
            return ['ex-tags', self.ex('wrd', d - 1)]
        if x < .5:
            return ['ex-ambgset', self.ex('int', d - 1)]
        if x < .65 and not self.inmacro:
            return ['slice', r.choice(SLICES), self.full('str')]
        if x < .8:
            return self.foreach('str', d)
        return ['ex-tags', self.ex('wrd', d - 1)]

    def foreach(self, body, d):
        over = self.r.choice(['str', 'wrd'])
        if body == 'wrd':
            over = 'wrd'
        a = self.full(over)
        n = 'v%d' % self.loops
        self.loops += 1
        self.vars.append((n, over))
        b = self.ex(body, d - 1)
        self.vars.pop()
        return ['for-each', n, a, b]

    def x_wrd(self, d):
        r = self.r
        if d < -3:
            return ['ex-wordoid', ['wrdaddr']]
        if r.random() < .2:
            return ['sub', r.randint(0, 2), self.ex('wrdarr', d - 1)]
        return ['ex-wordoid', self.ex('addr', d)]

    def x_wrdarr(self, d):
        r = self.r
        x = r.random()
        if d > 0 and x < .25:
            return self.foreach('wrd', d)
        if d > 0 and x < .4 and not self.inmacro and not self.vars:
            return ['slice', r.choice([(0, 1), (1, 0), (-1, 0)]), self.full('wrd')]
        return self.full('wrd')

    def x_addr(self, d):
        r = self.r
        x = r.random()
        if d < -2 or x < .3:
            return ['wrdaddr']
        if x < .55:
            return ['aadd', ['wrdaddr'], ['ints', ['int', r.randint(-2, 2)], ['int', r.randint(-2, 2)]]]
        if x < .65:
            return ['ints', self.ex('int', d - 1), self.ex('int', d - 1)]
        return [r.choice(['adjust', 'adjust', 'clamp']), self.ex('addr', d - 1)]


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


def xml(m, tsx='m.tsx'):
    def rf(x, what):
        return '' if x is None else ' %s="%s"' % (('name', '%s%d' % (what, x[1])) if x[0] == 'name' else ('val', esc(x[1])))

    def X(e, mac=None):
        o = e[0]
        x = lambda y: X(y, mac)
        if o in ('tokaddr', 'wrdidx', 'sentlen', 'wrdaddr'):
            return '<%s/>' % o
        if o == 'int':
            return '<int val="%d"/>' % e[1]
        if o == 'toklen':
            return '<toklen><tokaddr/></toklen>'
        if o in ('iadd', 'aadd'):
            return '<add>%s%s</add>' % (x(e[1]), x(e[2]))
        if o == 'ints':
            return '<addr-of-ints>%s%s</addr-of-ints>' % (x(e[1]), x(e[2]))
        if o in CMP:
            return '<%s>%s%s</%s>' % (o, x(e[1]), x(e[2]), o)
        if o in ('and', 'or'):
            return '<%s>%s</%s>' % (o, ''.join(x(y) for y in e[1]), o)
        if o == 'streq':
            return '<streq%s>%s</streq>' % (rf(e[1], 's'), x(e[2]))
        if o in ('strin', 'sethasany', 'sethasall'):
            return '<%s%s>%s</%s>' % (o, rf(e[1], 'set'), x(e[2]), o)
        if o == 'join':
            return '<join%s>%s</join>' % (rf(e[1], 's'), x(e[2]))
        if o == 'sub':
            return '<subscript idx="%d">%s</subscript>' % (e[1], x(e[2]))
        if o == 'slice':
            return '<slice%s%s>%s</slice>' % (' start="%d"' % e[1][0] if e[1][0] else '', ' end="%d"' % e[1][1] if e[1][1] else '', x(e[2]))
        if o == 'for-each':
            return '<for-each as="%s">%s%s</for-each>' % (e[1], x(e[2]), x(e[3]))
        if o == 'var':
            return '<var name="%s"/>' % e[1]
        if o == 'arg':
            return '<var name="a%d"/>' % e[1]
        if o == 'macro':
            return '<macro name="m%d">%s</macro>' % (e[1], ''.join(x(e[2][k]) for k in sorted(e[2])))
        return '<%s>%s</%s>' % (o, x(e[1]), o)
    o = '<?xml version="1.0" encoding="UTF-8"?>\n<metatag>\n'
    if m['coarse']:
        o += '<coarse-tags tag="%s"/>\n' % tsx
    if m['beam']:
        o += '<beam-width val="%d"/>\n' % m['beam']
    o += '<defns>'
    for i, s in enumerate(m['sets']):
        o += '<def-set name="set%d">%s</def-set>\n' % (i, ''.join('<set-member %s="%s"/>' % (('str', 'tag')[(i + j) % 2], x) for j, x in enumerate(s.split())))
    for i, s in enumerate(m['strs']):
        o += '<def-str name="s%d" %s="%s"/>\n' % (i, ('str', 'tag')[i % 2], s)
    for i, (k, t, used, b) in enumerate(m['macros']):
        o += '<def-macro as="m%d" args="%s">%s</def-macro>\n' % (i, ' '.join('a%d' % j for j in range(len(t))), X(b))
    o += '</defns>\n<feats>\n'
    for f in m['feats']:
        o += '<feat>%s</feat>\n' % ''.join(e if k == 'raw' else '<%s>%s</%s>' % (k, X(e), k) for k, e in f)
    return o + '</feats></metatag>\n'


def cut(v, b, e):
    n = len(v)
    b = n + b if b < 0 else b
    e = n + e if e <= 0 else e
    return v[min(max(b, 0), n - 1):min(max(e, 0), n)]


def morphs(a):
    """the parts of an analysis: (lemma, tags)"""
    o = []
    for p in split(a, '+'):
        i = 0
        while i < len(p) and p[i] != '<':
            i += 2 if p[i] == '\\' else 1
        o.append((p[:i], tuple(x for x in p[i:].replace('>', '').split('<') if x)))
    return tuple(o)


class Features:
    def __init__(self, m, tsx, swap=False):
        self.m = m; self.tsx = tsx; self.swap = swap
        self.co = {}

    def coarse(self, w):
        if w not in self.co:
            k = self.tsx.label(w[0] + ''.join('<%s>' % t for t in w[1]))
            self.co[w] = ('TAG_kUNDEF' if k is None else ('TAG_' if k < 7 else '') + self.tsx.names[k]).encode()
        return self.co[w]

    def at(self, tagged, untagged, tok, wrd):
        """the features of part wrd of the reading of word tok: list of keys; tagged: parts per word or None"""
        m = self.m; sets = m['sets']; strs = m['strs']
        wo = lambda t: [UT] if tagged[t] is None else tagged[t]

        def word(t, w):
            if t < 0:
                return UF
            if t >= len(tagged):
                return OF
            q = wo(t)
            return UF if w < 0 else OF if w >= len(q) else q[w]

        def lit(x, a):
            return x[1] if x[0] == 'val' else a[x[1]]

        def ev(e, env, args):
            o = e[0]
            x = lambda y: ev(y, env, args)
            if o == 'tokaddr': return tok
            if o == 'wrdidx': return wrd
            if o == 'sentlen': return len(untagged)
            if o == 'int': return e[1]
            if o == 'iadd': return x(e[1]) + x(e[2])
            if o == 'toklen': return len(wo(tok))
            if o in ('strlen', 'arrlen'): return len(x(e[1]))
            if o in CMP:
                a, b = x(e[1]), x(e[2])
                if self.swap:
                    a, b = b, a
                return {'eq': a == b, 'neq': a != b, 'lt': a < b, 'lte': a <= b, 'gt': a > b, 'gte': a >= b}[o]
            if o == 'not': return not x(e[1])
            if o == 'and': return all([x(y) for y in e[1]])
            if o == 'or': return any([x(y) for y in e[1]])
            if o == 'streq': return x(e[2]) == lit(e[1], strs).encode()
            if o == 'strin': return x(e[2]) in lit(e[1], sets).encode().split()
            if o == 'sethasany': return any(y in lit(e[1], sets).encode().split() for y in x(e[2]))
            if o == 'sethasall': return all(y in lit(e[1], sets).encode().split() for y in x(e[2]))
            if o == 'ex-surf':
                t = x(e[1])
                return b'!SURF_UNDERFLOW!' if t < 0 else b'!SURF_OVERFLOW!' if t >= len(untagged) else untagged[t][0].encode()
            if o == 'ex-lemma': return x(e[1])[0].encode()
            if o == 'ex-coarse': return self.coarse(x(e[1]))
            if o == 'join':                # no separator while there is only empty text before it
                v = b''
                for y in x(e[2]):
                    v += (b'.' if e[1] is None else lit(e[1], strs).encode()) * bool(v) + y
                return v
            if o == 'sub':
                a = x(e[2])
                return a[min(e[1], len(a) - 1)]
            if o == 'slice': return cut(x(e[2]), *e[1])
            if o == 'ex-tags': return [y.encode() for y in x(e[1])[1]]
            if o == 'ex-ambgset':
                t = x(e[1])
                an = [(UF,)] if t < 0 else [(OF,)] if t >= len(untagged) else untagged[t][1]
                return [b'+'.join(self.coarse(w) for w in a) for a in an]
            if o == 'for-each': return [ev(e[3], dict(env, **{e[1]: y}), args) for y in x(e[2])]
            if o == 'var': return env[e[1]]
            if o == 'arg': return args[str(e[1])]
            if o == 'macro': return ev(m['macros'][e[1]][3], {}, {k: x(y) for k, y in e[2].items()})
            if o == 'ex-wordoid': return word(*x(e[1]))
            if o == 'ex-wordoids':
                t = x(e[1])
                return [UF] if t < 0 else [OF] if t >= len(tagged) else list(wo(t))
            if o == 'wrdaddr': return tok, wrd
            if o == 'ints': return x(e[1]), x(e[2])
            if o == 'aadd':
                a, b = x(e[1]), x(e[2])
                return a[0] + b[0], a[1] + b[1]
            if o == 'clamp':
                t, w = x(e[1])
                t = min(max(t, 0), len(tagged) - 1)
                return t, min(max(w, 0), len(wo(t)) - 1)
            if o == 'adjust':
                t, w = x(e[1])
                if 0 <= t < len(tagged):
                    while w < 0 and t > 0:
                        t -= 1; w += len(wo(t))
                    while w >= len(wo(t)) and t < len(tagged) - 1:
                        w -= len(wo(t)); t += 1
                return t, w
            raise ValueError(o)
        out = []
        for i, f in enumerate(m['feats']):
            ks = [(i,)]
            for k, e in f:
                if k == 'raw':         # only of a listed finding: the text of an expression the generator does not make
                    continue
                v = ev(e, {}, {})
                if k == 'pred':
                    if not v:
                        ks = []
                elif k == 'out-many':
                    ks = [q + (s,) for s in v for q in ks]
                else:
                    s = v if isinstance(v, bytes) else (b't' if v else b'f') if isinstance(v, bool) else b'%d' % v
                    ks = [q + (s,) for q in ks]
                if not ks:
                    break
            out += ks
        return out


# ---------------------------------------------------------------- the perceptron
class Sent:
    """a sentence: surfaces, parts of the analyses of each word, the right one (index or None)"""
    def __init__(self, units, feats):
        self.un = [(u[0], [morphs(a) for a in u[1]]) for u in units]
        self.right = [u[2] for u in units]
        self.f = feats
        self.cache = {}

    def feats(self, path):
        """features of the last word of path (a tuple of indices of analyses, None: no reading)"""
        v = self.cache.get(path)
        if v is None:
            tg = [None if k is None else self.un[i][1][k] for i, k in enumerate(path)]
            t = len(path) - 1
            v = []
            for w in range(len(tg[t])):
                v += self.f.at(tg, self.un, t, w)
            self.cache[path] = v
        return v


def add(d, keys, s):
    d = dict(d)
    for k in keys:
        d[k] = d.get(k, 0) + s
    return d


def beams(cands, b, key, eps=0):
    """every beam the candidates allow: lists of the kept, best first as far as scores tell"""
    c = sorted(cands, key=lambda x: -key(x))
    if len(c) <= b:
        return [c]
    lim = key(c[b - 1])
    sure = [x for x in c if key(x) > lim + eps]
    tied = [x for x in c if abs(key(x) - lim) <= eps]
    n = b - len(sure)
    if len(tied) == n:
        return [sure + tied]
    o = [sure + list(t) for t in itertools.combinations(tied, n)]
    if len(o) > 200:
        raise TooMany
    return o


def fronts(beam, key, eps=0):
    m = max(key(x) for x in beam)
    return [x for x in beam if key(x) >= m - eps]


def learn(s, w, b):
    """all updates sentence s can cause: None, or (features of the wrong path, of the right one)"""
    score = lambda x: x[0]
    res = []
    todo = [(0, [(0, ())])]                # next word, beam of (score, path)
    seen = set()
    while todo:
        if len(res) + len(todo) > CAP:
            raise TooMany
        i, ag = todo.pop()
        if i == len(s.un):
            right = tuple(s.full())
            for f in fronts(ag, score):
                res.append(None if f[1] == right else (f[1], right))
            continue
        an = s.un[i][1]
        if len(an) <= 1 or s.right[i] is None:
            k = 0 if len(an) == 1 else None
            todo.append((i + 1, [(x, p + (k,)) for x, p in ag]))
            continue
        c = [(x + sum(w.get(q, 0) for q in s.feats(p + (k,))), p + (k,)) for x, p in ag for k in range(len(an))]
        right = tuple(s.full()[:i + 1])
        for bm in beams(c, b, score):
            if any(p == right for x, p in bm):
                t = (i + 1, frozenset(bm))
                if t not in seen:
                    seen.add(t); todo.append((i + 1, bm))
            else:
                for f in fronts(bm, score):
                    res.append((f[1], right))
    return set(res)


def full(s):
    return [0 if len(u[1]) == 1 else (None if s.right[i] is None else s.right[i]) if u[1] else None for i, u in enumerate(s.un)]


Sent.full = full


def vec(s, path):
    o = []
    for i in range(len(path)):
        if len(s.un[i][1]) > 1 and s.right[i] is not None:
            o += s.feats(path[:i + 1])
    return o


def freeze(d):
    return frozenset((k, v) for k, v in d.items() if v)


def train_all(sents, n, b):
    """all models training can come to: list of {feature: average weight}"""
    states = {(frozenset(), frozenset(), 0)}
    for it in range(n):
        nxt = set()
        for order in set(itertools.permutations(range(len(sents)))):
            cur = states
            for k in order:
                s = sents[k]; new = set()
                for st in cur:
                    w = dict(st[0])
                    for u in learn(s, w, b):
                        if u is None:
                            new.add(st)
                            continue
                        w2 = add(add(w, vec(s, u[0]), -1), vec(s, u[1]), 1)
                        W = dict(st[1])
                        for q, v in w2.items():
                            W[q] = W.get(q, 0) + v
                        new.add((freeze(w2), freeze(W), st[2] + 1))
                    if len(new) > CAP:
                        raise TooMany
                cur = new
            nxt |= cur
            if len(nxt) > CAP:
                raise TooMany
        states = nxt
    return [{k: Fraction(v, st[2]) for k, v in st[1]} for st in states]


def tag(s, w, b, eps=1e-9):
    """all the readings the model allows for sentence s: set of paths"""
    w = {k: float(v) for k, v in w.items()}
    score = lambda x: x[0]
    ags = [[(0.0, ())]]
    for i, (sf, an) in enumerate(s.un):
        if len(an) <= 1:
            ags = [[(x, p + (0 if an else None,)) for x, p in ag] for ag in ags]
            continue
        new = {}
        for ag in ags:
            c = [(x + sum(w.get(q, 0) for q in s.feats(p + (k,))), p + (k,)) for x, p in ag for k in range(len(an))]
            for bm in beams(c, b, score, eps):
                new[frozenset(p for x, p in bm)] = bm
        ags = list(new.values())
        if len(ags) > 200:
            raise TooMany
    return {f[1] for ag in ags for f in fronts(ag, score, eps)}


# ---------------------------------------------------------------- corpora
def corpus(r, n, amb=2):
    """n sentences of units 'surface\\tanalyses\\tindex of the right one or -\\tblank'"""
    o = []
    P = sorted(train.POOL)
    one = [x for x in P if len(train.POOL[x]) == 1 and x != '.']
    many = [x for x in P if len(train.POOL[x]) > 1]
    for _ in range(n):
        q = []
        ws = [r.choice(many) for _ in range(r.randint(1, amb))] + [r.choice(one) for _ in range(r.randint(0, 3))]
        r.shuffle(ws)
        for s in ws + ['.']:
            a = list(train.POOL[s])
            if len(a) > 1 and r.random() < .2:
                a = a[:2]
            if r.random() < .1:
                r.shuffle(a)
            if len(a) > 1 and r.random() < .15:
                a[0] += '+it<prn>'
            un = a[0][0] == '*' or len(a) > 1 and r.random() < .04
            q.append('\t'.join([s, '/'.join(a), '-' if un else str(r.randrange(len(a))), r.choice(['', '', ' ', ' ', '\n', ' [<b>] '])]))
        o.append(q)
    return o


def units(q):
    o = []
    for u in q:
        s, a, k, b = u.split('\t')
        an = [] if a[0] == '*' else split(a, '/')
        o.append((s, an, None if k == '-' else int(k), b))
    return o


def text(q, tagged=False):
    o = ''
    for s, an, k, b in units(q):
        a = '*' + s if not an or tagged and k is None else an[k] if tagged else '/'.join(an)
        o += '^%s/%s$%s' % (s, a, b)
    return o


def damage(q, kind, k):
    """(untagged, tagged) text of a sentence whose tagged form does not belong to it"""
    us = units(q)
    amb = next((i for i, u in enumerate(us) if len(u[1]) > 1 and u[2] is not None), None)
    tagged = lambda u: '^%s/%s$%s' % (u[0], '*' + u[0] if not u[1] or u[2] is None else u[1][u[2]], u[3])
    t = [tagged(u) for u in us]
    if kind == 'avail' and amb is not None:
        t[amb] = '^%s/zz<zz>$%s' % (us[amb][0], us[amb][3])
    elif kind == 'drop' and len(us) > 1:
        del t[k % (len(us) - 1)]
    elif kind == 'add':
        t.insert(k % len(us), '^zz/zz<n>$ ')
    else:
        k %= len(us)
        t[k] = t[k].replace('^' + us[k][0] + '/', '^zz/', 1)
    return text(q), ''.join(t)
