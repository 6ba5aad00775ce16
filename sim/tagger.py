"""Reference taggers: what the models of apertium-tagger choose, worked out from the tag definition file, the trained
parameters and the textbook definitions (most probable path, sliding window, unigram estimates)."""
import math, random, re, struct, itertools
import xml.etree.ElementTree as ET
from fractions import Fraction
from stream import tokens, parts

PRE = ['LPAR', 'RPAR', 'LQUEST', 'CM', 'SENT', 'kEOF', 'kUNDEF']
SENT, EOF, UNDEF = 4, 5, 6


class Skip(Exception):
    pass


def split(s, c):
    """at unescaped c outside tags"""
    o = ['']; i = 0; t = False
    while i < len(s):
        if s[i] == '\\':
            o[-1] += s[i:i + 2]; i += 2; continue
        if s[i] == '<':
            t = True
        elif s[i] == '>':
            t = False
        if s[i] == c and not t:
            o.append('')
        else:
            o[-1] += s[i]
        i += 1
    return o


def tagre(tags):
    o = ''
    for x in tags.split('.') if tags else []:
        o += r'(?:<[^>]+>)+' if x == '*' else re.escape('<%s>' % x)
    return o


def item(lemma, tags):
    l = r'(?:\\.|[^<\\])+' if not lemma else ''.join(r'(?:\\.|[^<\\])+' if c == '*' else re.escape(c) for c in lemma)
    return l + tagre(tags)


class Tsx:
    def __init__(self, path):
        r = ET.fromstring(path.encode()) if path[0] == '<' else ET.parse(path).getroot()
        self.names = list(PRE); self.open = set(); pat = {}
        for i, n in enumerate(PRE[:5]):
            pat[i] = [item('', n.lower())]
        items = {}
        for e in r.find('tagset'):
            k = len(self.names); self.names.append(e.get('name'))
            if e.get('closed') != 'true':
                self.open.add(k)
            if e.tag == 'def-label':
                items[e.get('name')] = [item(x.get('lemma') or '', x.get('tags')) for x in e.iter('tags-item')]
                pat[k] = items[e.get('name')]
            else:
                o = []
                for sq in e.iter('sequence'):
                    alts = [[item(x.get('lemma') or '', x.get('tags'))] if x.tag == 'tags-item' else items[x.get('label')] for x in sq]
                    o += [r'\+'.join(c) for c in itertools.product(*alts)]
                pat[k] = o
        self.pat = [(k, re.compile('(?:' + '|'.join(v) + r')\Z', re.S)) for k, v in sorted(pat.items())]
        rx = lambda s: re.compile(re.escape(s).replace(re.escape('<*>'), '(?:<[^>]+>)+'))
        ix = lambda n: self.names.index(n)
        self.prefer = [rx('<' + e.get('tags').replace('.', '><') + '>') for e in r.iter('prefer')]
        self.discard = [rx('<' + e.get('tags').replace('.', '><') + '>') for e in r.iter('discard')]
        self.forbid = [tuple(ix(x.get('label')) for x in e) for e in r.iter('label-sequence')]
        self.enforce = [(ix(e.get('label')), [ix(x.get('label')) for x in e.iter('label-item')]) for e in r.iter('enforce-after')]
        self.cache = {}

    def label(self, s):
        if s not in self.cache:
            t = re.sub(r'<[^>]*>|.', lambda m: m[0] if m[0][0] == '<' else m[0].lower() if len(m[0].lower()) == 1 else m[0], s, flags=re.S)
            self.cache[s] = next((k for k, p in self.pat if p.match(t)), None)
        return self.cache[s]

    def classify(self, a):
        """[(label, text)]: the longest labelled groups of the parts of a joined by '+'"""
        p = split(a, '+')
        if len(p) == 1:
            k = self.label(a)
            return [(UNDEF if k is None else k, a)]
        o = []; i = 0
        while i < len(p):
            for j in range(len(p), i, -1):
                k = self.label('+'.join(p[i:j]))
                if k is not None:
                    break
            else:
                raise Skip
            o.append((k, '+'.join(p[i:j]))); i = j
        return o

    def words(self, an):
        """the words of a lexical unit with analyses an: one {label: text} per part"""
        if an and an[0][:1] == '*':
            return [{}]
        c = [self.classify(a) for a in an]
        if len({len(x) for x in c}) != 1:
            raise Skip
        o = []
        for i in range(len(c[0])):
            d = {}
            for x in c:
                k, t = x[i]
                if k not in d or any(p.search(t) for p in self.prefer):
                    d[k] = t
            o.append(d)
        for d in o:
            for r in self.discard:
                for k in sorted(d):
                    if len(d) > 1 and r.search(d[k]):
                        del d[k]
        return o


class Prob:
    """parameters of a .prob file"""
    def __init__(self, data, lsw=False):
        self.d = data; self.p = 0; self.at = []
        n = self.mb(); v = 0; self.open = []
        for _ in range(n):
            v += self.mb(); self.open.append(v)
        self.forbid = [(self.mb(), self.mb()) for _ in range(self.mb())]
        self.array = [self.st() for _ in range(self.mb())]
        self.index = {}
        for _ in range(self.mb()):
            k = self.st(); self.index[k] = self.mb()
        self.enforce = [(self.mb(), [self.mb() for _ in range(self.mb())]) for _ in range(self.mb())]
        self.prefer = [self.st() for _ in range(self.mb())]
        for _ in range(self.mb()):
            self.st(); self.mb()
        self.output = [frozenset(self.mb() for _ in range(self.mb())) for _ in range(self.mb())]
        self.N = self.mb()
        if lsw:
            self.D = {}
            for _ in range(self.mb()):
                k = self.mb(), self.mb(), self.mb(); self.D[k] = self.db()
        else:
            self.M = self.mb()
            self.A = [[self.db() for _ in range(self.N)] for _ in range(self.N)]
            self.B = [[1e-10] * self.M for _ in range(self.N)]
            for _ in range(self.mb()):
                i = self.mb(); j = self.mb(); self.B[i][j] = self.db()

    def mb(self):
        d, p = self.d, self.p
        c = d[p]; n = c >> 6; v = c & 0x3f
        for i in range(1, n + 1):
            v = v << 8 | d[p + i]
        self.p += n + 1
        return v

    def st(self):
        return ''.join(chr(self.mb()) for _ in range(self.mb()))

    def db(self):
        self.at.append(self.p)
        v = struct.unpack('>d', self.d[self.p:self.p + 8])[0]; self.p += 8
        return v


def redraw(data, lsw, seed):
    """the model with parameters drawn at random in place of the trained ones"""
    m = Prob(data, lsw); b = bytearray(data); r = random.Random(seed)
    deep = r.choice([-9, -3, -.5])
    for i, p in enumerate(m.at):
        v = 10 ** (r.uniform(-3, 2) if lsw else r.uniform(deep, 0) if i < m.N ** 2 else r.uniform(-4, 0))
        b[p:p + 8] = struct.pack('>d', v)
    return bytes(b)


def render(fl, hmm, sf, words, i, n, k, first):
    """output of part i of n when label k is chosen"""
    d = words[i]; o = ''
    if first:
        o = '^=' if 'm' in fl and any_amb(words[i]) else '^'
        if 'p' in fl or 'f' in fl:
            o += sf + '/'
    if not d:
        o += '*' + sf
    else:
        o += d[k]
        if 'f' in fl and len(d) > 1 and n == 1:
            o += ''.join('/' + d[x] for x in sorted(d) if x != k)
    return o + ('+' if i < n - 1 else '$')


def any_amb(d):
    return len(d) > 1


class Hmm:
    def __init__(self, tsx, prob):
        self.t, self.m = tsx, prob
        self.out = {}
        for i, c in enumerate(prob.output):
            self.out.setdefault(c, i)

    def cls(self, tags):
        """emission class of a word with these labels: its own, or the smallest known one that includes it"""
        s = frozenset(tags)
        if s in self.out:
            return self.out[s]
        best = frozenset(self.t.open)
        for c in self.m.output:
            if len(c) < len(best) and s <= c:
                best = c
        return self.out[best]

    def run(self, units, fl):
        """[(surface, words)] -> for each unit the set of acceptable outputs is given by paths; returns (outputs, ambiguous?)"""
        A, B = self.m.A, self.m.B
        seq = [(u, i) for u, (sf, w) in enumerate(units) for i in range(len(w))] + [None]
        prev = {SENT: (1.0, [])}; chosen = []; hits = 0
        for x in seq:
            d = {EOF: ''} if x is None else units[x[0]][1][x[1]]
            tags = sorted(d) or sorted(self.t.open)
            k = self.cls(tags); cur = {}
            for i in tags:
                b, bp = 0.0, []
                for j in sorted(prev):
                    v = prev[j][0] * A[j][i] * B[i][k]
                    if b <= v:
                        b, bp = v, prev[j][1] + [i]
                cur[i] = (b, bp)
            if len(tags) > 1:
                hits += 1
            if len(tags) == 1:
                chosen += cur[tags[0]][1]
                cur = {tags[0]: (1.0, [])}
            top = max(v for v, _ in cur.values())
            if 0 < top < 1e-150:        # a power of two changes no comparison
                cur = {i: (math.ldexp(v, 400), z) for i, (v, z) in cur.items()}
            prev = cur
        return self.text(units, chosen, fl), hits

    def answer(self, lus, fl):
        return self.run([(l[0], self.t.words(l[1:])) for l in lus], fl)

    def text(self, units, chosen, fl):
        o = []; c = 0
        for sf, w in units:
            s = ''
            for i in range(len(w)):
                s += render(fl, True, sf, w, i, len(w), chosen[c], i == 0); c += 1
            o.append(s)
        return o


class Lsw(Hmm):
    def __init__(self, tsx, prob):
        self.t, self.m = tsx, prob

    def run(self, units, fl):
        D = self.m.D; hits = 0
        seq = [{SENT}] + [set(d) for sf, w in units for d in w] + [{EOF}]
        chosen = []
        for l, m, r in zip(seq, seq[1:], seq[2:]):
            best = None
            for i in sorted(m):
                n = 0
                for x in sorted(l):
                    for y in sorted(r):
                        n += D.get((x, i, y), 0)
                if best is None or n > best[0]:
                    best = (n, i)
            chosen.append(best and best[1])
            hits += len(m) > 1
        return self.text(units, chosen, fl.replace('f', '')), hits


def morphemes(a):
    o = []
    for p in split(a, '+'):
        m = re.match(r'((?:\\.|[^<\\])*)((?:<[^>]+>)+)(.*)\Z', p, re.S)
        if not m or m[3] or not m[1]:
            raise Skip
        o.append((m[1], m[2]))
    return o


class Unigram:
    def __init__(self, corpus, model):
        self.k = model; self.c = {}; self.lt = {}; self.clct = {}; self.ctcl = {}
        for k, u in tokens(corpus):
            if k == 'lu':
                an = parts(u)[1:]
                assert len(an) == 1
                m = morphemes(an[0])
                self.add(self.c, tuple(m))
                key = (m[0][1], tuple(m[1:])) if model == 2 else m[0][1]
                self.add(self.lt.setdefault(key, {}), m[0][0])
                for a, b in zip(m, m[1:]):
                    self.add(self.clct.setdefault(a[1], {}), b[0])
                    self.add(self.ctcl.setdefault(b[0], {}), b[1])

    @staticmethod
    def add(d, k):
        d[k] = d.get(k, 0) + 1

    def score(self, a):
        m = morphemes(a)
        if self.k == 1:
            return Fraction(1 + self.c.get(tuple(m), 0))
        t = self.lt.get((m[0][1], tuple(m[1:])) if self.k == 2 else m[0][1])

        def est(d, x):
            """(count of x, count of all, types not counting x as new) with one added to each"""
            if d is None:
                return 1, 1, 1
            return 1 + d.get(x, 0), 1 + sum(d.values()), len(d) + (x not in d)
        r, n, ty = est(t, m[0][0])
        s = Fraction(r * n, n + ty)
        if self.k == 3:
            for a, b in zip(m, m[1:]):
                r1, n1, t1 = est(self.clct.get(a[1]), b[0])
                r2, n2, t2 = est(self.ctcl.get(b[0]), b[1])
                s *= Fraction(r1 * r2, (n1 + t1) * (n2 + t2))
        return s

    def choose(self, an):
        if an[0][:1] == '*':
            return an[0]
        return max(an, key=lambda a: self.score(a))      # the first of the best

    def answer(self, lus, fl):
        o = []; hits = 0
        for l in lus:
            sf, an = l[0], l[1:]
            if an[0][:1] == '*':
                o.append('^' + (sf + '/' if 'p' in fl else '') + '*' + sf + '$'); continue
            for a in an:
                morphemes(a)
            c = self.choose(an); hits += len(an) > 1
            o.append('^' + ('=' if 'm' in fl and len(an) > 1 else '') + (sf + '/' if 'p' in fl else '') + c + ''.join('/' + a for a in an if a != c and 'f' in fl) + '$')
        return o, hits


class Counts(Unigram):
    """the same, from a corpus that may leave words ambiguous (counts in the unit the trainer chose)"""
    def __init__(self, counts, coef, model):
        mul = lambda d: {k: mul(v) if isinstance(v, dict) else int(v * coef) for k, v in d.items()}
        self.k = model; self.m = [mul(d) for d in counts]

    def score(self, a):
        m = [(l, tuple(re.findall(r'<([^>]*)>', t))) for l, t in morphemes(a)]
        if self.k == 1:
            return Fraction(1 + self.m[0].get(tuple(m), 0))

        def est(d, x):
            if d is None:
                return 1, 1, 1
            return 1 + d.get(x, 0), 1 + sum(d.values()), len(d) + (x not in d)
        r, n, ty = est(self.m[0].get((m[0][1], tuple(m[1:])) if self.k == 2 else m[0][1]), m[0][0])
        s = Fraction(r * n, n + ty)
        if self.k == 3:
            for a, b in zip(m, m[1:]):
                r1, n1, t1 = est(self.m[1].get(a[1]), b[0])
                r2, n2, t2 = est(self.m[2].get(b[0]), b[1])
                s *= Fraction(r1 * r2, (n1 + t1) * (n2 + t2))
        return s
