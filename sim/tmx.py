"""Reference for apertium-tmxbuild: segmentation of deformatted text, alignment of the segments, translation units."""
import math
import unicodedata

SKIP = -0.3


def isalpha(c):
    return unicodedata.category(c)[0] == 'L'


def isalnum(c):
    k = unicodedata.category(c)
    return k[0] == 'L' or k == 'Nd'


def ispunct(c):
    return unicodedata.category(c)[0] == 'P'


def segments(text):
    """the segments of a document; what follows the last end of a segment is not one"""
    out, cur, i, n = [], '', 0, len(text)
    while i < n:
        c = text[i]
        i += 1
        if c == '[':
            j = i
            while text[j] != ']':
                j += 2 if text[j] == '\\' else 1
            b = text[i - 1:j + 1]
            i = j + 1
            cur += ' ' * b.startswith('[ ') + '<ph/>' + ' ' * b.endswith(' ]')
            continue
        if c == '\\':
            if i == n:
                break
            cur += text[i]
            i += 1
            continue
        cur += c
        if c in '?!' or c == '.' and i < n and (text[i] == '[' or text[i].isspace()):
            out.append(cur)
            cur = ''
    return out


def lines(segs):
    """the aligner sees lines of words; blank lines between two lines of words count as sentences, those of spaces do not"""
    b = ''.join(s + '\n' for s in segs).encode()
    out, i, n = [], 0, len(b)
    ws = b' \t\n\v\f\r'
    while True:
        ph = []
        eof = False
        while True:
            if i < n and b[i] == 13:
                i += 1
            if i >= n:
                eof = True
                break
            if b[i] == 10:
                i += 1
                break
            while i < n and b[i] in ws:
                i += 1
            j = i
            while j < n and b[j] not in ws:
                j += 1
            w, i = b[i:j], j
            while i < n and b[i] in b' \t':
                i += 1
            if not w:
                eof = True
                break
            ph.append(w)
        out.append(ph)
        if eof:
            return out


def length(ph):
    return 0.1973 if ph == [b'<p>'] else float(sum(len(w) for w in ph))


def block(s, a, b):
    t = 0.0
    for i in range(a, b):
        n = length(s[i])
        if n != 0.1973:
            t += n + 3
    return t


def similarity(x, y):
    px, py = x == [b'<p>'], y == [b'<p>']
    if px or py:
        return 0.31 if px and py else -1.0
    i = j = inter = same = diff = 0
    while i < len(x) and j < len(y):
        if x[i] < y[j]:
            diff += x[i].isdigit()
            i += 1
        elif x[i] > y[j]:
            diff += y[j].isdigit()
            j += 1
        else:
            same += y[j].isdigit()
            inter += 1
            i += 1
            j += 1
    if same > 0 and diff <= same // 5:
        inter += 10
    s = float(inter)
    s /= min(len(x), len(y)) + 1
    return s * 3.0


def closeness(a, b):
    r = (a + 1) / (b + 1) if a > b else (b + 1) / (a + 1)
    r -= 1.0
    return 0.3 - 0.3 * r


def ladder(L, R):
    n, m = len(L), len(R)
    sl, sr = [sorted(x) for x in L], [sorted(x) for x in R]
    w = [[similarity(x, y) for y in sr] for x in sl]
    hl, el = [length(x) for x in L], [length(x) for x in R]
    v = [[0.0] * (m + 1) for _ in range(n + 1)]
    t = [[None] * (m + 1) for _ in range(n + 1)]
    for h in range(n + 1):
        for e in range(m + 1):
            best, d = 1e6, None
            c = []
            if h and e:
                c.append((v[h - 1][e - 1] - w[h - 1][e - 1] - closeness(hl[h - 1], el[e - 1]), (1, 1)))
            if h:
                c.append((v[h - 1][e] - SKIP, (1, 0)))
            if e:
                c.append((v[h][e - 1] - SKIP, (0, 1)))
            if h and e > 1:
                c.append((v[h - 1][e - 2] - min(w[h - 1][e - 1], w[h - 1][e - 2]) - SKIP - closeness(el[e - 2] + el[e - 1] + 2.0, hl[h - 1]), (1, 2)))
            for x, k in c:
                if x < best:
                    best, d = x, k
            v[h][e], t[h][e] = (0.0 if d is None else best), d
    h, e, path = n, m, [(n, m)]
    while h and e:
        a, b = t[h][e]
        h, e = h - a, e - b
        path.append((h, e))
    path.reverse()
    return path


def spaceout(p, L, R):
    i = 1
    while i < len(p) - 2:
        hz, ez = p[i][0] == p[i + 1][0], p[i][1] == p[i + 1][1]
        hp = p[i][0] + 1 == p[i + 1][0] and L[p[i][0]] == [b'<p>']
        ep = p[i][1] + 1 == p[i + 1][1] and R[p[i][1]] == [b'<p>']
        if hz and ep or ez and hp:
            i += 1
            continue
        if not (hz or ez):
            i += 1
            continue
        hl, hm, hr = (block(L, p[i + k][0], p[i + k + 1][0]) for k in (-1, 0, 1))
        el, em, er = (block(R, p[i + k][1], p[i + k + 1][1]) for k in (-1, 0, 1))
        left = abs(math.log((hl + 1) / (el + 1))) - abs(math.log((hl + hm + 1) / (el + em + 1)))
        right = abs(math.log((hr + 1) / (er + 1))) - abs(math.log((hr + hm + 1) / (er + em + 1)))
        if max(left, right) > math.log(0.8):
            del p[i if left > right else i + 1]
        else:
            i += 1
    return p


def strip(s):
    change = True
    while change:
        change = False
        while s.startswith('<ph/>'):
            s, change = s[5:], True
        while s and not isalnum(s[0]) and not ispunct(s[0]) and not s.startswith('<ph/>'):
            s, change = s[1:], True
    change = True
    while change:
        change = False
        while len(s) > 5 and s.endswith('<ph/>'):
            s, change = s[:-5], True
        while s and not isalnum(s[-1]) and not ispunct(s[-1]) and not s.endswith('<ph/>'):
            s, change = s[:-1], True
    return s.rstrip('.')


def unit(phs):
    s = b' '.join(b' '.join(ph) for ph in phs).decode()
    text, blanks = False, 0
    for c in s:
        if isalpha(c):
            text = True
        elif text and c.isspace():
            blanks += 1
    if not text or blanks <= 2:
        return ''
    return strip('<ph/>'.join(x.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;') for x in s.split('<ph/>')))


def unlike(L, R):
    """documents of very different lengths are not aligned"""
    return len(R) < len(L) // 5 or len(L) < len(R) // 5


def units(left, right):
    """[(left text, right text)] as they stand in the file"""
    L, R = lines(segments(left)), lines(segments(right))
    if unlike(L, R):
        return []
    p = spaceout(ladder(L, R), L, R)
    out = []
    for (a, b), (c, d) in zip(p, p[1:]):
        x, y = unit(L[a:c]), unit(R[b:d])
        if x and y:
            out.append((x, y))
    return out


def tmx(l1, l2, us, version):
    s = ('<?xml version="1.0"?>\n<tmx version="1.4">\n<header creationtool="Apertium TMX Builder"\n        creationtoolversion="%s"\n        segtype="sentence"\n        srclang="%s"\n'
         '        adminlang="%s"\n        datatype="plaintext"\n        o-tmf="none">\n</header>\n<body>\n' % (version, l1, l2))
    for x, y in us:
        s += '<tu>\n  <tuv xml:lang="%s"><seg>%s</seg></tuv>\n  <tuv xml:lang="%s"><seg>%s</seg></tuv>\n</tu>\n' % (l1, x, l2, y)
    return s + '</body>\n</tmx>\n'


WORDS = 'the house cat of big green tree year water went many they a b 1 2 12 1984 7 señal años день книга été no. e.g. x\\/y AT&T a<b> <p> R\\[ "q" (so) and; but, 3.5 — ½ 😀 longwordthatgoesonandon _ x\\. +'.split(' ')
BLANK = ['[]', '[ x ]', '[<b>]', '[<\\/b> ]', '[\n]', '[ ]', '[<i>][<b>]', '[a\\]b]']


NUMBERS = '1 2 3 7 12 13 70 1984 4th'.split(' ')


def sentence(r):
    n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 12])
    out = []
    few = r.sample(WORDS, 3) if r.random() < .15 else WORDS
    numbers = r.random() < .25
    for _ in range(n):
        w = r.choice(NUMBERS if numbers and r.random() < .6 else few)
        if r.random() < .08:
            w = r.choice(BLANK) + w
        if r.random() < .08:
            w += r.choice(BLANK)
        out.append(w)
    return out


def render(r, s):
    sep = lambda: r.choice([' ', ' ', ' ', ' ', '  ', '\n', '\t', '[ ]'])
    t = ''
    for i, w in enumerate(s):
        t += (sep() if i else '') + w
    return t + r.choice(['. ', '. ', '.\n', '!', '?', '? ', '.[]', '.[][\n]', '... ', '.\n\n', '!!\n', '. [<p>] ', '.\n   \n'])


def vary(r, s):
    return [r.choice(WORDS) if r.random() < .25 else w for w in s if r.random() > .1]


def draw(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12, 20]) if r.random() > .02 else r.choice([40, 60, 90, 130])
    L = [sentence(r) for _ in range(n)]
    k = r.random()
    if k < .15:
        R = L
    elif k < .25:
        R = [sentence(r) for _ in range(r.choice([0, 1, 2, 4, 6, 9, 30]))]
    else:
        R = []
        for s in L:
            x = r.random()
            if x < .1:
                continue
            if x < .2:
                R.append(sentence(r))
            if x < .35 and len(s) > 3:
                h = r.randrange(1, len(s))
                R += [vary(r, s[:h]), vary(r, s[h:])]
            elif x < .45 and R:
                R[-1] = R[-1] + vary(r, s)
            else:
                R.append(vary(r, s))
    doc = lambda ss: [render(r, s) for s in ss]
    a = doc(L)
    b = list(a) if k < .08 else doc(R)
    end = r.choice(['', '', '', '\n', 'a rest without an end', ' '])
    return a, b, end, r.choice(['', '\n', 'the tail'])
