"""caps.py: capitalisation restoration: random rule files, and what the rules decide.

A word is [blank before, pieces of its word-bound blank or None, lexical form or None, surface];
a rule is [weight or None, nodes]; a node ['m', attributes], ['or', nodes], ['rep', from, upto, nodes] or ['b'].
"""
import re
import itertools
from xml.sax.saxutils import quoteattr
from rules import _case

LEMS = ['the<det><def>', 'dog<n><sg>', 'dog<n><pl>', 'DNA<n><acr>', 'iPhone<np><top>', 'Ana<np><ant>', '.<sent>', 'x y<n><sg>', 'ñu<n><sg>', 'Écu<adj>', 'of<pr>', 'VAT<n><sg>', 'a<n>', 'B<np>', 'mcDonald<np><ant>']
SURF = ['gos', 'Gos', 'GOS', 'iPhone', 'adn', 'ADN', 'Ana', 'ana', '.', 'd\\$a', '\\[Xa\\]', 'gos gran', 'Gos Gran', 'ñu', 'Écu', 'ÉCU', "l'avi", 'A', 'b', 'x3', 'ñÑ', 'McDonald', 'éa', '\\$', '3', 'straße', 'ß']
CAPS = ['aa', 'Aa', 'AA']
SPEC = ['aa', 'Aa', 'AA', '*', 'aA', 'A', 'a', '*aA', 'Aa*', 'A*', 'a a', 'Aa Aa', 'AaA*']
TAGS = ['*', '*', 'n.*', 'np.*', 'n.sg', '*.sg', 'n.?', '?', '+', 'det.+', 'sent', 'sent.*', '', 'np.?.*', 'zzz.*', 'n.acr']


def match(r):
    a = {}
    if r.random() < .35:
        a['srcsurf'] = r.choice(CAPS + ['*', 'A', 'a'])
    if r.random() < .2:
        a['srclem'] = r.choice(CAPS + ['*'])
    x = r.random()
    if x < .2:
        a['lemma'] = r.choice(['dog', 'iPhone', 'd*', '*g', '*', 'x y', 'Ana', 'ñ*', 'i*e', 'a'])
    elif x < .4:
        a['trglem'] = r.choice(SPEC)
    if r.random() < .4:
        a['tags'] = r.choice(TAGS)
    x = r.random()
    if x < .15:
        a['surface'] = r.choice(['gos', 'G*', '*s', '*', 'Ana', 'gos *', 'A'])
    elif x < .35:
        a['trgsurf'] = r.choice(SPEC)
    if r.random() < .7:
        a['select'] = r.choice(['aa', 'Aa', 'AA', 'dix'])
    return ['m', a]


def node(r, d=0):
    x = r.random()
    if d < 2 and x < .15:
        return ['or', [node(r, d + 1) for _ in range(r.randint(1, 3))]]
    if d < 2 and x < .3:
        f = r.randint(0, 2)
        return ['rep', f, f + r.randint(0, 2), [node(r, d + 1) for _ in range(r.choice([1, 1, 2]))]]
    if x < .38:
        return ['b']
    return match(r)


def rules(r):
    o = []
    for _ in range(r.randint(1, 6)):
        n = [node(r) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        o.append([r.choice([None, None, '0.5', '2', '1.5', '0.25', '3', '1.25', '-1', '0']), n])
    return o


def words(r):
    o = []
    for i in range(r.randint(1, 7)):
        wb = None
        x = r.random()
        if x < .6:
            c = 'c:%s/%s' % (r.choice(CAPS + ['AA']), r.choice(CAPS))
            wb = [c]
            if r.random() < .3:
                wb.insert(r.randint(0, 1), r.choice(['t:b:a1', 't:i:q\\]x', 't:cx']))
            if r.random() < .12:
                wb += r.choice([['c:Aa/aa'], ['t:s:z', 'c:AA/AA']])
        elif x < .7:
            wb = ['t:b:7']
        f = r.choice(LEMS); s = r.choice(SURF)
        if r.random() < .4:
            s = f.split('<')[0]
            s = r.choice([s, s.upper(), s.capitalize()])
        if r.random() < .06:
            f = None
        elif r.random() < .06:
            f = '*' + s
        o.append([r.choice(['', '', ' ', ' ', '\n', ' [<b>] ', '[\\]]', '. ']) if i else r.choice(['', '', ' ', '[x]']), wb, f, s])
    return o


def text(ws, tail):
    return ''.join('%s%s^%s%s$' % (b, '[[%s]]' % '; '.join(w) if w else '', f + '/' if f is not None else '', s) for b, w, f, s in ws) + tail


def xml(rs):
    def nd(n):
        if n[0] == 'm':
            return '<match%s/>' % ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in n[1].items())
        if n[0] == 'or':
            return '<or>%s</or>' % ''.join(map(nd, n[1]))
        if n[0] == 'rep':
            return '<repeat from="%d" upto="%d">%s</repeat>' % (n[1], n[2], ''.join(map(nd, n[3])))
        return '<begin/>'
    return '<?xml version="1.0"?>\n<capitalization>\n<rules>\n%s\n</rules>\n</capitalization>\n' % '\n'.join(
        '<rule%s>%s</rule>' % (' weight="%s"' % w if w else '', ''.join(map(nd, n))) for w, n in rs)


def isup(c):
    return c.isupper() and _case(6, c) != c or c.isupper()


def chars(s):
    """the characters of a field, without the backslashes of escaped ones"""
    return re.sub(r'\\(.)', r'\1', s, flags=re.S)


def spec(s):
    """upper-case, lower-case (whatever is not upper case) or any characters, each one or more"""
    o = []
    for c in s:
        k = '.' if c == '*' else ' ' if c == ' ' else 'U' if c.isupper() else 'L'
        if not o or o[-1] != k:
            o.append(k)
    return re.compile(''.join({'.': '[ULS]+', ' ': 'S+', 'U': 'U+', 'L': '[LS]+'}[k] for k in o) + r'\Z')


def classes(s):
    return ''.join('U' if isup(c) else 'S' if c == ' ' else 'L' for c in s)


def lit(pat, s):
    return re.fullmatch(''.join('.+' if c == '*' else re.escape(c) for c in pat), s, re.S) is not None


def tagfit(p, t):
    if not p:
        return not t
    if p[0] == '*':
        return tagfit(p[1:], t) or bool(t) and tagfit(p, t[1:])
    if p[0] == '+':
        return bool(t) and (tagfit(p[1:], t[1:]) or tagfit(p, t[1:]))
    return bool(t) and (p[0] in ('?', t[0])) and tagfit(p[1:], t[1:])


def fits(a, w):
    b, wb, f, s = w
    src = next((x[2:] for x in wb or [] if x.startswith('c:')), 'aa/aa').split('/')
    if f is None:
        f = ''
    k = re.search(r'(?<!\\)<', f)
    lem, tags = (f[:k.start()], re.findall(r'<([^>]*)>', f[k.start():])) if k else (f, [])
    lem = chars(lem); s = chars(s)
    def sp(n, v):
        return spec(a.get(n, '*')).match(classes(v)) is not None
    if not sp('srcsurf', src[0]) or not sp('srclem', src[1]):
        return False
    if a.get('lemma', '*') != '*':
        if not lit(a['lemma'], lem):
            return False
    elif not sp('trglem', lem):
        return False
    if a.get('surface', '*') != '*':
        if not lit(a['surface'], s):
            return False
    elif not sp('trgsurf', s):
        return False
    return tagfit(tuple(x for x in a.get('tags', '*').split('.') if x), tuple(tags))


def restore(rs, ws, tail, keep):
    """the texts the rules allow, as a list of sets (one per word), and the tail"""
    def seq(ns, st):
        for n in ns:
            st = step(n, st)
        return st

    def step(n, st):
        # states: (next word, whether the beginning has been used, selections so far)
        if n[0] == 'm':
            return {(i + 1, b, s + (n[1].get('select', ''),)) for i, b, s in st if i < len(ws) and fits(n[1], ws[i])}
        if n[0] == 'or':
            return set().union(*(step(x, st) for x in n[1]))
        if n[0] == 'rep':
            o = set()
            for k in range(n[2] + 1):
                if k >= n[1]:
                    o |= st
                if k < n[2]:
                    st = seq(n[3], st)
            return o
        return {(i, 1, s) for i, b, s in st if i == 0 and not b}

    W = [{(0.0, 0.0, 0.0, 0.0)} for _ in ws]          # what each word may have collected: dix, aa, Aa, AA
    K = {'dix': 0, 'aa': 1, 'Aa': 2, 'AA': 3}
    for wt, ns in rs:
        wt = float(wt) if wt else 1.0
        ends = {}
        for i in range(len(ws)):
            for j, b, s in seq(ns, {(i, 0, ())}):
                if s:
                    ends.setdefault(j, set()).add(s)
        for j, paths in ends.items():
            # a rule counts once for each place where it ends; which of its readings then counts is left open
            for k in range(1, max(map(len, paths)) + 1):
                opts = {p[-k] if len(p) >= k else '' for p in paths}
                W[j - k] = {tuple(x + (wt if K.get(o) == n else 0) for n, x in enumerate(v)) for v in W[j - k] for o in opts}
    out = []
    for w, vs in zip(ws, W):
        b, wb, f, s = w
        o = set()
        for d, aa, Aa, AA in vs:
            if d >= aa and d >= Aa and d >= AA:
                x = s
            elif aa >= Aa and aa >= AA:
                x = _case(0, s)
            elif Aa >= AA:
                x = _case(2, s)
            else:
                x = _case(1, s)
            p = wb if keep else [x for x in wb or [] if not x.startswith('c:')]
            o.add(b + ('[[%s]]%s[[/]]' % ('; '.join(p), x) if p else x))
        out.append(o)
    return out, tail


def accepts(exp, tail, got):
    """got is one of the texts: word by word, all the ways they can be told apart"""
    at = {0}
    for o in exp:
        at = {i + len(x) for i in at for x in o if got.startswith(x, i)}
    return any(got[i:] == tail for i in at)
