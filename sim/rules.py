"""rules.py: a reference interpreter for the three rule languages (transfer, interchunk,
postchunk), written from their documentation.  It works on words only: blanks and word-bound
blanks are left out on both sides (they have checks of their own).

    Rules(path, kind, mode).run(text) -> list of output words (see words())
"""
import ctypes, re, unicodedata
import xml.etree.ElementTree as ET
from functools import lru_cache

_lib = None


def lib():
    global _lib
    if _lib is None:
        import build
        _lib = ctypes.CDLL(build.build_ltcase())
        _lib.lt_bil_open.restype = ctypes.c_void_p
    return _lib


class Bil:
    """bilingual dictionary: what lttoolbox answers"""
    def __init__(self, path, casesens):
        self.h = lib().lt_bil_open(path.encode(), int(casesens)); self.memo = {}
        assert self.h

    def __call__(self, w):
        if w not in self.memo:
            a = w.encode('utf-16-le', 'surrogatepass'); q = ctypes.c_int(0); cap = len(a) * 4 + 4096
            o = ctypes.create_string_buffer(2 * cap)
            n = lib().lt_bil(ctypes.c_void_p(self.h), a, len(a) // 2, o, cap, ctypes.byref(q))
            assert n >= 0
            s = o.raw[:2 * n].decode('utf-16-le', 'surrogatepass'); u = o.raw[2 * (n - q.value):2 * n].decode('utf-16-le', 'surrogatepass')
            self.memo[w] = s, len(u)
        return self.memo[w]


@lru_cache(maxsize=100000)
def _case(kind, p, q=''):
    a = p.encode('utf-16-le', 'surrogatepass'); b = q.encode('utf-16-le', 'surrogatepass')
    cap = 3 * (len(a) + len(b)) // 2 + 64
    o = ctypes.create_string_buffer(2 * cap)
    n = lib().lt_case(kind, a, len(a) // 2, b, len(b) // 2, o, cap)
    assert n >= 0
    return o.raw[:2 * n].decode('utf-16-le', 'surrogatepass')


def lower(s): return _case(0, s) if s else ''
def getcase(s): return _case(3, s) if s else 'aa'
def copycase(s, t): return _case(4, s, t) if t else ''
def upper1(c): return _case(5, c)
def lower1(c): return _case(6, c)


def alnum(c):
    return len(c.encode('utf-16-le')) == 2 and unicodedata.category(c) in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nd')


# ------------------------------------------------------------------ the stream
def words(text, chunks=False):
    """the contents of the lexical units (or chunks) of a stream, without any blank"""
    o = []; i = 0; n = len(text)
    while i < n:
        c = text[i]
        if c == '\\':
            i += 2
        elif c == '^':
            w, i = word(text, i + 1, chunks)
            o.append(w)
        elif c == '[':
            i += 1
            while i < n and text[i] != ']':
                i += 2 if text[i] == '\\' else 1
            i += 1
        else:
            i += 1
    return o


def word(t, i, chunks):
    o = []; n = len(t)
    while i < n and t[i] != '$':
        if t[i] == '\\':
            o.append(t[i:i + 2]); i += 2
        elif t[i] == '<':
            j = i
            while j < n and t[j] not in '>$':
                j += 1
            j -= j == n or t[j] == '$'
            o.append(t[i:j + 1]); i = j + 1
        elif t[i] == '{' and chunks:
            j = i + 1
            while j < n and t[j] != '}':
                if t[j] == '\\':
                    j += 2
                elif t[j] in '^[':
                    e = '$' if t[j] == '^' else ']'
                    while j < n and t[j] != e:
                        j += 2 if t[j] == '\\' else 1
                    j += 1
                else:
                    j += 1
            o.append('{%s}' % ''.join('^%s$' % w for w in words(t[i + 1:j])))
            i = j + 1
        else:
            o.append(t[i]); i += 1
    return ''.join(o), i + 1


def split_unescaped(s, c):
    """s up to the first c outside escapes and tags, and the rest from there"""
    i = 0; n = len(s)
    while i < n:
        if s[i] == '\\':
            i += 2
        elif s[i] == c:
            return s[:i], s[i:]
        elif s[i] == '<':
            j = s.find('>', i)
            i = n if j < 0 else j + 1
        else:
            i += 1
    return s, ''


def sides(w):
    p = []
    while True:
        a, w = split_unescaped(w, '/')
        p.append(a)
        if not w:
            return p
        w = w[1:]


# ------------------------------------------------------------------ parts of words
def escaped(s, i):
    k = 0
    while k < i and s[i - 1 - k] == '\\':
        k += 1
    return k % 2 == 1


LEM = re.compile(r'(?:[^<\\]|\\.)+', re.S)
LEMH = re.compile(r'(?:[^<#\\]|\\.)+', re.S)
LEMQ = re.compile(r'#[- _](?:[^<\\]|\\.)+', re.S)
TAGS = re.compile(r'(?:<[^>]+>)+', re.S)


def first(rx):
    def f(s):
        i = 0
        while True:
            m = rx.search(s, i)
            if not m:
                return None
            if not escaped(s, m.start()):
                return m.span()
            i = m.start() + 1
    return f


def at0(rx):
    def f(s):
        m = rx.match(s)
        return m.span() if m else None
    return f


def whole(s):
    return (0, len(s)) if s else None


def content(s):
    a, b = split_unescaped(s, '{')
    return (len(a), len(s)) if b else None


BUILTIN = {'lem': at0(LEM), 'lemh': at0(LEMH), 'lemq': first(LEMQ), 'tags': first(TAGS), 'whole': whole, 'chcontent': content, 'content': content}


def attr(items):
    rx = re.compile('<(?:%s)>' % '|'.join(re.escape(x.replace('.', '><')) for x in sorted(items, key=len, reverse=True)), re.S | re.I)

    def f(s):
        m = rx.search(s)
        return m.span() if m else None
    return f


class Reject(Exception):
    pass


class TWord:
    def __init__(self, sl, tl, queue=0, ref=''):
        self.s = {'sl': sl, 'tl': tl, 'ref': ref}; self.q = queue

    def cut(self, k, e):
        s = self.s[k]
        n = len(s) - (self.q if e.get('queue') == 'no' else 0)
        return (s[:n], s[n:]) if n >= 0 else (s, '')


class CWord:
    """a chunk (or, in postchunk, a word: no content)"""
    def __init__(self, s):
        self.head, self.body = split_unescaped(s, '{')


# ------------------------------------------------------------------ the interpreter
class Rules:
    def __init__(self, path, kind, mode='b', dictcase=False, bil=None, ext=None):
        self.bil, self.ext = bil, ext
        self.kind, self.mode, self.dictcase = kind, mode, dictcase
        root = ET.parse(path).getroot()
        self.lu = root.get('default', 'lu') == 'lu'
        self.macros = {m.get('n'): m for m in root.iter('def-macro')}
        self.vars0 = {v.get('n'): v.get('v', '') for v in root.iter('def-var')}
        self.attrs = dict(BUILTIN)
        for a in root.iter('def-attr'):
            self.attrs[a.get('n')] = attr([x.get('tags') for x in a])
        self.lists = {l.get('n'): {x.get('v') for x in l} for l in root.iter('def-list')}
        self.llow = {k: {lower(x) for x in v} for k, v in self.lists.items()}
        cats = {}
        for c in root.iter('def-cat'):
            cats[c.get('n')] = [(x.get('name'), None) if x.get('tags') in (None, '') else (x.get('lemma', ''), x.get('tags').split('.')) for x in c]
        self.cats = cats
        self.rules = []; seen = set()
        for r in root.iter('rule'):
            p = tuple(x.get('n') for x in r.find('pattern'))
            # of two rules with one pattern the first counts
            self.rules.append((p if p not in seen else None, r.find('action')))
            seen.add(p)
        self.hits = 0

    # -- matching
    def key(self, w):
        """what a pattern sees of a word: lower-case lemma, list of tags (None if it cannot match)"""
        w = split_unescaped(w, '{' if self.kind != 't1x' else '/')[0]
        if self.kind == 't3x':
            w = split_unescaped(w, '<')[0]
        lem = []; tags = []; i = 0
        while i < len(w):
            if w[i] == '<':
                j = w.find('>', i)
                if j < 0:
                    return None
                tags.append(w[i + 1:j]); i = j + 1
                continue
            if tags:
                return None
            if w[i] == '\\':
                i += 1
            lem.append(lower1(w[i])); i += 1
        return ''.join(lem), tags

    def fits(self, item, key):
        if key is None:
            return False
        lem, tags = item
        if lem == '':
            if not key[0]:
                return False
        elif not (re.fullmatch('.+'.join(map(re.escape, lem.split('*'))), key[0], re.S) if '*' in lem else lem == key[0]):
            return False
        return tagfit(tuple(tags or ()), tuple(key[1]))

    def match(self, W, i, banned):
        best = None
        for n, (p, a) in enumerate(self.rules):
            if p is None or n in banned or i + len(p) > len(W) or (best is not None and len(p) <= len(self.rules[best][0])):
                continue
            if all(any(self.fits(it, W[i + k][1]) for it in self.cats[c]) for k, c in enumerate(p)):
                best = n
        return best

    def matched(self, W, i, banned):
        """what the tracing option names: the rule that counts after each word"""
        n = max((len(p) for p, a in self.rules if p), default=0)
        for l in range(1, min(n, len(W) - i) + 1):
            for k, (p, a) in enumerate(self.rules):
                if p is not None and k not in banned and len(p) == l and all(any(self.fits(it, W[i + j][1]) for it in self.cats[c]) for j, c in enumerate(p)):
                    yield k, [w for w, _ in W[i:i + l]]
                    break

    # -- the main loop
    def run(self, text, trace=None):
        W = [(w, self.key(w)) for w in words(text, self.kind != 't1x')]
        self.vars = dict(self.vars0); self.out = []
        i = 0; banned = set()
        while i < len(W):
            r = self.match(W, i, banned)
            if trace is not None:
                trace += [('m', k, ws) for k, ws in self.matched(W, i, banned)]
                if r is not None:
                    trace.append(('a', r, [w for w, _ in W[i:i + len(self.rules[r][0])]]))
            if r is None:
                self.unmatched(W[i][0]); i += 1; banned = set()
                continue
            self.hits += 1
            p, action = self.rules[r]
            n = self.apply(action, [w for w, _ in W[i:i + len(p)]])
            if n < 0:
                i += len(p); banned = set()
            elif n > 0:
                i += n; banned = set()
            else:
                banned.add(r)
        return words(''.join(self.out), self.kind == 't2x' or self.kind == 't1x' and not self.lu)

    def unmatched(self, w):
        if self.kind == 't1x':
            p = sides(w)
            if self.bil:
                if self.ext and w[:1] == '*':
                    x = self.ext(w[1:])[0]
                    tl = '*' + x[1:] if x[:1] == '@' else '%' + x
                else:
                    tl = self.bil(w)[0]
            else:
                tl = w if self.mode == 'n' else p[1] if len(p) > 1 else ''
            if tl:
                u = '^%s$' % tl
                self.out.append(u if self.lu else '^%s{%s}$' % ('unknown<unknown>' if tl[0] == '*' else 'default<default>', u))
        elif self.kind == 't2x':
            self.out.append('^%s$' % w)
        else:
            self.out += ['^%s$' % x for x in self.unchunk(w)]

    def unchunk(self, w):
        head, body = split_unescaped(w, '{')
        pl = split_unescaped(head, '<')[0]
        tags = re.findall(r'<[^>]*>', head[len(pl):])
        cs = 'aa' if self.dictcase else getcase(pl)
        one = cs == 'Aa'
        res = []
        for x in words(body[1:-1]):
            o = []; i = 0
            while i < len(x):
                if x[i] == '\\':
                    o.append(x[i:i + 2]); i += 2
                elif x[i] == '<':
                    j = x.index('>', i); t = x[i + 1:j]; i = j + 1
                    if t[:1].isdigit():
                        n = int(re.match(r'\d+', t).group())
                        o.append(tags[n - 1] if 0 < n <= len(tags) else '')
                    else:
                        o.append('<%s>' % t)
                else:
                    if cs == 'AA' or one and alnum(x[i]):
                        o.append(upper1(x[i])); one = False
                    else:
                        o.append(x[i])
                    i += 1
            res.append(''.join(o))
        return res

    def apply(self, action, ws):
        if self.kind == 't1x':
            if self.bil:
                self.w = [TWord(w, *self.bil(w)) for w in ws]
            elif self.mode == 'n':
                self.w = [TWord(w, w) for w in ws]
            else:
                self.w = []
                for w in ws:
                    p = sides(w)
                    self.w.append(TWord(p[0], p[1] if len(p) > 1 else '', 0, p[-1] if len(p) > 2 else ''))
        elif self.kind == 't2x':
            self.w = [CWord(w) for w in ws]
        else:
            c = ws[0]
            self.w = [CWord(split_unescaped(c, '{')[0])] + [CWord(x) for x in self.unchunk(c)]
            self.count = len(self.w) - 1
        try:
            self.block(action)
        except Reject as e:
            return e.args[0]
        return -1

    # -- statements
    def block(self, e):
        for s in e:
            getattr(self, 's_' + s.tag.replace('-', '_'))(s)

    def s_reject_current_rule(self, e):
        v = e.get('shifting', 'yes')
        raise Reject({'yes': 1, 'no': 0}.get(v) if v in ('yes', 'no') else int(v))

    def s_choose(self, e):
        for b in e:
            if b.tag == 'otherwise':
                self.block(b)
                return
            if all(self.cond(c) for c in b[0]):
                self.block(b[1:])
                return

    def s_let(self, e):
        v = self.ev(e[1])
        if e[0].tag == 'var':
            self.vars[e[0].get('n')] = v
        else:
            self.setpart(e[0], v)

    def s_append(self, e):
        for c in e:
            self.vars[e.get('n')] = self.vars.get(e.get('n'), '') + self.ev(c)

    def s_modify_case(self, e):
        if self.dictcase:
            return
        v = self.ev(e[1])
        if e[0].tag == 'var':
            n = e[0].get('n')
            self.vars[n] = copycase(v, self.vars.get(n, ''))
        else:
            self.setpart(e[0], copycase(v, self.part(e[0], e[0].get('part'))), 'tl')

    def s_call_macro(self, e):
        old = self.w
        w = [old[self.index(c)] for c in e]
        self.w = ([old[0]] if self.kind == 't3x' else []) + w
        m = self.macros[e.get('n')]
        try:
            self.block(m)
        except Reject:
            pass
        self.w = old

    def s_out(self, e):
        for c in e:
            self.out.append(self.ev(c))

    # -- words
    def index(self, e):
        return int(e.get('pos')) - (0 if self.kind == 't3x' else 1)

    def find(self, part, s):
        f = self.attrs.get(part)
        sp = f(s) if f else None
        return s[sp[0]:sp[1]] if sp else ''

    def cpart(self, w, part):
        if part == 'whole':
            return w.head + w.body
        if part == 'chcontent':
            return w.body
        if part == 'content':
            return w.body[1:-1]
        return self.find(part, w.head)

    def part(self, e, part, pos=None):
        if self.index(e) >= len(self.w):
            return ''
        w = self.w[self.index(e)]
        if self.kind == 't1x':
            return self.find(part, w.cut(e.get('side', 'tl'), e)[0])
        return self.cpart(w, part)

    def setpart(self, e, v, side='sl'):
        w = self.w[self.index(e)]; f = self.attrs.get(e.get('part'))
        if self.kind == 't1x':
            k = e.get('side', side)
            a, b = w.cut(k, e)
            sp = f(a)
            if sp:
                w.s[k] = a[:sp[0]] + v + a[sp[1]:] + b
        else:
            sp = f(w.head)
            if sp:
                w.head = w.head[:sp[0]] + v + w.head[sp[1]:]

    # -- values
    def ev(self, e):
        return getattr(self, 'v_' + e.tag.replace('-', '_'))(e)

    def v_clip(self, e):
        v = self.part(e, e.get('part'))
        if e.get('link-to') and self.kind == 't1x':
            return '<%s>' % e.get('link-to') if v else ''
        return v

    def v_lit(self, e):
        return e.get('v')

    def v_lit_tag(self, e):
        return '<%s>' % e.get('v').replace('.', '><')

    def v_var(self, e):
        return self.vars.get(e.get('n'), '')

    def v_b(self, e):
        return ''

    def v_lu_count(self, e):
        return str(self.count)

    def v_concat(self, e):
        return ''.join(self.ev(c) for c in e)

    def v_case_of(self, e):
        if self.index(e) >= len(self.w):
            return ''
        return getcase(self.part(e, e.get('part')))

    def v_get_case_from(self, e):
        if self.index(e) >= len(self.w):
            return ''
        w = self.w[self.index(e)]
        src = self.find('lem', w.s['sl']) if self.kind == 't1x' else self.cpart(w, 'lem')
        v = self.ev(e[0])
        if self.dictcase:
            return v
        a, b = v.find('<'), v.rfind('>')
        if a < 0 or b < 0:
            return copycase(src, v)
        cs = getcase(src); tail = v[b + 1:]
        return copycase(cs, v[:a]) + v[a:b + 1] + (_case(1, tail) if cs == 'AA' else lower(tail))

    def v_lu(self, e):
        v = ''.join(self.ev(c) for c in e)
        return '^%s$' % v if v else ''

    def v_mlu(self, e):
        o = ''; started = False
        for l in e:
            v = ''.join(self.ev(c) for c in l)
            if started and v and v[0] != '#':
                o += '+'
            started = started or bool(v)
            o += v
        return '^%s$' % o if o else ''

    def v_chunk(self, e):
        if self.kind == 't2x':
            return '^%s$' % ''.join(self.ev(c) for c in e)
        name = e.get('name') or self.vars.get(e.get('namefrom'), '')
        cs = e.get('case', 'aa')
        if cs and not self.dictcase:
            name = copycase(self.vars.get(cs, ''), name)
        o = '^' + name
        for c in e:
            if c.tag == 'tags':
                o += ''.join(self.ev(x) for t in c for x in t) + '{'
            else:
                o += self.ev(c)
        return o + '}$'

    # -- conditions
    def cond(self, e):
        return getattr(self, 'c_' + e.tag.replace('-', '_'))(e)

    def c_and(self, e): return all(self.cond(c) for c in e)
    def c_or(self, e): return any(self.cond(c) for c in e)
    def c_not(self, e): return not self.cond(e[0])

    def two(self, e):
        a, b = self.ev(e[0]), self.ev(e[1])
        return (lower(a), lower(b)) if e.get('caseless') == 'yes' else (a, b)

    def onelist(self, e):
        a = self.ev(e[0]); n = e[1].get('n')
        return (lower(a), self.llow.get(n, ())) if e.get('caseless') == 'yes' else (a, self.lists.get(n, ()))

    def c_equal(self, e):
        a, b = self.two(e)
        return a == b

    def c_begins_with(self, e):
        a, b = self.two(e)
        return a.startswith(b)

    def c_ends_with(self, e):
        a, b = self.two(e)
        return a.endswith(b)

    def c_contains_substring(self, e):
        a, b = self.two(e)
        return b in a

    def c_begins_with_list(self, e):
        a, l = self.onelist(e)
        return any(a.startswith(x) for x in l)

    def c_ends_with_list(self, e):
        a, l = self.onelist(e)
        return any(a.endswith(x) for x in l)

    def c_in(self, e):
        a, l = self.onelist(e)
        return a in l


@lru_cache(maxsize=100000)
class Mult(Rules):
    """apertium-multiple-translations: the patterns of the rules only, every translation of every word"""
    def key(self, w):
        return Rules.key(self, w) if '/' not in w else (None if '\\/' not in w else Rules.key(self, w))

    def split(self, text):
        """[blank, word, blank, ..., blank]"""
        o = ['']; i = 0
        while i < len(text):
            c = text[i]
            if c == '\\':
                o[-1] += text[i:i + 2]; i += 2
            elif c == '[':
                j = i + 1
                while j < len(text) and text[j] != ']':
                    j += 2 if text[j] == '\\' else 1
                o[-1] += text[i:j + 1]; i = j + 1
            else:
                if c in '^$':
                    o.append('')
                else:
                    o[-1] += c
                i += 1
        return o

    def ways(self, w):
        t = self.bil(w)[0]
        return re.findall(r'(?:^|/)((?:\\.|[^\\/])*)', t[1:] if t[:1] == '@' else t, re.S)

    def answer(self, text):
        T = self.split(text)
        W = [(w, self.key(w)) for w in T[1::2]]; B = T[0::2]
        o = [B[0]]; i = 0; self.hits = 0
        mark = lambda l: '[{]' + '[|]'.join(l) + '.[][}]' if len(l) > 1 else l[0]
        while i < len(W):
            r = self.match(W, i, ())
            if r is None:
                if self.bil(W[i][0])[0]:
                    o.append(mark(['^%s$' % x for x in self.ways(W[i][0])]))
                n = 1
            else:
                n = len(self.rules[r][0]); l = ['']
                self.hits += 1
                for k in range(n):
                    l = [a + (B[i + k] if k else '') + '^%s$' % x for a in l for x in self.ways(W[i + k][0])]
                o.append(mark(l))
            i += n
            o.append(B[i])
        return ''.join(o)


def tagfit(pat, tags):
    """'*' stands for one tag or more"""
    if not pat:
        return not tags
    if not tags:
        return False
    if pat[0] == '*':
        return tagfit(pat[1:], tags[1:]) or tagfit(pat, tags[1:])
    return pat[0] == tags[0] and tagfit(pat[1:], tags[1:])
