"""An independent reader of the stream format (not derived from the code under test)."""
import re


def tokens(s):
    """split stream text into ('sb',txt) ('wb',txt) ('lu',txt) ('bl',txt); 'lu' includes chunks"""
    o = []; i = 0; n = len(s); cur = ''

    def fl():
        nonlocal cur
        if cur:
            o.append(('bl', cur)); cur = ''
    while i < n:
        c = s[i]
        if c == '\\':
            cur += s[i:i + 2]; i += 2; continue
        if c == '[':
            fl(); j = blank_end(s, i); o.append(('wb' if s.startswith('[[', i) else 'sb', s[i:j])); i = j; continue
        if c == '^':
            fl(); j = lu_end(s, i); o.append(('lu', s[i:j])); i = j; continue
        cur += c; i += 1
    fl()
    return o


def blank_end(s, i):
    n = len(s)
    dbl = s.startswith('[[', i); j = i + (2 if dbl else 1)
    while j < n:
        if s[j] == '\\':
            j += 2; continue
        if dbl and s.startswith(']]', j):
            return j + 2
        if not dbl and s[j] == ']':
            return j + 1
        j += 1
    return n


def lu_end(s, i):
    n = len(s); j = i + 1; dep = 0
    while j < n:
        c = s[j]
        if c == '\\':
            j += 2; continue
        if c == '{':
            dep += 1
        elif c == '}':
            dep -= 1
        elif c == '[' and dep:
            j = blank_end(s, j); continue
        elif c == '$' and dep <= 0:
            return j + 1
        j += 1
    return n


def parts(lu):
    """'^a/b/c$' -> ['a','b','c'] (unescaped slashes only)"""
    s = lu[1:-1]; o = ['']; i = 0
    while i < len(s):
        if s[i] == '\\':
            o[-1] += s[i:i + 2]; i += 2; continue
        if s[i] == '/':
            o.append('')
        else:
            o[-1] += s[i]
        i += 1
    return o


def chunk(lu):
    """(name+tags, inner text) of a chunk, or None"""
    i = 1
    while i < len(lu):
        if lu[i] == '\\':
            i += 2; continue
        if lu[i] == '{':
            return lu[1:i], lu[i + 1:lu.rindex('}')]
        i += 1
    return None


def flat(s, inner=True):
    """tokens with chunks opened: the chunk itself as ('ch', name)"""
    o = []
    for k, t in tokens(s):
        c = chunk(t) if k == 'lu' else None
        if c and inner:
            o.append(('ch', c[0])); o += flat(c[1])
        else:
            o.append((k, t))
    return o


def sbs(s):
    return [t for k, t in flat(s) if k == 'sb']


def wbparts(t):
    return [x.strip() for x in t[2:-2].split(';')] if t != '[[/]]' else []


def balanced(s):
    """problems of s as a stream: every opened token is closed"""
    for k, t in tokens(s):
        if k == 'lu' and not t.endswith('$'):
            return 'lexical unit not closed: %r' % t[:80]
        if k == 'lu' and chunk(t) is None and ('}' in re.sub(r'\\.', '', t)):
            return 'stray brace in %r' % t[:80]
        if k == 'sb' and not t.endswith(']'):
            return 'superblank not closed: %r' % t[:80]
        if k == 'wb' and not t.endswith(']]'):
            return 'word-bound blank not closed: %r' % t[:80]
        if k == 'bl' and re.search(r'[$\]{}]', re.sub(r'\\.', '', t, flags=re.S)):
            return 'reserved character between tokens: %r' % t[:80]
    return None


MK = re.compile(r'zq([a-z]{3})qz', re.I)


def mks(s):
    """marker words of s, in order, lower case"""
    return [m.lower() for m in MK.findall(s)]
