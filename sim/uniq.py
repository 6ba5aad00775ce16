"""Makes the pieces of a generated request traceable: every superblank, word-bound
blank and word carries an identity of its own."""
import re
from stream import *


def marker(k):
    s = ''
    for _ in range(3):
        s += chr(97 + k % 24); k //= 24
    return 'zq' + s + 'qz'


class Ids:
    def __init__(self, base=0):
        self.k = base; self.b = 0

    def word(self):
        self.k += 1
        return marker(self.k)

    def blank(self):
        self.b += 1
        return self.b


def mark_lemma(p, m):
    """put marker m into lemma text p ('*foo', 'take# off<vb>', 'a<pr>+the<det>'), at the end of the lemma head"""
    i = 1 if p[:1] in ('*', '@') else 0
    while i < len(p):
        if p[i] == '\\':
            i += 2; continue
        if p[i] in '<#+~':
            break
        i += 1
    return p[:i] + m + p[i:]


def uniq(s, kind, ids, where='tl'):
    """returns the text with identities; where: which part of a lexical unit gets the marker (None: none)"""
    o = []
    for k, t in tokens(s):
        if k == 'sb':
            o.append('[u%d%s' % (ids.blank(), t[1:]) if t[1:2] != '[' else t)
        elif k == 'wb':
            if t == '[[/]]':
                o.append(t)
            else:
                o.append('[[' + '; '.join((x if x.startswith('c:') else 'u%d:%s' % (ids.blank(), x) if x.endswith('\\') else '%s:u%d' % (x, ids.blank())) for x in wbparts(t)) + ']]')
        elif k == 'lu':
            c = chunk(t) if kind == 'chunk' else None
            if c:
                o.append('^' + c[0] + '{' + uniq(c[1], 'in', ids, where) + '}$')
            elif where is None:
                o.append(t)
            else:
                m = ids.word()
                ps = parts(t)
                if where == 'tl':
                    ps = [ps[0]] + [mark_lemma(p, m) for p in ps[1:]]
                elif where == 'all':
                    ps = [mark_lemma(p, m) for p in ps]
                elif where == 'sl':
                    ps = [mark_lemma(ps[0], m)] + ps[1:]
                o.append('^' + '/'.join(ps) + '$')
        else:
            o.append(t)
    return ''.join(o)


def words(s):
    """[(markers, wblank parts or [], text)] of every lexical unit, chunks opened"""
    o = []; wb = []
    for k, t in flat(s):
        if k == 'wb':
            wb = wbparts(t)
        elif k == 'lu':
            o.append((mks(t), wb, t)); wb = []
        elif k in ('sb', 'bl', 'ch'):
            if wb:
                o.append(([], wb, ''))          # a word-bound blank with no word after it
            wb = []
    if wb:
        o.append(([], wb, ''))
    return o
