"""Small reference models of the stages whose specification fits in a few lines.
Text in, text out, for one request."""
from stream import *
import re
import rules as R


def pretransfer(s, surface=False, compound=False):
    o = []; wb = ''
    for k, t in tokens(s):
        if k == 'wb':
            wb = t; o.append(t); continue
        if k != 'lu':
            o.append(t); wb = ''; continue
        a = t[1:-1]
        if surface:
            a = '/'.join(parts(t)[1:])
        i = 0
        while i < len(a) and a[i] != '<':
            i += 2 if a[i] == '\\' else 1
        head, rest = a[:i], a[i:]
        q = ''; body = ''; tag = False; j = 0
        while j < len(rest):
            c = rest[j]
            if c == '\\':
                body += rest[j:j + 2]; j += 2; continue
            if c == '<':
                tag = True
            if c == '>':
                tag = False
            if not tag and c == '+':
                body += '$ ' + wb + '^'
            elif not tag and c == '~':
                body += '$' + wb + '^' if compound else ''
            elif not tag and c == '#':
                e = j
                while e < len(rest) and rest[e] not in '<+':
                    e += 2 if rest[e] == '\\' else 1
                q += rest[j:e]; j = e; continue
            else:
                body += c
            j += 1
        o.append('^' + head + q + body + '$'); wb = ''
    return ''.join(o)


def posttransfer(s):
    return re.sub(' +', ' ', s)


def wblank_attach(s):
    o = []; stack = []; wbs = []
    for k, t in tokens(s):
        if t == '[[/]]':
            if stack:
                n = stack.pop(); del wbs[len(wbs) - n:]
        elif k == 'wb':
            n = 0
            for p in wbparts(t):
                if p and p not in wbs:
                    wbs.append(p); n += 1
            stack.append(n)
        elif k == 'lu':
            o.append(('[[' + '; '.join(wbs) + ']]' if wbs else '') + t)
        else:
            o.append(t)
    return ''.join(o)


def wblank_detach(s):
    o = []; had = False
    for k, t in tokens(s):
        o.append(t)
        if k == 'wb':
            had = True
        elif k == 'lu' and had:
            o.append('[[/]]'); had = False
    return ''.join(o)


def cleanstream_check(a, b, newline, keep):
    """the lexical units in order, nothing else but white space (and the superblanks with -b)"""
    x = [t for k, t in tokens(a) if k == 'lu' or (keep and k == 'sb')]
    tb = tokens(b)
    y = [t for k, t in tb if k in ('lu', 'sb', 'wb')]
    if keep:
        x = [t for k, t in tokens(a) if k in ('lu', 'sb', 'wb')]
    else:
        x = [t for k, t in tokens(a) if k == 'lu']
        y = [t for k, t in tb if k == 'lu']
    if x != y:
        return 'tokens %r became %r' % (x, y)
    rest = ''.join(t for k, t in tb if k == 'bl')
    if rest.strip(' \n') or (not newline and '\n' in rest):
        return 'extra text %r' % rest
    if newline and not b.endswith('\n'):
        return 'no final newline'
    if not keep:
        # units apart in the input stay apart, with -n each has a line of its own
        apart, gap = [], False
        for k, t in tokens(a):
            if k == 'lu':
                apart.append(gap); gap = False
            else:
                gap = True
        got, gap = [], ''
        for k, t in tb:
            if k == 'lu':
                got.append(gap); gap = ''
            else:
                gap += t
        for i, (u, v) in enumerate(zip(apart, got)):
            if newline and not v.endswith('\n') or i and u and not v:
                return 'unit %d is not set apart' % i


def lemma_head(r):
    i = r.rfind('>+')
    i = 0 if i < 0 else i
    j = r.find('<', i)
    return r[:j] if j >= 0 else r


def case_of(w):
    """aa/Aa/AA; None where this model does not say"""
    return None if '\\' in w or '+' in w else R.getcase(w)


def extract_caps_check(a, b, surface):
    ta, tb = tokens(a), tokens(b)
    # one word-bound blank before every lexical unit
    A = []; wb = None
    for k, t in ta:
        if k == 'wb':
            wb = t; continue
        if k == 'lu':
            A.append((wb, t)); wb = None
        else:
            A.append((None, t))
    B = []; wb = None
    for k, t in tb:
        if k == 'wb':
            wb = t; continue
        B.append((wb, t)); wb = None
    if len(A) != len(B):
        return '%d tokens became %d' % (len(A), len(B))
    for (w1, t1), (w2, t2) in zip(A, B):
        if not t1.startswith('^'):
            if t1 != t2 or w2:
                return '%r became %r' % (t1, t2)
            continue
        p = parts(t1)
        want = '^' + (p[0] + '/' if surface else '') + (p[1] if len(p) > 1 else '') + '$'
        if t2 != want:
            return '%r became %r, expected %r' % (t1, t2, want)
        if not w2:
            return 'no capitalisation blank on %r' % t2
        q = wbparts(w2); c = [x for x in q if x.startswith('c:')]
        if [x for x in q if not x.startswith('c:')] != (wbparts(w1) if w1 else []) or len(c) != 1:
            return 'word-bound blank %r became %r' % (w1, w2)
        m = re.fullmatch('c:(aa|Aa|AA)/(aa|Aa|AA)', c[0])
        if not m:
            return 'capitalisation %r' % c[0]
        for want, got in ((case_of(p[0]), m.group(1)), (case_of(lemma_head(p[1])) if len(p) > 1 else None, m.group(2))):
            if want and want != got:
                return '%r gets %r' % (t1, c[0])
