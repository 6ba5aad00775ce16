"""Parts of .docx documents drawn at random and what apertium-adapt-docx must make of them."""
import re, unicodedata
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

W = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'
w = lambda n: '{%s}%s' % (W, n)
SPACE = '{http://www.w3.org/XML/1998/namespace}space'
BITS = ['a', 'b', 'foo', 'Bar', ' ', ' ', '  ', 'é', '日', 'ñu', '-', '·', 'l', 'L', 'l·l', "'", '1', '.', ', ', '😀', 'e\u0301', '&', '<', '"', 'x-y', '\n', '𝔘', 'І', '\u00a0', '-a', 'a-']
OTHER = ['<w:br/>', '<w:tab/>', '<w:drawing><wp:inline/></w:drawing>', '<w:lastRenderedPageBreak/>', '<w:footnoteReference w:id="1"/>']
PROPS = ['', '', '<w:rPr><w:b/></w:rPr>', '<w:rPr><w:i/><w:sz w:val="20"/></w:rPr>', '<w:rPr/>']
BETWEEN = ['', '', '', '', '<w:proofErr w:type="spellStart"/>', '<w:bookmarkStart w:id="0" w:name="x"/>', '<!-- c -->', '\n  ']


def run(r):
    x = r.random()
    t = ''.join(r.choice(BITS) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5])))
    sp = r.choice(['', ' xml:space="preserve"', ' xml:space="preserve"', ' xml:space="default"'])
    tx = '<w:t%s>%s</w:t>' % (sp, escape(t)) if t or r.random() < .5 else '<w:t%s/>' % sp
    if x < .08:
        tx = r.choice(OTHER)
    elif x < .16:
        tx = r.choice(OTHER) + tx
    elif x < .22:
        tx = tx + r.choice(OTHER)
    elif x < .24:
        tx = tx + '<w:t>zz</w:t>'
    elif x < .26:
        tx = ''
    return '<w:r%s>%s%s</w:r>' % (r.choice(['', '', ' w:rsidR="00A"']), r.choice(PROPS), tx)


def para(r, depth=0):
    o = []
    for _ in range(r.choice([0, 1, 2, 2, 3, 4, 7])):
        x = r.random()
        if x < .06:
            o.append('<w:hyperlink r:id="rId1">%s</w:hyperlink>' % ''.join(run(r) for _ in range(r.randint(1, 2))))
        elif x < .1 and not depth:
            o.append('<w:r><w:pict><w:txbxContent>%s</w:txbxContent></w:pict></w:r>' % para(r, 1))
        else:
            o.append(run(r))
        o.append(r.choice(BETWEEN))
    return '<w:p>%s%s</w:p>' % (r.choice(['', '<w:pPr><w:jc w:val="left"/></w:pPr>']), ''.join(o))


def part(r):
    b = ''
    for _ in range(r.choice([1, 1, 2, 4])):
        b += para(r) if r.random() < .85 else '<w:tbl><w:tr><w:tc>%s</w:tc></w:tr></w:tbl>' % para(r)
        b += r.choice(['', '', '\n', '\r\n'])
    return ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>' + r.choice(['\n', '']) +
            '<w:document xmlns:w="%s" xmlns:wp="urn:wp" xmlns:r="urn:r"%s><w:body>%s<w:sectPr/></w:body></w:document>' % (W, r.choice(['', '', ' xml:space="preserve"']), b))


def alpha(c):
    return unicodedata.category(c)[0] == 'L'


def inword(s, b, loose):
    """no boundary between b-1 and b: within letters, within "a-a" and within the Catalan "l·l"; whether a hyphen
    that ends all the text belongs to the word before it is left open"""
    if not 0 < b < len(s):
        return False
    at = lambda i: s[i] if 0 <= i < len(s) else '\0'
    q, p, c, n = (at(b + k) for k in (-2, -1, 0, 1))
    if alpha(p) and alpha(c):
        return True
    if p == '-' and alpha(q):
        return alpha(c)
    if c == '-' and alpha(p):
        return alpha(n) or loose and b + 1 == len(s)
    if p == '·' and q in ('l', 'L'):
        return c in ('l', 'L')
    if c == '·' and p in ('l', 'L'):
        return n in ('l', 'L') or loose and b + 1 == len(s)
    return False


def kids(e):
    return [k for k in e if isinstance(k.tag, str)]


def expected(xml, loose=False):
    """the tree the document must come out as"""
    root = ET.fromstring(xml.encode(), ET.XMLParser(target=ET.TreeBuilder(insert_comments=True)))
    parent = {k: p for p in root.iter() for k in p}

    def preserve(t):
        while t is not None:
            v = t.get(SPACE)
            if v is not None:
                return v == 'preserve'
            t = parent.get(t)
        return False
    moved = 0
    for p in root.iter(w('p')):
        groups = [[]]
        for r in p:
            if not isinstance(r.tag, str):
                continue
            if r.tag != w('r'):
                if r.find('.//' + w('r')) is not None:
                    groups.append([])                    # nor does text move across a hyperlink
                continue
            ts = [k for k in r if k.tag == w('t')]
            rest = [k for k in r if isinstance(k.tag, str) and k.tag not in (w('t'), w('rPr'), w('lastRenderedPageBreak'))]
            if len(ts) == 1 and not rest:
                s = ts[0].text or ''
                groups[-1].append((r, ts[0], s if preserve(ts[0]) else s.strip(' ')))
            elif len(ts) == 1:
                groups += [[], []]                       # a run that holds more than text stays as it is
            elif rest or ts:
                groups.append([])
        for g in groups:
            s = ''.join(x[2] for x in g)
            b = [0]
            for x in g:
                b.append(b[-1] + len(x[2]))
            new = [0]
            for k in range(1, len(b)):
                e = b[k]
                if k < len(b) - 1 and e > b[k - 1]:
                    while inword(s, max(e, new[-1]), loose) and e >= new[-1]:
                        e += 1
                new.append(max(e, new[-1]))
            if new == b:
                continue
            moved += 1
            for k, (r, t, _) in enumerate(g):
                u = s[new[k]:new[k + 1]]
                if u:
                    t.text = u
                    t.set(SPACE, 'preserve' if u[0] == ' ' or u[-1] == ' ' else 'default')
                else:
                    par = parent[r]; i = list(par).index(r)
                    if r.tail:
                        if i:
                            par[i - 1].tail = (par[i - 1].tail or '') + r.tail
                        else:
                            par.text = (par.text or '') + r.tail
                    par.remove(r)
    return canon(root), moved


def canon(e):
    nl = lambda s: re.sub(r'[\r\n]+', ' ', s or '')
    return (e.tag if isinstance(e.tag, str) else '!'), tuple(sorted(e.attrib.items())), nl(e.text), tuple((canon(k), nl(k.tail)) for k in e)


def parse(s):
    try:
        return canon(ET.fromstring(s, ET.XMLParser(target=ET.TreeBuilder(insert_comments=True))))
    except ET.ParseError:
        return None


def diff(a, b, path=''):
    if a is None or b is None:
        return 'not well-formed'
    if a[:3] != b[:3]:
        return '%s: %s expected %s' % (path + '/' + re.sub('{.*}', '', a[0]), (a[1], a[2]), (b[1], b[2]))
    path += '/' + re.sub('{.*}', '', a[0])
    if len(a[3]) != len(b[3]):
        return '%s: %d parts, expected %d' % (path, len(a[3]), len(b[3]))
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        if x[1] != y[1]:
            return '%s: text %r after part %d, expected %r' % (path, x[1], i, y[1])
        if x[0] != y[0]:
            return diff(x[0], y[0], '%s[%d]' % (path, i))


def bare(t):
    """without the white space an indented output adds between elements"""
    if t is None:
        return
    sp = lambda x, here: '' if not x.strip() and here else x
    k = bool(t[3])
    return t[0], t[1], sp(t[2], k), tuple((bare(a), sp(b, True)) for a, b in t[3])


def draw(r):
    """documents: [name, text, state]; state: ok, gone (no such file), cut (not well-formed), open / read (cannot be read)"""
    o = []
    for i in range(r.choice([1, 1, 2, 3, 4])):
        x = r.random()
        st = 'ok' if x < .8 else r.choice(['gone', 'cut', 'open', 'read'])
        o.append([r.choice(['word/document%d.xml', '/sim/x/h%d.xml', 'footer%d', 'ñ%d.xml', './a%d', 'a&b%d']) % i, part(r), st, r.random()])
    return o
