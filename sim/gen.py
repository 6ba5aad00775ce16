"""Seeded generators of stage inputs.  A request is a list of units (strings),
so that the minimiser can drop units and keep the rest well formed."""
import random

NOUN = [('book', 'sg'), ('book', 'pl'), ('cat', 'sg'), ('house', 'sg'), ('house', 'pl'), ('House', 'sg'), ('ñandú', 'sg'),
        ('well', 'sg'), ('fast', 'sg'), ('CAT', 'pl')]
ANA = {
    'the': ['the<det><def>'], 'books': ['book<n><pl>', 'book<vb><pri>'], 'book': ['book<n><sg>', 'book<vb><pri>'],
    'close': ['close<adj>', 'close<n><sg>', 'close<vb><pri>'], 'cat': ['cat<n><sg>'], 'house': ['house<n><sg>', 'house<vb><pri>'],
    'houses': ['house<n><pl>', 'house<vb><pri>'], 'big': ['big<adj>'], 'fast': ['fast<adj>', 'fast<adv>', 'fast<n><sg>'],
    'he': ['he<prn>'], 'have': ['have<vb><pri>'], 'eaten': ['eat<vb><past>'], 'well': ['well<adv>', 'well<n><sg>', 'well<adj>'],
    'of': ['of<pr>'], 'of the': ['of<pr>+the<det><def>'], 'two': ['two<num>', 'two<n><sg>'],
    'ñandú': ['ñandú<n><sg>', 'ñandú<adj>'], 'take off': ['take# off<vb><pri>'], '.': ['.<sent>'], ',': [',<cm>'],
}
BIL = {'the<det><def>': ['o<det><def>', 'o<det><def><m><ND>'], 'book<n>': ['libro<n>', 'caderno<n>'], 'book<vb>': ['reservar<vb>'],
       'close<adj>': ['achegado<adj>'], 'close<n>': ['peche<n>'], 'close<vb>': ['pechar<vb>'], 'cat<n>': ['gato<n>'],
       'house<n>': ['casa<n><f>'], 'house<vb>': ['aloxar<vb>'], 'big<adj>': ['grande<adj>'], 'fast<adj>': ['veloz<adj>'],
       'fast<adv>': ['axiña<adv>'], 'fast<n>': ['xaxún<n>'], 'he<prn>': ['el<prn>'], 'have<vb>': ['ter<vb>'], 'eat<vb>': ['comer<vb>'],
       'well<adv>': ['ben<adv>'], 'well<n>': ['pozo<n>'], 'well<adj>': ['san<adj>'], 'of<pr>': ['de<pr>'], 'two<num>': ['dous<num>'],
       'two<n>': ['dous<n>'], '.<sent>': ['.<sent>'], ',<cm>': [',<cm>'], 'take# off<vb>': ['despegar# xa<vb>']}
CHUNKN = ['nsp', 'n', 'detn', 'detadjn', 'adjn', 'adj', 'v', 'auxv', 'pv', 'num', 'prdn', 'ncn', 'sent', 'default', 'Nsp', 'DETN', 'nosubj+', 'adv']
CHUNKT = {'nsp': ['SN', 'sg'], 'n': ['SN', 'pl'], 'detn': ['SN', 'DET', 'sg'], 'detadjn': ['SN', 'sg'], 'adjn': ['SN'], 'adj': ['SADJ', 'sg'],
          'v': ['SV', 'pri'], 'auxv': ['SV', 'past'], 'pv': ['SV', 'pri'], 'num': ['NUM'], 'prdn': ['SP'], 'ncn': ['SN', 'pl'], 'sent': ['SENT'],
          'default': ['default'], 'nosubj+': ['NUM'], 'adv': ['SADV']}
UNI = ['é', 'ß', 'ç', '日本', '語', '𝔘', '😀', 'ı', 'İ', 'ǆ', 'Σς', 'e\u0301', '\u200b', '\ufeff', 'ﬁ']
ESCS = ['\\^', '\\$', '\\/', '\\[', '\\]', '\\{', '\\}', '\\<', '\\>', '\\@', '\\\\', '\\a', '\\+', '\\#', '\\~', '\\*']
PATS = [['det', 'nom'], ['det', 'adj', 'nom'], ['adj', 'nom'], ['nom'], ['vb'], ['aux', 'vb'], ['aux', 'adv', 'vb'], ['prn', 'vb'], ['num'],
        ['pr', 'det', 'nom'], ['nom', 'cm', 'nom'], ['adj'], ['sent'], ['pr'], ['adv'], ['det']]
CATS = {'det': ['the<det><def>'], 'adj': ['close<adj>', 'big<adj>', 'fast<adj>', 'well<adj>', 'ñandú<adj>', 'Big<adj>'],
        'nom': ['book<n><sg>', 'book<n><pl>', 'cat<n><sg>', 'house<n><pl>', 'house<n><sg>', 'House<n><sg>', 'well<n><sg>', 'ñandú<n><sg>', 'CAT<n><pl>'],
        'vb': ['book<vb><pri>', 'eat<vb><past>', 'house<vb><pri>', 'take# off<vb><pri>', 'close<vb><pri>'], 'aux': ['have<vb><pri>'],
        'adv': ['well<adv>', 'fast<adv>'], 'prn': ['he<prn>', 'He<prn>'], 'num': ['two<num>'], 'pr': ['of<pr>'], 'cm': [',<cm>'], 'sent': ['.<sent>']}
FEATS = ['uni', 'odd', 'esc', 'sb', 'wb', 'unk', 'mult', 'long', 'empty', 'nl', 'case', 'dense']


# markup fragments: documents made of them are mostly malformed
SOUP = {
    'c': ['<', '>', '&', ';', '"', "'", '\\', '[', ']', '@', '{', '}', '^', '$', '/', '*', '~', '\n', ' ', '\t', '.', '-', '=', '#', '!', '?', '\r\n', '  ', '\n\n', '.\n\n', 'a', 'b',
          'foo', 'é', '日本', '😀', '\u00a0', '❡', '.[]', '[]', '[@/x]', '\\[', '\\@', '1', '%', '_', '(', ')', ',', ':', '|', '+', 'bar.', 'W.'],
    'html': ['<!--', '-->', '<![CDATA[', ']]>', '<script>', '</script>', '<style>', '</style>', '<p>', '</p>', '<b>', '</b>', '<br/>', '<a href="x">', '</a>', '<img src="a"/>', '<pre>', '</pre>',
             '&amp;', '&lt;', '&eacute;', '&#233;', '&nbsp;', '<?php ?>', '<!DOCTYPE html>', '<td>', '<h1>', '</h1>', '<code>', '</code>', '<span class="notranslate">', '</span>', '<textarea>', '</textarea>',
             '<tt>', '</tt>', '&#xE9;', '&Ccedil;', '&ouml;', '&quot;', '&gt;', '<i>', '</i>', '<em id="a">', '</em>', '<ul><li>', '</li></ul>'],
    'rtf': ['{\\rtf1', '\\par ', '\\b ', '\\b0 ', "\\'e9", "\\'80", '\\u233?', '{\\*\\x', '\\tab', '\\~', '\\-', '\\_', '\\{', '\\}', '\\\\', '}', '}'],
    'latex': ['\\begin{x}', '\\end{x}', '\\item ', '\\textbf{', '\\\\', '%', '$$', '\\%', '\\cite{a}', '\\section{', '<', '<CONTENTS-noeos>', '<CONTENTS/>', '</a>', '<verbatim>', '</verbatim>', '<a/>'],
    'mediawiki': ['[[', ']]', '{{', '}}', "''", "'''", '==', '* ', '# ', '<ref>', '</ref>', '<nowiki>', '</nowiki>', '{|', '|}', '|-', 'http://a.b', '<!--', '-->', '----', '~~~~', '__TOC__', '<math>', '</math>'],
    'xml': ['<w:p>', '</w:p>', '<w:t>', '</w:t>', '<w:r>', '</w:r>', '<text:p>', '</text:p>', '<a:t>', '</a:t>', '<t>', '</t>', '<si>', '</si>', '<v>', '</v>', '<!--', '-->', '<?xml ?>', '&lt;', '&amp;', '&gt;',
            '<w:tab/>', '<text:s/>', '<text:tab/>', '<text:line-break/>', '<w:instrText>', '</w:instrText>', '<office:annotation>', '</office:annotation>', '<a:p>', '</a:p>', '<text:span>', '</text:span>'],
    'xpresstag': ['<$>', '<P>', '@x=', '<\\n>', '<B>', '<I>', '<#233>', '<a>']}


class Gen:
    def __init__(self, seed, feats=None, small=False):
        self.r = random.Random(seed)
        r = self.r
        self.small = small
        self.f = set(feats) if feats is not None else {x for x in FEATS if r.random() < 0.5}

    # ---- pieces
    def pick(self, x):
        return self.r.choice(x)

    def chance(self, p):
        return self.r.random() < p

    def word(self):
        r = self.r
        w = ''.join(r.choice('abcdefghijklmnopqrstuvwxy') for _ in range(r.randint(1, 7)))
        if 'case' in self.f and self.chance(.3):
            w = self.pick([w.upper(), w.capitalize(), w[:-1] + w[-1].upper()])
        if 'uni' in self.f and self.chance(.4):
            w += self.pick(UNI)
        if 'esc' in self.f and self.chance(.2):
            k = self.pick([len(w), len(w), 0, r.randint(0, len(w))]); w = w[:k] + self.pick(ESCS) + w[k:]
        if 'long' in self.f and self.chance(.02):
            w = w * r.randint(20, 200)
        return w

    def sbtext(self):
        r = self.r
        s = self.pick(['<b>', '</b>', 'x', '<p class="a b">', ' ', '\n', '{a}', '\\^q\\$', '<!-- -- -->', '&amp;', '\\$', '/', 'a\\^b', '<a href="x">\n'])
        if 'esc' in self.f and self.chance(.4):
            s += self.pick(['\\]', '\\[', '\\\\', '\\^', '\\$'])
        if 'uni' in self.f and self.chance(.3):
            s += self.pick(UNI)
        if 'long' in self.f and self.chance(.05):
            s = s * r.randint(50, 1500)
        return s

    def sb(self):
        return '[' + self.sbtext() + ']'

    def blank(self):
        x = self.r.random()
        if 'sb' in self.f and x < .25:
            return self.pick(['', ' ']) + self.sb() + self.pick(['', ' ', self.sb()])
        if 'nl' in self.f and x < .35:
            return self.pick(['\n', ' \n', '  ', '\t'])
        if 'esc' in self.f and x < .42:
            return self.pick([' ', ' ', '']) + self.pick(ESCS) + self.pick([' ', ' ', ''])
        if 'dense' in self.f and x < .6:
            return ''
        return ' '

    def wb(self):
        r = self.r
        if 'wb' in self.f and self.chance(.35):
            s = 't:%s:%s' % (self.pick(['b', 'i', 'span', 'a']), ''.join(r.choice('abcdef0123456789') for _ in range(r.choice([1, 6]))))
            if self.chance(.25):
                s += '; t:i:' + self.pick(['x1', 'y2'])
            if 'esc' in self.f and self.chance(.35):
                s += self.pick([':\\]', ':\\[', '\\\\', '\\\\', ':x\\\\\\]', '\\\\\\\\'])
            return '[[' + s + ']]'
        return ''

    def lus(self):
        """a run of lexical units forming a likely pattern"""
        return [self.pick(CATS[c]) for c in self.pick(PATS)]

    def multiword(self):
        """several parts, each with or without a queue before or after its tags"""
        o = ''
        for k in range(self.r.choice([1, 2, 2, 3])):
            o += self.pick(['+', '+', '+', '~']) if k else ''
            before = self.chance(.25)
            queue = self.pick(['', '', '# off', '# y z', '#'])
            tags = self.pick(['<n>', '<vb><pri>', '<det><def>', '<n>' if k else ''])
            o += self.pick(['take', 'of', 'a', 'é']) + (queue + tags if before else tags + queue)
        return o

    # ---- units by kind
    def u_lu(self):
        o = []
        for l in self.lus():
            if 'mult' in self.f and self.chance(.2):
                l = self.pick(['take# off<vb><pri>', 'of<pr>+the<det><def>', 'have<vb><pri>+he<prn>', 'a<n>+b<adj>+c<vb><pri>', 'take<vb><pri>+off<pr># now', 'x<n># y z', 'a<n>~b<n>', 'a+b<n>+c<n>'])
                if self.chance(.4):
                    l = self.multiword()
                if 'esc' in self.f and self.chance(.4):      # an escaped character in any of the lemmas
                    at = [k for k in range(len(l)) if l[k] in '+# abc' and l[:k].count('<') == l[:k].count('>')]
                    if at:
                        k = self.pick(at); l = l[:k] + self.pick(['\\+', '\\#', '\\<', '\\>', '\\$', '\\^', '\\~', '\\/', '\\\\', '\\[', '\\]', '\\{', '\\}', '\\@']) + l[k:]
            if 'unk' in self.f and self.chance(.15):
                l = '*' + self.word()
            elif 'esc' in self.f and self.chance(.1):
                l = self.word() + '<n><sg>'
            o.append(self.wb() + '^' + l + '$' + self.blank())
        return ''.join(o)

    def u_lupre(self):
        o = []
        for l in self.lus():
            if 'mult' in self.f and self.chance(.2):
                l = self.pick(['take# off<vb><pri>', 'x# y z<n><sg>', 'a<n><sg>', 'he<prn><m><pl>'])
            if 'unk' in self.f and self.chance(.15):
                l = '*' + self.word()
            elif 'esc' in self.f and self.chance(.1):
                l = self.word() + '<n><sg>'
            o.append(self.wb() + '^' + l + '$' + self.blank())
        return ''.join(o)

    def u_lusurf(self):
        s = self.u_lu()
        return s.replace('^', '^' + self.word() + '/', 1) if False else ''.join(self.wb() + '^' + self.surf() + '/' + l + '$' + self.blank() for l in self.lus())

    def surf(self):
        return self.word()

    def bilof(self, l):
        for k in sorted(BIL, key=len, reverse=True):
            if l.lower().startswith(k.lower()):
                rest = l[len(k):]
                t = [x + rest for x in BIL[k]]
                if not self.chance(.2) and 'mult' not in self.f:
                    t = t[:1]
                return '/'.join(t)
        return '@' + l

    def u_bil(self):
        o = []
        for l in self.lus():
            if 'unk' in self.f and self.chance(.15):
                w = self.word(); l = '*' + w; b = '*' + w if self.chance(.7) else '@' + w
            elif 'esc' in self.f and self.chance(.1):
                l = self.word() + '<n><sg>'; b = self.word() + '<n><pl>'
            else:
                b = self.bilof(l)
                if 'mult' in self.f and self.chance(.1):
                    b = self.pick(['despegar# xa<vb><pri>', 'x# y<n><sg>', 'a<n><GD><ND>'])
            o.append(self.wb() + '^' + l + '/' + b + '$' + self.blank())
        return ''.join(o)

    def u_chunk(self):
        o = []
        for _ in range(self.r.randint(1, 3)):
            n = self.pick(CHUNKN)
            k = n if n in CHUNKT else n.lower()
            tags = ''.join('<%s>' % x for x in CHUNKT.get(k, ['SN']))
            m = {'nsp': 1, 'detn': 2, 'adjn': self.pick([2, 2, 3]), 'ncn': 3, 'v': 1}.get(k, self.r.randint(1, 3))
            ws = []
            for i in range(m):
                l = self.pick(self.pick(list(CATS.values())))
                l = self.bilof(l).split('/')[0]
                if 'mult' in self.f and self.chance(.2):
                    l += self.pick(['<2>', '<1>', '<9>', '+x<n>', '# q'])
                if 'unk' in self.f and self.chance(.15):
                    l = '*' + self.word()
                ws.append(self.wb() + '^' + l + '$')
                if i < m - 1:
                    ws.append(self.blank())
            if n == 'default' and self.chance(.5):
                o.append('^default<default>{^*%s$}$' % self.word() + self.blank())
            else:
                o.append('^%s%s{%s}$' % (n, tags, ''.join(ws)) + self.blank())
        return ''.join(o)

    def u_amb(self):
        o = []
        for _ in range(self.r.randint(1, 4)):
            s = self.pick(list(ANA)); a = list(ANA[s])
            if 'case' in self.f and self.chance(.3):
                s = self.pick([s.upper(), s.capitalize()])
            if 'unk' in self.f and self.chance(.2):
                s = self.word(); a = ['*' + s]
            elif 'mult' in self.f and self.chance(.2):
                s, a = self.pick([('of the', ['of<pr>+the<det><def>']), ('give him', ['give<vb><inf>+him<prn>']), ('take off', ['take<vb><pri>+off<pr>']), ('sheep', ['sheep<n><sg>', 'sheep<n><pl>']), ('put', ['put<vb><inf>', 'put<vb><past>', 'put<vb><pri>']), ('takes off', ['take# off<vb><pri>']), ('xyz', ['a<zzz>', 'b<n><sg>']), ('Q', ['q<np>', 'q<n><sg>', 'q<vb><pri>', 'q<adj>'])])
            elif 'esc' in self.f and self.chance(.1):
                s = self.word(); a = [s + '<n><sg>', s + '<vb><pri>']
            elif 'odd' in self.f and self.chance(.3):      # a combination of readings no dictionary or corpus has
                s = self.pick(['w', 'xy', 'zork', 'Have']); t = list(self.ODD); self.r.shuffle(t)
                a = [s.lower() + x for x in t[:self.r.randint(1, 4)]]
                if self.chance(.2):
                    a[self.r.randrange(len(a))] = 'have<vb><pri>'
                a = list(dict.fromkeys(a))
            o.append(self.wb() + '^' + s + '/' + '/'.join(a) + '$' + self.blank())
        return ''.join(o)
    ODD = ['<n><sg>', '<n><pl>', '<n>', '<vb><pri>', '<vb><past>', '<adj>', '<adj><sint>', '<adv>', '<det><def>', '<det><ind><sg>', '<prn>', '<prn><p1><sg>',
           '<pr>', '<num>', '<np>', '<np><ant>', '<sent>', '<cm>', '<xyz>', '<vb>', '<n><acr><pl>']

    def u_caps(self):
        o = []
        for _ in range(self.r.randint(1, 5)):
            w = self.pick(['the<det><def>', 'big<adj>', 'dog<n><sg>', 'iPhone<np><top>', 'Daniel<np><ant>', 'xyZ<n>', 'something<n>', '.<sent>', 'faS<vb><pri>'])
            s = w.split('<')[0]
            if self.chance(.3):
                s = self.pick([s.upper(), s.capitalize(), self.word()])
            c = self.pick(['aa', 'Aa', 'AA', 'AA']) + '/' + self.pick(['aa', 'Aa', 'AA'])
            b = ''
            x = self.r.random()
            if x < .5:
                b = '[[c:%s]]' % c
            elif x < .7 and 'wb' in self.f:
                b = self.pick(['[[c:%s; t:b:12]]', '[[t:b:12; c:%s]]', '[[t:i:3]]']).replace('%s', c)
            if 'unk' in self.f and self.chance(.15):
                lu = self.pick(['^%s$' % s, '^*%s/*%s$' % (s, s)])
            else:
                lu = '^%s/%s$' % (w, s)
            o.append(b + lu + self.blank())
        return ''.join(o)

    def u_text(self):
        return ''.join(self.word() + self.blank() for _ in range(self.r.randint(1, 5)))

    def u_plain(self):
        o = []
        for _ in range(self.r.randint(1, 5)):
            w = self.pick(list(ANA))
            if 'unk' in self.f and self.chance(.15):
                w = self.pick(['zzyx', 'qu', 'Xuxa'])
            if 'wb' in self.f and self.chance(.2):
                w = '[[t:b:%d]]%s[[/]]' % (self.r.randint(1, 99), w)
            b = self.blank()
            if 'sb' not in self.f and 'esc' in self.f:
                b = ' '
            o.append(w + (b or ' '))
        return ''.join(o)

    def wspan(self, depth=0):
        """running text and lexical units, some under (possibly nested) word-bound blanks"""
        o = []
        for _ in range(self.r.choice([1, 1, 2, 3])):
            b = self.wb()
            if b and depth < 2:
                o.append(b + self.wspan(depth + 1) + '[[/]]')
            elif self.chance(.6):
                o.append('^' + self.word() + '/' + self.word() + '<n>$')
            else:
                o.append(self.word())
            o.append(self.blank())
        return ''.join(o)

    def u_wtext(self):
        o = []
        for _ in range(self.r.randint(1, 3)):
            if self.chance(.5):
                o.append(self.wspan())
                continue
            b = self.wb()
            t = self.word() + ''.join(self.pick([' ', self.blank()]) + self.word() for _ in range(self.r.choice([0, 0, 1, 2])))
            if b and self.chance(.9):
                o.append(b + t + '[[/]]' + self.blank())
            else:
                o.append(b + '^' + self.word() + '/' + self.word() + '<n>$' + self.blank() if self.chance(.4) else t + self.blank())
        return ''.join(o)

    def u_wgen(self):
        o = []
        for _ in range(self.r.randint(1, 4)):
            x = self.r.random()
            o.append((self.wb() + '^' + self.word() + self.pick(['<n>', '', '/' + self.word() + '<n>']) + '$' if x < .8 else self.word()) + self.blank())
        return ''.join(o)

    def u_fre(self):
        return ''.join(self.word() + self.pick([' ', self.sb(), '.[]', '[]', ' ' + self.sb()]) for _ in range(self.r.randint(1, 4)))

    def u_latex(self):
        return ''.join(self.pick(['\\textbf{%s} ', '%s ', '$x_%s$ ', '\\emph{%s}\n', '\\begin{itemize}\n\\item %s\n\\end{itemize}\n', '%% %s\n', "\\'a%s ", '\\section{%s}\n\n', '~%s--', '<%s> ', "``%s'' ", '\\"o%s\\ss{} ']).replace('%s', self.word()).replace('%%', '%')
                       for _ in range(self.r.randint(1, 4)))

    def u_ftxt(self):
        return ''.join(self.word() + self.pick([' ', ' ', '\n', '.\n', '  ', '\n\n', '. ', '\t', ' [x] ', ' ^a$ ', ' / ', ' @ ', ' \\ ', '{}', ' <b> ', '*', ' 12 ', '\xa0'] + (['-' * 9000, ' ' * 9000, '\n' * 8300] if 'long' in self.f and self.chance(.1) else []))
                       for _ in range(self.r.randint(1, 8)))

    def u_fhtml(self):
        w = self.word
        return ''.join(self.pick(['<p>%s</p>\n', '%s ', '<b>%s</b>', '<i>%s <b>%s</b></i> ', '<!-- %s -->', '<a href="%s">%s</a>', '&eacute;%s', '&amp;', '<script>var %s="<b>";</script>', '<br/>', '<img alt="%s"/>',
                                  '<style>p{%s}</style>', '&#233;%s&#xE9; ', '&nbsp;', '[%s]', '<pre>%s\n  %s</pre>', '<td>%s</td>', '<h1>%s</h1>\n\n', '<span class="x">%s</span> ', '<%s', '&bogus; ', '%s&lt;x&gt; ', '^%s$ ', '@%s/']
                                 + (['<!-- ' + 'x' * 9000 + ' -->'] if 'long' in self.f and self.chance(.1) else [])).replace('%s', w()) for _ in range(self.r.randint(1, 6)))
    u_fhtmlnoent = u_fhtml
    u_fhtmlalt = u_fhtml
    u_fodt = u_fhtml

    def u_xmlish(self):
        w = self.word
        return ''.join(self.pick(['<w:p><w:r><w:t>%s</w:t></w:r></w:p>', '<w:r><w:t xml:space="preserve">%s </w:t></w:r>', '<text:p>%s <text:span>%s</text:span></text:p>', '<t>%s</t>', '<si><t>%s</t></si>',
                                  '<a:t>%s</a:t>', '<a:p><a:r><a:t>%s</a:t></a:r></a:p>', ' ', '\n', '<?xml version="1.0"?>', '<!-- %s -->', '&lt;%s&gt;', '<w:tab/>', '<text:tab/>', '<v>12</v>', '[%s]', '^%s']).replace('%s', w()) for _ in range(self.r.randint(1, 6)))

    def u_rtf(self):
        w = self.word
        return ''.join(self.pick(['{\\b %s}', '\\par %s ', "\\'e9%s ", '{\\*\\generator %s;}', '%s ', '\\u233?%s', '\n', '{\\fonttbl{\\f0 %s;}}', '\\tab ', '[%s]', '{\\i %s}\\line ']).replace('%s', w()) for _ in range(self.r.randint(1, 6)))

    def u_mw(self):
        w = self.word
        return ''.join(self.pick(["''%s'' ", "'''%s''' ", '[[%s|%s]] ', '== %s ==\n', '{{%s|a=b}} ', '* %s\n', '<ref>%s</ref>', '[http://a.b %s] ', '%s ', '<nowiki>%s</nowiki>', '{|\n|-\n| %s\n|}\n', '<!-- %s -->', '\n\n']).replace('%s', w()) for _ in range(self.r.randint(1, 6)))

    def unit(self, kind):
        if kind.startswith('f') and kind != 'fre':
            f = kind[1:]
            m = {'txt': self.u_ftxt, 'latex': self.u_ftxt, 'rtf': self.u_rtf, 'mediawiki': self.u_mw, 'html': self.u_fhtml, 'html-noent': self.u_fhtml,
                 'html-alt': self.u_fhtml, 'odt': self.u_xmlish, 'wxml': self.u_xmlish, 'xlsx': self.u_xmlish, 'pptx': self.u_xmlish, 'xpresstag': self.u_fhtml}
            if f == 'latex':
                return self.u_fhtml() if self.chance(.5) else self.u_ftxt()
            return m[f]()
        return getattr(self, 'u_' + kind)()

    def u_soup(self, fmt):
        k = {'txt': '', 'html': 'html', 'rtf': 'rtf', 'latex': 'latex', 'mediawiki': 'mediawiki', 'xpresstag': 'xpresstag'}.get(fmt.split('-')[0], 'xml')
        t = SOUP['c'] + 2 * SOUP.get(k, [])
        o = [self.r.choice(t) for _ in range(self.r.randint(1, 10))]
        if self.chance(.06):    # a blank around the size that goes to a temporary file
            n = self.r.choice([8190, 8191, 8192, 8193, 8194, 9000, 16400])
            o.append(self.pick([' ', '\n', '-', '\t\n'] + {'html': ['<!--%s-->', '<script>%s</script>', '<a href="%s">'], 'rtf': ['{\\*\\x %s}'], 'mediawiki': ['<!--%s-->'], 'xml': ['<!--%s-->', '<x y="%s">']}.get(k, [])))
            f = self.pick(['x', 'é[', '\\@', ' a b', '日'])
            o[-1] = o[-1].replace('%s', (f * n)[:n]) if '%s' in o[-1] else (o[-1] * n)[:n]
        return ''.join(o)

    def request(self, kind, n=None):
        if n is None:
            n = self.pick([0, 1, 1, 2, 3, 5]) if 'empty' in self.f else self.pick([1, 1, 2, 3, 5, 8])
            if self.small:
                n = min(n, 2)
        u = []
        if n and self.chance(.15) and kind not in ('ftxt',):
            u.append(self.blank())
        for _ in range(n):
            u.append(self.unit(kind))
        return u


def text(units):
    return ''.join(units).replace('\0', '').encode('utf-8', 'surrogatepass')


SPECIAL = ['^', '$', '/', '[', ']', '[[', ']]', '{', '}', '<', '>', '\\', '+', '#', '[[/]]', '^$', '*', '@', '~', '{}', '^/$', '$^', '[[t:', '<n', '^a', '^a<n>{', '}$', '^^', '[\\', '|', ':', ';']


def mutate(r, s):
    """structurally damage a request (bytes)"""
    b = bytearray(s)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(5)
        p = r.randint(0, len(b))
        if k == 0:
            b[p:p] = r.choice(SPECIAL).encode()
        elif k == 1 and b:
            q = min(len(b), p + r.choice([1, 1, 2, 5, 20])); del b[p:q]
        elif k == 2 and b:
            del b[p:]
        elif k == 3 and b:
            q = r.randint(0, len(b)); lo, hi = min(p, q), max(p, q); b[hi:hi] = b[lo:hi][:200]
        else:
            c = [i for i, x in enumerate(b) if x in b'^$/[]{}<>\\+#']
            if c:
                i = r.choice(c); b[i:i + 1] = r.choice([b'', b'', b'^', b'$', b'/', b']', b'<'])
    return bytes(b).replace(b'\0', b'')
