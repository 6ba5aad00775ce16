"""Writes the second tagset, feature template and corpora (data/h.*).  Run by hand; the output is committed."""
import os, random
from gen import ANA
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
TSX = '''<?xml version="1.0" encoding="utf-8"?>
<tagger name="h">
  <tagset>
    <def-label name="DET" closed="true"><tags-item tags="det.*"/></def-label>
    <def-label name="HAVE" closed="true"><tags-item lemma="have" tags="vb.*"/></def-label>
    <def-label name="VERB"><tags-item tags="vb.*"/></def-label>
    <def-label name="NOUN"><tags-item tags="n"/><tags-item tags="n.*"/></def-label>
    <def-label name="NP"><tags-item tags="np"/><tags-item tags="np.*"/></def-label>
    <def-label name="ADJ"><tags-item tags="adj"/><tags-item tags="adj.*"/></def-label>
    <def-label name="ADV" closed="true"><tags-item tags="adv"/></def-label>
    <def-label name="PRN" closed="true"><tags-item tags="prn"/><tags-item tags="prn.*"/></def-label>
    <def-label name="PR" closed="true"><tags-item tags="pr"/></def-label>
    <def-label name="NUM" closed="true"><tags-item tags="num"/></def-label>
    <def-mult name="PRDET" closed="true"><sequence><label-item label="PR"/><label-item label="DET"/></sequence></def-mult>
    <def-mult name="VBPRN" closed="true"><sequence><tags-item tags="vb.*"/><tags-item tags="prn"/></sequence></def-mult>
  </tagset>
  <forbid>
    <label-sequence><label-item label="DET"/><label-item label="VERB"/></label-sequence>
    <label-sequence><label-item label="PRDET"/><label-item label="VERB"/></label-sequence>
  </forbid>
  <enforce-rules>
    <enforce-after label="NUM"><label-set><label-item label="NOUN"/><label-item label="ADJ"/><label-item label="SENT"/></label-set></enforce-after>
  </enforce-rules>
  <preferences>
    <prefer tags="n.pl"/>
    <prefer tags="vb.past.*"/>
    <prefer tags="vb.pri"/>
  </preferences>
  <discard-on-ambiguity>
    <discard tags="np"/>
    <discard tags="adj.sint"/>
    <discard tags="pr"/>
  </discard-on-ambiguity>
</tagger>
'''
MTX = '''<?xml version="1.0" encoding="UTF-8"?>
<metatag>
  <coarse-tags tag="h.tsx"/>
  <beam-width val="3"/>
  <defns>
    <def-str name="dash" str="-"/>
    <def-macro as="coarse" args="w"><ex-coarse><ex-wordoid><var name="w"/></ex-wordoid></ex-coarse></def-macro>
    <def-macro as="tags" args="w"><join name="dash"><ex-tags><ex-wordoid><var name="w"/></ex-wordoid></ex-tags></join></def-macro>
  </defns>
  <feats>
    <feat><out><macro name="coarse"><wrdaddr/></macro></out></feat>
    <feat><out><macro name="tags"><wrdaddr/></macro></out><out><ex-surf><tokaddr/></ex-surf></out></feat>
    <feat><pred><gt><sentlen/><int val="2"/></gt></pred><out><macro name="coarse"><wrdaddr/></macro></out><out><macro name="coarse"><adjust><add><wrdaddr/><addr-of-ints><int val="-1"/><int val="0"/></addr-of-ints></add></adjust></macro></out></feat>
    <feat><out-many><ex-ambgset><tokaddr/></ex-ambgset></out-many><out><ex-lemma><ex-wordoid><wrdaddr/></ex-wordoid></ex-lemma></out></feat>
    <feat><pred><or><streq val="n"><subscript idx="0"><ex-tags><ex-wordoid><wrdaddr/></ex-wordoid></ex-tags></subscript></streq><not><eq><wrdidx/><int val="0"/></eq></not></or></pred><out><ex-lemma><ex-wordoid><clamp><add><wrdaddr/><addr-of-ints><int val="1"/><int val="0"/></addr-of-ints></add></clamp></ex-wordoid></ex-lemma></out></feat>
    <feat><pred><and><lte><tokaddr/><int val="50"/></lte><neq><sentlen/><int val="0"/></neq></and></pred><out><slice end="2"><ex-surf><tokaddr/></ex-surf></slice></out><out><int val="3"/></out></feat>
  </feats>
</metatag>
'''


def corpus(r, n):
    extra = {'give him': ['give<vb><inf>+him<prn>'], 'Q': ['q<np>', 'q<n><sg>', 'q<vb><pri>'], 'zork': ['*zork'], 'a\\$b': ['a\\$b<n><sg>', 'a\\$b<adj>'],
             'sheep': ['sheep<n><sg>', 'sheep<n><pl>'], 'put': ['put<vb><pri>', 'put<vb><past>', 'put<n><sg>'], 'take off': ['take<vb><pri>+off<pr>'], '8': ['8<num>']}
    A = dict(ANA); A.update(extra)
    unt, tag = [], []
    for _ in range(n):
        m = r.randint(2, 9)
        for s in [r.choice(list(A)) for _ in range(m)] + ['.']:
            a = A[s]
            unt.append('^%s/%s$' % (s, '/'.join(a)))
            tag.append('^%s/%s$' % (s, r.choice(a)))
            if r.random() < .1:
                unt[-1] += ' '; tag[-1] += ' '
    return A, '\n'.join(unt) + '\n', '\n'.join(tag) + '\n'


if __name__ == '__main__':
    r = random.Random(7)
    A, u, t = corpus(r, 90)
    w = lambda n, s: open(os.path.join(D, n), 'w').write(s)
    w('h.tsx', TSX); w('h.mtx', MTX); w('hg.mtx', MTX.replace('  <feats>\n', '  <global-pred><not><gt><tokaddr/><int val="100"/></gt></not></global-pred>\n  <feats>\n')); w('h.untagged', u); w('h.tagged', t); w('h.utagged', ''.join(l + '\n' for l in t.split('\n') if '*' not in l))
    w('h.dic', ''.join('^%s/%s$\n' % (s, '/'.join(a)) for s, a in A.items() if not a[0].startswith('*')))
