<?xml version="1.0" encoding="utf-8"?>
<tagger name="h">
  <tagset>
    <def-label name="DET" closed="true"><tags-item tags="det.*"/></def-label>
    <def-label name="HAVE" closed="true"><tags-item lemma="have" tags="vb.*"/></def-label>
    <def-label name="VERB"><tags-item tags="vb.*"/></def-label>
    <def-label name="NOUN"><tags-item tags="n"/><tags-item tags="n.*"/></def-label>
    <def-label name="NP"><tags-item tags="np"/><tags-item tags="np.*"/></def-label>
    <def-label name="ADJ"><tags-item tags="adj"/><tags-item tags="adj.*"/></def-label>
    <def-label name="ADV" closed="true"><tags-item tags="adv"/></def-label>
    <def-label name="PRN" closed="true"><tags-item tags="prn"/><tags-item tags="prn.*"/></def-label>
    <def-label name="PR" closed="true"><tags-item tags="pr"/></def-label>
    <def-label name="NUM" closed="true"><tags-item tags="num"/></def-label>
    <def-mult name="PRDET" closed="true"><sequence><label-item label="PR"/><label-item label="DET"/></sequence></def-mult>
    <def-mult name="VBPRN" closed="true"><sequence><tags-item tags="vb.*"/><tags-item tags="prn"/></sequence></def-mult>
  </tagset>
  <forbid>
    <label-sequence><label-item label="DET"/><label-item label="VERB"/></label-sequence>
    <label-sequence><label-item label="PRDET"/><label-item label="VERB"/></label-sequence>
  </forbid>
  <enforce-rules>
    <enforce-after label="NUM"><label-set><label-item label="NOUN"/><label-item label="ADJ"/><label-item label="SENT"/></label-set></enforce-after>
  </enforce-rules>
  <preferences>
    <prefer tags="n.pl"/>
    <prefer tags="vb.past.*"/>
    <prefer tags="vb.pri"/>
  </preferences>
  <discard-on-ambiguity>
    <discard tags="np"/>
    <discard tags="adj.sint"/>
    <discard tags="pr"/>
  </discard-on-ambiguity>
</tagger>
