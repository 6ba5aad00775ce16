<?xml version="1.0" encoding="utf-8"?>
<tagger name="gen">
  <tagset>
    <def-label name="DET" closed="true"><tags-item tags="det.*"/></def-label>
    <def-label name="VERB"><tags-item tags="vb.*"/></def-label>
    <def-label name="NOUN"><tags-item tags="n"/><tags-item tags="n.*"/></def-label>
    <def-label name="ADJ"><tags-item tags="adj"/><tags-item tags="adj.*"/></def-label>
    <def-label name="ADV" closed="true"><tags-item tags="adv"/></def-label>
    <def-label name="PRN" closed="true"><tags-item tags="prn"/><tags-item tags="prn.*"/></def-label>
    <def-label name="PR" closed="true"><tags-item tags="pr"/></def-label>
    <def-label name="NUM" closed="true"><tags-item tags="num"/></def-label>
    <def-mult name="PRDET" closed="true"><sequence><tags-item tags="pr"/><tags-item tags="det.*"/></sequence></def-mult>
  </tagset>
  <forbid><label-sequence><label-item label="DET"/><label-item label="VERB"/></label-sequence></forbid>
</tagger>
