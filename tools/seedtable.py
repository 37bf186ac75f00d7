#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
first_missed={'s07-circle-cy-units':'unit-bearing positions in transformed shapes were added to the generator','s08-carry-smooth':'curves with first control points near a reflection were added','s09-use-width':'uses of svg elements with sizes of 100% were added','s24-poly-odd':'odd numbers of polygon coordinates were added','s30-curcolor-order':'color=inherit next to currentColor was added','s36-image-size':'image sizes of 100% were added','s52-rect-x-neg':'zero and missing radii with unit-bearing sizes were added','s60-round-late':'the lowpic monitor and the stream low were added','s61-dashoffset':'negative dash offsets were added','s79-invalid-css':'the stream oddcss and the selector engine were added'}
rows=[]
for d in sorted(glob.glob('seeded/*'),key=lambda x:int(os.path.basename(x)[1:].split('-')[0])):
    b=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    rows.append('| %s | %s | %s | %s |'%(b,m['what_it_breaks'].replace('|','/'),m['property'],'missed at first: '+first_missed[b] if b in first_missed else ('rare: two hits in the quick check' if b=='nothing' else 'caught')))
s=open('DESIGN.md').read()
i=s.index('## Planted bugs')
s=s[:i]+'''## Planted bugs
Each has a demonstration in `seeded/<id>`.  `tools/hit.sh ID [PROP…]` applies one, runs the check of its property (or of PROP) and
undoes it.  All of them are caught by the quick check of the property named (VERIF_SEED=1); what was missed at first led to the
extension named.  `tools/seedtable.py` rewrites this table.

| bug | what it breaks | caught by | remark |
|---|---|---|---|
'''+'\n'.join(rows)+'\n'
open('DESIGN.md','w').write(s)
