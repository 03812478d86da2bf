#!/usr/bin/env python3
"""Write known_findings.txt from the replays of a C04 thorough run and the fix commits in /repo (run by hand only)."""
import glob,subprocess,collections
WHY={'lastrows:short-source':'rows are walked with chunks_exact(stride), so a last source row without padding is skipped',
'lastrows:short-destination':'rows are walked with chunks_exact(stride), so a last destination row without padding is skipped',
'panic:short-source':'a one-row source without padding is no full chunk of stride samples and unwrap() panics',
'panic:short-destination':'a one-row destination without padding is no full chunk of stride samples and unwrap() panics',
'lastrows:long-source':'4:2:0 pairs rows by stride*2 over the whole source buffer, so the last row of an odd height is paired with what follows the image',
'padding:long-destination':'4:2:0 pairs rows by stride*2 over the whole buffer, so rows below an odd height are written',
'panic:long-source':'the last row of an odd height is taken from the remainder of the buffer instead of by its index',
'panic:long-destination':'the last row of an odd height is taken from the remainder of the buffer instead of by its index'}
out=set()
for f in glob.glob('/verif/replays/C04/*.replay'):
    k=[l[4:] for l in open(f).read().splitlines() if l.startswith('key=')][0]
    kind=k.split('kind=')[1]
    out.add(f"known: property=C04 {k} :: {WHY[kind]}")
fixes=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h%x09%s','da7a815..HEAD'],capture_output=True,text=True).stdout.splitlines()
import re
P=[l.rstrip('\n').split('\t') for l in open('/verif/tools/fixes.tsv')]
prop={p[0]:p[1] for p in P}
fx=[]
for l in fixes:
    h,s=l.split('\t')
    if s.startswith('fix:'):
        assert h in prop, h+' '+s
        fx.append(f"fixed: property={prop[h]} {h} {s[5:]}")
open('/verif/known_findings.txt','w').write("# Genuine defects of the pinned tree. 'fixed' entries suppress nothing; see DESIGN.md.\n"+'\n'.join(fx)+'\n'+'\n'.join(sorted(out))+'\n')
print(len(fx),len(out))
