#!/usr/bin/env python3
"""Summarise replays/<ID>: counts per (kind, op family)."""
import sys,glob,re,collections
g=collections.defaultdict(list)
for f in glob.glob(f"/verif/replays/{sys.argv[1]}/*.replay"):
    t=dict(l.split('=',1) for l in open(f).read().splitlines() if '=' in l)
    k=dict(x.split('=',1) for x in t['key'].split(' '))
    m=re.search(r'mode=(\d)',t['case']); 
    g[(k['kind'],k['op'])].append((k.get('backend',''),t['detail'],t['case']))
for k in sorted(g):
    v=g[k]
    print(k[0],k[1],','.join(sorted(x[0] for x in v)),'|',v[0][1][:170],'|',re.sub(r'stage=|place=\S+ |pre=\S+ |src=\S+ |dst=\S+ ','',v[0][2][:200]))
