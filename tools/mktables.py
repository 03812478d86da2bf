#!/usr/bin/env python3
"""Prints the property table of DESIGN.md from properties.jsonl, the harness binary's stages and the evidence files, and the planted-bug table."""
import json, os, glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
ORACLE={"C01":"guard pages, watched margins, panics, source comparison","C02":"equality over layouts","C03":"an error and untouched destinations","C04":"model; 1554 known keys","C24":"pairs of CPU paths","C25":"sibling functions","C26":"exact end values","C27":"crop of a larger picture","C28":"drift bound","C29":"sequential all-features build, bit for bit","C30":"composed permutation / colours","C31":"sizes the geometry requires","C32":"the call on its own","C33":"model and native build","C34":"model","C35":"guard pages, watched margins, layouts","C36":"the call on its own","C37":"rules of the language; native build","C38":"bytes and numbers of the native build"}
rows=[]
for p in props:
    i=p['id']; e={}
    f=f'/verif/evidence/{i}.json'
    if os.path.exists(f): e=json.load(open(f))
    c=e.get('coverage',{})
    rows.append(f"| {i} | {p['quantifier']['text']} | {ORACLE.get(i,'model (tolerance in the statement)')} | {c.get('states',0)/1e3:.0f}k states, {c.get('transitions',0)/1e6:.2f}M executions, {e.get('wall_s',0):.0f} s |")
seeds=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); seeds.append(f"| {d.split('/')[3]} | {m['property']} | {m['needs']} |")
t=open('/verif/DESIGN.md').read()
def put(t,tag,rows):
    a,b=f'<!-- {tag} -->',f'<!-- end {tag} -->'
    i,j=t.index(a)+len(a),t.index(b)
    return t[:i]+'\n'+'\n'.join(rows)+'\n'+t[j:]
t=put(t,'props',['| id | enumerated | oracle | quick tier |','|---|---|---|---|']+rows)
t=put(t,'seeds',['| planted bug | property (its check catches it) | needs |','|---|---|---|']+seeds)
open('/verif/DESIGN.md','w').write(t)
