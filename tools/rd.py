import json
d=json.load(open('/tmp/tgt_doc/doc/yuv.json'))
idx=d['index']
def ty(t):
    if t is None: return '()'
    k=list(t.keys())[0]; v=t[k]
    if k=='primitive': return v
    if k=='resolved_path':
        a=v.get('args'); s=v.get('path') or v.get('name')
        s=s.split('::')[-1]
        if a and 'angle_bracketed' in a:
            xs=[ty(x['type']) for x in a['angle_bracketed']['args'] if 'type' in x]
            if xs: s+='<'+','.join(xs)+'>'
        return s
    if k=='borrowed_ref': return '&'+('mut ' if v.get('is_mutable') or v.get('mutable') else '')+ty(v['type'])
    if k=='slice': return '['+ty(v)+']'
    if k=='tuple': return '('+','.join(map(ty,v))+')'
    if k=='generic': return v
    return k
out={}
for i,it in idx.items():
    if it['crate_id']!=0 or it['visibility']!='public': continue
    inner=it['inner']
    if 'function' in inner:
        f=inner['function']; sig=f.get('sig') or f.get('decl')
        args=[(n,ty(t)) for n,t in sig['inputs']]
        file=it['span']['filename'] if it['span'] else '?'
        out.setdefault((file,','.join(t for n,t in args)),[]).append(it['name'])
n=0
for k in sorted(out): print(k[0].replace('src/',''),'|',k[1],'|',' '.join(sorted(out[k]))); n+=len(out[k])
print(n)
