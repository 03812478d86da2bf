import re,sys,collections
F={m.group(1):m.group(2) for m in re.finditer(r'name: "(\w+)", f: F::(\w+)\(',open('/verif/mc/src/ops.rs').read())}
M=collections.defaultdict(lambda:[(0,'')]*4)
for fn in sys.argv[1:]:
    for l in open(fn):
        if not l.startswith('D '): continue
        _,op,be,mode,*v=l.split()
        k=(F[op],'scalar' if be=='scalar' else 'simd',mode, '444' if re.search(r'444|24|42_|i4|410|p4',op) else '')
        k=k[:3]
        cur=list(M[k])
        for i,x in enumerate(map(float,v)):
            if x>cur[i][0]: cur[i]=(x,op)
        M[k]=cur
for k in sorted(M): print(*k,' '.join('%.4f'%a for a,_ in M[k]), max(M[k])[1])
