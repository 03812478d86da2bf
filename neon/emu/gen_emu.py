#!/usr/bin/env python3
"""Writes src/lib.rs: the NEON intrinsics as plain Rust on arrays, after Arm's pseudocode."""
o = []
def w(s): o.append(s)
w('''// Generated by gen_emu.py. NEON intrinsics as plain Rust on arrays of lanes.
#![allow(non_camel_case_types, clippy::all)]
#![feature(f16)]
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

/// Which optional features the emulated processor has: 1 rdm, 2 i8mm, 4 fp16.
pub static FEATURES: AtomicU32 = AtomicU32::new(0);
pub fn has(f: &str) -> bool {
    let m = match f { "rdm" => 1, "i8mm" => 2, "fp16" => 4, "neon" => return true, _ => 0 };
    FEATURES.load(Relaxed) & m != 0
}
#[macro_export]
macro_rules! detected { ($f:tt) => { $crate::has($f) }; }

#[inline(always)]
fn map<T: Copy, R, const N: usize>(a: [T; N], f: impl Fn(T) -> R) -> [R; N] { std::array::from_fn(|i| f(a[i])) }
#[inline(always)]
fn map2<T: Copy, U: Copy, R, const N: usize>(a: [T; N], b: [U; N], f: impl Fn(T, U) -> R) -> [R; N] { std::array::from_fn(|i| f(a[i], b[i])) }
#[inline(always)]
fn map3<T: Copy, U: Copy, V: Copy, R, const N: usize>(a: [T; N], b: [U; N], c: [V; N], f: impl Fn(T, U, V) -> R) -> [R; N] { std::array::from_fn(|i| f(a[i], b[i], c[i])) }
#[inline(always)]
fn lo<T: Copy, const N: usize, const M: usize>(a: [T; N]) -> [T; M] { std::array::from_fn(|i| a[i]) }
#[inline(always)]
fn hi<T: Copy, const N: usize, const M: usize>(a: [T; N]) -> [T; M] { std::array::from_fn(|i| a[i + M]) }
#[inline(always)]
fn cat<T: Copy, const N: usize, const M: usize>(a: [T; N], b: [T; N]) -> [T; M] { std::array::from_fn(|i| if i < N { a[i] } else { b[i - N] }) }
''')
K = {'u':'uint','s':'int','f':'float'}
def rt(t): return {'u':'u','s':'i','f':'f'}[t[0]] + t[1:]
def vt(t, q): # vector type name of an element type
    b = int(t[1:]); n = (128 if q else 64)//b
    return f"{K[t[0]]}{b}x{n}_t", n
types = ['u8','s8','u16','s16','u32','s32','u64','s64','f32','f64']
for t in types:
    for q in (0,1):
        v,n = vt(t,q)
        w(f"#[derive(Copy, Clone, Debug)]\n#[repr(C, align({16 if q else 8}))]\npub struct {v}(pub [{rt(t)}; {n}]);")
        for k in (2,3,4):
            x = v[:-2]+f"x{k}_t"
            w(f"#[derive(Copy, Clone, Debug)]\n#[repr(C)]\npub struct {x}({', '.join('pub '+v for _ in range(k))});")
def fn(name, args, ret, body, gen=''):
    a = ', '.join(f"{x}: {y}" for x,y in args)
    w(f"#[inline(always)]\npub unsafe fn {name}{gen}({a}){' -> '+ret if ret else ''} {{ {body} }}")
ints = ['u8','s8','u16','s16','u32','s32','u64','s64']
def wid(t): return t[0]+str(int(t[1:])*2)
def nar(t): return t[0]+str(int(t[1:])//2)
L32='<const N: i32>'; LL='<const LANE: i32>'
for t in ints+['f32']:
    r = rt(t); b = int(t[1:])
    for q in (0,1):
        Q = 'q' if q else ''
        v,n = vt(t,q)
        vl,nl = vt(t,0); vq,nq = vt(t,1)
        # moves, loads, stores
        fn(f"vdup{Q}_n_{t}",[('a',r)],v,f"{v}([a; {n}])")
        fn(f"vmov{Q}_n_{t}",[('a',r)],v,f"{v}([a; {n}])")
        fn(f"vdup{Q}_lane_{t}",[('a',vl)],v,f"{v}([a.0[LANE as usize]; {n}])",LL)
        fn(f"vdup{Q}_laneq_{t}",[('a',vq)],v,f"{v}([a.0[LANE as usize]; {n}])",LL)
        fn(f"vget{Q}_lane_{t}",[('a',v)],r,"a.0[LANE as usize]",LL)
        fn(f"vset{Q}_lane_{t}",[('a',r),('mut b',v)],v,"b.0[LANE as usize] = a; b",LL)
        fn(f"vld1{Q}_{t}",[('p',f'*const {r}')],v,f"(p as *const {v}).read_unaligned()")
        fn(f"vst1{Q}_{t}",[('p',f'*mut {r}'),('a',v)],'',f"(p as *mut {v}).write_unaligned(a)")
        fn(f"vld1{Q}_dup_{t}",[('p',f'*const {r}')],v,f"{v}([p.read_unaligned(); {n}])")
        fn(f"vld1{Q}_lane_{t}",[('p',f'*const {r}'),('mut b',v)],v,"b.0[LANE as usize] = p.read_unaligned(); b",LL)
        fn(f"vst1{Q}_lane_{t}",[('p',f'*mut {r}'),('a',v)],'',"p.write_unaligned(a.0[LANE as usize])",LL)
        for k in (2,3,4):
            x = v[:-2]+f"x{k}_t"
            fn(f"vld{k}{Q}_{t}",[('p',f'*const {r}')],x,f"let d = (p as *const [{r}; {n*k}]).read_unaligned(); {x}({', '.join(f'{v}(std::array::from_fn(|i| d[i * {k} + {j}]))' for j in range(k))})")
            fn(f"vst{k}{Q}_{t}",[('p',f'*mut {r}'),('a',x)],'',f"let s = [{', '.join(f'a.{j}.0' for j in range(k))}]; let d: [{r}; {n*k}] = std::array::from_fn(|i| s[i % {k}][i / {k}]); (p as *mut [{r}; {n*k}]).write_unaligned(d)")
            fn(f"vld1{Q}_{t}_x{k}",[('p',f'*const {r}')],x,f"{x}({', '.join(f'vld1{Q}_{t}(p.add({j*n}))' for j in range(k))})")
            fn(f"vst1{Q}_{t}_x{k}",[('p',f'*mut {r}'),('a',x)],'',' '.join(f'vst1{Q}_{t}(p.add({j*n}), a.{j});' for j in range(k)))
        if n > 1:
            x2 = v[:-2]+"x2_t"
            fn(f"vzip1{Q}_{t}",[('a',v),('b',v)],v,f"{v}(std::array::from_fn(|i| if i % 2 == 0 {{ a.0[i / 2] }} else {{ b.0[i / 2] }}))")
            fn(f"vzip2{Q}_{t}",[('a',v),('b',v)],v,f"{v}(std::array::from_fn(|i| if i % 2 == 0 {{ a.0[{n//2} + i / 2] }} else {{ b.0[{n//2} + i / 2] }}))")
            fn(f"vuzp1{Q}_{t}",[('a',v),('b',v)],v,f"{v}(std::array::from_fn(|i| if i < {n//2} {{ a.0[2 * i] }} else {{ b.0[2 * i - {n}] }}))")
            fn(f"vuzp2{Q}_{t}",[('a',v),('b',v)],v,f"{v}(std::array::from_fn(|i| if i < {n//2} {{ a.0[2 * i + 1] }} else {{ b.0[2 * i + 1 - {n}] }}))")
            fn(f"vtrn1{Q}_{t}",[('a',v),('b',v)],v,f"{v}(std::array::from_fn(|i| if i % 2 == 0 {{ a.0[i] }} else {{ b.0[i - 1] }}))")
            fn(f"vtrn2{Q}_{t}",[('a',v),('b',v)],v,f"{v}(std::array::from_fn(|i| if i % 2 == 0 {{ a.0[i + 1] }} else {{ b.0[i] }}))")
            for z in ('zip','uzp','trn'):
                fn(f"v{z}{Q}_{t}",[('a',v),('b',v)],x2,f"{x2}(v{z}1{Q}_{t}(a, b), v{z}2{Q}_{t}(a, b))")
            fn(f"vext{Q}_{t}",[('a',v),('b',v)],v,f"{v}(std::array::from_fn(|i| if i + (N as usize) < {n} {{ a.0[i + N as usize] }} else {{ b.0[i + N as usize - {n}] }}))",L32)
        # arithmetic
        if t[0]!='f':
            for nm,op in (('add','wrapping_add'),('sub','wrapping_sub'),('mul','wrapping_mul')):
                if nm=='mul' and b==64: continue
                fn(f"v{nm}{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| x.{op}(y)))")
            if b<64:
                fn(f"vmla{Q}_{t}",[('a',v),('b',v),('c',v)],v,f"{v}(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_add(y.wrapping_mul(z))))")
                fn(f"vmls{Q}_{t}",[('a',v),('b',v),('c',v)],v,f"{v}(map3(a.0, b.0, c.0, |x, y, z| x.wrapping_sub(y.wrapping_mul(z))))")
                fn(f"vmul{Q}_n_{t}",[('a',v),('b',r)],v,f"{v}(map(a.0, |x| x.wrapping_mul(b)))")
            for nm,op in (('qadd','saturating_add'),('qsub','saturating_sub')):
                fn(f"v{nm}{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| x.{op}(y)))")
            for nm,op in (('and','&'),('orr','|'),('eor','^')):
                fn(f"v{nm}{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| x {op} y))")
            fn(f"vmvn{Q}_{t}",[('a',v)],v,f"{v}(map(a.0, |x| !x))")
            ut = 'u'+t[1:]; uv,_ = vt(ut,q); ur=rt(ut)
            fn(f"vbsl{Q}_{t}",[('m',uv),('a',v),('b',v)],v,f"{v}(map3(m.0, a.0, b.0, |m, x, y| ((m & x as {ur}) | (!m & y as {ur})) as {r}))")
            for nm,op in (('ceq','=='),('cgt','>'),('cge','>='),('clt','<'),('cle','<=')):
                fn(f"v{nm}{Q}_{t}",[('a',v),('b',v)],uv,f"{uv}(map2(a.0, b.0, |x, y| if x {op} y {{ {ur}::MAX }} else {{ 0 }}))")
            # shifts by an immediate, in 128-bit arithmetic
            fn(f"vshl{Q}_n_{t}",[('a',v)],v,f"{v}(map(a.0, |x| x << N))",L32)
            fn(f"vshr{Q}_n_{t}",[('a',v)],v,f"{v}(map(a.0, |x| ((x as i128) >> N) as {r}))",L32)
            big = 'i64' if b < 64 else 'i128'
            fn(f"vrshr{Q}_n_{t}",[('a',v)],v,f"{v}(map(a.0, |x| ((x as {big} + (1 << (N - 1))) >> N) as {r}))",L32)
            fn(f"vsra{Q}_n_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| x.wrapping_add(((y as {big}) >> N) as {r})))",L32)
            fn(f"vrsra{Q}_n_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| x.wrapping_add(((y as {big} + (1 << (N - 1))) >> N) as {r})))",L32)
        else:
            for nm,op in (('add','+'),('sub','-'),('mul','*'),('div','/')):
                fn(f"v{nm}{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| x {op} y))")
            fn(f"vfma{Q}_{t}",[('a',v),('b',v),('c',v)],v,f"{v}(map3(a.0, b.0, c.0, |x, y, z| y.mul_add(z, x)))")
        if b<64:
            fn(f"vmin{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| if y < x {{ y }} else {{ x }}))")
            fn(f"vmax{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| if y > x {{ y }} else {{ x }}))")
        if t in ('u8','s8','u16','s16','u32','s32'):
            big='i64'
            fn(f"vabd{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| x.abs_diff(y) as {r}))")
            fn(f"vhadd{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| ((x as i64 + y as i64) >> 1) as {r}))")
            fn(f"vrhadd{Q}_{t}",[('a',v),('b',v)],v,f"{v}(map2(a.0, b.0, |x, y| ((x as i64 + y as i64 + 1) >> 1) as {r}))")
            # pairwise
            wt=wid(t); wv,wn=vt(wt,q); wr=rt(wt)
            fn(f"vpaddl{Q}_{t}",[('a',v)],wv,f"{wv}(std::array::from_fn(|i| a.0[2 * i] as {wr} + a.0[2 * i + 1] as {wr}))")
            fn(f"vpadal{Q}_{t}",[('a',wv),('b',v)],wv,f"{wv}(std::array::from_fn(|i| a.0[i].wrapping_add(b.0[2 * i] as {wr} + b.0[2 * i + 1] as {wr})))")
            fn(f"vpadd{Q}_{t}",[('a',v),('b',v)],v,f"{v}(std::array::from_fn(|i| if i < {n//2} {{ a.0[2 * i].wrapping_add(a.0[2 * i + 1]) }} else {{ b.0[2 * i - {n}].wrapping_add(b.0[2 * i + 1 - {n}]) }}))")
        # reversals
        for g in (16,32,64):
            if b < g and t[0]!='f':
                m = g//b
                fn(f"vrev{g}{Q}_{t}",[('a',v)],v,f"{v}(std::array::from_fn(|i| a.0[i / {m} * {m} + {m-1} - i % {m}]))")
        # reinterpretation
        for u in ints+['f32']:
            if u!=t:
                uv,_=vt(u,q)
                fn(f"vreinterpret{Q}_{u}_{t}",[('a',v)],uv,"std::mem::transmute(a)")
    # halves
    if nl>=1:
        fn(f"vget_low_{t}",[('a',vq)],vl,f"{vl}(lo(a.0))")
        fn(f"vget_high_{t}",[('a',vq)],vl,f"{vl}(hi(a.0))")
        fn(f"vcombine_{t}",[('a',vl),('b',vl)],vq,f"{vq}(cat(a.0, b.0))")
# widening and narrowing
for t in ('u8','s8','u16','s16','u32','s32'):
    b=int(t[1:]); r=rt(t); vl,nl=vt(t,0); vq,nq=vt(t,1); wt=wid(t); wv,wn=vt(wt,1); wr=rt(wt)
    fn(f"vmovl_{t}",[('a',vl)],wv,f"{wv}(map(a.0, |x| x as {wr}))")
    fn(f"vmovl_high_{t}",[('a',vq)],wv,f"vmovl_{t}(vget_high_{t}(a))")
    fn(f"vshll_n_{t}",[('a',vl)],wv,f"{wv}(map(a.0, |x| (x as {wr}) << N))",L32)
    fn(f"vshll_high_n_{t}",[('a',vq)],wv,f"vshll_n_{t}::<N>(vget_high_{t}(a))",L32)
    for nm,op in (('addl','+'),('subl','-')):
        fn(f"v{nm}_{t}",[('a',vl),('b',vl)],wv,f"{wv}(map2(a.0, b.0, |x, y| (x as {wr}).wrapping_{nm[:3]}(y as {wr})))")
        fn(f"v{nm}_high_{t}",[('a',vq),('b',vq)],wv,f"v{nm}_{t}(vget_high_{t}(a), vget_high_{t}(b))")
    for nm in ('addw','subw'):
        fn(f"v{nm}_{t}",[('a',wv),('b',vl)],wv,f"{wv}(map2(a.0, b.0, |x, y| x.wrapping_{nm[:3]}(y as {wr})))")
        fn(f"v{nm}_high_{t}",[('a',wv),('b',vq)],wv,f"v{nm}_{t}(a, vget_high_{t}(b))")
    fn(f"vmull_{t}",[('a',vl),('b',vl)],wv,f"{wv}(map2(a.0, b.0, |x, y| x as {wr} * y as {wr}))")
    fn(f"vmull_high_{t}",[('a',vq),('b',vq)],wv,f"vmull_{t}(vget_high_{t}(a), vget_high_{t}(b))")
    for nm,op in (('mlal','wrapping_add'),('mlsl','wrapping_sub')):
        fn(f"v{nm}_{t}",[('a',wv),('b',vl),('c',vl)],wv,f"{wv}(map3(a.0, b.0, c.0, |x, y, z| x.{op}(y as {wr} * z as {wr})))")
        fn(f"v{nm}_high_{t}",[('a',wv),('b',vq),('c',vq)],wv,f"v{nm}_{t}(a, vget_high_{t}(b), vget_high_{t}(c))")
    if b>8:
        fn(f"vmull_n_{t}",[('a',vl),('b',r)],wv,f"vmull_{t}(a, vdup_n_{t}(b))")
        for lq,lt in (('',vl),('q',vq)):
            fn(f"vmull_lane{lq}_{t}",[('a',vl),('b',lt)],wv,f"vmull_{t}(a, vdup_lane{lq}_{t}::<LANE>(b))",LL)
            fn(f"vmull_high_lane{lq}_{t}",[('a',vq),('b',lt)],wv,f"vmull_{t}(vget_high_{t}(a), vdup_lane{lq}_{t}::<LANE>(b))",LL)
            for nm in ('mlal','mlsl'):
                fn(f"v{nm}_lane{lq}_{t}",[('a',wv),('b',vl),('c',lt)],wv,f"v{nm}_{t}(a, b, vdup_lane{lq}_{t}::<LANE>(c))",LL)
                fn(f"v{nm}_high_lane{lq}_{t}",[('a',wv),('b',vq),('c',lt)],wv,f"v{nm}_{t}(a, vget_high_{t}(b), vdup_lane{lq}_{t}::<LANE>(c))",LL)
            for Q,V in (('',vl),('q',vq)):
                fn(f"vmul{Q}_lane{lq}_{t}",[('a',V),('b',lt)],V,f"vmul{Q}_{t}(a, vdup{Q}_lane{lq}_{t}::<LANE>(b))",LL)
                fn(f"vmla{Q}_lane{lq}_{t}",[('a',V),('b',V),('c',lt)],V,f"vmla{Q}_{t}(a, b, vdup{Q}_lane{lq}_{t}::<LANE>(c))",LL)
    # narrowing from wt to t
    fn(f"vmovn_{wt}",[('a',wv)],vl,f"{vl}(map(a.0, |x| x as {r}))")
    fn(f"vmovn_high_{wt}",[('a',vl),('b',wv)],vq,f"vcombine_{t}(a, vmovn_{wt}(b))")
    def sat(e, tt): return f"({e}).clamp({rt(tt)}::MIN as i128, {rt(tt)}::MAX as i128) as {rt(tt)}"
    ee = 'i64' if b<32 else 'i128'
    def sat(e, tt): return f"({e}).clamp({rt(tt)}::MIN as {ee}, {rt(tt)}::MAX as {ee}) as {rt(tt)}"
    fn(f"vqmovn_{wt}",[('a',wv)],vl,f"{vl}(map(a.0, |x| {sat(f'x as {ee}',t)}))")
    fn(f"vqmovn_high_{wt}",[('a',vl),('b',wv)],vq,f"vcombine_{t}(a, vqmovn_{wt}(b))")
    fn(f"vshrn_n_{wt}",[('a',wv)],vl,f"{vl}(map(a.0, |x| (x >> N) as {r}))",L32)
    fn(f"vrshrn_n_{wt}",[('a',wv)],vl,f"{vl}(map(a.0, |x| ((x as {ee} + (1 << (N - 1))) >> N) as {r}))",L32)
    fn(f"vqshrn_n_{wt}",[('a',wv)],vl,f"{vl}(map(a.0, |x| {sat(f'(x as {ee}) >> N',t)}))",L32)
    fn(f"vqrshrn_n_{wt}",[('a',wv)],vl,f"{vl}(map(a.0, |x| {sat(f'(x as {ee} + (1 << (N - 1))) >> N',t)}))",L32)
    for nm in ('vshrn_n','vrshrn_n','vqshrn_n','vqrshrn_n'):
        fn(nm.replace('_n','_high_n')+f"_{wt}",[('a',vl),('b',wv)],vq,f"vcombine_{t}(a, {nm}_{wt}::<N>(b))",L32)
    if t[0]=='s':
        ut='u'+t[1:]; uvl,_=vt(ut,0); uvq,_=vt(ut,1)
        fn(f"vqmovun_{wt}",[('a',wv)],uvl,f"{uvl}(map(a.0, |x| {sat(f'x as {ee}',ut)}))")
        fn(f"vqmovun_high_{wt}",[('a',uvl),('b',wv)],uvq,f"vcombine_{ut}(a, vqmovun_{wt}(b))")
        fn(f"vqshrun_n_{wt}",[('a',wv)],uvl,f"{uvl}(map(a.0, |x| {sat(f'(x as {ee}) >> N',ut)}))",L32)
        fn(f"vqrshrun_n_{wt}",[('a',wv)],uvl,f"{uvl}(map(a.0, |x| {sat(f'(x as {ee} + (1 << (N - 1))) >> N',ut)}))",L32)
        for nm in ('vqshrun_n','vqrshrun_n'):
            fn(nm.replace('_n','_high_n')+f"_{wt}",[('a',uvl),('b',wv)],uvq,f"vcombine_{ut}(a, {nm}_{wt}::<N>(b))",L32)
# doubling multiplications
for t in ('s16','s32'):
    r=rt(t); b=int(t[1:]); wt=wid(t); wr=rt(wt); wv,_=vt(wt,1); vl,_=vt(t,0); vq,_=vt(t,1)
    big='i64' if b==16 else 'i128'
    fn(f"vqdmull_{t}",[('a',vl),('b',vl)],wv,f"{wv}(map2(a.0, b.0, |x, y| (2 * x as {big} * y as {big}).min({wr}::MAX as {big}) as {wr}))")
    for nm,op in (('qdmlal','saturating_add'),('qdmlsl','saturating_sub')):
        fn(f"v{nm}_{t}",[('a',wv),('b',vl),('c',vl)],wv,f"{wv}(map2(a.0, vqdmull_{t}(b, c).0, |x, y| x.{op}(y)))")
        fn(f"v{nm}_high_{t}",[('a',wv),('b',vq),('c',vq)],wv,f"v{nm}_{t}(a, vget_high_{t}(b), vget_high_{t}(c))")
    fn(f"vqdmull_high_{t}",[('a',vq),('b',vq)],wv,f"vqdmull_{t}(vget_high_{t}(a), vget_high_{t}(b))")
    for lq,lt in (('',vl),('q',vq)):
        fn(f"vqdmull_lane{lq}_{t}",[('a',vl),('b',lt)],wv,f"vqdmull_{t}(a, vdup_lane{lq}_{t}::<LANE>(b))",LL)
        fn(f"vqdmull_high_lane{lq}_{t}",[('a',vq),('b',lt)],wv,f"vqdmull_{t}(vget_high_{t}(a), vdup_lane{lq}_{t}::<LANE>(b))",LL)
        for nm in ('qdmlal','qdmlsl'):
            fn(f"v{nm}_lane{lq}_{t}",[('a',wv),('b',vl),('c',lt)],wv,f"v{nm}_{t}(a, b, vdup_lane{lq}_{t}::<LANE>(c))",LL)
            fn(f"v{nm}_high_lane{lq}_{t}",[('a',wv),('b',vq),('c',lt)],wv,f"v{nm}_{t}(a, vget_high_{t}(b), vdup_lane{lq}_{t}::<LANE>(c))",LL)
    for Q,V in (('',vl),('q',vq)):
        c=f".clamp({r}::MIN as {big}, {r}::MAX as {big}) as {r}"
        fn(f"vqdmulh{Q}_{t}",[('a',V),('b',V)],V,f"{V}(map2(a.0, b.0, |x, y| ((2 * x as {big} * y as {big}) >> {b}){c}))")
        fn(f"vqrdmulh{Q}_{t}",[('a',V),('b',V)],V,f"{V}(map2(a.0, b.0, |x, y| ((2 * x as {big} * y as {big} + (1 << {b-1})) >> {b}){c}))")
        fn(f"vqrdmlah{Q}_{t}",[('a',V),('b',V),('c',V)],V,f"{V}(map3(a.0, b.0, c.0, |x, y, z| ((((x as {big}) << {b}) + 2 * y as {big} * z as {big} + (1 << {b-1})) >> {b}){c}))")
        fn(f"vqrdmlsh{Q}_{t}",[('a',V),('b',V),('c',V)],V,f"{V}(map3(a.0, b.0, c.0, |x, y, z| ((((x as {big}) << {b}) - 2 * y as {big} * z as {big} + (1 << {b-1})) >> {b}){c}))")
        for m in ('qdmulh','qrdmulh'):
            fn(f"v{m}{Q}_n_{t}",[('a',V),('b',r)],V,f"v{m}{Q}_{t}(a, vdup{Q}_n_{t}(b))")
            for lq,lt in (('',vl),('q',vq)):
                fn(f"v{m}{Q}_lane{lq}_{t}",[('a',V),('b',lt)],V,f"v{m}{Q}_{t}(a, vdup{Q}_lane{lq}_{t}::<LANE>(b))",LL)
        for m in ('qrdmlah','qrdmlsh'):
            for lq,lt in (('',vl),('q',vq)):
                fn(f"v{m}{Q}_lane{lq}_{t}",[('a',V),('b',V),('c',lt)],V,f"v{m}{Q}_{t}(a, b, vdup{Q}_lane{lq}_{t}::<LANE>(c))",LL)
# tables
fn("vqtbl1q_u8",[('a','uint8x16_t'),('i','uint8x16_t')],'uint8x16_t',"uint8x16_t(map(i.0, |i| if i < 16 { a.0[i as usize] } else { 0 }))")
fn("vqtbl1_u8",[('a','uint8x16_t'),('i','uint8x8_t')],'uint8x8_t',"uint8x8_t(map(i.0, |i| if i < 16 { a.0[i as usize] } else { 0 }))")
fn("vtbl1_u8",[('a','uint8x8_t'),('i','uint8x8_t')],'uint8x8_t',"uint8x8_t(map(i.0, |i| if i < 8 { a.0[i as usize] } else { 0 }))")
# conversions
for Q,n in (('',2),('q',4)):
    for t in ('s32','u32'):
        iv,_=vt(t,bool(Q)); fv,_=vt('f32',bool(Q))
        fn(f"vcvt{Q}_f32_{t}",[('a',iv)],fv,f"{fv}(map(a.0, |x| x as f32))")
        fn(f"vcvt{Q}_{t}_f32",[('a',fv)],iv,f"{iv}(map(a.0, |x| x as {rt(t)}))")
        fn(f"vcvta{Q}_{t}_f32",[('a',fv)],iv,f"{iv}(map(a.0, |x| x.round() as {rt(t)}))")
        fn(f"vcvtn{Q}_{t}_f32",[('a',fv)],iv,f"{iv}(map(a.0, |x| x.round_ties_even() as {rt(t)}))")
# mixed-sign dot product
for Q,n in (('',2),('q',4)):
    iv,_=vt('s32',bool(Q)); uv,_=vt('u8',bool(Q)); sv,_=vt('s8',bool(Q))
    fn(f"vusdot{Q}_s32",[('a',iv),('b',uv),('c',sv)],iv,f"{iv}(std::array::from_fn(|i| (0..4).fold(a.0[i], |s, k| s.wrapping_add(b.0[4 * i + k] as i32 * c.0[4 * i + k] as i32))))")
    fn(f"vdot{Q}_u32",[('a',vt('u32',bool(Q))[0]),('b',uv),('c',uv)],vt('u32',bool(Q))[0],f"{vt('u32',bool(Q))[0]}(std::array::from_fn(|i| (0..4).fold(a.0[i], |s, k| s.wrapping_add(b.0[4 * i + k] as u32 * c.0[4 * i + k] as u32))))")
w('''
// Half precision, written as inline assembly in the library.
#[inline(always)]
fn h(x: u16) -> f64 { f16::from_bits(x) as f64 }
#[inline(always)]
fn r(x: f64) -> u16 { (x as f16).to_bits() }
/// RecipEstimate of the Arm pseudocode, for half precision.
fn frecpe(x: u16) -> u16 {
    let (s, e, f) = (x & 0x8000, (x >> 10) & 31, x & 0x3FF);
    if e == 31 { return if f != 0 { x | 0x200 } else { s }; }
    if e == 0 && f == 0 { return s | 0x7C00; }
    let (mut e, mut f) = (e as i32, f);
    if e == 0 {
        if f & 0x200 == 0 { e = -1; f = (f << 2) & 0x3FF; if x & 0x3FF < 0x100 { return s | 0x7C00; } } else { f = (f << 1) & 0x3FF; }
    }
    let a = 0x100 | (f >> 2) as u32;
    let b = (1u32 << 19) / (a * 2 + 1);
    let est = ((b + 1) / 2) as u16 & 0xFF;
    let e = 29 - e;
    let (e, f) = match e { 0 => (0, 0x200 | est << 1), -1 => (0, 0x100 | est), _ => (e as u16, est << 2) };
    s | e << 10 | f
}
pub trait Reg: Copy {
    type L;
    fn lane(self, i: usize) -> u16;
    fn each(self, f: impl Fn(usize, u16) -> u16) -> Self;
}
impl Reg for uint16x4_t {
    type L = u16;
    #[inline(always)]
    fn lane(self, i: usize) -> u16 { self.0[i] }
    #[inline(always)]
    fn each(self, f: impl Fn(usize, u16) -> u16) -> Self { uint16x4_t(std::array::from_fn(|i| f(i, self.0[i]))) }
}
impl Reg for uint16x8_t {
    type L = u16;
    #[inline(always)]
    fn lane(self, i: usize) -> u16 { self.0[i] }
    #[inline(always)]
    fn each(self, f: impl Fn(usize, u16) -> u16) -> Self { uint16x8_t(std::array::from_fn(|i| f(i, self.0[i]))) }
}
/// One source register: destination and source have the same shape.
pub trait Un<D> { fn un(self, t: &str) -> D; }
impl<T: Reg> Un<T> for T {
    #[inline(always)]
    fn un(self, t: &str) -> T {
        match t.split_once(' ').unwrap().0 {
            "ucvtf" => self.each(|_, x| r(x as f64)),
            "fcvtau" => self.each(|_, x| h(x).round() as u16),
            "frecpe" => self.each(|_, x| frecpe(x)),
            "fcmeq" => self.each(|_, x| if h(x) == 0.0 { 0xFFFF } else { 0 }),
            _ => panic!("no emulation of {t}"),
        }
    }
}
impl Un<float32x4_t> for uint16x4_t {
    #[inline(always)]
    fn un(self, t: &str) -> float32x4_t { assert!(t.starts_with("fcvtl ")); float32x4_t(map(self.0, |x| f16::from_bits(x) as f32)) }
}
impl Un<uint16x4_t> for float32x4_t {
    #[inline(always)]
    fn un(self, t: &str) -> uint16x4_t { assert!(t.starts_with("fcvtn ")); uint16x4_t(map(self.0, |x| (x as f16).to_bits())) }
}
#[inline(always)]
fn sel(t: &str, i: usize) -> usize {
    match t.rsplit_once('[') { Some((_, k)) => k[..k.len() - 1].parse().unwrap(), None => i }
}
#[inline(always)]
pub fn bin<T: Reg, U: Reg>(t: &str, a: T, b: U) -> T {
    match t.split_once(' ').unwrap().0 {
        "fmul" => a.each(|i, x| r(h(x) * h(b.lane(sel(t, i))))),
        "fdiv" => a.each(|i, x| r(h(x) / h(b.lane(sel(t, i))))),
        "fadd" => a.each(|i, x| r(h(x) + h(b.lane(sel(t, i))))),
        _ => panic!("no emulation of {t}"),
    }
}
#[inline(always)]
pub fn tri<T: Reg, U: Reg>(t: &str, d: T, a: T, b: U) -> T {
    match t.split_once(' ').unwrap().0 {
        "fmla" => d.each(|i, x| r(h(x) + h(a.lane(i)) * h(b.lane(sel(t, i))))),
        "bsl" => d.each(|i, m| (m & a.lane(i)) | (!m & b.lane(i))),
        _ => panic!("no emulation of {t}"),
    }
}
#[macro_export]
macro_rules! asm {
    ($t:literal, out(vreg) $d:ident, in(vreg) $a:expr, options($($o:tt)*) $(,)?) => { $d = $crate::Un::un($a, $t) };
    ($t:literal, out(vreg) $d:ident, in(vreg) $a:expr, in(vreg) $b:expr, options($($o:tt)*) $(,)?) => { $d = $crate::bin($t, $a, $b) };
    ($t:literal, inout(vreg) $d:ident, in(vreg) $a:expr, in(vreg) $b:expr, options($($o:tt)*) $(,)?) => { $d = $crate::tri($t, $d, $a, $b) };
}
''')
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'src/lib.rs'),'w').write('\n'.join(o)+'\n')
