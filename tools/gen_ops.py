import sys
sys.argv=['x']
src=open('/tmp/rd.py').read().replace("for k in sorted(out): print","for k in []: print").replace("print(n)","")
exec(src)
M={
'&YuvPlanarImage<u8>,&mut [u8],u32,YuvRange,YuvStandardMatrix':'PlDec8',
'&YuvPlanarImageWithAlpha<u8>,&mut [u8],u32,YuvRange,YuvStandardMatrix,bool':'PlADec8',
'&YuvPlanarImageWithAlpha<u8>,&mut [u8],u32,YuvRange':'PlARDec8',
'&YuvPlanarImage<u8>,&mut [u8],u32,YuvRange':'PlRDec8',
'&YuvPlanarImageWithAlpha<u16>,&mut [u16],u32,YuvRange':'PlARDec16',
'&YuvPlanarImage<u16>,&mut [u16],u32,YuvRange':'PlRDec16',
'&mut YuvPlanarImageMut<u8>,&[u8],u32,YuvRange':'PlREnc8',
'&mut [u8],u32,Rgb30ByteOrder,&[u8],u32,u32,u32':'Rgb8ToAr',
'&mut [u8],u32,Rgb30ByteOrder,&[u16],u32,u32,u32':'Rgb16ToAr',
'&mut YuvPlanarImageMut<u8>,&[u8],u32,YuvRange,YuvStandardMatrix,YuvConversionMode':'PlEnc8',
'&mut YuvPlanarImageMut<u8>,&[u8],u32,YuvRange,YuvStandardMatrix,SharpYuvGammaTransfer':'SharpEnc8',
'&mut YuvPlanarImageMut<u8>,&YuvPackedImage<u8>':'YuyUnp8',
'&mut YuvPlanarImageMut<u16>,&YuvPackedImage<u16>':'YuyUnp16',
'&mut YuvPackedImageMut<u8>,&YuvPlanarImage<u8>':'YuyPack8',
'&mut YuvPackedImageMut<u16>,&YuvPlanarImage<u16>':'YuyPack16',
'&mut YuvPlanarImageMut<u16>,&[u16],u32,YuvRange,YuvStandardMatrix':'PlEnc16',
'&mut YuvPlanarImageMut<u16>,&[u16],u32,YuvRange':'PlREnc16',
'&mut YuvPlanarImageMut<i16>,&[u8],u32':'RdpEnc',
'&YuvPlanarImage<i16>,&mut [u8],u32':'RdpDec',
'&mut YuvGrayImageMut<u8>,&[u8],u32,YuvRange,YuvStandardMatrix':'GrayEnc8',
'&mut YuvBiPlanarImageMut<u8>,&[u8],u32,YuvRange,YuvStandardMatrix,YuvConversionMode':'BiEnc8',
'&mut YuvBiPlanarImageMut<u16>,&[u16],u32,YuvRange,YuvStandardMatrix':'BiEnc16',
'&[u8],usize,&mut [u8],usize,usize,usize,RotationMode':'Rot8',
'&[u8],usize,&mut [u8],usize,usize,usize,MirrorMode':'Mir8',
'&[u16],usize,&mut [u16],usize,usize,usize,RotationMode':'Rot16',
'&[u16],usize,&mut [u16],usize,usize,usize,MirrorMode':'Mir16',
'&[u8],usize,&mut [f16],usize,usize,usize':'F16From8',
'&[u16],usize,&mut [f16],usize,usize,usize,usize':'F16From16',
'&[f16],usize,&mut [u8],usize,usize,usize':'F16To8',
'&[f16],usize,&mut [u16],usize,usize,usize,usize':'F16To16',
'&[u8],u32,Rgb30ByteOrder,&mut [u8],u32,u32,u32':'ArToRgb8',
'&[u8],u32,&mut [u8],u32,u32,u32':'Shuf',
'&YuvPlanarImageWithAlpha<u16>,&mut [u8],u32,YuvRange,YuvStandardMatrix':'PlADec16To8',
'&YuvPlanarImageWithAlpha<u16>,&mut [u16],u32,YuvRange,YuvStandardMatrix':'PlADec16',
'&YuvPlanarImageWithAlpha<u16>,&mut [f16],u32,YuvRange,YuvStandardMatrix':'PlADecF16',
'&YuvPlanarImageWithAlpha<u16>,&mut [f16],u32,YuvRange':'PlARDecF16',
'&YuvPlanarImage<u16>,&mut [u8],u32,YuvRange,YuvStandardMatrix':'PlDec16To8',
'&YuvPlanarImage<u16>,&mut [u8],u32,Rgb30ByteOrder,YuvRange,YuvStandardMatrix':'PlDecAr',
'&YuvPlanarImage<u16>,&mut [u16],u32,YuvRange,YuvStandardMatrix':'PlDec16',
'&YuvPlanarImage<u16>,&mut [f16],u32,YuvRange,YuvStandardMatrix':'PlDecF16',
'&YuvPlanarImage<u16>,&mut [f16],u32,YuvRange':'PlRDecF16',
'&YuvPackedImage<u8>,&mut [u8],u32,YuvRange,YuvStandardMatrix,bool':'AyuvDec',
'&YuvPackedImage<u8>,&mut [u8],u32,YuvRange,YuvStandardMatrix':'YuyDec8',
'&YuvPackedImage<u16>,&mut [u16],u32,u32,YuvRange,YuvStandardMatrix':'YuyDec16',
'&YuvGrayImage<u8>,&mut [u8],u32,YuvRange,YuvStandardMatrix':'GrayDec8',
'&YuvGrayImage<u16>,&mut [u16],u32,YuvRange,YuvStandardMatrix':'GrayDec16',
'&YuvGrayAlphaImage<u8>,&mut [u8],u32,YuvRange,YuvStandardMatrix':'GrayADec8',
'&YuvGrayAlphaImage<u16>,&mut [u16],u32,YuvRange,YuvStandardMatrix':'GrayADec16',
'&YuvBiPlanarImage<u8>,&mut [u8],u32,YuvRange,YuvStandardMatrix,YuvConversionMode':'BiDec8',
'&YuvBiPlanarImage<u16>,&mut [u8],u32,YuvRange,YuvStandardMatrix,YuvConversionMode':'BiDec16To8',
'&YuvBiPlanarImage<u16>,&mut [u8],u32,Rgb30ByteOrder,YuvRange,YuvStandardMatrix':'BiDecAr',
'&YuvBiPlanarImage<u16>,&mut [u16],u32,YuvRange,YuvStandardMatrix':'BiDec16',
}
rows=[]
for (file,sig),names in sorted(out.items()):
    if sig in M:
        for nm in sorted(set(names)): rows.append((M[sig],nm))
rows=sorted(set(rows))
R={'&YuvPlanarImage':'&yuv::YuvPlanarImage'}
def rty(s):
    import re
    s=re.sub(r'\b(Yuv\w+|Rgb30ByteOrder|SharpYuvGammaTransfer|RotationMode|MirrorMode)\b',r'yuv::\1',s)
    return s
o=["// Table of the public conversion functions of the crate, one row per function.\n// The signature class (variant of F) decides how the harness lays out and passes buffers;\n// the meaning of the function is derived from its name in fmt.rs.\n#![allow(clippy::all)]\nuse yuv::YuvError;\n\n#[derive(Clone, Copy)]\npub enum F {"]
for s,v in sorted(M.items(), key=lambda x:x[1]):
    o.append(f"    {v}(fn({rty(s)}) -> Result<(), YuvError>),")
o.append("}\n\n#[derive(Clone, Copy)]\npub struct OpRow {\n    pub name: &'static str,\n    pub f: F,\n}\n")
o.append(f"pub const OPS: [OpRow; {len(rows)}] = [")
for v,nm in rows: o.append(f'    OpRow {{ name: "{nm}", f: F::{v}(yuv::{nm}) }},')
o.append("];")
open('/verif/mc/src/ops.rs','w').write('\n'.join(o)+'\n')
print(len(rows))
