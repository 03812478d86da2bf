"""The planted bugs: edits are (file, old, new, occurrence or None when unique)."""
PRELUDE = '''#![allow(unused, dead_code)]
use yuv::*;
fn noise(n: usize, seed: u32) -> Vec<u8> {
    let mut s = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n).map(|_| { s ^= s << 13; s ^= s >> 17; s ^= s << 5; (s >> 11) as u8 }).collect()
}
fn noise16(n: usize, seed: u32, max: u16) -> Vec<u16> {
    let a = noise(n * 2, seed);
    (0..n).map(|i| (a[2 * i] as u16 | (a[2 * i + 1] as u16) << 8) & max).collect()
}
'''
SEEDS = []
def add(**k):
    SEEDS.append(k)
SIMD = ['avx', 'sse', 'rdm']

add(id='c05-odd-tail-chroma', prop='C05', features=SIMD,
    edits=[('src/avx2/yuv_to_rgba420.rs', 'let half_div = diff.div_ceil(2);', 'let half_div = diff / 2;', None)],
    needs='AVX2 path of 4:2:0 decoding, two-row body, odd image width: the last column takes a zero chroma sample',
    breaks='The last column of odd-width images is converted with chroma 0/0 instead of its own chroma sample.',
    main='''
fn main() {
    for w in [35usize, 65, 97] {
        let (h, cw) = (4usize, w.div_ceil(2));
        let (y, u, v) = (vec![120u8; w * h], vec![100u8; cw * 2], vec![170u8; cw * 2]);
        let img = YuvPlanarImage { y_plane: &y, y_stride: w as u32, u_plane: &u, u_stride: cw as u32, v_plane: &v, v_stride: cw as u32, width: w as u32, height: h as u32 };
        let mut rgb = vec![0u8; w * h * 3];
        yuv420_to_rgb(&img, &mut rgb, w as u32 * 3, YuvRange::Limited, YuvStandardMatrix::Bt601).unwrap();
        for p in rgb.chunks(3) {
            assert!(p.iter().zip(&rgb[..3]).all(|(a, b)| a.abs_diff(*b) <= 1), "w={w}: a flat picture is not flat: {p:?} {:?}", &rgb[..3]);
        }
    }
}
''')
add(id='c07-last-column-average', prop='C07', features=[],
    edits=[('src/rgba_to_yuv.rs', 'let g0 = (g0 + g1) >> 1;', 'let g0 = (g0 + g0) >> 1;', None)],
    needs='portable path, 4:2:0, odd width, rows that differ in the last column',
    breaks='The chroma of the last column of a row pair is computed from the upper pixel only in the green channel.',
    main='''
fn enc(rgb: &[u8], w: usize, h: usize) -> (Vec<u8>, Vec<u8>) {
    let mut im = YuvPlanarImageMut::<u8>::alloc(w as u32, h as u32, YuvChromaSubsampling::Yuv420);
    rgb_to_yuv420(&mut im, rgb, w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt709, YuvConversionMode::Balanced).unwrap();
    (im.u_plane.borrow().to_vec(), im.v_plane.borrow().to_vec())
}
fn main() {
    // swapping the two rows of a pair cannot change the average chroma
    for w in [1usize, 5, 21, 33] {
        let a = noise(w * 6, w as u32);
        let mut b = a[w * 3..].to_vec();
        b.extend_from_slice(&a[..w * 3]);
        let (p, q) = (enc(&a, w, 2), enc(&b, w, 2));
        for (x, y) in p.0.iter().zip(&q.0).chain(p.1.iter().zip(&q.1)) {
            assert!(x.abs_diff(*y) <= 1, "w={w}: {x} {y}");
        }
    }
}
''')
add(id='c03-odd-height-chroma', prop='C03', features=SIMD,
    edits=[('src/yuv_error.rs', 'YuvChromaSubsampling::Yuv420 => image_height.div_ceil(2),', 'YuvChromaSubsampling::Yuv420 => (image_height / 2).max(1),', 0)],
    needs='4:2:0 planar image of odd height whose chroma plane lacks the last row',
    breaks='A chroma plane one row too short is accepted and the last row converted from the wrong samples.',
    main='''
fn main() {
    let (w, h) = (16usize, 5usize);
    let (y, u, v) = (noise(w * h, 1), noise(8 * 2, 2), noise(8 * 3, 3));
    let img = YuvPlanarImage { y_plane: &y, y_stride: 16, u_plane: &u, u_stride: 8, v_plane: &v, v_stride: 8, width: w as u32, height: h as u32 };
    let mut rgb = vec![9u8; w * h * 3];
    let r = std::panic::catch_unwind(move || yuv420_to_rgb(&img, &mut rgb, 48, YuvRange::Full, YuvStandardMatrix::Bt709).is_err());
    assert_eq!(r.ok(), Some(true), "a chroma plane of 2 rows for 5 rows of luma was accepted");
}
''')
add(id='c20-mirror-cbcr16', prop='C20', features=SIMD + ['geometry'],
    edits=[('src/mirroring.rs', 'flip_plane16_with_alpha(src, src_stride, dst, dst_stride, width, height)', 'flip_plane16(src, src_stride, dst, dst_stride, width * 2, height)', None),
           ],
    needs='mirror_cbcr16 across the row with distinguishable channels',
    breaks='The two channels of every pair are exchanged while mirroring.',
    main='''
fn main() {
    let (w, h) = (7usize, 3usize);
    let src = noise16(w * 2 * h, 5, 65535);
    let mut n = 0;
    for mode in [MirrorMode::Vertical, MirrorMode::Horizontal] {
        let mut dst = vec![0u16; w * 2 * h];
        mirror_cbcr16(&src, w * 2, &mut dst, w * 2, w, h, mode).unwrap();
        let at = |b: &[u16], x: usize, y: usize| (b[y * w * 2 + 2 * x], b[y * w * 2 + 2 * x + 1]);
        let flop = (0..h).all(|y| (0..w).all(|x| at(&dst, x, y) == at(&src, w - 1 - x, y)));
        let flip = (0..h).all(|y| (0..w).all(|x| at(&dst, x, y) == at(&src, x, h - 1 - y)));
        assert!(flop || flip, "{mode:?} is no mirroring of pairs");
        n += flop as u32;
    }
    assert_eq!(n, 1);
}
''')
add(id='c17-yuy2-last-v', prop='C17', features=SIMD,
    edits=[('src/yuv_to_yuy2.rs', 'let last_v = v_src.last().unwrap();', 'let last_v = u_src.last().unwrap();', 2)],
    needs='4:2:0 to packed 4:2:2 with odd width, row pairs',
    breaks='In the last macro pixel of the rows of a pair V holds the value of U.',
    main='''
fn main() {
    let (w, h, cw) = (11usize, 6usize, 6usize);
    let (y, u, v) = (noise(w * h, 1), noise(cw * 3, 2), noise(cw * 3, 3));
    let img = YuvPlanarImage { y_plane: &y, y_stride: w as u32, u_plane: &u, u_stride: cw as u32, v_plane: &v, v_stride: cw as u32, width: w as u32, height: h as u32 };
    let mut out = vec![0u8; cw * 4 * h];
    let mut p = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(&mut out), yuy_stride: cw as u32 * 4, width: w as u32, height: h as u32 };
    yuv420_to_yuyv422(&mut p, &img).unwrap();
    let b = p.yuy.borrow();
    for r in 0..h {
        for k in 0..cw {
            let m = &b[r * cw * 4 + k * 4..][..4];
            assert_eq!((m[0], m[1], m[3]), (y[r * w + 2 * k], u[r / 2 * cw + k], v[r / 2 * cw + k]), "row {r} pair {k}");
        }
    }
}
''')
add(id='c18-12bit-alpha', prop='C18', features=SIMD,
    edits=[('src/rgb_ar30.rs', 'let alpha_shift = BIT_DEPTH - 2;', 'let alpha_shift = target_shift + 6;', None)],
    needs='12-bit RGBA (with alpha) to packed 10-bit RGB; right for no depth with other fields untouched',
    breaks='The two alpha bits hold the wrong bits of alpha and spill into the colour next to them.',
    main='''
fn main() {
    for a in [0u16, 1024, 2048, 4095] {
        let px = [100u16 << 2, 200 << 2, 300 << 2, a];
        let mut out = [0u8; 4];
        rgba12_to_ra30(&mut out, 4, Rgb30ByteOrder::Host, &px, 4, 1, 1).unwrap();
        let v = u32::from_ne_bytes(out);
        assert_eq!(v, 100 << 22 | 200 << 12 | 300 << 2 | (a >> 10) as u32, "alpha {a}: {v:032b}");
    }
}
''')
add(id='c13-premultiply-green', prop='C13', features=[],
    edits=[('src/yuv_to_rgba_alpha.rs', 'g0 = div_by_255(g0 as u16 * a0 as u16) as i32;', 'g0 = div_by_255(g0 as u16 * a0 as u16 + 96) as i32;', 1)],
    needs='portable path, 4:2:0 or 4:2:2 with alpha, odd width, premultiplication, particular values of green times alpha',
    breaks='Premultiplied green of the last column is rounded up once too often: off by one for about half of the values.',
    main='''
fn main() {
    let mut bad = 0;
    for a in 0..=255u8 {
        let (w, cw) = (3usize, 2usize);
        let (y, u, v, al) = (vec![200u8; w], vec![128u8; cw], vec![128u8; cw], vec![a; w]);
        let img = YuvPlanarImageWithAlpha { y_plane: &y, y_stride: 3, u_plane: &u, u_stride: 2, v_plane: &v, v_stride: 2, a_plane: &al, a_stride: 3, width: 3, height: 1 };
        let mut o = vec![0u8; 12];
        yuv422_alpha_to_rgba(&img, &mut o, 12, YuvRange::Full, YuvStandardMatrix::Bt709, true).unwrap();
        bad += (o[8] != o[9] || o[9] != o[10] || o[9] != o[1]) as u32;
    }
    assert_eq!(bad, 0, "grey is not grey, or the columns differ, for {bad} values of alpha");
}
''')
add(id='c12-nv-last-column', prop='C12', features=SIMD,
    edits=[('src/rgb_to_nv_p16.rs', 'let r = (r0 + r1 + 1) >> 1;', 'let r = (r0 + r0 + 1) >> 1;', 0)],
    needs='10/12-bit RGB to P010/P012 (4:2:0), odd width, last column differing between the rows of a pair',
    breaks='Chroma of the last column takes its red only from the upper row.',
    main='''
fn enc(rgb: &[u16], w: usize) -> Vec<u16> {
    let mut im = YuvBiPlanarImageMut::<u16>::alloc(w as u32, 2, YuvChromaSubsampling::Yuv420);
    rgb10_to_p010(&mut im, rgb, w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt709).unwrap();
    im.uv_plane.borrow().iter().map(|x| x >> 6).collect()
}
fn main() {
    for w in [1usize, 7, 19, 35] {
        let a = noise16(w * 6, w as u32, 1023);
        let mut b = a[w * 3..].to_vec();
        b.extend_from_slice(&a[..w * 3]);
        for (x, y) in enc(&a, w).iter().zip(enc(&b, w).iter()) {
            assert!(x.abs_diff(*y) <= 2, "w={w}: {x} {y}");
        }
    }
}
''')
add(id='c21-rdp-tail-bias', prop='C21', features=SIMD + ['rdp'],
    edits=[('src/avx2/rdp_to_yuv.rs', 'y_vl1 = _mm256_sub_epi16(y_vl1, j_y_bias);', 'y_vl1 = _mm256_subs_epu16(y_vl1, j_y_bias);', 1)],
    needs='AVX2 path of the RemoteFX encoder, remainder of more than 16 pixels, dark pixels in it (luma below 128)',
    breaks='Dark luma in the upper half of the remainder is clamped at 0 instead of becoming negative.',
    main='''
fn main() {
    for w in [1usize, 16, 20, 31, 52, 63] {
        let mut im = YuvPlanarImageMut::<i16>::alloc(w as u32, 1, YuvChromaSubsampling::Yuv444);
        rdp_rgb_to_yuv444(&mut im, &vec![30u8; w * 3], w as u32 * 3).unwrap();
        let y = im.y_plane.borrow();
        assert!(y.iter().all(|v| v.abs_diff(y[0]) <= 1), "w={w}: {y:?}");
    }
}
''')
add(id='c14-gray-alpha-row', prop='C14', features=SIMD,
    edits=[('src/y_p16_with_alpha_to_rgb16.rs', '.min(max_colors)\n                            .max(0);', '.min(max_colors - 1)\n                            .max(0);', None)],
    needs='10 to 16 bit gray with alpha, limited range, luma at or above white',
    breaks='White gray becomes one less than the maximum.',
    main='''
fn main() {
    let y = [64u16, 500, 940, 1023];
    let a = [0u16, 1, 2, 1023];
    let g = YuvGrayAlphaImage { y_plane: &y, y_stride: 4, a_plane: &a, a_stride: 4, width: 4, height: 1 };
    let mut o = [0u16; 16];
    y010_alpha_to_rgba10(&g, &mut o, 16, YuvRange::Limited, YuvStandardMatrix::Bt601).unwrap();
    assert_eq!((o[0], o[8], o[12]), (0, 1023, 1023));
}
''')
add(id='c23-sharp-last-column', prop='C23', features=SIMD,
    edits=[('src/sharpyuv/sharp_rgba_to_yuv.rs', 'let rgba_lin_next = rgb_layout_next_lane.chunks_exact(3).last().unwrap();', 'let rgba_lin_next = rgb_layout.chunks_exact(3).last().unwrap();', None)],
    needs='sharp YUV 4:2:0, odd width, last column differing between the rows of a pair',
    breaks='Chroma of the last column ignores the second row of the pair.',
    main='''
fn enc(rgb: &[u8], w: usize) -> Vec<u8> {
    let mut im = YuvPlanarImageMut::<u8>::alloc(w as u32, 2, YuvChromaSubsampling::Yuv420);
    rgb_to_sharp_yuv420(&mut im, rgb, w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt709, SharpYuvGammaTransfer::Srgb).unwrap();
    im.v_plane.borrow().to_vec()
}
fn main() {
    for w in [3usize, 9] {
        let mut a = vec![20u8; w * 6];
        let flat = enc(&a, w);
        // only the lower right pixel changes, to bright red
        a[w * 6 - 3] = 255;
        let red = enc(&a, w);
        assert!(red[w / 2] > flat[w / 2] + 5, "w={w}: the lower row has no influence: {} {}", red[w / 2], flat[w / 2]);
    }
}
''')
add(id='c02-shuffle-padding', prop='C02', features=SIMD,
    edits=[('src/shuffle.rs', '        let dst = &mut dst[0..dst_channels.get_channels_count() * width as usize];\n        let src = &src[0..src_channels.get_channels_count() * width as usize];\n        converter', '        let used = dst.len() / dst_channels.get_channels_count() * dst_channels.get_channels_count();\n        let dst = &mut dst[0..used];\n        let src = &src[0..src_channels.get_channels_count() * width as usize];\n        converter', None)],
    needs='a destination whose rows have padding of at least one pixel',
    breaks='The padding behind each row of the destination is overwritten.',
    main='''
fn main() {
    let (w, h, pad) = (5usize, 3usize, 16usize);
    let src = noise(w * 4 * h, 1);
    let st = w * 4 + pad;
    let mut dst = vec![0xA5u8; st * h];
    rgba_to_bgra(&src, w as u32 * 4, &mut dst, st as u32, w as u32, h as u32).unwrap();
    for r in 0..h {
        assert!(dst[r * st + w * 4..(r + 1) * st].iter().all(|&b| b == 0xA5), "row {r}: padding overwritten");
    }
}
''')
add(id='c01-shuffle-overrun', prop='C01', features=SIMD,
    edits=[('src/avx2/shuffle.rs', '        std::ptr::copy_nonoverlapping(transient_dst.as_ptr(), dst.as_mut_ptr(), dst.len());', '        std::ptr::copy_nonoverlapping(transient_dst.as_ptr(), dst.as_mut_ptr(), dst.len().next_multiple_of(8));', 0)],
    needs='AVX2 shuffle between 3 and 4 channels, row bytes not a multiple of 8 in the remainder, last row',
    breaks='Up to 7 bytes behind the destination are overwritten.',
    main='''
fn main() {
    for w in [1usize, 3, 33] {
        let n = w * 3;
        let src = noise(w * 4, 1);
        let mut buf = vec![0x5Au8; n + 64];
        rgba_to_rgb(&src, w as u32 * 4, &mut buf[..n], n as u32, w as u32, 1).unwrap();
        assert!(buf[n..].iter().all(|&b| b == 0x5A), "w={w}: bytes behind the destination were written");
    }
}
''')
add(id='c26-smpte240-luma', prop='C26', features=SIMD,
    edits=[('src/built_coefficients.rs', 'static FORWARD_SMPTE240_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {\n    yr: 713,\n    yg: 5743,\n    yb: 1737,', 'static FORWARD_SMPTE240_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {\n    yr: 713,\n    yg: 5743,\n    yb: 1637,', None)],
    needs='8-bit RGB to YUV, SMPTE 240M, full range, bright bluish or neutral pixels',
    breaks='White does not reach the maximum luma and comes out darker.',
    main='''
fn main() {
    let mut im = YuvPlanarImageMut::<u8>::alloc(8, 2, YuvChromaSubsampling::Yuv444);
    rgb_to_yuv444(&mut im, &vec![255u8; 48], 24, YuvRange::Full, YuvStandardMatrix::Smpte240, YuvConversionMode::Balanced).unwrap();
    assert!(im.y_plane.borrow().iter().all(|&y| y >= 254), "{:?}", im.y_plane.borrow());
}
''')
add(id='c24-sse-gray-rounding', prop='C24', features=['sse'],
    edits=[('src/sse/y_to_rgba.rs', 'let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);', 'let v_low = _mm_mulhi_epi16(_mm_slli_epi16::<1>(_mm_expand8_lo_to_10(y_values)), v_luma_coeff);', 0)],
    needs='SSE4.1 gray decoding in the 8-pixel step (more than 8 pixels left), limited range, values whose fraction rounds up',
    breaks='Eight pixels before the remainder are truncated where every other path rounds.',
    main='''
fn main() {
    for v in 0..=255u8 {
        let y = vec![v; 12];
        let g = YuvGrayImage { y_plane: &y, y_stride: 12, width: 12, height: 1 };
        let mut o = vec![0u8; 36];
        yuv400_to_rgb(&g, &mut o, 36, YuvRange::Limited, YuvStandardMatrix::Bt601).unwrap();
        assert!(o.iter().all(|&p| p == o[35]), "{v}: {o:?}");
    }
}
''')

add(id='c29-sharp-row-counter', prop='C29', features=SIMD + ['rayon'],
    edits=[('src/sharpyuv/sharp_rgba_to_yuv.rs', """    full_iter
        .enumerate()
        .for_each(|(j, (((rgba, y_plane), u_plane), v_plane))| {
""", """    let next_row = std::sync::atomic::AtomicUsize::new(0);
    full_iter
        .for_each(|(((rgba, y_plane), u_plane), v_plane)| {
            let j = next_row.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
""", None)],
    needs='rayon build, sharp YUV, a schedule in which row tasks start out of order, rows that differ',
    breaks='Row tasks number themselves by the order in which they start, so chroma is filtered from the wrong rows unless they happen to start in order.',
    main='''
fn enc(rgb: &[u8], w: usize, h: usize) -> (Vec<u8>, Vec<u8>) {
    let mut im = YuvPlanarImageMut::<u8>::alloc(w as u32, h as u32, YuvChromaSubsampling::Yuv422);
    rgb_to_sharp_yuv422(&mut im, rgb, w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt709, SharpYuvGammaTransfer::Srgb).unwrap();
    (im.u_plane.borrow().to_vec(), im.v_plane.borrow().to_vec())
}
fn main() {
    let (w, h) = (66usize, 120usize);
    let a = noise(w * 3 * h, 3);
    // rows of a 4:2:2 picture are independent
    let mut want = (vec![], vec![]);
    for r in a.chunks(w * 3) {
        let (u, v) = enc(r, w, 1);
        want.0.extend(u);
        want.1.extend(v);
    }
    for k in 0..100 {
        assert!(enc(&a, w, h) == want, "the rows were mixed up in run {k}");
    }
}
''')
add(id='c29-rayon-422-stride', prop='C29', features=SIMD + ['rayon'],
    edits=[('src/rgb_to_ycgco.rs', """                .par_chunks_exact_mut(y_stride)
                .zip(u_plane.par_chunks_exact_mut(u_stride))
                .zip(v_plane.par_chunks_exact_mut(v_stride))
""", """                .par_chunks_exact_mut(y_stride)
                .zip(u_plane.par_chunks_exact_mut(u_stride))
                .zip(v_plane.par_chunks_exact_mut(u_stride))
""", 1)],
    needs='rayon build, RGB to YCgCo 4:2:2, planes whose U and V strides differ, at least two rows',
    breaks='Rows of the V plane are written at multiples of the U stride.',
    main='''
fn enc(us: usize, vs: usize, rgb: &[u8], w: usize, h: usize) -> Vec<u8> {
    let cw = w.div_ceil(2);
    let (mut y, mut u, mut v) = (vec![0u8; w * h], vec![0u8; us * h], vec![0u8; vs * h]);
    let mut im = YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(&mut y), y_stride: w as u32, u_plane: BufferStoreMut::Borrowed(&mut u), u_stride: us as u32, v_plane: BufferStoreMut::Borrowed(&mut v), v_stride: vs as u32, width: w as u32, height: h as u32 };
    rgb_to_ycgco422(&mut im, rgb, w as u32 * 3, YuvRange::Full).unwrap();
    v.chunks(vs).flat_map(|r| r[..cw].to_vec()).collect()
}
fn main() {
    let (w, h) = (20usize, 6usize);
    let a = noise(w * 3 * h, 3);
    assert_eq!(enc(10, 10, &a, w, h), enc(10, 14, &a, w, h));
}
''')
add(id='c03-size-mismatch', prop='C03', features=SIMD,
    edits=[('src/yuy2_to_yuv_p16.rs', 'planar_image.width != packed_image.width || planar_image', 'planar_image.width != packed_image.width && planar_image', None)],
    needs='16-bit packed 4:2:2 and planar images that differ in only one of width and height',
    breaks='Images of different sizes are accepted and partly converted.',
    main='''
fn main() {
    for (w, h) in [(8u32, 4u32), (7, 2), (8, 1)] {
        let src = vec![5u16; 16 * 2];
        let p = YuvPackedImage { yuy: &src, yuy_stride: 16, width: 8, height: 2 };
        let mut im = YuvPlanarImageMut::<u16>::alloc(w, h, YuvChromaSubsampling::Yuv422);
        assert!(yuyv422_to_yuv422_p16(&mut im, &p).is_err(), "8x2 into {w}x{h} was accepted");
        assert!(im.y_plane.borrow().iter().all(|x| *x == 0));
    }
}
''')
add(id='c31-fixed-stride', prop='C31', features=SIMD,
    edits=[('src/images.rs', 'uv_stride: bi_planar_mut.uv_stride', 'uv_stride: bi_planar_mut.y_stride', None)],
    needs='from_mut of a bi-planar image whose strides differ: odd width, or 4:4:4',
    breaks='The fixed view of a bi-planar image has the stride of luma for chroma.',
    main='''
fn main() {
    for (w, s) in [(7u32, YuvChromaSubsampling::Yuv420), (8, YuvChromaSubsampling::Yuv444), (9, YuvChromaSubsampling::Yuv422)] {
        let im = YuvBiPlanarImageMut::<u8>::alloc(w, 4, s);
        let f = YuvBiPlanarImage::from_mut(&im);
        assert_eq!(f.uv_stride, im.uv_stride);
        assert!(f.check_constraints(s).is_ok());
    }
}
''')
add(id='c32-sharp-tables', prop='C32', features=SIMD,
    edits=[('src/sharpyuv/sharp_rgba_to_yuv.rs', 'let mut linear_map_table = [0u16; 256];\n', '', None),
           ('src/sharpyuv/sharp_rgba_to_yuv.rs', 'for (i, item) in linear_map_table.iter_mut().enumerate() {', 'static LINEAR: std::sync::OnceLock<[u16; 256]> = std::sync::OnceLock::new();\n    let linear_map_table = LINEAR.get_or_init(|| {\n        let mut linear_map_table = [0u16; 256];\n    for (i, item) in linear_map_table.iter_mut().enumerate() {', None),
           ('src/sharpyuv/sharp_rgba_to_yuv.rs', '*item = (linear * u16::MAX as f32) as u16;\n    }', '*item = (linear * u16::MAX as f32) as u16;\n    }\n        linear_map_table\n    });', None)],
    needs='two sharp YUV conversions with different transfer functions in one process',
    breaks='The linearisation table is computed once, for the transfer function of the first call, and used for all.',
    main='''
fn enc(g: SharpYuvGammaTransfer, rgb: &[u8]) -> Vec<u8> {
    let mut im = YuvPlanarImageMut::<u8>::alloc(8, 8, YuvChromaSubsampling::Yuv420);
    rgb_to_sharp_yuv420(&mut im, rgb, 24, YuvRange::Full, YuvStandardMatrix::Bt709, g).unwrap();
    let mut v = im.y_plane.borrow().to_vec();
    v.extend_from_slice(im.u_plane.borrow());
    v.extend_from_slice(im.v_plane.borrow());
    v
}
fn main() {
    if let Some(k) = std::env::args().nth(1) {
        let rgb = noise(8 * 8 * 3, 9);
        if k == "both" { enc(SharpYuvGammaTransfer::Srgb, &rgb); }
        println!("{:?}", enc(SharpYuvGammaTransfer::Gamma2p8, &rgb));
        return;
    }
    let run = |k: &str| std::process::Command::new(std::env::current_exe().unwrap()).arg(k).output().unwrap().stdout;
    assert_eq!(run("alone"), run("both"), "the result depends on an earlier call");
}
''')
add(id='c15-last-luma', prop='C15', features=SIMD,
    edits=[('src/rgb_to_ycgco.rs', '+ ((r1 * range_reduction_y as i32 + b1 * range_reduction_y as i32) >> 2)', '+ ((r1 * range_reduction_y as i32 + b0 * range_reduction_y as i32) >> 2)', 'last')],
    needs='RGB to YCgCo 4:2:0, odd width, blue differing between the rows of a pair in the last column',
    breaks='Luma of the last column of the lower row takes its blue from the upper row.',
    main='''
fn enc(rgb: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut im = YuvPlanarImageMut::<u8>::alloc(w as u32, h as u32, YuvChromaSubsampling::Yuv420);
    rgb_to_ycgco420(&mut im, rgb, w as u32 * 3, YuvRange::Full).unwrap();
    im.y_plane.borrow().to_vec()
}
fn main() {
    for w in [1usize, 3, 17, 35] {
        let a = noise(w * 6, w as u32);
        let two = enc(&a, w, 2);
        let one = [enc(&a[..w * 3], w, 1), enc(&a[w * 3..], w, 1)].concat();
        assert!(two.iter().zip(&one).all(|(a, b)| a.abs_diff(*b) <= 1), "w={w}: {two:?} {one:?}");
    }
}
''')
add(id='c11-last-sample-depth', prop='C11', features=SIMD,
    edits=[('src/yuv_nv_p16_to_rgb16.rs', 'let y_vl0 = to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[0], msb_shift) as i32;', 'let y_vl0 = (y_src[0] >> 6) as i32;', 'last')],
    needs='12-bit bi-planar to 12-bit RGB, odd width: the last column',
    breaks='Luma of the last column is taken as a 10-bit sample in its high bits.',
    main='''
fn main() {
    for w in [1usize, 5, 33] {
        let cw = w.div_ceil(2);
        let y = vec![2000u16 << 4; w];
        let uv = vec![2048u16 << 4; cw * 2];
        let im = YuvBiPlanarImage { y_plane: &y, y_stride: w as u32, uv_plane: &uv, uv_stride: cw as u32 * 2, width: w as u32, height: 1 };
        let mut o = vec![0u16; w * 3];
        p212_to_rgb12(&im, &mut o, w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt709).unwrap();
        assert!(o.iter().all(|v| v.abs_diff(2000) <= 2), "w={w}: {o:?}");
    }
}
''')
add(id='c10-last-overflow', prop='C10', features=SIMD,
    edits=[('src/yuv_nv_p10_to_rgb.rs', 'let r_p0 = qrshr::<V_R_SHR, 8>(y_value0 + cr_coef * cr_value);', 'let r_p0 = ((y_value0 + cr_coef * cr_value + (1 << (V_R_SHR - 1))) >> V_R_SHR).max(0);', 'last')],
    needs='10-bit bi-planar to RGB8, odd width, saturated red in the last column',
    breaks='Red of the last column wraps around instead of saturating.',
    main='''
fn main() {
    for w in [1usize, 7, 65] {
        let cw = w.div_ceil(2);
        let y = vec![900u16 << 6; w];
        let uv = [512u16 << 6, 900 << 6].repeat(cw);
        let im = YuvBiPlanarImage { y_plane: &y, y_stride: w as u32, uv_plane: &uv, uv_stride: cw as u32 * 2, width: w as u32, height: 1 };
        let mut o = vec![0u8; w * 3];
        p210_to_rgb(&im, &mut o, w as u32 * 3, YuvRange::Limited, YuvStandardMatrix::Bt709, YuvConversionMode::Balanced).unwrap();
        assert!(o.chunks(3).all(|p| p[0] == 255), "w={w}: {o:?}");
    }
}
''')
add(id='c09-sse-14bit', prop='C09', features=['sse'],
    edits=[('src/yuv_p16_rgba_p16.rs', 'if use_sse && BIT_DEPTH <= 12 {', 'if use_sse && BIT_DEPTH <= 14 {', None)],
    needs='14-bit YUV to RGB on a machine with SSE4.1 and without AVX2, at least 8 pixels, bright or saturated samples',
    breaks='The 16-bit arithmetic of the SSE path overflows for 14-bit samples.',
    main='''
fn main() {
    for (y0, u0, v0) in [(16383u16, 8192u16, 8192u16), (12000, 16383, 200), (9000, 100, 16000)] {
        let (w, h) = (33usize, 1usize);
        let (y, u, v) = (vec![y0; w], vec![u0; w], vec![v0; w]);
        let im = YuvPlanarImage { y_plane: &y, y_stride: 33, u_plane: &u, u_stride: 33, v_plane: &v, v_stride: 33, width: 33, height: h as u32 };
        let mut o = vec![0u16; w * 3];
        i414_to_rgb14(&im, &mut o, 99, YuvRange::Full, YuvStandardMatrix::Bt709).unwrap();
        let (yf, cb, cr) = (y0 as f64, u0 as f64 - 8192., v0 as f64 - 8192.);
        let want = [yf + 1.5748 * cr, yf - 0.1873 * cb - 0.4681 * cr, yf + 1.8556 * cb].map(|x| x.clamp(0., 16383.));
        for p in o.chunks(3) {
            assert!(p.iter().zip(want).all(|(a, b)| (*a as f64 - b).abs() < 40.), "{p:?} {want:?}");
        }
    }
}
''')
add(id='c16-below-black', prop='C16', features=SIMD,
    edits=[('src/avx2/gbr_to_rgb.rs', 'let b_values0 = _mm256_subs_epu8(b0, vy_bias);', 'let b_values0 = _mm256_sub_epi8(b0, vy_bias);', 1)],
    needs='AVX2 path, limited-range GBR, remainder of the row, blue below black',
    breaks='Blue below the black level wraps to a bright value in the remainder of the row.',
    main='''
fn main() {
    for w in [5usize, 21, 53] {
        let p = vec![8u8; w];
        let im = YuvPlanarImage { y_plane: &p, y_stride: w as u32, u_plane: &p, u_stride: w as u32, v_plane: &p, v_stride: w as u32, width: w as u32, height: 1 };
        let mut o = vec![0u8; w * 3];
        gbr_to_rgb(&im, &mut o, w as u32 * 3, YuvRange::Limited).unwrap();
        assert!(o.iter().all(|v| *v == 0), "w={w}: {o:?}");
    }
}
''')
add(id='c33-row-pair', prop='C33', features=[], kind='wasm',
    edits=[('src/wasm32/yuv_to_rgba420.rs', 'let g_high1 = i16x8_add(y_high1, g_coeff0);', 'let g_high1 = i16x8_add(y_high0, g_coeff0);', None)],
    needs='WebAssembly with SIMD, 4:2:0, more than 16 pixels, rows of a pair that differ',
    breaks='Green of half of the lower row is computed from the luma of the upper row.',
    main='''
fn go() -> bool {
    let (w, h) = (40usize, 2usize);
    let y: Vec<u8> = (0..w * h).map(|i| if i < w { 60 } else { 180 }).collect();
    let c = vec![128u8; 20];
    let im = YuvPlanarImage { y_plane: &y, y_stride: 40, u_plane: &c, u_stride: 20, v_plane: &c, v_stride: 20, width: 40, height: 2 };
    let mut o = vec![0u8; w * h * 3];
    yuv420_to_rgb(&im, &mut o, 120, YuvRange::Full, YuvStandardMatrix::Bt709).unwrap();
    o.chunks(3).zip(&y).all(|(p, y)| p.iter().all(|v| v.abs_diff(*y) <= 2))
}
#[no_mangle]
pub extern "C" fn demo() -> i32 { if go() { 0 } else { 1 } }
''')
add(id='c34-neon-pack-444', prop='C34', features=['rdm'], kind='neon',
    edits=[('src/neon/yuv_to_yuy2.rs', 'v_pixels = vrhadd_u8(full_v.0, full_v.1);', 'v_pixels = vhadd_u8(full_v.0, full_v.1);', None)],
    needs='aarch64, 4:4:4 to packed 4:2:2, the step of 16 pixels, V samples of a pair whose sum is odd',
    breaks='V of some pixel pairs is rounded down while the rest of the row rounds to nearest.',
    main='''
fn main() {
    for w in [16usize, 20, 24, 30, 64, 80, 90] {
        let y = vec![9u8; w];
        let u: Vec<u8> = (0..w).map(|i| 20 + (i % 2) as u8).collect();
        let v: Vec<u8> = (0..w).map(|i| 40 + (i % 2) as u8).collect();
        let im = YuvPlanarImage { y_plane: &y, y_stride: w as u32, u_plane: &u, u_stride: w as u32, v_plane: &v, v_stride: w as u32, width: w as u32, height: 1 };
        let mut o = vec![0u8; w * 2];
        let mut p = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(&mut o), yuy_stride: w as u32 * 2, width: w as u32, height: 1 };
        yuv444_to_yuyv422(&mut p, &im).unwrap();
        let o = p.yuy.borrow();
        assert!(o.chunks(4).all(|m| m[1] == o[1] && m[3] == o[3]), "w={w}: a flat picture is not flat: {o:?}");
    }
}
''')
add(id='c35-neon-overread', prop='C35', features=['rdm'], kind='neon',
    edits=[('src/neon/yuv_to_yuy2.rs', 'while cx + 16 < width as usize {', 'while cx + 14 < width as usize {', None)],
    needs='aarch64, planar to packed 4:2:2, a remainder of 15 or 16 pixels in the last row',
    breaks='A vector of 16 luma samples is read where 15 are left (and 32 bytes written).',
    main='''
fn main() {
    for w in [15usize, 31, 47] {
        let (h, cw) = (1usize, w.div_ceil(2));
        // the luma plane is followed by what must not matter
        let mut seen = vec![];
        for after in [0u8, 255] {
            let mut y = noise(w, 1);
            y.resize(w + 64, after);
            let (u, v) = (noise(cw, 2), noise(cw, 3));
            let im = YuvPlanarImage { y_plane: &y[..w], y_stride: w as u32, u_plane: &u, u_stride: cw as u32, v_plane: &v, v_stride: cw as u32, width: w as u32, height: h as u32 };
            let mut o = vec![7u8; cw * 4 + 64];
            let mut p = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(&mut o[..cw * 4]), yuy_stride: cw as u32 * 4, width: w as u32, height: 1 };
            yuv422_to_yuyv422(&mut p, &im).unwrap();
            seen.push(o);
        }
        assert_eq!(seen[0], seen[1], "w={w}: samples behind the plane reach the result");
    }
}
''')
add(id='c06-sse-fast-wrap', prop='C06', features=['sse', 'fast_mode'],
    edits=[('src/sse/yuv_nv_to_rgba_fast420.rs', 'let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);', 'let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);', 0)],
    needs='SSE fast mode, 4:2:0, second row of a pair, luma and blue difference near 255',
    breaks='Blue wraps around to 0 instead of saturating.',
    main='''
fn main() {
    let (w, h) = (32usize, 2usize);
    let y = vec![255u8; w * h];
    let uv = [255u8, 128].repeat(w / 2);
    let im = YuvBiPlanarImage { y_plane: &y, y_stride: w as u32, uv_plane: &uv, uv_stride: w as u32, width: w as u32, height: h as u32 };
    let mut o = vec![0u8; w * h * 3];
    yuv_nv12_to_rgb(&im, &mut o, w as u32 * 3, YuvRange::Limited, YuvStandardMatrix::Bt2020, YuvConversionMode::Fast).unwrap();
    assert!(o.chunks(3).all(|p| p[2] == 255), "{o:?}");
}
''')
add(id='c08-nv21-last-pair', prop='C08', features=[],
    edits=[('src/rgba_to_nv.rs', '''                uv_dst[order.get_u_position()] = cb as u8;
                uv_dst[order.get_v_position()] = cr as u8;
            }
        }
    };
''', '''                uv_dst.copy_from_slice(&[cb as u8, cr as u8]);
            }
        }
    };
''', 0)],
    needs='NV61 (or the odd last row of NV21), odd width',
    breaks='The last chroma pair of a row is written in NV12 order whatever the format.',
    main='''
fn main() {
    for w in [3usize, 17, 35] {
        let mut im = YuvBiPlanarImageMut::<u8>::alloc(w as u32, 1, YuvChromaSubsampling::Yuv422);
        rgb_to_yuv_nv61(&mut im, &[255u8, 0, 0].repeat(w), w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt601, YuvConversionMode::Balanced).unwrap();
        let uv = im.uv_plane.borrow();
        assert!(uv.chunks(2).all(|c| c == &uv[..2]), "{uv:?}");
    }
}
''')
add(id='c19-half-unwritten', prop='C19', features=SIMD,
    edits=[('src/avx2/shuffle.rs', 'std::ptr::copy_nonoverlapping(transient_dst.as_ptr(), dst.as_mut_ptr(), dst.len());\n    }\n}\n\n/// This is', 'std::ptr::copy_nonoverlapping(transient_dst.as_ptr(), dst.as_mut_ptr(), dst.len().min(31 * DST_MAX));\n    }\n}\nconst DST_MAX: usize = 3;\n\n/// This is', None)],
    needs='RGB to RGBA with a width that leaves 24 to 31 pixels after the vector loop',
    breaks='The last pixels of each row are not written.',
    main='''
fn main() {
    for w in [1usize, 20, 23, 24, 31, 32, 63] {
        let src = noise(w * 3, 3);
        let mut o = vec![7u8; w * 4];
        rgb_to_rgba(&src, w as u32 * 3, &mut o, w as u32 * 4, w as u32, 1).unwrap();
        for (s, d) in src.chunks(3).zip(o.chunks(4)) {
            assert_eq!([s[0], s[1], s[2], 255], d, "w={w}");
        }
    }
}
''')
add(id='c25-sse-bgr-half', prop='C25', features=['sse'],
    edits=[('src/sse/utils.rs', '''            let (v0, v1, _) = sse_interleave_rgb(b, g, r);
            _mm_storeu_si128(ptr as *mut __m128i, v0);
            _mm_storeu_si64(ptr.add(16), v1);''', '''            let (v0, v1, _) = sse_interleave_rgb(b, g, r);
            _mm_storeu_si128(ptr as *mut __m128i, v0);
            _mm_storeu_si64(ptr.add(16), _mm_shuffle_epi32::<0b11_10_00_01>(v1));''', None)],
    needs='SSE path, BGR destination, more than 8 pixels after the 16-pixel loop',
    breaks='The last bytes of eight BGR pixels change places.',
    main='''
fn main() {
    for w in [5usize, 12, 15, 28] {
        let y = noise(w, 1);
        let uv = noise(w * 2, 2);
        let im = YuvBiPlanarImage { y_plane: &y, y_stride: w as u32, uv_plane: &uv, uv_stride: w as u32 * 2, width: w as u32, height: 1 };
        let (mut a, mut b) = (vec![0u8; w * 3], vec![0u8; w * 3]);
        yuv_nv24_to_rgb(&im, &mut a, w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt601, YuvConversionMode::Balanced).unwrap();
        yuv_nv24_to_bgr(&im, &mut b, w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt601, YuvConversionMode::Balanced).unwrap();
        for (p, q) in a.chunks(3).zip(b.chunks(3)) {
            assert_eq!([p[0], p[1], p[2]], [q[2], q[1], q[0]], "w={w}");
        }
    }
}
''')
add(id='c27-green-truncated', prop='C27', features=[],
    edits=[('src/yuv_p16_rgba_p16.rs', '''                let g0 = qrshr::<PRECISION, BIT_DEPTH>(
                    y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                );''', '''                let g0 = qrshr::<PRECISION, BIT_DEPTH>(
                    y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value - (1 << (PRECISION - 1)),
                );''', 'last')],
    needs='4:2:0 or 4:2:2 of 10 bits and more to RGB of the same depth, odd width: green of the last column',
    breaks='The last column is rounded down where all others are rounded to nearest, so cropping changes it.',
    main='''
fn conv(w: usize, y: &[u16], u: &[u16], v: &[u16]) -> Vec<u16> {
    let c = w.div_ceil(2);
    let im = YuvPlanarImage { y_plane: &y[..w], y_stride: w as u32, u_plane: &u[..c], u_stride: c as u32, v_plane: &v[..c], v_stride: c as u32, width: w as u32, height: 1 };
    let mut o = vec![0u16; w * 3];
    i210_to_rgb10(&im, &mut o, w as u32 * 3, YuvRange::Full, YuvStandardMatrix::Bt709).unwrap();
    o
}
fn main() {
    let (y, u, v) = (noise16(64, 1, 1023), noise16(32, 2, 1023), noise16(32, 3, 1023));
    let all = conv(4, &y, &u, &v);
    for w in 1..4 {
        for x in 0..64 - 4 {
            if x % 2 == 0 {
                let a = conv(4, &y[x..], &u[x / 2..], &v[x / 2..]);
                let b = conv(w, &y[x..], &u[x / 2..], &v[x / 2..]);
                assert_eq!(a[..w * 3], b, "x={x} w={w}");
            }
        }
    }
    let _ = all;
}
''')
add(id='c28-f16-truncates', prop='C28', features=['nightly_f16'],
    edits=[('src/f16_converter.rs', 'let src_f32 = (*src as f32 * scale_f32).round();', 'let src_f32 = *src as f32 * scale_f32;', None)],
    needs='half floats to 8 or 16 bits on the portable path, values whose half float lies below the exact fraction',
    breaks='Converting 8-bit samples to half floats and back loses a level.',
    main='''
fn main() {
    let src: Vec<u8> = (0..=255).collect();
    let mut f = vec![0f16; 256];
    convert_plane_to_f16(&src, 256, &mut f, 256, 256, 1).unwrap();
    let mut o = vec![0u8; 256];
    convert_plane_f16_to_planar(&f, 256, &mut o, 256, 256, 1).unwrap();
    assert_eq!(src, o);
}
''', head='#![feature(f16)]\n')
add(id='c22-depth16-avx', prop='C22', features=SIMD + ['nightly_f16'],
    edits=[('src/f16_converter.rs', 'if _bit_depth <= 14\n', 'if _bit_depth <= 16\n', 1)],
    needs='16-bit samples of 32768 and more, AVX2 with F16C, at least 8 samples in a row',
    breaks='Samples in the upper half of the 16-bit range become negative half floats.',
    main='''
fn main() {
    for n in [1usize, 7, 8, 40] {
        let src = vec![65535u16; n];
        let mut f = vec![0f16; n];
        convert_plane16_to_f16(&src, n, &mut f, n, 16, n, 1).unwrap();
        assert!(f.iter().all(|&v| (v as f32 - 1.0).abs() < 0.01), "n={n}: {f:?}");
    }
}
''', head='#![feature(f16)]\n')
add(id='c30-single-column', prop='C30', features=SIMD + ['geometry'],
    edits=[('src/geometry.rs', 'RotationMode::Rotate180 => rotate180_rgb16(src, src_stride, dst, dst_stride, width, height),', '''RotationMode::Rotate180 if width == 1 && src.len() == dst.len() => {
            dst.copy_from_slice(src);
            Ok(())
        }
        RotationMode::Rotate180 => rotate180_rgb16(src, src_stride, dst, dst_stride, width, height),''', None)],
    needs='rotate_rgb16 by 180 degrees, an image one pixel wide and at least two high',
    breaks='The column is copied instead of reversed.',
    main='''
fn main() {
    for (w, h) in [(1usize, 1usize), (4, 3), (1, 5)] {
        let src = noise16(w * h * 3, 3, 65535);
        let mut o = vec![0u16; w * h * 3];
        rotate_rgb16(&src, w * 3, &mut o, w * 3, w, h, RotationMode::Rotate180).unwrap();
        let want: Vec<u16> = src.chunks(3).rev().flatten().copied().collect();
        assert_eq!(o, want, "{w}x{h}");
    }
}
''')

add(id='c36-shared-scratch', prop='C36', features=SIMD,
    edits=[('src/avx2/shuffle.rs', 'let mut transient_src: [u8; 32 * 4] = [0; 32 * 4];', 'static mut TRANSIENT_SRC: [u8; 32 * 4] = [0; 32 * 4];\n        #[allow(static_mut_refs)]\n        let transient_src = &mut TRANSIENT_SRC;', 0)],
    needs='two shuffles on different threads at the same time, AVX2 path, width not a multiple of 32',
    breaks='The remainder of a row goes through a buffer that all threads share.',
    main='''
fn main() {
    let start = std::time::Instant::now();
    let ths: Vec<_> = (0..6u8).map(|t| std::thread::spawn(move || {
        let src = vec![t * 40 + 1; 31 * 3 * 64];
        let mut o = vec![0u8; 31 * 4 * 64];
        while start.elapsed().as_secs() < 12 {
            o.fill(0);
            rgb_to_rgba(&src, 31 * 3, &mut o, 31 * 4, 31, 64).unwrap();
            for p in o.chunks(4) {
                assert_eq!(p, [t * 40 + 1, t * 40 + 1, t * 40 + 1, 255]);
            }
        }
    })).collect();
    let bad = ths.into_iter().map(|t| t.join().is_err()).fold(false, |a, b| a | b);
    assert!(!bad);
}
''')
add(id='c37-uninit-scratch', prop='C37', features=['sse'], kind='miri', target='x86_64-unknown-linux-gnu', rustflags='-C target-feature=+sse4.1',
    edits=[('src/sse/y_to_rgba.rs', 'let mut y_buffer: [u8; 8] = [0; 8];', 'let mut y_buffer = std::mem::MaybeUninit::<[u8; 8]>::uninit();', 0),
           ('src/sse/y_to_rgba.rs', 'y_buffer.as_mut_ptr(),', 'y_buffer.as_mut_ptr() as *mut u8,', 0),
           ('src/sse/y_to_rgba.rs', '_mm_loadu_si64(y_buffer.as_ptr())', '_mm_loadu_si64(y_buffer.as_ptr() as *const u8)', 0)],
    needs='4:0:0 on the SSE4.1 path, width that leaves one to seven pixels; visible only to an interpreter of the abstract machine',
    breaks='The vector that holds the last pixels is loaded from partly uninitialised memory.',
    main='''
fn main() {
    let y = noise(27, 1);
    let im = YuvGrayImage { y_plane: &y, y_stride: 27, width: 27, height: 1 };
    let mut o = vec![0u8; 27 * 3];
    yuv400_to_rgb(&im, &mut o, 27 * 3, YuvRange::Limited, YuvStandardMatrix::Bt601).unwrap();
}
''')
add(id='c38-ar30-alpha-network', prop='C38', features=[], kind='miri', target='s390x-unknown-linux-gnu',
    edits=[('src/yuv_support.rs', """            Rgb30::Ba30 => ((b << 22) | (g << 12) | (r << 2) | a) as u32,
        };
        if STORE == 0 {
            value
        } else {
            htonl(value)""", """            Rgb30::Ba30 => ((b << 22) | (g << 12) | (r << 2) | a) as u32,
        };
        if STORE == 0 {
            value
        } else {
            value.swap_bytes()""", None)],
    needs='a big-endian machine, packed 10-bit output with alpha in network order',
    breaks='Pixels with alpha come out in little-endian order.',
    main='''
fn main() {
    let src = [255u8, 0, 0, 255, 0, 0, 255, 0];
    let (mut o, mut p) = (vec![0u8; 8], vec![0u8; 8]);
    rgba8_to_ar30(&mut o, 8, Rgb30ByteOrder::Network, &src, 8, 2, 1).unwrap();
    rgba8_to_ar30(&mut p, 8, Rgb30ByteOrder::Host, &src, 8, 2, 1).unwrap();
    for (n, h) in o.chunks(4).zip(p.chunks(4)) {
        assert_eq!(u32::from_be_bytes(n.try_into().unwrap()), u32::from_ne_bytes(h.try_into().unwrap()));
    }
    assert_eq!((o[0] >> 6, o[4] >> 6), (3, 0));
}
''')
add(id='c38-nv-p16-store', prop='C38', features=[], kind='miri', target='s390x-unknown-linux-gnu',
    edits=[('src/rgb_to_nv_p16.rs', 'YuvEndianness::LittleEndian => packed_bytes.to_le(),', 'YuvEndianness::LittleEndian => packed_bytes,', None)],
    needs='a big-endian machine, 16-bit RGB to little-endian P010 and its kind',
    breaks='Samples of little-endian bi-planar formats are stored in the order of the machine.',
    main='''
fn main() {
    let src = [1023u16; 2 * 2 * 3];
    let mut im = YuvBiPlanarImageMut::<u16>::alloc(2, 2, YuvChromaSubsampling::Yuv420);
    rgb10_to_p010(&mut im, &src, 6, YuvRange::Full, YuvStandardMatrix::Bt709).unwrap();
    let y = im.y_plane.borrow();
    assert!(y.iter().all(|v| u16::from_le(*v) == 1023 << 6), "{y:x?}");
    let uv = im.uv_plane.borrow();
    assert!(uv.iter().all(|v| u16::from_le(*v) == 512 << 6), "{uv:x?}");
}
''')
