#!/usr/bin/env python3
"""Source of properties.jsonl and of the checks part of MANIFEST.json."""
import json
T = []
def P(id, title, st, over, text, why, files, mech, observe=None, note=None):
    T.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["return value and output buffers of the public conversion functions"], hook_needed=None), note=note))

SHAPES = "every width from 1 up to several vector lengths, heights of both parities, both layouts of the rows, every range, every matrix, every mode, every CPU feature set"
WHYF = "The repository's tests convert one random picture of one or two sizes per function and compare loosely on the CPU at hand; the quantifier runs over sizes (every remainder of every vector loop), sample values, ranges, matrices and instruction sets."

P("C01", "No access outside the buffers, no panic, sources left alone",
  "For every image whose planes hold stride times height samples, every public conversion, rotation, mirroring and channel-shuffling function returns without panicking (no arithmetic overflow, no failed index), reads and writes only inside the slices it was given, and leaves its source planes unchanged. For buffers of other accepted lengths (last row without padding, planes longer than the picture) it likewise never touches memory outside the slices. This holds for every sample value of the stated depth and on every instruction set the library can select at run time; 16-bit samples with bits outside their depth may overflow the arithmetic but never lead outside the slices either.",
  ["inputs","configurations"], "all public functions x widths 1..140 (300) x heights 1..5 and tall/wide sizes x extreme and mixed contents x every CPU path",
  "Out-of-bounds SIMD stores land in neighbouring heap memory and go unnoticed in tests; the tests use one even width per function.",
  ["src/sse", "src/avx2", "src/avx512bw", "src/yuv_support.rs", "src/images.rs"],
  [("vector loops stop before the row end and hand the tail to a padded buffer", "src/sse/yuv_to_yuv2.rs, src/avx2/*.rs, src/avx512bw/*.rs"), ("constraint checks before dispatch", "src/yuv_error.rs, src/images.rs")])
P("C02", "Results do not depend on strides, padding, alignment or old contents",
  "The converted image depends on the source samples only: changing source or destination strides, the alignment of a buffer, what the source padding holds or what the destination held before changes no sample of the result. Bytes between the end of a destination row and the next stride are never written, and every sample of the destination image is written.",
  ["inputs","configurations"], "all functions x widths 1..100 (200) x heights x six combinations of tight, padded and aligned rows, prefill patterns and positions, on every CPU path",
  "Every test uses tight rows and a zeroed destination.",
  ["src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/rgba_to_nv.rs"],
  [("row iteration by stride with rows cut to the width", "chunks_exact(stride) in every conversion")])
P("C03", "Invalid geometry is rejected with an error before anything is written",
  "A zero dimension, a plane that is empty, one sample or one row too short, a stride below the row width, a stride that takes the last row out of the plane, dimensions whose product overflows, or source and destination images of different sizes are answered with an error, without panic and without writing to any destination plane. Turning or mirroring a picture of zero area may instead succeed without writing anything.",
  ["inputs"], "all functions x every single defect of every source and destination plane x widths 1..35 (70) x heights 1..5 (17), tight and padded base layouts",
  "No test passes an invalid image.",
  ["src/yuv_error.rs", "src/images.rs"],
  [("check_constraints and check_rgba_destination before dispatch", "src/images.rs, src/yuv_error.rs")])
P("C04", "Buffers of other accepted lengths are converted completely",
  "A plane whose last row has no padding behind it, and a plane that continues behind the image, are accepted by the conversions and give the same image as exact buffers: every row converted, nothing written behind the image, no panic. (Functions that turn or mirror may reject such buffers.)",
  ["inputs"], "all functions x widths 1..40 (70) x heights 1..4 (6) x four layouts x every CPU path",
  "All tests allocate exactly stride times height samples.",
  ["src/images.rs", "src/yuv_error.rs"],
  [("length checks accept stride*(height-1)+width and more", "src/images.rs")],
  note="The pinned tree violates this in most functions (rows are walked in whole strides); each failing function and layout is listed in known_findings.txt and only others are reported.")

def F(id, title, st, files, extra="", note=None):
    P(id, title, st, ["inputs","configurations"], extra or SHAPES, WHYF, files,
      [("scalar row conversion", files[0]), ("run-time selected SIMD row conversions", "src/sse, src/avx2, src/avx512bw")], note=note)
EQ = " against the exact real-valued equations of the chosen matrix and range"
F("C05", "8-bit planar YUV to RGB/BGR/RGBA/BGRA is the exact conversion, rounded",
  "Every pixel of an 8-bit planar 4:2:0, 4:2:2 or 4:4:4 image is converted with its own luma and the chroma sample covering it, each channel within 0.75 levels (portable path) or 3 levels (SIMD paths) of the exact matrix equation clamped to 0..255. Alpha, where the destination has it, is 255; luma below black in limited range may count as black.",
  ["src/yuv_to_rgba.rs"])
F("C06", "8-bit bi-planar YUV (NV12/21/16/61/24/42) to RGB is the exact conversion",
  "Every pixel of an 8-bit bi-planar image is converted with its own luma and the interleaved chroma pair covering it (order by format), each channel within 0.75 levels of the exact matrix equation in professional mode and on the portable path, 3 levels in balanced mode on SIMD, and 3.5 levels in fast mode, where chroma weights may be limited to 127/64. Alpha is 255; luma below black in limited range may count as black.",
  ["src/yuv_nv_to_rgba.rs"])
F("C07", "RGB to 8-bit planar YUV is the exact conversion with box-filtered chroma",
  "Luma of every pixel is within 0.75 (balanced SIMD 1.5, fast mode 3) levels of the exact equation, and each chroma sample within 1.1 (balanced SIMD 1.5, fast mode 3) levels of the exact equation applied to the mean of the 1, 2 or 4 pixels it covers, edge cells of odd sizes covering only the pixels that exist.",
  ["src/rgba_to_yuv.rs"])
F("C08", "RGB to 8-bit bi-planar YUV is the exact conversion with box-filtered chroma",
  "Luma of every pixel is within 0.75 (balanced SIMD 1.5, fast mode 3) levels of the exact equation, and each interleaved chroma sample, in the order of the format, within 1.1 (balanced SIMD 1.5, fast mode 3) levels of the exact equation applied to the mean of the pixels it covers, edge cells of odd sizes covering only the pixels that exist.",
  ["src/rgba_to_nv.rs"])
F("C09", "10 to 16 bit planar YUV to RGB of the same depth is the exact conversion",
  "Every pixel of a 10, 12, 14 or 16 bit planar image in either byte order is converted to 16-bit storage RGB/RGBA of the same depth within 0.9/1.1/2.4/5 levels of the exact equation (10/12/14/16 bits; 3 levels on SIMD at 10 and 12 bits), clamped to the depth, with opaque alpha and no bit set outside the depth.",
  ["src/yuv_p16_rgba_p16.rs"])
F("C10", "10 and 12 bit YUV (planar and P010..P412) to 8-bit RGB is the exact conversion",
  "Every pixel of a 10 or 12 bit planar or high-bit bi-planar image, in either byte order where offered, is converted to 8-bit RGB, BGR, RGBA or BGRA within 1.75 levels of the exact equation, clamped, with alpha 255.",
  ["src/yuv_p10_rgba.rs", "src/yuv_nv_p10_to_rgb.rs"])
F("C11", "P010/P012/P210/P212/P410/P412 to 10 and 12 bit RGB is the exact conversion",
  "Every pixel of a bi-planar image with samples in the high bits is converted to RGB or RGBA of the same depth (stored in the low bits) within 0.9 (10 bit) or 1.1 (12 bit) levels of the exact equation, clamped to the depth, with opaque alpha.",
  ["src/yuv_nv_p16_to_rgb16.rs"])
F("C12", "10 to 16 bit RGB to planar and bi-planar YUV is the exact conversion",
  "Luma of every pixel and chroma of the mean of the pixels each chroma sample covers are within 1.4 (10/12 bits), 1.6 (14 bits) or 3.1 (16 bits) levels of the exact equation, written in the byte order and bit position of the format, for RGB and RGBA sources and every subsampling.",
  ["src/rgb16_to_yuv_p16.rs", "src/rgb_to_nv_p16.rs"])
F("C13", "YUV with alpha (planar and AYUV/VUYA) to RGBA keeps or multiplies alpha exactly",
  "Alpha is carried over unchanged (its top 8 bits when the destination has 8) and the colours are the exact conversion within 0.75 levels on the portable path and 3 on SIMD for 8 bits, 1.75 for 10/12 bits to 8, 0.9/1.1/2.4/5 for 10/12/14/16 bits (3 on SIMD at 10/12 bits). With premultiplication each clamped colour is multiplied by alpha over its maximum, within 1.5 levels (SIMD 3) of the exact value, and is the colour the same call gives without premultiplication times alpha, rounded to nearest (within 0.51).",
  ["src/yuv_to_rgba_alpha.rs", "src/yuv_p16_rgba_alpha.rs", "src/yuv_p16_rgba16_alpha.rs", "src/ayuv_to_rgb.rs"])
F("C14", "Gray and gray with alpha, to and from RGB, follow the luma equation",
  "Gray to RGB gives three equal channels within 0.75 (SIMD 1.6; 10/12/14/16 bits 0.85/0.95/1.6/1.6) levels of the luma scaled from the given range, clamped; alpha is carried over or opaque. RGB to gray gives the exact luma within 0.75 levels (SIMD 1.5).",
  ["src/y_to_rgb.rs", "src/y_with_alpha_to_rgb.rs", "src/y_p16_to_rgb16.rs", "src/rgb_to_y.rs"])
F("C15", "YCgCo to and from RGB is the exact lifting-free conversion",
  "Both directions, at 8 to 16 bits, every subsampling, with and without alpha, are within 1.6 levels (portable 8-bit decoding 0.75, 10 bits 0.85, 12 bits 0.95, 8-bit encoding 0.75 luma and 1.1 chroma) of Y=R/4+G/2+B/4, Cg=G/2-R/4-B/4, Co=R/2-B/2 scaled to the range, chroma taken from the mean of the covered pixels; 14/16 bit encoding within 1.7.",
  ["src/ycgco_to_rgb.rs", "src/rgb_to_ycgco.rs", "src/ycgco_to_rgb_alpha.rs"])
F("C16", "GBR to and from RGB only permutes planes and scales the range",
  "Each channel is the sample of its own plane scaled between the YUV range and the full range within 1.6 levels (8-bit portable 0.75, 10 bits 0.85, 12 bits 0.95, 14/16 bit encoding 1.7), at 8 to 16 bits, with alpha carried over or opaque.",
  ["src/from_identity.rs", "src/from_identity_alpha.rs", "src/to_identity.rs"])
F("C17", "Packed 4:2:2 (YUYV/UYVY/YVYU/VYUY) packing, unpacking and decoding",
  "Packing and unpacking move every luma sample unchanged to the place the format gives it; chroma is moved unchanged between 4:2:2 and packed, replicated to 4:4:4, averaged (rounding either way) from 4:4:4 or for the row pairs of 4:2:0. Decoding packed images to RGB is within 3.5 levels (16-bit samples 5) of the exact equation. Odd widths and heights included, at 8 bits and for 16-bit storage.",
  ["src/yuv_to_yuy2.rs", "src/yuy2_to_yuv.rs", "src/yuy2_to_rgb.rs", "src/yuv_to_yuy2_p16.rs", "src/yuy2_to_yuv_p16.rs"])
F("C18", "10-bit packed RGB (AR30/AB30/RA30/BA30) to and from YUV and RGB",
  "Each 10-bit channel lands in the bits the format defines, in host or network byte order; from YUV it is within 1.75 levels of the exact equation reduced to 10 bits and clamped, from 8-bit RGB the sample repeated to 10 bits, from deeper RGB its top 10 bits, and back to 8 bits the top 8 bits. Two-bit alpha is opaque or the top two bits of the source alpha.",
  ["src/yuv_p16_ar30.rs", "src/yuv_nv_p10_to_ar30.rs", "src/ar30_rgb.rs", "src/rgb_ar30.rs"])
F("C19", "Channel shuffles move channels exactly",
  "Converting between RGB, BGR, RGBA and BGRA moves every channel of every pixel unchanged; an added alpha is 255.",
  ["src/shuffle.rs"])
F("C20", "Rotation and mirroring move every pixel to its place",
  "Rotating by 90, 180 or 270 degrees (counterclockwise) or mirroring vertically or horizontally moves every pixel, with all its channels, to exactly its place, for 1 to 4 channels of 8 or 16 bits and any strides.",
  ["src/geometry.rs", "src/mirroring.rs"])
F("C21", "RemoteFX YUV to and from RGB follows the protocol's equations",
  "RGB to RemoteFX YUV is within 1.8 units of the exact equation in 11.5 fixed point (luma offset by -4096), and RemoteFX YUV in [-4096,4095] to RGB is within 1.3 levels of the exact inverse clamped to 0..255, alpha 255.",
  ["src/rdp.rs"])
F("C22", "f16 conversions are exact to the precision of the format",
  "Integer RGB to f16 and back, and YUV, YCgCo, GBR (with and without alpha) to f16 RGB, give sample/maximum within 0.0005 (integer RGB) or 0.0015 (YUV), and integers within 1.25 levels of value times maximum; all results lie in [0,1], alpha is carried over or 1.",
  ["src/f16_converter.rs", "src/yuv_p16_rgba_f16.rs", "src/from_identity_alpha_f16.rs"])
F("C23", "Sharp YUV filters chroma in linear light",
  "Luma of RGB to sharp YUV 4:2:0/4:2:2 is within 0.85 levels of the exact equation and chroma within 0.85 levels of what the 9:3:3:1 (12:4) linear-light mean of the covered pixels gives under the chosen transfer function, allowing for 16-bit linear and 8-bit gamma tables.",
  ["src/sharpyuv"])
P("C24", "Results do not depend on the instruction set of the CPU",
  "For every function and input the images computed by the portable, SSE4.1, AVX2, AVX-VNNI, AVX-512 and AVX-512 VBMI/VNNI paths agree: identical wherever the pinned paths are identical for that function and mode (most functions, all their inputs), and otherwise within the sum of the paths' stated distances from the exact conversion.",
  ["configurations","inputs"], "all functions x all pairs of seven CPU feature sets x widths 1..132 (260) x grids of interesting values",
  "Tests run on the one feature set of the test machine.",
  ["src/sse", "src/avx2", "src/avx512bw"], [("run-time feature detection picks a row function", "src/internals.rs")])
P("C25", "Channel order, chroma order and byte order change placement, not values",
  "Functions that differ only in RGB channel order, presence of alpha, order of interleaved chroma, byte order or packed layout give, sample for sample, the same values in the places their format defines (bit for bit where a path treats all columns alike, otherwise within twice the stated distance from the exact conversion).",
  ["inputs","configurations"], "every function against the first of its family x widths 1..100 (200) x heights x all parameters x every CPU path",
  "Tests check each function alone against a loose bound.",
  ["src/yuv_support.rs"], [("const generic channel and byte orders", "src/yuv_support.rs")])
P("C26", "Black, white, greys and range limits come out exact",
  "Decoding: luma at or below black with neutral chroma gives exactly black, at or above white exactly white (14 bits: within 1), neutral chroma gives equal channels, and brighter luma never gives a darker grey (SIMD may dip by 1). Encoding: black and white give the ends of the luma range, grey pictures give neutral chroma, and no sample leaves the legal range, each within half a level (fast mode and 16-bit destinations 2; balanced SIMD and SIMD gray 1; 14/16 bit GBR/YCgCo luma 1).",
  ["inputs","configurations"], "all numeric functions x all matrices, ranges, modes, depths x complete luma ramps and constant pictures of many widths x every CPU path",
  "Tests use random pictures with a tolerance of several levels; saturation and wrap-around appear only at the ends.",
  ["src/yuv_support.rs", "src/numerics.rs"], [("biases, rounding constants and saturation", "src/yuv_support.rs")])
P("C27", "A pixel's result does not depend on its position or the image size",
  "Cropping the source to any smaller width or height leaves every remaining destination sample unchanged (except chroma samples whose cell is cut), on every path that processes all columns alike on the pinned tree (nearly all; the list is fixed): vector bodies, vector remainders and scalar tails compute the same function.",
  ["inputs"], "all functions x every width 1..132 and larger ones against one wide picture x every CPU path",
  "Tests use one width, so that a tail never meets the body it must agree with.",
  ["src/sse", "src/avx2", "src/avx512bw"], [("tail handling through padded copies or scalar loops", "src/sse, src/avx2, src/avx512bw")])
P("C28", "Round trips stay close however often they are repeated",
  "Encoding a picture that is constant over each chroma cell and decoding it with the matching function, t times in a row, moves no channel by more than 3t+1 levels (fast planar 6t+1, 16-bit YUV 7t+1, YCgCo/GBR 2t+1, RemoteFX t+1; fast bi-planar unbounded), and 4:2:2 packing, 10-bit packing and 8-bit f16 round trips are lossless.",
  ["histories","inputs"], "every encoder with every decoder of the same formats x up to 3 (6) trips x widths x contents x matrices x ranges x modes x every CPU path",
  "Tests make a single trip with one random colour or none.",
  ["src/rgba_to_yuv.rs", "src/yuv_to_rgba.rs"], [("matching forward and inverse coefficients", "src/yuv_support.rs")])
P("C29", "Neither the build configuration nor the thread schedule changes a result",
  "A conversion gives bit for bit the same image, or the same error, whether the crate is built with rayon or without, whatever order the row tasks of its parallel loops run in, with or without the AVX-512 feature (on CPUs up to AVX2), with or without the fast and professional modes (for the balanced mode), and without any SIMD feature (as on a CPU without them).",
  ["schedules","configurations","inputs"], "all functions x all task orders of every parallel loop with up to 4 tasks (5 orders beyond) x sizes; all functions x four build configurations x widths x heights x parameters x every CPU path",
  "Tests run each configuration on its own against a loose bound and never compare two of them; the rayon code is a separate copy of every dispatch loop, run under whatever schedule the pool happens to take.",
  ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_nv_to_rgba.rs", "src/rgba_to_nv.rs", "src/avx2/avx2_utils.rs"],
  [("separate rayon and sequential row loops", "cfg(feature = rayon) in every conversion"), ("code for builds without AVX-512", "cfg(not(feature = nightly_avx512)) in src/avx2")])
P("C30", "Sequences of rotations, mirrorings and shuffles compose as they should",
  "Any sequence of rotations and mirrorings amounts to the symmetry of the rectangle it denotes (four quarter turns or two equal mirrorings are the identity), and any sequence of channel shuffles preserves colours, and alpha until a step drops it (then 255).",
  ["histories","inputs"], "all sequences up to length 3 x many sizes x every CPU path",
  "Tests apply single operations to one size.",
  ["src/geometry.rs", "src/mirroring.rs", "src/shuffle.rs"], [("block transpositions and shuffles", "src/geometry.rs, src/mirroring.rs, src/shuffle.rs")])
P("C31", "Image containers hold exactly the planes their geometry needs",
  "An allocated planar, bi-planar or gray image has, for every subsampling and odd size, exactly the planes (cleared) and strides its geometry needs and passes its own check; fixed views and stores give access to the image's own memory, strides and size. For every container, check_constraints accepts what holds exactly its rows (interleaved chroma and packed images without padding), rejects whatever leaves a sample of a row outside its plane, and answers the same for the mutable and the fixed image.",
  ["inputs"], "allocation: all sizes up to 130x130 (257x257) x subsamplings x 8 and 16 bits; acceptance: all sizes up to 9x6 (13x9) and zero x every stride up to row+3 x every length up to stride*rows+3 of every plane",
  "Tests allocate a few even-sized images and never test the acceptance boundary.",
  ["src/images.rs", "src/yuv_error.rs"], [("plane sizes by subsampling, rounded up", "alloc in src/images.rs"), ("size and stride checks", "check_y8_channel and siblings in src/yuv_error.rs")],
  observe=["fields of the images", "result of check_constraints"])
P("C32", "A call's result does not depend on the calls made before it",
  "Whatever other conversions, rotations, mirrorings or shuffles ran before, of whatever size and content, a call gives exactly the result it gives on its own: the library keeps no state between calls that shows in a result.",
  ["histories"], "every ordered pair of public functions, the earlier one on larger and smaller pictures, on three (all) CPU paths",
  "Tests run each function on its own, in one order.",
  ["src/sharpyuv", "src/yuv_support.rs", "src/built_coefficients.rs"], [("tables and row buffers are built per call", "src/sharpyuv, row buffers in the SIMD tails")])
P("C33", "WebAssembly builds convert like every other build and stay inside the planes",
  "Compiled to WebAssembly (32-bit addresses), with and without SIMD, every public function converts every valid image within the same tolerance of the exact equations as on other machines (3.5 levels in the SIMD decoders of 8-bit pictures), gives the same result for every buffer layout, returns without a trap, leaves its sources and everything outside the destination rows alone, and answers sizes and strides whose products exceed the 32-bit address space with an error before anything is written.",
  ["inputs","configurations"], "both builds x all functions x widths 1..40 (140; SIMD kernels 1..131, 260) x heights 1..4 x contents x parameters x layouts x every plane in turn at the end of the memory; 2000 oversized geometries per function",
  "The tests are never run on WebAssembly.",
  ["src/wasm32", "src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/y_to_rgb.rs", "src/yuv_error.rs"], [("WebAssembly SIMD row conversions", "src/wasm32"), ("size checks in usize", "src/yuv_error.rs")],
  note="The module is executed by the WebAssembly engine of node; one plane of every execution ends where the linear memory ends, so that the machine traps what leaves it.")
P("C34", "NEON code on ARM converts like every other build",
  "On 64-bit ARM, with any combination of the optional rdm, fp16 and i8mm instructions, the NEON code converts every valid image within the tolerances of the exact equations that hold elsewhere (3.5 levels where 8-bit results carry alpha, 3 where 10 or 12-bit chroma is interleaved): every format pair, channel order, byte order, matrix, range and size. The optional instructions and the position of a pixel change a result by no more than that, channel and byte order only move values, black, white and neutral colours keep their ends, and round trips stay within their bound.",
  ["inputs","configurations"], "4 sets of CPU features x all functions x the sizes, contents and parameters of C05-C28 and C30",
  "The tests are never run on ARM here, and on ARM they run whichever instructions that machine has.",
  ["src/neon", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs"], [("row conversions", "src/neon"), ("choice of kernel by CPU feature", "is_aarch64_feature_detected in the row dispatchers")],
  note="The NEON source is compiled for this machine with intrinsics replaced by emulations written after Arm's pseudocode (neon/emu); nothing but names is rewritten.")
P("C35", "NEON code on ARM stays inside the planes and rejects what does not fit",
  "On 64-bit ARM, with any combination of the optional rdm, fp16 and i8mm instructions, every public function returns without panic on every valid image, reads and writes nothing outside the planes it was given, leaves its sources and the row padding alone, gives the same image whatever the strides, alignment and earlier contents of the buffers, and rejects every malformed image with an error before anything is written.",
  ["inputs","configurations"], "4 sets of CPU features x all functions x the sizes, layouts and defects of C01-C03",
  "The tests are never run on ARM here, use tight buffers, and watch no memory.",
  ["src/neon", "src/yuv_error.rs"], [("row conversions and their tails", "src/neon"), ("argument checks", "src/yuv_error.rs")],
  note="The NEON source is compiled for this machine with intrinsics replaced by emulations written after Arm's pseudocode (neon/emu); loads and stores of the emulations access exactly the bytes of the instruction.")
P("C36", "Calls on different threads at the same time do not disturb each other",
  "Any two conversions, rotations, mirrorings or shuffles that run at the same time on different threads, each on its own images, return and produce exactly what each of them produces alone: whatever the schedule, no call sees another's tables, buffers or half-finished state.",
  ["schedules","inputs"], "every public function against itself and against others x widths and CPU paths; preemption of the one call after each of its writes to static memory and at the points of a grid, with the other one run there to its end",
  "Tests call one function at a time from one thread.",
  ["src/built_coefficients.rs", "src/yuv_support.rs", "src/sharpyuv", "src/avx2", "src/sse"], [("tables and row buffers are built per call, none is shared", "src/sharpyuv, row buffers in the SIMD tails")],
  note="The static memory of the program is write-protected while a call runs; a call that writes none of it has one interleaving with another up to equivalence.")
P("C37", "No call performs an operation the language leaves undefined",
  "On CPUs without vector instructions, with SSE4.1 and with AVX2, no public function, on any valid image, performs an operation that Rust leaves undefined: it never reads uninitialised memory, never forms or follows a pointer that leaves its buffer, never accesses misaligned, never lets a shared and a writing reference overlap, never makes an invalid value; it leaves byte for byte what the native build leaves.",
  ["inputs","configurations"], "every public function x modes, byte orders, depths, alpha handling x one size per CPU (eleven: widths 1..150) that takes vector bodies and remainders x three CPU feature sets",
  "Tests see only what such an operation happens to do on one machine with one compiler, usually nothing.",
  ["src/avx2", "src/sse", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/geometry.rs"], [("unsafe vector code and its scratch buffers for remainders", "src/avx2, src/sse"), ("unchecked indexing", "get_unchecked in the row loops")],
  note="Executed by Miri, an interpreter of the abstract machine of Rust, which checks every access; the 12 conversions of integers to f16 with F16C use an instruction it does not know and are listed as undecided.")
P("C38", "Big-endian machines produce the same samples",
  "On a big-endian machine every public function leaves the same samples as on a little-endian one: formats with a byte order of their own (I010, P010, their BE variants, network-order AR30) bit for bit the same bytes, 16-bit RGB, gray, YCgCo, GBR and host-order AR30 the same numbers in the machine's order (fast mode within 4 levels), and performs no undefined operation.",
  ["inputs","configurations"], "every public function x modes, byte orders, depths, alpha handling x one size (eleven: widths 1..150) on an emulated big-endian 64-bit machine",
  "The tests are never run on a big-endian machine and mostly use formats without a byte order.",
  ["src/numerics.rs", "src/yuv_p16_rgba_p16.rs", "src/rgb16_to_yuv_p16.rs", "src/yuva_p16_rgba_f16.rs", "src/rgb_ar30.rs"], [("byte order of samples", "to_ne in src/numerics.rs, transform_integer in the encoders"), ("byte order of packed 10-bit pixels", "src/rgb_ar30.rs, src/ar30_rgb.rs")],
  note="Executed by Miri as an s390x machine; the reference is the native portable code, whose buffers are compared byte by byte.")
try:
    from extra_props import add
    add(P, F)
except ImportError:
    pass

NOTE = ("Stateless explicit exploration of the real code: every point of the listed space of sizes, contents, parameters and buffer layouts is executed on every CPU path of this machine "
        "and judged by {oracle}. Complete within the bounds in the evidence file; nothing is claimed beyond them. {where} Trusts the harness and the model.")
ORACLE = {"C01":"guard pages, watched margins and caught panics","C02":"equality over layouts","C03":"the error result and untouched destinations","C04":"the reference model",
 "C24":"pairwise comparison of the paths","C25":"comparison with the sibling function","C26":"the exact end values","C27":"comparison with the crop of a larger picture","C28":"the drift bound","C29":"equality with the sequential all-features build","C30":"the composed permutation","C31":"the sizes the geometry requires","C32":"the result of the call on its own","C33":"the reference model, equality over layouts, watched margins and the traps of the WebAssembly machine","C34":"the oracles of C05 to C28 and C30","C35":"guard pages, watched margins, caught panics, equality over layouts and the error result","C36":"the results of the two calls alone","C37":"the rules of the interpreted abstract machine and the bytes the native code leaves","C38":"the bytes the native code leaves on this machine, in the other byte order"}
def tech(id):
    return {"C36":"stateless exploration of thread interleavings, one preemption at every static write","C37":"exhaustive bounded exploration in an interpreter of the abstract machine","C38":"exhaustive bounded exploration in an interpreter of a big-endian machine","C35":"exhaustive bounded exploration with memory monitors","C01":"exhaustive bounded exploration with memory monitors","C28":"exhaustive exploration of operation sequences","C30":"exhaustive exploration of operation sequences","C32":"exhaustive exploration of operation sequences"}.get(id, "exhaustive bounded exploration of the real code against a reference model" if id not in ORACLE or id in ("C33","C34") else "exhaustive bounded exploration, relational oracle")
def main():
    with open('/verif/properties.jsonl','w') as f:
        for p in T:
            q = {k:v for k,v in p.items() if k!='note'}
            assert len(q['title'])<=80, q['title']
            f.write(json.dumps(q)+'\n')
    checks=[]
    for p in T:
        id=p['id']
        n = NOTE.format(oracle=ORACLE.get(id,"an independent real-valued reference model"), where={"C33":"WebAssembly on this machine's engine.","C34":"NEON code on emulated intrinsics.","C35":"NEON code on emulated intrinsics.","C37":"Code below AVX-512.","C38":"Portable code, on an interpreted s390x."}.get(id,"x86-64 only."))
        if p['note']: n += " "+p['note']
        checks.append(dict(property=id, quick_cmd=f"bash check.sh {id} quick", thorough_cmd=f"bash check.sh {id} thorough", evidence_file=f"evidence/{id}.json", technique=tech(id) if id not in ("C29",) else "exhaustive exploration of task schedules", level="model_checking", level_note=n))
    m=dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[], notes="The checks build the harness crate mc (path dependency on /repo) with the repository's own toolchain; C33 builds wasm/ over /repo, C34 and C35 build neon/ over a copy of /repo's sources in which names are rewritten (neon/gen.py); C37 and C38 run interp/ in Miri. No hooks in /repo are needed.")
    json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
main()
