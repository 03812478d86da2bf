//! The properties: for each one the functions it covers, the bounded space explored and what is compared.
use crate::cpu::BACKENDS;
use crate::engine::*;
use crate::explore::*;
use crate::fill::Fill;
use crate::fmt::*;

use crate::ops::F;
use crate::tol::tol;

pub enum Kind {
    /// every backend against the reference model
    Model,
    /// every backend, memory behaviour and rejection only
    Memory,
    Custom(fn(&mut Ctx, &Space, usize, usize)),
}

pub struct Stage {
    pub name: &'static str,
    pub ops: Box<dyn Fn(&Op) -> bool>,
    pub space: Space,
    pub kind: Kind,
}

pub struct Prop {
    pub id: &'static str,
    pub stages: Vec<Stage>,
    /// what the run decides, for the evidence file
    pub about: &'static str,
}

pub const GROUPS: [&str; 19] = [
    "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23",
];

/// The functional property a function belongs to.
pub fn group(op: &Op) -> &'static str {
    let color = if op.src.color == Color::Rgb { op.dst.color } else { op.src.color };
    match op.f {
        F::PlDec8(_) => "C05",
        F::BiDec8(_) => "C06",
        F::PlEnc8(_) => "C07",
        F::BiEnc8(_) => "C08",
        F::PlDec16(_) => "C09",
        F::PlDec16To8(_) | F::BiDec16To8(_) => "C10",
        F::BiDec16(_) => "C11",
        F::PlEnc16(_) | F::BiEnc16(_) => "C12",
        F::PlADec8(_) | F::PlADec16(_) | F::PlADec16To8(_) | F::AyuvDec(_) => "C13",
        F::GrayDec8(_) | F::GrayDec16(_) | F::GrayADec8(_) | F::GrayADec16(_) | F::GrayEnc8(_) => "C14",
        F::PlRDecF16(_) | F::PlARDecF16(_) | F::PlDecF16(_) | F::PlADecF16(_) => "C22",
        F::PlRDec8(_) | F::PlRDec16(_) | F::PlARDec8(_) | F::PlARDec16(_) | F::PlREnc8(_) | F::PlREnc16(_) => {
            if color == Color::Gbr { "C16" } else { "C15" }
        }
        F::YuyPack8(_) | F::YuyPack16(_) | F::YuyUnp8(_) | F::YuyUnp16(_) | F::YuyDec8(_) | F::YuyDec16(_) => "C17",
        F::BiDecAr(_) | F::PlDecAr(_) | F::ArToRgb8(_) | F::Rgb8ToAr(_) | F::Rgb16ToAr(_) => "C18",
        F::Shuf(_) => "C19",
        F::Rot8(_) | F::Rot16(_) | F::Mir8(_) | F::Mir16(_) => "C20",
        F::RdpDec(_) | F::RdpEnc(_) => "C21",
        F::F16From8(_) | F::F16From16(_) | F::F16To8(_) | F::F16To16(_) => "C22",
        F::SharpEnc8(_) => "C23",
    }
}

/// Numeric conversions, as opposed to pure moves of samples.
pub fn numeric(op: &Op) -> bool {
    !matches!(op.f, F::Shuf(_) | F::Rot8(_) | F::Rot16(_) | F::Mir8(_) | F::Mir16(_) | F::YuyPack8(_) | F::YuyPack16(_) | F::YuyUnp8(_) | F::YuyUnp16(_))
}

const TALL: [usize; 20] = [4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 127, 128, 129, 257];
const WIDE: [usize; 26] = [
    159, 160, 161, 191, 192, 193, 223, 255, 256, 257, 319, 383, 384, 385, 511, 512, 513, 640, 767, 1023, 1024, 1025, 1279, 1921, 2049, 4099,
];

fn functional(id: &'static str, thorough: bool, about: &'static str) -> Prop {
    let sel = move || -> Box<dyn Fn(&Op) -> bool> { Box::new(move |o: &Op| group(o) == id) };
    let mut st = vec![];
    let mut add = |name: &'static str, space: Space| st.push(Stage { name, ops: sel(), space, kind: Kind::Model });
    let wmax = if thorough { 260 } else { 140 };
    let base = || Space::shapes(wmax, &[1, 2, 3]);
    let both = if id == "C23" { vec![LAYS_ALL[1]] } else { vec![LAYS_ALL[0], LAYS_ALL[1]] };
    // every width, a few heights: vector bodies, every tail length, odd edges
    add("shapes", if thorough { base().with(|s| (s.hs, s.lays) = (vec![1, 2, 3, 4, 5], both.clone())) } else { base().with(|s| s.lays = both.clone()) });
    add("shapes-head", base().with(|s| {
        s.hs = if thorough { vec![1, 2, 3] } else { vec![3] };
        s.lays = vec![LAYS_ALL[4]];
        s.fills = vec![Fill::Ext(2)];
    }));
    // tall images: row loops, row pairs
    add("tall", base().with(|s| {
        s.ws = if thorough { vec![1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 64, 65, 127, 130] } else { vec![1, 2, 3, 16, 17, 33, 65] };
        s.hs = TALL.to_vec();
        s.lays = vec![LAYS_ALL[0]];
    }));
    // wide images
    add("wide", base().with(|s| {
        s.ws = WIDE.to_vec();
        s.hs = if thorough { vec![1, 2, 3] } else { vec![2, 3] };
        s.lays = vec![LAYS_ALL[5]];
        if thorough {
            s.ws.extend([3839, 3840, 3841, 8191, 8192, 8193]);
        }
    }));
    // all triples of the alphabet of interesting values at every phase of a vector
    add("values", base().with(|s| {
        s.ws = if thorough { vec![130, 97, 64, 35] } else { vec![130] };
        s.hs = vec![340];
        s.lays = vec![LAYS_ALL[0]];
        s.fills = if thorough { (0..4).map(Fill::Grid).collect() } else { vec![Fill::Grid(0)] };
        s.depths = (8..=16).collect();
        if !thorough {
            s.bos = vec![0];
        }
    }));
    add("ends", base().with(|s| {
        s.ws = vec![64, 257];
        s.hs = vec![2, 256];
        s.lays = vec![LAYS_ALL[0]];
        s.fills = vec![Fill::Zero, Fill::Max, Fill::Ext(3), Fill::Ramp, Fill::Gray(0), Fill::Neutral(0)];
    }));
    // every matrix, range, mode, depth
    add("params", base().with(|s| {
        s.ws = if thorough { vec![34, 67, 131] } else { vec![67] };
        s.hs = vec![3, 40];
        s.lays = vec![LAYS_ALL[1]];
        s.matrices = (0..8).collect();
        s.depths = (8..=16).collect();
        s.fills = if thorough { vec![Fill::Hash(3), Fill::Ext(4), Fill::Grid(1), Fill::Grid(2), Fill::Grid(3), Fill::Neutral(0)] } else { vec![Fill::Hash(3), Fill::Ext(4), Fill::Grid(1)] };
    }));
    if thorough {
        add("cube", base().with(|s| {
            s.ws = vec![256];
            s.hs = vec![256];
            s.lays = vec![LAYS_ALL[0]];
            s.fills = (0..256).map(Fill::Cube).collect();
        }));
        let i = st.len() - 1;
        st[i].ops = Box::new(move |o: &Op| group(o) == id && o.is8());
    }
    if id == "C13" {
        st.push(Stage { name: "premultiplied", ops: Box::new(|o: &Op| o.takes.premul), kind: Kind::Custom(crate::meta::premultiplied), space: Space::shapes(wmax, &[1, 2, 3]).with(|s| s.lays = vec![LAYS_ALL[0]]) });
        st.push(Stage { name: "premultiplied-values", ops: Box::new(|o: &Op| o.takes.premul), kind: Kind::Custom(crate::meta::premultiplied), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![1, 3, 35, 130];
            s.hs = if thorough { vec![255, 340] } else { vec![340] };
            s.lays = vec![LAYS_ALL[0]];
            s.matrices = vec![0, 1];
            s.fills = (0..if thorough { 16 } else { 4 }).map(Fill::Grid).chain([Fill::Hash(6)]).collect();
        }) });
    }
    Prop { id, stages: st, about }
}

pub fn props(thorough: bool) -> Vec<Prop> {
    let mut v = vec![];
    let all = || -> Box<dyn Fn(&Op) -> bool> { Box::new(|_: &Op| true) };
    let wmax = if thorough { 300 } else { 140 };
    v.push(Prop {
        id: "C01",
        about: "every public function, every CPU path: no panic, no crash, no access outside the given slices (guard pages at both ends, watched margins), sources untouched",
        stages: vec![
            Stage { name: "tail", ops: all(), kind: Kind::Memory, space: Space::shapes(wmax, &[1, 2, 3]).with(|s| {
                s.lays = vec![LAYS_ALL[0]];
                s.fills = vec![Fill::Ext(7)];
                s.ranges = vec![0];
                s.bos = vec![1];
            }) },
            Stage { name: "head", ops: all(), kind: Kind::Memory, space: Space::shapes(wmax, &[2, 5]).with(|s| {
                s.lays = vec![LAYS_ALL[4], LAYS_ALL[5]];
                s.ranges = vec![1];
                s.bos = vec![0];
                s.premuls = vec![true];
            }) },
            Stage { name: "other-lengths", ops: all(), kind: Kind::Custom(crate::meta::lengths), space: Space::shapes(if thorough { 140 } else { 70 }, if thorough { &[1, 2, 3, 5] } else { &[2, 3] }).with(|s| {
                s.ranges = vec![0];
                s.modes = vec![1];
                s.bos = vec![0];
                s.premuls = vec![true];
            }) },
            Stage { name: "tall-wide", ops: all(), kind: Kind::Memory, space: Space::shapes(1, &[1]).with(|s| {
                s.ws = vec![1, 2, 3, 31, 255, 256, 257, 511, 1025, 2047, 4099];
                s.hs = vec![4, 7, 17, 33, 64, 129];
                s.lays = vec![LAYS_ALL[0]];
                s.fills = vec![Fill::Ext(9)];
                s.ranges = vec![1];
            }) },
            Stage { name: "raw", ops: Box::new(|o: &Op| o.src.ty != Ty::U8), kind: Kind::Memory, space: Space::shapes(1, &[1]).with(|s| {
                s.ws = vec![67];
                s.hs = vec![40];
                s.lays = vec![LAYS_ALL[0]];
                s.fills = vec![Fill::Raw(1)];
                s.matrices = (0..8).collect();
                s.depths = (8..=16).collect();
            }) },
            Stage { name: "values", ops: all(), kind: Kind::Memory, space: Space::shapes(1, &[1]).with(|s| {
                s.ws = vec![67];
                s.hs = vec![40];
                s.lays = vec![LAYS_ALL[0]];
                s.fills = vec![Fill::Zero, Fill::Max, Fill::Ramp, Fill::Grid(1), Fill::Ext(5)];
                s.matrices = (0..8).collect();
                s.depths = (8..=16).collect();
            }) },
        ],
    });
    v.push(Prop {
        id: "C02",
        about: "the bytes of the image depend on the source samples only: not on strides, buffer alignment, row padding or what the destination held; padding is never written",
        stages: vec![
            Stage { name: "layouts", ops: all(), kind: Kind::Custom(crate::meta::layouts), space: Space::shapes(if thorough { 200 } else { 100 }, if thorough { &[1, 2, 3, 4, 5] } else { &[2, 3] }).with(|s| {
                s.ranges = vec![0];
                s.bos = vec![1];
                s.premuls = vec![true];
            }) },
            Stage { name: "layouts-large", ops: all(), kind: Kind::Custom(crate::meta::layouts), space: Space::shapes(1, &[1]).with(|s| {
                s.ws = vec![1, 16, 129, 256, 515, 1031];
                s.hs = vec![9, 32, 65];
            }) },
        ],
    });
    v.push(Prop {
        id: "C03",
        about: "every argument vector with one defect (zero dimension, plane one sample short, empty plane, stride below the row, dimensions whose product overflows, two images of different sizes) is rejected with an error before anything is written",
        stages: vec![Stage { name: "invalid", ops: all(), kind: Kind::Custom(crate::meta::invalid), space: Space::shapes(if thorough { 70 } else { 35 }, if thorough { &[1, 2, 3, 4, 5, 8, 17] } else { &[1, 2, 3, 5] }).with(|s| {
            s.ranges = vec![0];
            s.modes = vec![1];
            s.bos = vec![0];
            s.premuls = vec![false];
        }) }],
    });
    v.push(Prop {
        id: "C04",
        about: "images whose last row has no padding, and images at the start of a longer buffer, are accepted and fully converted",
        stages: vec![Stage { name: "geometry", ops: all(), kind: Kind::Custom(crate::meta::geometry), space: Space::shapes(if thorough { 70 } else { 40 }, if thorough { &[1, 2, 3, 4, 5, 6] } else { &[1, 2, 3, 4] }).with(|s| {
            s.ranges = vec![0];
            s.modes = vec![1];
            s.bos = vec![0];
            s.premuls = vec![false];
        }) }],
    });
    for (id, about) in [
        ("C05", "8-bit planar YUV to RGB against the exact matrix equations"),
        ("C06", "8-bit bi-planar YUV to RGB against the exact matrix equations"),
        ("C07", "RGB to 8-bit planar YUV against the exact matrix equations and box-filtered chroma"),
        ("C08", "RGB to 8-bit bi-planar YUV against the exact matrix equations and box-filtered chroma"),
        ("C09", "10 to 16 bit planar YUV (both byte orders) to 10 to 16 bit RGB against the exact matrix equations"),
        ("C10", "10/12 bit planar and bi-planar YUV to 8-bit RGB against the exact matrix equations"),
        ("C11", "P010..P412 to 10/12-bit RGB against the exact matrix equations"),
        ("C12", "10 to 16 bit RGB to planar and bi-planar YUV against the exact matrix equations and box-filtered chroma"),
        ("C13", "YUV with alpha and AYUV/VUYA to RGBA, with and without premultiplication"),
        ("C14", "gray and gray with alpha, both ways"),
        ("C15", "YCgCo both ways"),
        ("C16", "GBR both ways"),
        ("C17", "packed 4:2:2: packing, unpacking, decoding"),
        ("C18", "10-bit packed RGB (AR30 family) from YUV and RGB and back"),
        ("C19", "channel shuffles"),
        ("C20", "rotation and mirroring"),
        ("C21", "RemoteFX YUV both ways"),
        ("C22", "f16 conversions"),
        ("C23", "sharp YUV"),
    ] {
        v.push(functional(id, thorough, about));
    }
    let meta = |id: &'static str, about: &'static str, stages: Vec<Stage>| Prop { id, about, stages };
    v.push(meta("C24", "results do not depend on which instruction set the CPU has", vec![
        Stage { name: "shapes", ops: all(), kind: Kind::Custom(crate::meta::backends), space: Space::shapes(if thorough { 260 } else { 132 }, if thorough { &[1, 2, 3, 5] } else { &[2, 3] }).with(|s| {
            s.lays = vec![LAYS_ALL[0]];
            s.bos = vec![0];
        }) },
        Stage { name: "values", ops: all(), kind: Kind::Custom(crate::meta::backends), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![131];
            s.hs = vec![340];
            s.lays = vec![LAYS_ALL[0]];
            s.bos = vec![0];
            s.fills = if thorough { (0..4).map(Fill::Grid).collect() } else { vec![Fill::Grid(0)] };
        }) },
        Stage { name: "params", ops: all(), kind: Kind::Custom(crate::meta::backends), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![67, 130];
            s.hs = vec![4, 33];
            s.lays = vec![LAYS_ALL[0]];
            s.bos = vec![0];
            s.matrices = (0..8).collect();
            s.fills = vec![Fill::Grid(2), Fill::Ext(3)];
        }) },
    ]));
    v.push(meta("C25", "the channel order of RGB, the order of interleaved chroma and the byte order of samples change where values are stored, not the values", vec![
        Stage { name: "siblings", ops: all(), kind: Kind::Custom(crate::meta::siblings), space: Space::shapes(if thorough { 200 } else { 100 }, if thorough { &[1, 2, 3, 4] } else { &[2, 3] }).with(|s| {
            s.lays = vec![LAYS_ALL[0]];
            s.bos = vec![0];
        }) },
        Stage { name: "params", ops: all(), kind: Kind::Custom(crate::meta::siblings), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![97, 130];
            s.hs = vec![64];
            s.lays = vec![LAYS_ALL[0]];
            s.bos = vec![0];
            s.matrices = (0..8).collect();
            s.fills = vec![Fill::Grid(0), Fill::Ext(5)];
        }) },
    ]));
    v.push(meta("C26", "black, white, neutral colours and range limits", vec![
        Stage { name: "ends", ops: Box::new(numeric), kind: Kind::Custom(crate::meta::endpoints), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = if thorough { (1..=132).collect() } else { vec![1, 2, 15, 17, 33, 65, 130] };
            s.hs = if thorough { vec![1, 2, 3] } else { vec![1, 3] };
            s.lays = vec![LAYS_ALL[0]];
            s.matrices = (0..8).collect();
            s.fills = vec![Fill::Zero, Fill::Max, Fill::White, Fill::Black];
        }) },
        Stage { name: "ramps", ops: Box::new(|o: &Op| numeric(o) && o.src.depth <= 10), kind: Kind::Custom(crate::meta::endpoints), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![256];
            s.hs = vec![4];
            s.lays = vec![LAYS_ALL[0]];
            s.matrices = (0..8).collect();
            s.fills = vec![Fill::Gray(0), Fill::Neutral(0)];
        }) },
        Stage { name: "ramps-deep", ops: Box::new(|o: &Op| numeric(o) && o.src.depth > 10), kind: Kind::Custom(crate::meta::endpoints), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![256];
            s.hs = vec![256];
            s.lays = vec![LAYS_ALL[0]];
            s.matrices = if thorough { (0..8).collect() } else { vec![1] };
            s.fills = vec![Fill::Gray(0), Fill::Neutral(0)];
        }) },
        Stage { name: "legal", ops: Box::new(numeric), kind: Kind::Custom(crate::meta::endpoints), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![66, 131];
            s.hs = vec![3, 130];
            s.lays = vec![LAYS_ALL[0]];
            s.matrices = (0..8).collect();
            s.fills = vec![Fill::Grid(0), Fill::Ext(1), Fill::Hash(4)];
        }) },
    ]));
    v.push(meta("C27", "a pixel's result does not depend on where in the image it is or how large the image is", vec![
        Stage { name: "prefix", ops: all(), kind: Kind::Custom(crate::meta::prefix), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![0];
            s.hs = if thorough { vec![2, 3, 5] } else { vec![2] };
            s.lays = vec![LAYS_ALL[0]];
            s.bos = vec![0];
            s.depths = if thorough { vec![10, 16] } else { vec![10] };
            s.matrices = if thorough { vec![0, 1, 2] } else { vec![0] };
        }) },
    ]));
    v.push(meta("C28", "round trips through a YUV format and back stay within the stated bound however often they are repeated", vec![
        Stage { name: "trips", ops: Box::new(|o: &Op| crate::meta::is_encoder(o)), kind: Kind::Custom(crate::meta::roundtrip), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = if thorough { (1..=70).chain([127, 128, 129, 130]).collect() } else { vec![1, 2, 3, 8, 15, 16, 17, 33, 64, 65, 130] };
            s.hs = vec![2, 3, 34];
            s.lays = vec![LAYS_ALL[0]];
            s.matrices = vec![0, 1, 2];
            s.fills = vec![Fill::Grid(0), Fill::Hash(5), Fill::Ext(5), Fill::Gray(0)];
            // number of trips
            s.auxs = (0..if thorough { 6 } else { 3 }).collect();
        }) },
    ]));
    v.push(meta("C29", "the build configuration (rayon, CPU features compiled in, fast and professional mode) and the schedule of parallel loops do not change results", vec![
        Stage { name: "configs", ops: all(), kind: Kind::Custom(crate::vary::vary), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = if thorough { (1..=140).chain([161, 193, 257]).collect() } else { (1..=18).chain([31, 33, 47, 63, 64, 65, 66, 97, 127, 129, 130]).collect() };
            s.hs = vec![1, 2, 3];
            s.bos = vec![0];
        }) },
        Stage { name: "schedules", ops: all(), kind: Kind::Custom(crate::vary::vary), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = if thorough { vec![1, 2, 3, 16, 17, 33, 66, 97, 130] } else { vec![2, 66] };
            s.hs = if thorough { vec![4, 5, 6, 7, 8, 9, 16, 33] } else { vec![4, 5, 8, 9] };
            s.bos = vec![0];
            s.depths = vec![12];
        }) },
        Stage { name: "params", ops: all(), kind: Kind::Custom(crate::vary::vary), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![130];
            s.hs = if thorough { vec![4, 33] } else { vec![5] };
            s.bos = vec![0, 1];
            s.matrices = (0..8).collect();
            s.depths = vec![8, 9, 14, 16];
            s.fills = if thorough { vec![Fill::Grid(0), Fill::Grid(1), Fill::Grid(2), Fill::Grid(3), Fill::Ext(3)] } else { vec![Fill::Grid(2), Fill::Ext(3)] };
        }) },
    ]));
    v.push(meta("C30", "every sequence of rotations and mirrorings acts as the corresponding symmetry of the rectangle; every sequence of channel shuffles keeps colours", vec![
        Stage { name: "dihedral", ops: Box::new(|o: &Op| matches!(o.f, F::Rot8(_) | F::Rot16(_))), kind: Kind::Custom(crate::meta::dihedral), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = if thorough { (1..=70).collect() } else { vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33, 40, 65] };
            s.hs = if thorough { vec![1, 2, 3, 5, 8, 9, 16, 17, 33, 64] } else { vec![1, 3, 8, 17, 33] };
            s.auxs = vec![0];
        }) },
        Stage { name: "shuffles", ops: Box::new(|o: &Op| matches!(o.f, F::Shuf(_))), kind: Kind::Custom(crate::meta::shuffles), space: Space::shapes(if thorough { 300 } else { 140 }, &[1, 2]) },
    ]));
    v.push(meta("C32", "no call changes the result of a later one: every ordered pair of functions is run one after the other", vec![
        Stage { name: "pairs", ops: all(), kind: Kind::Custom(crate::meta::history), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = if thorough { vec![3, 17, 35, 66] } else { vec![35] };
            s.hs = if thorough { vec![1, 2, 5] } else { vec![4] };
            s.auxs = if thorough { vec![0, 1] } else { vec![0] };
            s.modes = vec![1];
        }) },
        Stage { name: "first-and-settings", ops: all(), kind: Kind::Custom(crate::meta::fresh_params), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![17];
            s.hs = if thorough { vec![3, 4] } else { vec![4] };
            s.matrices = if thorough { vec![0, 1, 5, 7] } else { vec![1, 7] };
            s.ranges = vec![0, 1];
            s.depths = if thorough { vec![9, 10, 12] } else { vec![10, 12] };
            s.auxs = vec![0, 1, 2, 3];
        }) },
        Stage { name: "first-and-functions", ops: all(), kind: Kind::Custom(crate::meta::fresh_pairs), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![17];
            s.auxs = if thorough { vec![0, 1] } else { vec![0] };
            s.modes = vec![1];
        }) },
    ]));
    #[cfg(not(feature = "neon"))]
    v.push(meta("C36", "calls at the same time on two threads: where a call writes no static memory all interleavings are equivalent; every other one is explored, preempted after each such write", vec![
        Stage { name: "threads", ops: all(), kind: Kind::Custom(crate::race::races), space: Space::shapes(1, &[1]).with(|s| {
            s.ws = vec![35];
            s.hs = if thorough { vec![3, 4] } else { vec![4] };
            s.ranges = if thorough { vec![0, 1] } else { vec![0] };
            s.matrices = if thorough { vec![0, 1, 7] } else { vec![1, 7] };
            s.depths = vec![10, 12];
            s.bos = vec![0];
            s.auxs = if thorough { vec![0, 1] } else { vec![0] };
        }) },
    ]));
    let one = || -> Box<dyn Fn(&Op) -> bool> { Box::new(|o: &Op| o.name == all_ops()[0].name) };
    v.push(meta("C31", "allocated images have exactly the planes their geometry needs, fixed views share them, and the containers' own check accepts exactly what holds all rows", vec![
        Stage { name: "alloc", ops: one(), kind: Kind::Custom(crate::images::alloc), space: Space::shapes(if thorough { 257 } else { 130 }, &[1]).with(|s| s.hs = (1..=if thorough { 257 } else { 130 }).collect()) },
        Stage { name: "accept", ops: one(), kind: Kind::Custom(crate::images::accept), space: Space::shapes(if thorough { 13 } else { 9 }, &[1]).with(|s| s.hs = (1..=if thorough { 9 } else { 6 }).collect()) },
    ]));
    #[cfg(feature = "neon")]
    arm(&mut v, thorough);
    v
}

/// The properties of the NEON code, for the harness that is built over it (see ../neon).
#[cfg(feature = "neon")]
fn arm(v: &mut Vec<Prop>, thorough: bool) {
    let base = std::mem::take(v);
    let mut values = vec![];
    let mut memory = vec![];
    for p in base {
        let mem = matches!(p.id, "C01" | "C02" | "C03");
        if !mem && !GROUPS.contains(&p.id) && !matches!(p.id, "C24" | "C25" | "C26" | "C27" | "C28" | "C30") {
            v.push(p);
            continue;
        }
        for mut st in p.stages {
            let name = st.name;
            st.name = Box::leak(format!("{}/{}", p.id, name).into_boxed_str());
            if !thorough {
                if name == "shapes-head" || (p.id == "C24" && name == "shapes") || p.id == "C01" && matches!(name, "head") {
                    continue;
                }
                if p.id == "C23" && name == "shapes" {
                    st.space.ws.retain(|w| w % 7 < 2 || *w < 36);
                }
                if p.id == "C26" && name == "ramps-deep" {
                    st.space.matrices = vec![1];
                }
                if p.id == "C02" && name == "layouts" {
                    st.space.ws.retain(|&w| w <= 66);
                }
            }
            if mem { memory.push(st) } else { values.push(st) }
        }
    }
    v.push(Prop { id: "C34", stages: values, about: "the NEON code, run on emulated intrinsics with four sets of CPU features: the stages of C05 to C28 and C30, named by the property they belong to" });
    v.push(Prop { id: "C35", stages: memory, about: "the NEON code, run on emulated intrinsics with four sets of CPU features: the stages of C01 to C03, named by the property they belong to" });
}

/// One job: a stage, a function and a width.
pub fn run_job(ctx: &mut Ctx, st: &Stage, op: usize, w: usize, sp: &Space) {
    let bs = ctx.cpu.backends();
    match st.kind {
        Kind::Model | Kind::Memory => {
            let model = matches!(st.kind, Kind::Model);
            sp.each(ctx, op, w, model, &mut |ctx, c, s, e| {
                let mut c = *c;
                for &b in &bs {
                    c.backend = b;
                    if let Some(v) = ctx.run(&c, s, e, &tol, false) {
                        if !model && matches!(v.kind, "stray" | "value" | "rejected") {
                            continue;
                        }
                        // samples outside the stated depth: arithmetic may overflow, memory may not be touched
                        if st.name.ends_with("raw") && v.kind == "panic" && v.detail.contains("with overflow") {
                            continue;
                        }
                        let cs = ctx.case_str(&c);
                        let n = ctx.ops[op].name;
                        ctx.violation(n, b, v.kind, &cs, &v.detail);
                    } else if !model && !ctx.sources_intact(&c, s) {
                        let cs = ctx.case_str(&c);
                        let n = ctx.ops[op].name;
                        ctx.violation(n, b, "source", &cs, "a source plane was modified");
                    }
                }
            });
        }
        Kind::Custom(f) => f(ctx, sp, op, w),
    }
}

pub fn backend_name(b: usize) -> &'static str {
    BACKENDS[b].name
}
