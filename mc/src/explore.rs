//! Enumeration of bounded spaces of calls.
use crate::engine::*;
use crate::fill::Fill;
use crate::fmt::*;
use crate::mem::Place;

/// How buffers are laid out: (source, destination, position against the guard pages, prefill byte).
pub type Lay = (Layout, Layout, Place, u8);

pub const LAYS_ALL: [Lay; 8] = [
    (Layout::Tight, Layout::Tight, Place::Tail, 0xAA),
    (Layout::Pad, Layout::Pad, Place::Tail, 0x55),
    (Layout::Short, Layout::Short, Place::Tail, 0xAA),
    (Layout::Over, Layout::Over, Place::Tail, 0xAA),
    (Layout::Tight, Layout::Pad, Place::Head, 0x00),
    (Layout::Pad, Layout::Tight, Place::Head, 0xFF),
    (Layout::Short, Layout::Over, Place::Head, 0x55),
    (Layout::Over, Layout::Short, Place::Head, 0xAA),
];

#[derive(Clone)]
pub struct Space {
    pub ws: Vec<usize>,
    pub hs: Vec<usize>,
    pub fills: Vec<Fill>,
    pub lays: Vec<Lay>,
    pub ranges: Vec<u8>,
    pub matrices: Vec<u8>,
    pub modes: Vec<u8>,
    pub bos: Vec<u8>,
    pub premuls: Vec<bool>,
    pub depths: Vec<u8>,
    pub auxs: Vec<u8>,
}

impl Space {
    pub fn shapes(wmax: usize, hs: &[usize]) -> Space {
        Space {
            ws: (1..=wmax).collect(),
            hs: hs.to_vec(),
            fills: vec![Fill::Hash(1)],
            lays: vec![LAYS_ALL[1]],
            ranges: vec![0, 1],
            matrices: vec![0],
            modes: vec![0, 1, 2],
            bos: vec![0, 1],
            premuls: vec![false, true],
            depths: vec![10],
            auxs: (0..8).collect(),
        }
    }
    /// The parameter vectors the function distinguishes.
    pub fn params(&self, op: &Op) -> Vec<Params> {
        let t = &op.takes;
        let mut out = vec![];
        let one = |on: bool, v: &Vec<u8>, d: u8| if on { v.clone() } else { vec![d] };
        for &range in &one(t.range, &self.ranges, 0) {
            for &matrix in &one(t.matrix, &self.matrices, 0) {
                for &mode in &one(t.mode, &self.modes, 1) {
                    for &bo in &one(t.bo, &self.bos, 0) {
                        for &pm in &one(t.premul, &self.premuls.iter().map(|&b| b as u8).collect(), 0) {
                            for &depth in &one(t.depth, &self.depths, 8) {
                                for &aux in &self.auxs {
                                    if aux >= t.aux.max(1) {
                                        continue;
                                    }
                                    out.push(Params { range, matrix, mode, bo, premul: pm == 1, depth, aux });
                                }
                            }
                        }
                    }
                }
            }
        }
        out
    }
    /// Visit every (case without backend) of one function and one width; `f` gets the case together
    /// with the source and the model result, which are shared between layouts and backends.
    pub fn each(&self, ctx: &mut Ctx, op: usize, w: usize, need_exp: bool, f: &mut dyn FnMut(&mut Ctx, &Case, &Comps, Option<&crate::model::Exp>)) {
        let ps = self.params(&ctx.ops[op]);
        for (hi, &h) in self.hs.iter().enumerate() {
            for (fi, &fill) in self.fills.iter().enumerate() {
                for (pi, &p) in ps.iter().enumerate() {
                    // a single layout, tight or padded: every other state takes the other one of the two
                    let turn = (w / 2 + hi + fi + pi) % 2 == 1;
                    let one = [if turn && self.lays[0] == LAYS_ALL[0] { LAYS_ALL[1] } else if turn && self.lays[0] == LAYS_ALL[1] { LAYS_ALL[0] } else { self.lays[0] }];
                    let lays = if self.lays.len() == 1 { &one[..] } else { &self.lays[..] };
                    let l = lays[0];
                    let mut c = Case { op, backend: 0, w, h, fill, p, src_layout: l.0, dst_layout: l.1, place: l.2, pre: l.3 };
                    let (s, e) = mk(&c, &ctx.ops, need_exp);
                    ctx.sh.states.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    for &l in lays {
                        (c.src_layout, c.dst_layout, c.place, c.pre) = l;
                        f(ctx, &c, &s, e.as_ref());
                    }
                }
            }
        }
    }
    pub fn with(mut self, f: impl FnOnce(&mut Space)) -> Space {
        f(&mut self);
        self
    }
}
