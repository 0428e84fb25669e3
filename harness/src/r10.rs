//! Mixing weights: starting from any weights, any sequence of updates.
use crate::{common::*, src::*};
use divans::verif_hooks::prob::*;
use divans::verif_hooks::Weights;
use divans::DefaultCDF16;
use divans::Speed;
reg!("R10"; r10_update, r10_session);
fn w<S: Src>(s: &mut S) -> i32 { match s.range_flat(0, 3) { 0 => s.range(1, i32::MAX as u32) as i32, 1 => ((1u32 << s.range_flat(0, 30)) + s.range(0, 2)).min(i32::MAX as u32) as i32, 2 => i32::MAX - s.range(0, 3) as i32, _ => s.range(1, 300) as i32 } }
fn pr<S: Src>(s: &mut S) -> i16 { match s.range_flat(0, 4) { 0 => s.range(1, 4) as i16, 1 => 32767 - s.range(0, 3) as i16, _ => s.range_flat(1, 32767) as i16 } }
pub fn ok(x: &Weights) {
    let v = x.v_weights();
    assert!(v[0] >= 1 && v[1] >= 1, "mixing weights {:?} out of range", v);
    let n = x.norm_weight() as u16;
    assert!(n <= 1 << BLEND_FIXED_POINT_PRECISION, "normalised mixing weight {} out of range", n);
}
pub fn r10_update<S: Src>(s: &mut S, _lim: u32) {
    let mut x = if s.chance(4) { Weights::new() } else { Weights::v_from([w(s), w(s)]) };
    ok(&x);
    let mp = s.range(2, 14) as u8;
    x.set_mixing_param(mp);
    let steps = if s.chance(8) { s.range(1, 3000) } else { s.range(1, 60) };
    let (mut p, mut q) = (DefaultCDF16::default(), DefaultCDF16::default());
    let mode = s.range_flat(0, 3);
    let one = [[pr(s), pr(s)], [pr(s), pr(s)]]; let ow = [pr(s), pr(s)];
    for i in 0..steps as usize {
        let (probs, wp) = match mode {
            0 => ([pr(s), pr(s)], pr(s)),
            1 => (one[i & 1], ow[i & 1]),
            2 => (one[0], ow[0]),
            // as the literal coder does it
            _ => {
                let sym = if s.chance(3) { s.range_flat(0, 15) } else { 3 } as u8;
                let m = p.average(&q, x.norm_weight() as u16 as i32);
                let mut end = 0i32;
                for k in 0..16u8 { let r = m.sym_to_start_and_freq(k).range; assert!(r.freq >= 1 && r.start as i32 >= end && r.start as i32 + r.freq as i32 <= 1 << 15, "mixed table invalid: symbol {} has {}+{}", k, r.start, r.freq); end = r.start as i32 + r.freq as i32; }
                let t = ([p.sym_to_start_and_freq(sym).range.freq, q.sym_to_start_and_freq(sym).range.freq], m.sym_to_start_and_freq(sym).range.freq);
                p.blend(sym, Speed::FAST); q.blend(sym, Speed::GLACIAL);
                t
            }
        };
        // the result depends on nothing but the arguments and the two weights
        let before = x.v_weights();
        x.update(probs, wp);
        ok(&x);
        let mut y = Weights::v_from(before); y.set_mixing_param(mp); y.update(probs, wp);
        assert!(y.v_weights() == x.v_weights() && y.norm_weight() == x.norm_weight(), "the same past gives other mixing weights");
    }
}
pub fn r10_session<S: Src>(s: &mut S, lim: u32) { focus(s, lim, crate::r12::r12_codec::<S>, &["mixing weight", "src/codec/weights.rs"]) }
