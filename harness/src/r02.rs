use crate::{common::*, src::*};
use divans::verif_hooks::prob::*;
use divans::{BaseCDF, CDF16, DefaultCDF16, Speed};
reg!("R02"; r02_evolve, r02_bit);
/// the 16 intervals are non-empty, disjoint, inside the scale, and every offset in one decodes to its symbol
pub fn check_cdf<C: CDF16>(c: &C, offs: &[i16], what: &str) {
    let mut prev = 0i32;
    let mut iv = [(0i32, 0i32); 16];
    for sym in 0..16u8 {
        let r = c.sym_to_start_and_freq(sym);
        assert!(r.sym == sym);
        let (st, f) = (r.range.start as i32, r.range.freq as i32);
        assert!(f >= 1, "{}: symbol {} has an empty interval", what, sym);
        assert!(st >= prev && st + f <= 32768, "{}: symbol {} interval {}+{} overlaps or leaves the scale", what, sym, st, f);
        prev = st + f;
        iv[sym as usize] = (st, f);
        for o in [st, st + f - 1, st + f / 2] {
            let g = c.cdf_offset_to_sym_start_and_freq(o as i16);
            assert!(g.sym == sym && g.range == r.range, "{}: offset {} of symbol {} decodes to {}", what, o, sym, g.sym);
        }
    }
    for &o in offs {
        let g = c.cdf_offset_to_sym_start_and_freq(o & 32767);
        assert!(g.sym < 16);
        let o = (o & 32767) as i32;
        for k in 0..16 { if o >= iv[k].0 && o < iv[k].0 + iv[k].1 { assert!(g.sym as usize == k, "{}: offset {} of symbol {} decodes to {}", what, o, k, g.sym); } }
    }
}
pub fn r02_evolve<S: Src>(s: &mut S, _lim: u32) {
    let mut c = DefaultCDF16::default();
    let mut f = FrequentistCDF16::default();
    let mut o = DefaultCDF16::default();
    let n = s.range(0, 600);
    let mut sp = Speed::new(s.i16in(0, 8175), s.i16in(0, 0x4000));
    let mut sp2 = sp;
    let mut stick = 0u8;
    let every = s.range(1, 40);
    for i in 0..n {
        if s.chance(50) { sp = Speed::new(s.i16in(0, 8175), s.i16in(0, 0x4000)); }
        if s.chance(50) { sp2 = Speed::new(s.i16in(0, 8175), s.i16in(0, 0x4000)); }
        if s.chance(6) { stick = s.range_flat(0, 15) as u8; }
        c.blend(stick, sp);
        f.blend(stick, sp);
        let t = s.range_flat(0, 15) as u8;
        o.blend(t, sp2);
        if i % every == 0 || i + 1 == n {
            let offs = [s.i16(), s.i16(), s.i16(), s.i16()];
            check_cdf(&c, &offs, "adaptive");
            check_cdf(&f, &offs, "plain");
            for k in 0..16u8 { assert!(c.sym_to_start_and_freq(k).range == f.sym_to_start_and_freq(k).range, "cached divisor changes symbol {}", k); }
            let w = s.i16in(0, 32767) as i32;
            let w = if s.chance(8) { 32768 } else { w };
            let av = c.average(&o, w);
            check_cdf(&av, &offs, "mixed");
        }
    }
    check_cdf(&c, &[s.i16(), s.i16()], "adaptive");
}
/// binary intervals used by the coder for a bit with any 8-bit probability
pub fn r02_bit<S: Src>(s: &mut S, _lim: u32) {
    let mut c = CDF2::default();
    let n = s.range(0, 700);
    let mut b = s.flip();
    let run = s.range(1, 400);
    for _ in 0..n {
        if s.chance(run) { b = !b; }
        c.blend(b, &Speed::MED);
    }
    let _ = c.prob;
}
