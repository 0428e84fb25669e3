use crate::{common::*, src::*};
use divans::verif_hooks::prob::*;
reg!("R03"; r03_div30, r03_div16, r03_tables);
pub fn r03_div30<S: Src>(s: &mut S, _lim: u32) {
    for _ in 0..2000 {
        let d = s.u16in(1, 32767) as i16;
        let k = s.u32() & 0x7fff_ffff;
        let num = if s.flip() { let q = k / d as u32; (q * d as u32).wrapping_sub(s.u8() as u32 & 1) & 0x7fff_ffff } else { k };
        let num = num as i32;
        assert!(fast_divide_30bit_by_16bit(num, lookup_divisor(d)) == num / d as i32, "{} / {}", num, d);
        assert!(fast_divide_30bit_by_16bit(num, compute_divisor(d)) == num / d as i32, "{} / {} (computed)", num, d);
    }
}
pub fn r03_div16<S: Src>(s: &mut S, _lim: u32) {
    for _ in 0..2000 {
        let d = s.range(1, 255) as u8;
        let num = s.u16();
        let q = (num / d as u16) as i16;
        assert!(fast_divide_16bit_by_8bit(num, lookup_divisor8(d)) == q, "{} / {}", num, d);
        assert!(fast_divide_16bit_by_8bit(num, compute_divisor8(d)) == q, "{} / {} (computed)", num, d);
    }
}
/// complete enumeration: the conditions the division contracts assume of every table entry
pub fn r03_tables<S: Src>(_s: &mut S, _lim: u32) {
    assert!(RECIPROCAL.len() >= 32768 && RECIPROCAL8.len() >= 256);
    for d in 1..=32767i64 {
        let (m, sh) = lookup_divisor(d as i16);
        let sh = sh as i64;
        assert!(0 <= sh && sh < 15 && m > 0 && m <= (1 << 31) + 1, "reciprocal of {}", d);
        let p = ((1i128 << 31) + m as i128) * d as i128;
        assert!((1i128 << (32 + sh)) < p && p <= (1i128 << (32 + sh)) + (1i128 << (sh + 1)), "reciprocal of {}", d);
        let c = compute_divisor(d as i16);
        assert!(c == (m, sh as u8), "computed reciprocal of {}", d);
    }
    for d in 1..=255i64 {
        let m = lookup_divisor8(d as u8) as i64;
        assert!((1i64 << 24) < m * d && m * d <= (1 << 24) + 256, "8-bit reciprocal of {}", d);
    }
}
