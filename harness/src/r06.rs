use crate::{common::*, src::*};
use divans::verif_hooks::crc::*;
use std::hash::Hasher;
reg!("R06"; r06_crc, r06_table);
pub fn bitwise(crc: u32, data: &[u8]) -> u32 {
    let mut c = !crc;
    for &b in data { c ^= b as u32; let mut i = 0; while i < 8 { c = if c & 1 == 1 { (c >> 1) ^ 0x82F63B78 } else { c >> 1 }; i += 1; } }
    !c
}
pub fn r06_crc<S: Src>(s: &mut S, lim: u32) {
    let max = if lim > 0 { lim } else { 300 };
    let init = if lim == 0 && s.flip() { 0 } else { s.u32() };
    let n = s.range(0, max) as usize;
    let d = s.bytes(n);
    let want = bitwise(init, &d);
    assert!(fallback_crc32c_update(init, &d) == want, "checksum of {} bytes", n);
    assert!(crc32c_update(init, &d) == want, "checksum of {} bytes", n);
    if lim == 0 {
        let cut = s.range(0, n as u32) as usize;
        assert!(crc32c_update(crc32c_update(init, &d[..cut]), &d[cut..]) == want, "checksum in two pieces");
        let mut h = default_crc();
        assert!(h.finish() == 0);
        h.write(&d[..cut]);
        h.write(&d[cut..]);
        assert!(h.finish() == bitwise(0, &d) as u64);
    }
}
/// complete enumeration of the slicing tables
pub fn r06_table<S: Src>(_s: &mut S, _lim: u32) {
    for k in 0..16usize { for b in 0..256usize {
        let mut c = b as u32;
        for _ in 0..8 * (k + 1) { c = if c & 1 == 1 { (c >> 1) ^ 0x82F63B78 } else { c >> 1 }; }
        assert!(TABLE16[k][b] == c, "table {} entry {}", k, b);
    } }
}
