//! Short codes for distances and block types.
use crate::{common::*, src::*};
use crate::r12::*;
use divans::verif_hooks::cmd::*;
use divans::CopyCommand;
reg!("R11"; r11_mnemonic, r11_fields, r11_codec);
pub fn r11_mnemonic<S: Src>(s: &mut S, _lim: u32) {
    let (mut e, _d) = pair(s, 10, 0);
    for _ in 0..2000 {
        let mut lru = [0u32; 4];
        let base = match s.range_flat(0, 2) { 0 => s.range(1, 20), 1 => s.range(1, 1 << 24), _ => s.range(1, 0x7fff_ffe0) };
        for x in lru.iter_mut() { *x = if s.flip() { (base as i64 + s.range_flat(0, 12) as i64 - 6).max(1) as u32 } else { s.range(1, 0x7fff_ffe0) }; }
        let d = if s.chance(4) { s.range(1, (1 << 30) - 1) } else { (lru[s.range_flat(0, 3) as usize] as i64 + s.range_flat(0, 12) as i64 - 6).max(1) as u32 };
        let l = s.u32();
        let bk = &mut e.cross_command_state.bk;
        bk.distance_lru = lru;
        let c = bk.distance_mnemonic_code(d, l);
        assert!(c <= 15, "short code {}", c);
        if c < 15 {
            let r = Enc::v_from_mnemonic(&lru, c, l);
            assert!(r == (d, true), "distance {} with recent {:?} gets code {} which decodes to {:?}", d, lru, c, r);
        }
        // what a repeated distance gets
        bk.obs_distance(&CopyCommand { distance: d, num_bytes: l });
        assert!(bk.distance_lru[0] == d, "distance {} observed, memory {:?}", d, bk.distance_lru);
        let c = bk.distance_mnemonic_code(d, l);
        assert!(c < 15, "a repeated distance gets no short code");
    }
}
const KEYS: &[&str] = &["recent distances", "recent block types", "block type", "block switch", "decodes to", "fails", "unread", "more symbols", "Failure", "harness/src/r12.rs", "src/codec/interface.rs", "src/codec/copy.rs", "src/codec/block_type.rs"];
pub fn r11_fields<S: Src>(s: &mut S, lim: u32) { focus(s, lim, r12_fields::<S>, KEYS) }
pub fn r11_codec<S: Src>(s: &mut S, lim: u32) { focus(s, lim, r12_codec::<S>, &["recent distances", "recent block types", "block type", "block switch", "recent lengths"]) }
