use crate::{common::*, src::*};
use divans::verif_hooks::{header::*, crc::default_crc};
use divans::{DivansOutputResult, DivansInputResult, DivansResult, StaticCommand};
use std::hash::Hasher;
reg!("R08"; r08_header, r08_reject);
type HP = HeaderParser<A, A, A>;
fn hp() -> HP { HeaderParser { header: [0; 16], read_offset: 0, m8: None, mcdf16: None, mcommand: None, skip_crc: false, multithread: false } }
pub fn spec(w: u8) -> [u8; 16] { let mut h = [0u8; 16]; h[0] = 0xff; h[1] = 0xe5; h[2] = 0x8c; h[3] = 0x9f; h[5] = w; h }
/// writer in arbitrary pieces, then parser in arbitrary pieces
pub fn r08_header<S: Src>(s: &mut S, lim: u32) {
    let w = s.range(10, 24) as u8;
    assert!(make_header(w) == spec(w), "header bytes");
    let mut progress = 0usize;
    let mut out = [0u8; 24];
    let mut off = s.range(0, 8) as usize;
    let base = off;
    let mut crc = default_crc();
    let mut step = 0;
    loop {
        let end = (off + s.range(0, 24) as usize).min(24);
        let old = off;
        match write_header(&mut progress, w, &mut out[..end], &mut off, &mut crc) {
            DivansOutputResult::Success => break,
            DivansOutputResult::NeedsMoreOutput => { assert!(off == end && off >= old) }
            _ => panic!("header write failed"),
        }
        step += 1;
        if lim > 0 && step >= lim { return }
        if step > 200 { return }
    }
    assert!(off == base + 16 && out[base..off] == spec(w)[..], "header written in pieces differs");
    let mut c2 = default_crc();
    c2.write(&spec(w));
    assert!(crc.finish() == c2.finish(), "header checksum");
    let mut p = hp();
    p.multithread = s.flip();
    let mut pos = base;
    let mut step = 0;
    loop {
        let end = (pos + s.range(0, 24) as usize).min(24);
        let (ws, multi, r) = p.decode(&out[..end], &mut pos);
        match r {
            DivansInputResult::Success => { assert!(ws == w as usize && multi == p.multithread && pos == off, "header parsed to window {}", ws); assert!(p.header == spec(w)); return }
            DivansInputResult::NeedsMoreInput => { assert!(pos == end && end < off, "header needs more than 16 bytes") }
            _ => panic!("valid header rejected"),
        }
        step += 1;
        if lim > 0 && step >= lim { return }
        if step > 200 { return }
    }
}
/// any 16 bytes: accepted iff magic and window are right
pub fn r08_reject<S: Src>(s: &mut S, lim: u32) {
    let mut h = spec(s.u8());
    if lim > 0 { for i in 0..16 { h[i] = s.u8(); } }
    else { for _ in 0..s.range(0, 3) { let i = s.range_flat(0, 15) as usize; h[i] = s.u8(); } }
    let good = h[0] == 0xff && h[1] == 0xe5 && h[2] == 0x8c && h[3] == 0x9f && h[5] >= 10 && h[5] <= 24;
    let mut p = hp();
    p.header = h;
    match p.parse_header() { Ok(w) => assert!(good && w == h[5] as usize, "bad header accepted"), Err(_) => assert!(!good, "good header rejected") }
    let mut p = hp();
    let mut pos = 0;
    let (w, _, r) = p.decode(&h, &mut pos);
    match r { DivansInputResult::Success => assert!(good && w == h[5] as usize && pos == 16, "bad header accepted"),
              DivansInputResult::NeedsMoreInput => panic!("16 bytes are a whole header"), _ => assert!(!good, "good header rejected") }
}
