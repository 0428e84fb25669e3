use crate::{common::*, src::*};
use crate::r20::{compress_raw, data, gen_cmds, new_c, opts, outbuf, piece, DF};
use divans::{Compressor, Decompressor, DivansDecompressorFactory, DivansOutputResult, DivansResult};
use std::cell::RefCell;
reg!("R07"; r07_trailer, r07_body, r07_written);
fn crc32c(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data { c ^= b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0x82F63B78 } else { c >> 1 }; } }
    !c
}
fn trailer(body: &[u8]) -> [u8; 8] { let c = crc32c(body); [c as u8, (c >> 8) as u8, (c >> 16) as u8, (c >> 24) as u8, b'a', b'n', b's', b'~'] }
const FILES: usize = 24;
thread_local!(static CACHE: RefCell<Vec<Option<(Vec<u8>, Vec<u8>)>>> = RefCell::new(vec![None; FILES]));
/// a file made by the real compressor and what it holds; one of FILES fixed sessions
fn file(k: usize) -> (Vec<u8>, Vec<u8>) {
    CACHE.with(|c| {
        if c.borrow()[k].is_none() {
            let mut r = N { mode: Mode::Random(Rng(k as u64 * 7919 + 5)) };
            let mut o = opts(&mut r); o.window_size = Some(10 + (k % 3) as i32);
            let d = if k == 0 { vec![] } else { data(&mut r, [40, 900, 4000][k % 3]) };
            let mut w = new_c(o);
            let f = if k % 4 != 3 { let f = compress_raw(&mut r, &mut w, &d); (f, d) } else {
                let (cmds, want) = gen_cmds(&mut r, 1 << o.window_size.unwrap());
                let (mut f, mut i, mut b) = (vec![], 0, vec![0u8; 1 << 18]);
                loop { let mut oo = 0; let q = w.encode_commands(&cmds, &mut i, &mut b, &mut oo); f.extend_from_slice(&b[..oo]); if let DivansOutputResult::Success = q { break } }
                loop { let mut oo = 0; let q = w.flush(&mut b, &mut oo); f.extend_from_slice(&b[..oo]); if let DivansOutputResult::Success = q { break } }
                (f, want)
            };
            c.borrow_mut()[k] = Some(f);
        }
        c.borrow()[k].clone().unwrap()
    })
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum End { Good, Bad, More }
/// decodes in random pieces; gives how it ended, the bytes read and the bytes produced
fn run<S: Src>(s: &mut S, f: &[u8], skip: bool, multi: bool) -> (End, usize, Vec<u8>, String) {
    let mut d = <DF as DivansDecompressorFactory<A, A, A>>::new(a(), a(), a(), skip, multi);
    // the bytes before the trailer go in by larger pieces
    let fine = f.len().saturating_sub(s.range(0, 40) as usize);
    let (sf, so) = (s.range_flat(0, 1), s.range_flat(0, 4));
    let (mut pos, mut out, mut idle, mut msg) = (0usize, vec![], 0u32, String::new());
    let end = loop {
        let (st, so) = ([0, 1, 1, 2][s.range_flat(0, 3) as usize], if pos < fine { so } else { s.range_flat(0, 2) });
        let n = if pos < fine { piece(s, if sf == 0 { 0 } else { 3 }, fine - pos) } else { piece(s, st, f.len() - pos) };
        let mut b = vec![0u8; outbuf(s, so)]; let (mut i, mut o) = (0, 0);
        let r = d.decode(&f[pos..pos + n], &mut i, &mut b, &mut o);
        assert!(i <= n && o <= b.len());
        pos += i; out.extend_from_slice(&b[..o]);
        if out.len() > 300_000 { break End::Bad }
        match r {
            DivansResult::Success => break End::Good,
            DivansResult::Failure(e) => { msg = format!("{:?}", e); break End::Bad }
            DivansResult::NeedsMoreInput => if pos == f.len() { idle += 1; if idle > 6 { break End::More } },
            DivansResult::NeedsMoreOutput => {}
        }
    };
    if multi { drop(d) } else { d.free(); }
    (end, pos, out, msg)
}
/// whatever eight bytes stand at the end: success exactly when they are the checksum of the rest and the end mark
pub fn r07_trailer<S: Src>(s: &mut S, _lim: u32) {
    let (mut f, want) = file(s.range_flat(0, FILES as u32 - 1) as usize);
    let body = f.len() - 8;
    let skip = s.flip();
    let good = trailer(&f[..body]);
    assert!(f[body..] == good, "the compressor's trailer is {:?}, the checksum of the file is {:?}", &f[body..], good);
    match s.range_flat(0, 5) {
        0 => {}
        1 => { let i = s.range_flat(0, 7) as usize; f[body + i] ^= 1 << s.range_flat(0, 7) }
        2 => { let i = s.range_flat(0, 7) as usize; f[body + i] = s.u8() }
        3 => { let (i, j) = (s.range_flat(0, 7) as usize, s.range_flat(0, 7) as usize); f.swap(body + i, body + j) }
        4 => { for i in 0..8 { f[body + i] = s.u8() } }
        _ => { for i in 0..4 { f[body + i] = s.u8() } }
    }
    let cut = if s.chance(4) { s.range_flat(1, 8) as usize } else { 0 };
    let tail = if cut == 0 && s.chance(3) { s.range_flat(1, 9) as usize } else { 0 };
    let ok = f[body + 4..] == good[4..] && (skip || f[body..body + 4] == good[..4]);
    f.truncate(body + 8 - cut);
    let full = f.len();
    for k in 0..tail { f.push(if k < 4 { good[4 + k] } else { 0 }) }
    let multi = cut == 0 && s.chance(8);
    let (end, pos, out, msg) = run(s, &f, skip, multi);
    assert!(want.starts_with(&out), "wrong bytes");
    if cut > 0 { assert!(end != End::Good, "accepts a file cut inside its trailer"); }
    else if ok { assert!(end == End::Good, "refuses a correct trailer: {}", msg); assert!(out == want && pos == full, "stops at byte {} of {}", pos, full); }
    else { assert!(end == End::Bad, "trailer {:?} instead of {:?} is {} (skip {})", &f[body..body + 8], good, if end == End::Good { "accepted" } else { "not reported" }, skip); assert!(msg.contains("BadChecksum"), "reports {}", msg); }
}
/// changes before the trailer, the header's unused bytes included: never a success with checksums on
pub fn r07_body<S: Src>(s: &mut S, _lim: u32) {
    let (mut f, _) = file(s.range_flat(0, FILES as u32 - 1) as usize);
    let body = f.len() - 8;
    let orig = f.clone();
    let k = s.range(1, 3);
    for _ in 0..k {
        let i = match s.range_flat(0, 3) { 0 => s.range_flat(4, 15), 1 => s.range_flat(16, body as u32 - 1), 2 => body as u32 - 1 - s.range(0, 5), _ => s.range_flat(0, body as u32 - 1) } as usize;
        f[i] ^= 1 << s.range_flat(0, 7);
    }
    let fixed = s.flip();
    if fixed { let t = trailer(&f[..body]); f[body..].copy_from_slice(&t) }
    let (end, pos, _, _) = run(s, &f, false, false);
    // a success must be for a prefix that ends in its own checksum
    if end == End::Good { assert!(pos >= 24 && f[pos - 8..pos] == trailer(&f[..pos - 8]), "accepts a changed file: bytes {:?}", (0..f.len()).filter(|i| f[*i] != orig[*i]).collect::<Vec<_>>()); }
    // bytes 6.. of the header carry nothing: with the checksum redone the file is as good as before
    if fixed && (0..f.len()).all(|i| (6..16).contains(&i) || i >= body || f[i] == orig[i]) { assert!(end == End::Good, "the checksum of the changed header is not the one expected"); }
}
/// the compressor's own trailer, written into any pieces
pub fn r07_written<S: Src>(s: &mut S, _lim: u32) {
    let mut o = opts(s); o.window_size = Some(s.range(10, 12) as i32);
    let d = data(s, 300);
    let mut c = new_c(o);
    let f = compress_raw(s, &mut c, &d);
    let body = f.len() - 8;
    assert!(f[body..] == trailer(&f[..body]), "trailer {:?} after {} bytes with checksum {:?}", &f[body..], body, trailer(&f[..body]));
}
