use crate::{common::*, src::*};
use crate::r20::{data, outbuf, piece};
use divans::*;
use divans::verif_hooks::capi::{c_void, CAllocator};
use std::collections::HashMap;
reg!("R17"; r17_session, r17_helpers);
/// the caller's allocator: every block is remembered until it is returned, and is full of `fill` when handed out
struct Track { live: HashMap<usize, usize>, fill: u8, errs: Vec<String>, count: u64, zero: Vec<usize> }
fn layout(n: usize) -> std::alloc::Layout { std::alloc::Layout::from_size_align(n.max(1), 64).unwrap() }
extern "C" fn t_alloc(d: *mut c_void, n: usize) -> *mut c_void {
    let t = unsafe { &mut *(d as *mut Track) };
    let p = unsafe { std::alloc::alloc(layout(n)) };
    unsafe { std::ptr::write_bytes(p, t.fill, n) }
    t.count += 1; t.live.insert(p as usize, n); p as *mut c_void
}
extern "C" fn t_free(d: *mut c_void, p: *mut c_void) {
    let t = unsafe { &mut *(d as *mut Track) };
    match t.live.remove(&(p as usize)) {
        Some(n) => unsafe { std::ptr::write_bytes(p as *mut u8, !t.fill, n); std::alloc::dealloc(p as *mut u8, layout(n)) },
        None => t.errs.push(format!("a block that is not the caller's is returned ({} live)", t.live.len())),
    }
}
impl Track {
    fn new(fill: u8) -> Box<Track> { Box::new(Track { live: HashMap::new(), fill, errs: vec![], count: 0, zero: vec![] }) }
    fn ca(&mut self) -> CAllocator { CAllocator { alloc_func: Some(t_alloc), free_func: Some(t_free), opaque: self as *mut Track as *mut c_void } }
    fn done(&mut self, what: &str) {
        assert!(self.errs.is_empty(), "{}: {}", what, self.errs[0]);
        let mut l: Vec<usize> = self.live.values().cloned().collect(); l.sort();
        let out = format!("{}: {} of {} blocks never returned, sizes {:?}", what, l.len(), self.count, &l[..l.len().min(6)]);
        for (p, n) in self.live.drain() { unsafe { std::alloc::dealloc(p as *mut u8, layout(n)) } }
        assert!(l.is_empty(), "{}", out);
    }
}
#[derive(Clone)]
struct Plan { opts: Vec<(u8, u32)>, ins: Vec<usize>, outs: Vec<usize>, stop: u32, skip: u8 }
/// one compression through the C interface; None if it was stopped or failed
fn compress(p: &Plan, d: &[u8], fill: u8) -> (Option<Vec<u8>>, Vec<u8>) {
    let mut t = Track::new(fill);
    let mut trace = vec![]; let mut comp = vec![]; let mut whole = false;
    unsafe {
        let st = divans_new_compressor_with_custom_alloc(t.ca());
        for (k, v) in &p.opts { trace.push(divans_set_option(st, *k, *v)); }
        let (mut i, mut o, mut calls, mut pos, mut bad) = (0, 0, 0u32, 0usize, false);
        while pos < d.len() && calls < p.stop {
            calls += 1;
            let n = p.ins[i % p.ins.len()].min(d.len() - pos); i += 1;
            let mut b = vec![0u8; p.outs[o % p.outs.len()]]; o += 1;
            let (mut io, mut oo) = (0usize, 0usize);
            let r = divans_encode(st, d[pos..].as_ptr(), n, &mut io, b.as_mut_ptr(), b.len(), &mut oo);
            trace.push(r); pos += io; comp.extend_from_slice(&b[..oo]);
            if r == 3 { bad = true; break }
        }
        while !bad && calls < p.stop {
            calls += 1;
            let mut b = vec![0u8; p.outs[o % p.outs.len()]]; o += 1; let mut oo = 0usize;
            let r = divans_encode_flush(st, b.as_mut_ptr(), b.len(), &mut oo);
            trace.push(r); comp.extend_from_slice(&b[..oo]);
            if r == 0 { whole = true; break }
            if r == 3 { break }
        }
        divans_free_compressor(st);
    }
    t.done(if whole { "compression" } else { "abandoned compression" });
    trace.extend_from_slice(&comp);
    (if whole { Some(comp) } else { None }, trace)
}
fn decompress(p: &Plan, c: &[u8], fill: u8, what: &str) -> (bool, Vec<u8>, Vec<u8>) {
    let mut t = Track::new(fill);
    let mut trace = vec![]; let mut out = vec![]; let mut ok = false;
    unsafe {
        let st = divans_new_decompressor_with_custom_alloc(t.ca(), p.skip, 0);
        let (mut i, mut o, mut calls, mut pos) = (0, 0, 0u32, 0usize);
        while calls < p.stop {
            calls += 1;
            let n = p.ins[i % p.ins.len()].min(c.len() - pos); i += 1;
            let mut b = vec![0u8; p.outs[o % p.outs.len()]]; o += 1;
            let (mut io, mut oo) = (0usize, 0usize);
            let r = divans_decode(st, c[pos..].as_ptr(), n, &mut io, b.as_mut_ptr(), b.len(), &mut oo);
            trace.push(r); pos += io; out.extend_from_slice(&b[..oo]);
            if r == 0 { ok = true; break }
            if r == 3 || (r == 1 && pos == c.len()) { break }
        }
        divans_free_decompressor(st);
    }
    t.done(what);
    trace.extend_from_slice(&out);
    (ok, out, trace)
}
fn plan<S: Src>(s: &mut S, n: usize) -> Plan {
    let mut opts = vec![(2u8, s.range(10, 16))];
    opts.push((5, if s.chance(5) { s.range_flat(0, 2) } else { s.range_flat(0, 1) }));
    for k in [1u8, 3, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20] {
        if s.chance(3) {
            opts.push((k, match k { 1 => s.range_flat(0, 11), 3 => s.range_flat(16, 18), 4 => s.range_flat(0, 7), 7 => s.range_flat(0, 1), 9 => s.range_flat(0, 8), 10 => s.range_flat(0, 3),
                8 | 12 | 13 | 14 => s.range_flat(0, 20), 11 => s.range_flat(0, 15), 15 => s.range_flat(0, 540), 16 => s.range_flat(0, 2), 19 => s.range_flat(0, 3), _ => s.range_flat(0, 1) }));
        }
    }
    let (si, so) = if n > 5000 { (4, 4) } else { (s.range_flat(0, 4), s.range_flat(0, 4)) };
    let k = s.range(1, 6);
    let mut ins: Vec<usize> = (0..k).map(|_| piece(s, si, n)).collect(); ins.push(n.max(1));
    let mut outs: Vec<usize> = (0..k).map(|_| outbuf(s, so)).collect(); outs.push(if n > 5000 { 70_000 } else { 1 + n });
    Plan { opts, ins, outs, stop: if s.chance(4) { s.range(0, 30) } else { 1 << 20 }, skip: s.range_flat(0, 1) as u8 }
}
pub fn r17_session<S: Src>(s: &mut S, _lim: u32) {
    let max = if s.chance(20) { 30_000 } else if s.flip() { 2000 } else { 60 };
    let d = data(s, max);
    let p = plan(s, d.len());
    let (c, t1) = compress(&p, &d, 0);
    let (_, t2) = compress(&p, &d, 0xb7);
    assert!(t1 == t2, "the compressed bytes depend on what fresh blocks contain");
    let mut c = match c { Some(c) => c, None => return };
    let q = plan(s, c.len());
    let hurt = s.chance(3);
    if hurt {
        if s.flip() { let k = s.range(0, c.len() as u32) as usize; c.truncate(k) }
        else { for _ in 0..s.range(1, 4) { let k = s.range_flat(0, c.len() as u32 - 1) as usize; c[k] ^= 1 << s.range_flat(0, 7) } }
    }
    let (ok, out, t1) = decompress(&q, &c, 0, "decompression");
    let (_, _, t2) = decompress(&q, &c, 0xb7, "decompression");
    assert!(t1 == t2, "the decompressed bytes depend on what fresh blocks contain");
    if !hurt && ok && p.opts[1].1 != 2 { assert!(out == d, "wrong bytes through the C interface") }
}
macro_rules! give { ($c:expr, $d:expr, $k:expr, $p:expr, $n:expr) => {
    match $k { 0 => divans_compressor_free_u8($c, $p as *mut u8, $n), 1 => divans_compressor_free_usize($c, $p as *mut usize, $n), 2 => divans_decompressor_free_u8($d, $p as *mut u8, $n), _ => divans_decompressor_free_usize($d, $p as *mut usize, $n) }
} }
/// the four pairs of helper functions hand out and take back the caller's blocks; without a free function (an arena) the caller keeps them,
/// and without an allocation function nothing of the caller's is called
pub fn r17_helpers<S: Src>(s: &mut S, _lim: u32) {
    let mut t = Track::new(0x5a);
    let kind = s.range_flat(0, 2);
    let mut ca = t.ca();
    if kind == 1 { ca.alloc_func = None }
    if kind == 2 { ca.free_func = None }
    unsafe {
        let c = divans_new_compressor_with_custom_alloc(ca.clone()); let d = divans_new_decompressor_with_custom_alloc(ca, 0, 0);
        let mut held: Vec<(u32, usize, usize)> = vec![];
        for _ in 0..s.range(0, 20) {
            if s.flip() || held.is_empty() {
                let k = s.range_flat(0, 3); let n = s.range(0, 300) as usize;
                let p = match k { 0 => divans_compressor_malloc_u8(c, n) as usize, 1 => divans_compressor_malloc_usize(c, n) as usize, 2 => divans_decompressor_malloc_u8(d, n) as usize, _ => divans_decompressor_malloc_usize(d, n) as usize };
                let want = if k & 1 == 1 { 8 * n } else { n };
                if kind != 1 { assert!(t.live.get(&p).map_or(false, |z| *z >= want), "a block of {} bytes is not the caller's", want); }
                held.push((k, p, n));
            } else {
                let i = s.range_flat(0, held.len() as u32 - 1) as usize; let (k, p, n) = held.swap_remove(i); let before = t.live.len();
                give!(c, d, k, p, n);
                if kind == 0 { assert!(t.live.len() + 1 == before, "a block was not returned"); }
                if kind == 2 && n >= 16 { assert!((0..n).all(|j| *((p + j) as *const u8) == 0x5a), "a block of the caller's was freed by somebody else"); }
            }
        }
        for (k, p, n) in held { if kind != 2 { give!(c, d, k, p, n) } }
        if kind == 1 { assert!(t.errs.is_empty(), "a block that is not the caller's is returned"); }
        divans_free_compressor(c); divans_free_decompressor(d);
    }
    if kind == 2 { for (p, n) in t.live.drain() { unsafe { std::alloc::dealloc(p as *mut u8, layout(n)) } } }
    t.done("helpers");
}
