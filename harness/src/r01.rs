use crate::{common::*, src::*};
use divans::verif_hooks::{ans_::*, prob::*};
use divans::interface::{ArithmeticEncoderOrDecoder, NewWithAllocator, ReadableBytes, WritableBytes};
use divans::{BaseCDF, CDF16, DefaultCDF16, DivansResult, Speed};
reg!("R01"; r01_stream, r01_long, r01_raw, r01_feed);

fn drain<S: Src>(s: &mut S, e: &mut ANSEncoder<A>, out: &mut Vec<u8>) {
    let mut guard = 0u32;
    loop {
        let n = if s.flip() { 1usize << 18 } else { s.range(0, 40) as usize };
        let mut buf = vec![0u8; n];
        let mut off = 0usize;
        let mut none = 0usize;
        let r = e.drain_or_fill_internal_buffer_unchecked(&mut ReadableBytes { data: &[], read_offset: &mut none },
            &mut WritableBytes { data: &mut buf[..], write_offset: &mut off });
        assert!(off <= n);
        out.extend_from_slice(&buf[..off]);
        match r {
            DivansResult::Success => { assert!(!e.has_data_to_drain_or_fill()); return }
            DivansResult::NeedsMoreOutput => { assert!(off == n, "asks for more room with room left") }
            _ => panic!("encoder failed"),
        }
        guard += 1;
        if guard > 200 { let mut off = 0; let mut buf = vec![0u8; 1 << 18]; let mut none = 0usize;
            let _ = e.drain_or_fill_internal_buffer_unchecked(&mut ReadableBytes { data: &[], read_offset: &mut none }, &mut WritableBytes { data: &mut buf[..], write_offset: &mut off });
            out.extend_from_slice(&buf[..off]); return }
    }
}
// make the decoder ready for the next symbol, handing it the stream in arbitrary pieces
fn fill<S: Src>(s: &mut S, d: &mut ANSDecoder, inp: &[u8], pos: &mut usize) {
    let mut zero = 0;
    while d.has_data_to_drain_or_fill() {
        let left = inp.len() - *pos;
        assert!(left > 0, "decoder wants bytes the encoder never wrote");
        let n = if s.flip() { left } else { s.range(0, 20) as usize % (left + 1) };
        zero = if n == 0 { zero + 1 } else { 0 };
        let n = if zero > 20 { left } else { n };
        let mut off = 0usize;
        let mut none = 0usize;
        let r = d.drain_or_fill_internal_buffer_unchecked(&mut ReadableBytes { data: &inp[*pos..*pos + n], read_offset: &mut off },
            &mut WritableBytes { data: &mut [], write_offset: &mut none });
        assert!(off <= n);
        *pos += off;
        match r { DivansResult::Success => { return }, DivansResult::NeedsMoreInput => { assert!(off == n, "asks for more with bytes left") }, _ => panic!("decoder failed") }
    }
}
#[derive(Clone, Copy)]
enum Op { Bit(bool, u8), Nib(u8, usize), Raw(i16, i16) }
fn session<S: Src>(s: &mut S, ops: &[Op], ncdf: usize, speed: Speed) {
    let mut m = a();
    let mut e = <ANSEncoder<A> as NewWithAllocator<A>>::new(&mut m);
    let mut out = vec![];
    let mut cdfs = vec![DefaultCDF16::default(); ncdf];
    for op in ops {
        match *op {
            Op::Bit(b, p) => { let mut b = b; e.get_or_put_bit_without_billing(&mut b, p) }
            Op::Nib(n, c) => { let mut n = n; e.get_or_put_nibble_without_billing(&mut n, &cdfs[c]); cdfs[c].blend(n, speed) }
            Op::Raw(st, f) => e.v_put(st, f),
        }
        if e.has_data_to_drain_or_fill() { drain(s, &mut e, &mut out) }
    }
    match e.close() { DivansResult::Success => {}, _ => panic!("close failed") }
    drain(s, &mut e, &mut out);
    let mut d = <ANSDecoder as NewWithAllocator<A>>::new(&mut m);
    let mut cdfs = vec![DefaultCDF16::default(); ncdf];
    // bytes of whatever follows in the container must not be touched
    let total = out.len();
    out.extend_from_slice(&[0xAA; 24]);
    let mut pos = 0;
    for (i, op) in ops.iter().enumerate() {
        fill(s, &mut d, &out, &mut pos);
        match *op {
            Op::Bit(b, p) => { let mut g = false; d.get_or_put_bit_without_billing(&mut g, p); assert!(g == b, "bit {} decoded wrong", i) }
            Op::Nib(n, c) => { let mut g = 0; d.get_or_put_nibble_without_billing(&mut g, &cdfs[c]); assert!(g == n, "nibble {} decoded wrong", i); cdfs[c].blend(n, speed) }
            Op::Raw(st, f) => { let o = d.v_offset(); assert!(o >= st && (o as i32) < st as i32 + f as i32, "symbol {} decoded wrong", i); d.v_advance(st, f) }
        }
        assert!(pos <= total, "decoder read past the end of the stream");
    }
    assert!(pos == total, "decoder consumed {} of {} bytes", pos, total);
}
fn speed<S: Src>(s: &mut S) -> Speed { let i = s.i16in(0, 8175); let l = s.i16in(0, 0x4000); Speed::new(i, l) }
fn op<S: Src>(s: &mut S, ncdf: usize) -> Op {
    match s.range_flat(0, 3) {
        0 => Op::Bit(s.flip(), s.u8()),
        1 => { let f = s.i16in(1, 32767); let st = s.i16in(0, (32768i32 - f as i32).min(32767) as i16); Op::Raw(st, f) }
        _ => Op::Nib(s.range_flat(0, 15) as u8, s.range_flat(0, ncdf as u32 - 1) as usize),
    }
}
/// short streams: any mix of bits, nibbles and raw ranges
pub fn r01_stream<S: Src>(s: &mut S, _lim: u32) {
    let ncdf = s.range(1, 3) as usize;
    let sp = speed(s);
    let n = s.range(1, 400) as usize;
    let skew = s.chance(3);
    let ops: Vec<Op> = (0..n).map(|_| if skew { Op::Nib(3, 0) } else { op(s, ncdf) }).collect();
    session(s, &ops, ncdf, sp);
}
/// streams around the 65536-symbol chunk size
pub fn r01_long<S: Src>(s: &mut S, _lim: u32) {
    let ncdf = 2;
    let sp = speed(s);
    let k = s.range_flat(1, 2) as usize;
    let n = 65536 * k + s.range_flat(0, 6) as usize - 3;
    let kind = s.range_flat(0, 3);
    let base: Vec<Op> = (0..37).map(|_| match kind { 0 => Op::Raw(0, 1), 1 => Op::Raw(0, 32767), 2 => Op::Bit(true, 255), _ => op(s, ncdf) }).collect();
    let ops: Vec<Op> = (0..n).map(|i| base[(i * 7 + i / 37) % base.len()]).collect();
    session(s, &ops, ncdf, sp);
}
/// raw extreme ranges
pub fn r01_raw<S: Src>(s: &mut S, _lim: u32) {
    let n = s.range(1, 300) as usize;
    let ops: Vec<Op> = (0..n).map(|_| { let f = s.i16in(1, 32767); let st = if s.flip() { (32768 - f as i32).min(32767) as i16 } else { s.i16in(0, (32768 - f as i32).min(32767) as i16) }; Op::Raw(st, f) }).collect();
    session(s, &ops, 1, Speed::new(0, 0));
}
/// Refill contract from ANY decoder state: one call on a slice of length n leaves the decoder exactly as the byte-at-a-time
/// specification does, whatever the split.
pub fn r01_feed<S: Src>(s: &mut S, lim: u32) {
    let (sa, sb) = (s.u64(), s.u64());
    let rb = s.u8() & 1;
    let ra = s.u8();
    s.assume(ra <= 4 || ra == 8 || ra == 9 || (ra >= 16 && ra < 32));
    s.assume(ra < 8 || rb == 0); // a well-formed chunk ends with both registers at their start value
    s.assume(ra != 1 || sa < 1 << 31);
    s.assume(ra < 2 || ra > 4 || (sa >> 32) < (1 << 31) && (sa & 0xffff_ffff) >> ((ra - 1) * 8) == 0);
    let filled = if ra >= 16 { (ra - 16) as u32 } else { 0 };
    if ra >= 16 { // bytes not received yet are zero
        s.assume(if filled < 8 { sa >> (8 * filled) == 0 && sb == 0 } else { filled == 8 && sb == 0 || filled > 8 && sb >> (8 * (filled - 8)) == 0 });
    }
    let n = if lim > 0 { 17 } else { 24 };
    let len = s.range(0, n) as usize;
    let mut data = [0u8; 24];
    for i in 0..n as usize { data[i] = s.u8(); }
    let cnt = s.u16();
    let mut d = ANSDecoder::v_set(sa, sb, cnt, ra, rb);
    assert!((d.num_push_bytes_avail() == 0) == (ra == 0));
    let got = d.push_data(&data[..len]);
    // specification
    let (mut a, mut b, mut c, mut r) = (sa, sb, cnt, ra);
    let mut used = 0usize;
    if (r == 8 || r == 9) && true { a = 0; b = 0; c = 0; r = 16; }
    while used < len && r != 0 {
        if r < 5 {
            if r == 1 { a <<= 32; }
            a |= (data[used] as u64) << ((r - 1) * 8);
            r = if r == 4 { 0 } else { r + 1 };
        } else {
            let k = (r - 16) as u32;
            if k < 8 { a |= (data[used] as u64) << (8 * k); } else { b |= (data[used] as u64) << (8 * (k - 8)); }
            r = if r == 31 { 0 } else { r + 1 };
        }
        used += 1;
    }
    assert!(got == used, "consumed {} of a refill that needs {}", got, used);
    let (a2, b2, c2, r2, rb2) = d.v_get();
    assert!(a2 == a && b2 == b && c2 == c && rb2 == rb && r2 == r, "decoder registers after refill");
}
