use crate::{common::*, src::*};
use crate::r20::{compress_raw, data, gen_cmds, new_c, opts, piece, DF};
use divans::{Command, LiteralCommand, FeatureFlagSliceType, DivansCompressorOptions, Compressor, Decompressor, DivansDecompressorFactory, DivansOutputResult, DivansResult};
reg!("R18"; r18_noise, r18_mutant, r18_chunk);
/// feeds hostile bytes in random pieces; every call must return, and a caller that offers bytes and room must see progress
fn feed<S: Src>(s: &mut S, f: &[u8]) { feed_from(s, f, None) }
fn feed_from<S: Src>(s: &mut S, f: &[u8], first: Option<usize>) {
    let mut d = <DF as DivansDecompressorFactory<A, A, A>>::new(a(), a(), a(), s.chance(2), false);
    let (si, so) = (s.range_flat(0, 4), s.range_flat(0, 4));
    let (mut pos, mut total, mut idle) = (0usize, 0usize, 0u32);
    loop {
        let n = match first { Some(p) if pos < p => p - pos, _ => piece(s, si, f.len() - pos) };
        let cap = crate::r20::outbuf(s, so);
        let mut b = vec![0xa5u8; cap]; let (mut i, mut o) = (0, 0);
        let r = d.decode(&f[pos..pos + n], &mut i, &mut b, &mut o);
        assert!(i <= n && o <= cap, "consumed {} of {} bytes, produced {} of {}", i, n, o, cap);
        for x in &b[o..] { assert!(*x == 0xa5, "decode writes past the reported output"); }
        pos += i; total += o;
        match r {
            DivansResult::Success => break,
            DivansResult::Failure(_) => break,
            DivansResult::NeedsMoreInput => if pos == f.len() { break },
            DivansResult::NeedsMoreOutput => {}
        }
        if i == 0 && o == 0 && cap > 0 && (n > 0 || pos == f.len()) { idle += 1 } else if i > 0 || o > 0 { idle = 0 }
        assert!(idle < 256, "decode makes no progress at byte {} of {} ({} out): {:?}", pos, f.len(), total, r);
        if total > 400_000 { break }
    }
    d.free();
}
fn header<S: Src>(s: &mut S) -> Vec<u8> { let mut h = vec![0u8; 16]; h[0] = 0xff; h[1] = 0xe5; h[2] = 0x8c; h[3] = 0x9f; h[5] = if s.chance(20) { s.u8() } else { s.range(10, 16) as u8 }; h }
/// noise behind a valid file header, mostly framed as valid chunks of the two streams
pub fn r18_noise<S: Src>(s: &mut S, _lim: u32) {
    let mut f = if s.chance(20) { s.bytes(16) } else { header(s) };
    let mut x = s.u64() | 1;
    let style = s.range_flat(0, 3);
    let mut noise = |k: usize| -> Vec<u8> { (0..k).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); match style { 0 => (x >> 56) as u8, 1 => if x >> 62 == 0 { (x >> 50) as u8 } else { 0 }, 2 => if x >> 62 == 0 { (x >> 50) as u8 } else { 0xff }, _ => (x >> 56) as u8 & 0x3f } }).collect() };
    let k = s.range(0, 8);
    for _ in 0..k {
        match s.range_flat(0, 5) {
            0 => { let n = s.range(0, 40) as usize; f.extend(noise(n)) }
            1 => { f.push(s.range_flat(0, 1) as u8 | 0x10); f.extend(noise(4096)) }
            _ => { let n = s.range(1, 700) as usize; f.extend(&[s.range_flat(0, 1) as u8, (n - 1) as u8, ((n - 1) >> 8) as u8]); f.extend(noise(n)) }
        }
    }
    if s.flip() { f.extend(&[0xff, 0xfe, 0xff]) }
    let n = s.range(0, 12) as usize; f.extend(noise(n));
    feed(s, &f)
}
/// a valid file with bytes changed, removed, inserted or cut off
pub fn r18_mutant<S: Src>(s: &mut S, _lim: u32) {
    let mut o = opts(s); o.window_size = Some(s.range(10, 13) as i32); 
    let mut c = new_c(o);
    let mut f = if s.flip() { let d = data(s, 3000); compress_raw(s, &mut c, &d) } else {
        let (cmds, _) = gen_cmds(s, 1 << o.window_size.unwrap());
        let mut f = vec![]; let mut i = 0;
        let mut b = vec![0u8; 1 << 20];
        loop { let mut oo = 0; let r = c.encode_commands(&cmds, &mut i, &mut b, &mut oo); f.extend_from_slice(&b[..oo]); if let DivansOutputResult::Success = r { break } }
        loop { let mut oo = 0; let r = c.flush(&mut b, &mut oo); f.extend_from_slice(&b[..oo]); if let DivansOutputResult::Success = r { break } }
        f
    };
    let n = s.range(1, 6);
    for _ in 0..n {
        if f.len() < 18 { break }
        let at = s.range(16, f.len() as u32 - 1) as usize;
        match s.range_flat(0, 5) {
            0 => f[at] = s.u8(),
            1 => f[at] ^= 1 << s.range_flat(0, 7),
            2 => { let k = (s.range(1, 40) as usize).min(f.len() - at); f.drain(at..at + k); }
            3 => { let k = s.range(1, 20) as usize; let b = s.bytes(k); for (j, x) in b.into_iter().enumerate() { f.insert(at + j, x) } }
            4 => { let k = (s.range(1, 200) as usize).min(f.len() - at); for j in 0..k { f[at + j] = s.u8() } }
            _ => f.truncate(at),
        }
    }
    feed(s, &f)
}

/// a file with all commands before the literals, and the position just behind the first entropy-coder chunk of its literals
fn one_literal(n: usize) -> (Vec<u8>, usize) {
    let mut x = 0x9e3779b97f4a7c15u64;
    let d: Vec<u8> = (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 56) as u8 }).collect();
    let mut o = DivansCompressorOptions::default(); o.window_size = Some(16);
    let mut c = new_c(o);
    let cmds = [Command::Literal(LiteralCommand { data: crate::r05::Sl(d), prob: FeatureFlagSliceType::default(), high_entropy: false })];
    let (mut f, mut i, mut b) = (vec![], 0, vec![0u8; 1 << 20]);
    loop { let mut oo = 0; let r = c.encode_commands(&cmds, &mut i, &mut b, &mut oo); f.extend_from_slice(&b[..oo]); if let DivansOutputResult::Success = r { break } }
    loop { let mut oo = 0; let r = c.flush(&mut b, &mut oo); f.extend_from_slice(&b[..oo]); if let DivansOutputResult::Success = r { break } }
    let mut st = [vec![], vec![]]; let mut i = 16;
    while i + 3 <= f.len() && f[i] != 0xff {
        let (id, k) = ((f[i] & 1) as usize, (f[i] >> 4) as u32);
        let n = if k == 0 { i += 3; f[i - 2] as usize + f[i - 1] as usize * 256 + 1 } else { i += 1; 1024 << (k << 1).min(8) };
        let n = n.min(f.len() - i); st[id].extend_from_slice(&f[i..i + n]); i += n;
    }
    let mut r = f[..16].to_vec();
    for k in 0..2 { for c in st[k].chunks(65536) { r.extend(&[k as u8, (c.len() - 1) as u8, ((c.len() - 1) >> 8) as u8]); r.extend_from_slice(c); } }
    let end = r.len(); r.extend_from_slice(&f[i..]); (r, end)
}
/// damage just before the end of a chunk of 65536 symbols, with the input cut near the 16 bytes that start the next one
pub fn r18_chunk<S: Src>(s: &mut S, _lim: u32) {
    static F: std::sync::OnceLock<(Vec<u8>, usize)> = std::sync::OnceLock::new();
    let (f, end) = F.get_or_init(|| { let (_, e) = one_literal(32768); (one_literal(34000).0, e) });
    let mut f = f.clone();
    let back = if s.flip() { s.range(1, 40) } else { s.range(40, 400) } as usize;
    for k in 0..s.range(1, 4) as usize { let i = (end - back + k).min(f.len() - 1); f[i] = s.u8(); }
    let at = (end + s.range_flat(0, 60) as usize - 20).min(f.len());
    feed_from(s, &f, Some(at))
}
