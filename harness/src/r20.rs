use crate::{common::*, src::*};
use crate::r05::{gen_cmd, Cmd, Sl};
use divans::{BlockSwitch, Command, Compressor, Decompressor, DivansCompressorFactory, DivansCompressorFactoryStruct, DivansCompressorOptions, DivansDecompressorFactory, DivansDecompressorFactoryStruct, DivansOutputResult, DivansResult, LiteralBlockSwitch, PredictionModeContextMap, Speed, StrideSelection};
use brotli::enc::interface as bi;
reg!("R20"; r20_raw, r20_commands, r20_hybrid);
/// everything the two halves of a session are told
#[derive(Clone, Copy)]
pub struct Cfg { pub o: DivansCompressorOptions }
pub fn speed<S: Src>(s: &mut S) -> Speed {
    if s.flip() { [Speed::MUD, Speed::SLOW, Speed::MED, Speed::FAST, Speed::PLANE, Speed::ROCKET, Speed::GEOLOGIC, Speed::GLACIAL][s.range_flat(0, 7) as usize] }
    else { Speed::new(s.range(0, 0x1800) as i16, s.range(0x400, 0x4000) as i16) }
}
pub fn opts<S: Src>(s: &mut S) -> DivansCompressorOptions {
    let mut o = DivansCompressorOptions::default();
    o.window_size = if s.chance(8) { None } else if s.chance(8) { Some(s.range(0, 40) as i32 - 5) } else { Some(s.range(10, 16) as i32) };
    if s.flip() { o.literal_adaptation = Some([speed(s), speed(s), speed(s), speed(s)]); }
    o.dynamic_context_mixing = match s.range_flat(0, 3) { 0 => None, 1 => Some(0), 2 => Some(1), _ => Some(s.range_flat(0, 7) as u8) };
    o.prior_depth = if s.flip() { None } else { Some(s.range_flat(0, 15) as u8) };
    o.use_context_map = s.flip();
    o.force_stride_value = [StrideSelection::PriorDisabled, StrideSelection::Stride1, StrideSelection::Stride2, StrideSelection::Stride3, StrideSelection::Stride4,
        StrideSelection::Stride5, StrideSelection::Stride6, StrideSelection::Stride7, StrideSelection::Stride8, StrideSelection::UseBrotliRec][s.range_flat(0, 9) as usize];
    o.quality = Some(s.range_flat(0, 11) as u16);
    o.lgblock = if s.flip() { None } else { Some(s.range_flat(16, 18)) };
    o.prior_bitmask_detection = s.range_flat(0, 1) as u8;
    o.q9_5 = s.chance(3);
    o.stride_detection_quality = if s.flip() { None } else { Some(s.range_flat(0, 3) as u8) };
    o.speed_detection_quality = if s.flip() { None } else { Some(s.range_flat(0, 2) as u8) };
    o.force_literal_context_mode = if s.flip() { None } else { Some(divans::LiteralPredictionModeNibble(s.range_flat(0, 3) as u8)) };
    o.divans_ir_optimizer = s.chance(3) as u8;
    // for scores far above its own defaults (340, 540) the brotli library hands out one-byte dictionary words, after which its commands no longer describe the input
    if s.chance(3) { o.brotli_literal_byte_score = Some(s.range(0, 540)) }
    o
}
/// data with runs, repeats and noise
pub fn data<S: Src>(s: &mut S, max: u32) -> Vec<u8> {
    let n = s.range(0, max) as usize;
    let mut v: Vec<u8> = Vec::with_capacity(n);
    let mut x = s.u64() | 1;
    while v.len() < n {
        let k = (s.range(1, 600) as usize).min(n - v.len());
        match s.range_flat(0, 3) {
            0 => { let b = s.u8(); v.extend(std::iter::repeat(b).take(k)) }
            1 => for _ in 0..k { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push((x >> 56) as u8) },
            2 => for i in 0..k { v.push(b"the quick brown fox jumps over the lazy dog; "[i % 45]) },
            _ => { let d = s.range(1, 4000) as usize; for _ in 0..k { let b = if d <= v.len() { v[v.len() - d] } else { 7 }; v.push(b) } }
        }
    }
    v
}
pub fn piece<S: Src>(s: &mut S, style: u32, left: usize) -> usize {
    let n = match style { 0 => left, 1 => s.range(0, 3) as usize, 2 => s.range(0, 64) as usize, 3 => s.range(0, 1000) as usize, _ => s.range(0, 70_000) as usize };
    n.min(left)
}
pub fn outbuf<S: Src>(s: &mut S, style: u32) -> usize {
    match style { 0 => 1 << 16, 1 => s.range(1, 3) as usize, 2 => s.range(0, 40) as usize, 3 => s.range(0, 1000) as usize, _ => s.range(0, 70_000) as usize }
}
fn style<S: Src>(s: &mut S, size: usize) -> u32 { if size > 20_000 { [0, 3, 4][s.range_flat(0, 2) as usize] } else { s.range_flat(0, 4) } }
fn flush<C: Compressor, S: Src>(s: &mut S, c: &mut C, so: u32, comp: &mut Vec<u8>) {
    let mut idle = 0;
    loop {
        let mut b = vec![0xa5u8; outbuf(s, so)]; let mut o = 0;
        let r = c.flush(&mut b, &mut o);
        comp.extend_from_slice(&b[..o]);
        for x in &b[o..] { assert!(*x == 0xa5, "flush writes past the reported output"); }
        match r {
            DivansOutputResult::Success => return,
            DivansOutputResult::NeedsMoreOutput => {}
            DivansOutputResult::Failure(e) => panic!("flush fails: {:?}", e),
        }
        if o == 0 && b.len() > 0 { idle += 1 } else { idle = 0 }
        assert!(idle < 64, "flush makes no progress");
    }
}
pub fn compress_raw<C: Compressor, S: Src>(s: &mut S, c: &mut C, d: &[u8]) -> Vec<u8> {
    let (si, so) = (style(s, d.len()), style(s, d.len()));
    let mut comp = vec![]; let mut pos = 0; let mut idle = 0;
    while pos < d.len() {
        let n = piece(s, si, d.len() - pos);
        let mut b = vec![0xa5u8; outbuf(s, so)]; let mut o = 0; let mut i = 0;
        let r = c.encode(&d[pos..pos + n], &mut i, &mut b, &mut o);
        assert!(i <= n && o <= b.len());
        for x in &b[o..] { assert!(*x == 0xa5, "encode writes past the reported output"); }
        comp.extend_from_slice(&b[..o]); pos += i;
        match r {
            DivansResult::NeedsMoreInput => assert!(i == n, "asks for more input with {} bytes unread", n - i),
            DivansResult::NeedsMoreOutput => {}
            DivansResult::Success => {}
            DivansResult::Failure(e) => panic!("encode fails: {:?}", e),
        }
        if i == 0 && o == 0 && n > 0 && b.len() > 0 { idle += 1 } else { idle = 0 }
        assert!(idle < 64, "encode makes no progress");
    }
    flush(s, c, so, &mut comp);
    comp
}
pub type DF = DivansDecompressorFactoryStruct<A, A, A>;
/// decodes with random pieces; the reference is the original
pub fn decompress<S: Src>(s: &mut S, comp: &[u8], want: &[u8], tail: usize) {
    let multi = s.chance(4);
    let mut d = <DF as DivansDecompressorFactory<A, A, A>>::new(a(), a(), a(), s.chance(3), multi);
    let (si, so) = (style(s, comp.len()), style(s, want.len()));
    let mut all = comp.to_vec(); all.extend(std::iter::repeat(0x5a).take(tail));
    let mut pos = 0; let mut got = 0; let mut idle = 0;
    loop {
        let n = piece(s, si, all.len() - pos);
        let mut b = vec![0xa5u8; outbuf(s, so)]; let mut o = 0; let mut i = 0;
        let r = d.decode(&all[pos..pos + n], &mut i, &mut b, &mut o);
        assert!(i <= n && o <= b.len());
        for x in &b[o..] { assert!(*x == 0xa5, "decode writes past the reported output"); }
        assert!(got + o <= want.len(), "more output than was compressed");
        assert!(b[..o] == want[got..got + o], "wrong byte at or after {} of {}", got, want.len());
        got += o; pos += i;
        match r {
            DivansResult::Success => break,
            DivansResult::NeedsMoreInput => { assert!(i == n || multi || true); assert!(pos < all.len() || n > 0 || idle < 40, "asks for input after the whole file ({} of {} bytes out)", got, want.len()); }
            DivansResult::NeedsMoreOutput => {}
            DivansResult::Failure(e) => panic!("decode fails: {:?} at byte {} of {}", e, pos, comp.len()),
        }
        if i == 0 && o == 0 { idle += 1 } else { idle = 0 }
        assert!(idle < 400, "decode makes no progress at byte {} of {}", pos, comp.len());
    }
    assert!(got == want.len(), "success after {} of {} bytes", got, want.len());
    assert!(pos <= comp.len() || tail > 0);
    drop(d);
}
pub type CF = DivansCompressorFactoryStruct<A, A>;
pub fn new_c(o: DivansCompressorOptions) -> <CF as DivansCompressorFactory<A, A, A>>::ConstructedCompressor { <CF as DivansCompressorFactory<A, A, A>>::new(a(), a(), a(), o, ()) }
pub fn r20_raw<S: Src>(s: &mut S, _lim: u32) {
    let o = opts(s);
    let max = if s.chance(20) { 300_000 } else if s.chance(3) { 12_000 } else { 1500 };
    let d = data(s, max);
    let mut c = new_c(o);
    let comp = compress_raw(s, &mut c, &d);
    decompress(s, &comp, &d, 0);
}
pub fn predmode<S: Src>(s: &mut S) -> Cmd {
    let lit = match s.range_flat(0, 3) { 0 => 64, 1 => s.range(0, 64), 2 => 64 * s.range(1, 8), _ => s.range(0, 1024) } as usize;
    let dist = match s.range_flat(0, 2) { 0 => 4, 1 => s.range(0, 16), _ => 4 * s.range(0, 64) } as usize;
    let ntrees = s.range(1, 255);
    let k = s.u8() as usize;
    let lm: Vec<u8> = (0..lit).map(|i| match k & 3 { 0 => (i % 64) as u8, 1 => ((i * (k | 1)) as u32 % ntrees) as u8, 2 => (i as u32 / 3 % ntrees) as u8, _ => 0 }).collect();
    let short = s.chance(12);
    let mut pm = vec![0u8; if short { 0 } else { bi::DISTANCE_CONTEXT_MAP_OFFSET + dist }];
    if !short {
        pm[bi::PREDMODE_OFFSET] = s.range_flat(0, 3) as u8;
        pm[bi::MIXING_MATH_OFFSET] = s.range_flat(0, 3) as u8;
        pm[bi::ADV_CONTEXT_MAP_OFFSET] = s.range_flat(0, 1) as u8;
        let mk = s.range_flat(0, 4);
        for i in 0..bi::NUM_MIXING_VALUES { pm[bi::MIXING_OFFSET + i] = match mk { 0 => 0, 1 => 4, 2 => (i % 7) as u8, 3 => (i / 256 % 15) as u8, _ => ((i * 7 + k) % 15) as u8 }; }
        if s.flip() { for i in 0..bi::NUM_SPEED_VALUES { pm[bi::SPEED_OFFSET + i] = divans_speed_byte(s, i); } }
        for i in 0..dist { pm[bi::DISTANCE_CONTEXT_MAP_OFFSET + i] = if k & 8 == 0 { (i & 3) as u8 } else { (i as u32 * 5 % ntrees) as u8 }; }
    }
    Command::PredictionMode(PredictionModeContextMap { literal_context_map: Sl(lm), predmode_speed_and_distance_context_map: Sl(pm) })
}
fn divans_speed_byte<S: Src>(s: &mut S, i: usize) -> u8 {
    // increments stay within the range for which the frequency tables are valid
    let max = (i / 2) % 2 == 1;
    let v = if max { s.range(0x400, 0x4000) } else { s.range(0, 0x1800) } as u16;
    bi::speed_to_u8(v)
}
pub fn gen_cmds<S: Src>(s: &mut S, window: usize) -> (Vec<Cmd>, Vec<u8>) {
    let mut hist = vec![];
    let n = s.range(0, 30);
    let cap = if s.chance(4) { 6000 } else if s.flip() { 300 } else { 40 };
    let mut v = vec![];
    let btmax = if s.flip() { 3 } else { 255 };
    let mut npm = 0;
    if s.chance(5) == false { v.push(predmode(s)); npm = 1; }
    for _ in 0..n {
        if s.chance(5) {
            let t = s.range(0, btmax) as u8;
            v.push(match s.range_flat(0, 2) { 0 => Command::BlockSwitchCommand(BlockSwitch::new(t)), 1 => Command::BlockSwitchDistance(BlockSwitch::new(t)), _ => Command::BlockSwitchLiteral(LiteralBlockSwitch::new(t, s.range_flat(0, 8) as u8)) });
        } else if npm < 3 && s.chance(25) { npm += 1; v.push(predmode(s)); }
        else {
            let c = gen_cmd(s, &mut hist, window - 16, cap);
            // a literal command of length zero has no encoding
            let empty = if let Command::Literal(ref l) = c { l.data.0.is_empty() } else { false };
            if !empty { v.push(c) }
        }
    }
    (v, hist)
}
pub fn r20_commands<S: Src>(s: &mut S, _lim: u32) {
    let mut o = opts(s);
    let w = s.range(10, 15); o.window_size = Some(w as i32);
    let (cmds, want) = gen_cmds(s, 1 << w);
    let mut c = new_c(o);
    let so = style(s, want.len());
    let mut comp = vec![]; let mut i = 0; let mut idle = 0; let mut end = 0;
    loop {
        let mut b = vec![0xa5u8; outbuf(s, so)]; let mut oo = 0;
        let i0 = i;
        if i == end { end = if s.flip() { cmds.len() } else { s.range_flat(i as u32, cmds.len() as u32) as usize }; }
        let r = c.encode_commands(&cmds[..end], &mut i, &mut b, &mut oo);
        comp.extend_from_slice(&b[..oo]);
        match r {
            DivansOutputResult::Success => { assert!(i == end); if end == cmds.len() { break } }
            DivansOutputResult::NeedsMoreOutput => {}
            DivansOutputResult::Failure(e) => panic!("encode_commands fails: {:?}", e),
        }
        if i == i0 && oo == 0 && b.len() > 0 { idle += 1 } else { idle = 0 }
        assert!(idle < 64, "encode_commands makes no progress");
    }
    flush(s, &mut c, so, &mut comp);
    decompress(s, &comp, &want, 0);
}
pub fn r20_hybrid<S: Src>(s: &mut S, _lim: u32) {
    let o = opts(s);
    let max = if s.chance(6) { 60_000 } else { 3000 };
    let d = data(s, max);
    let bs = s.range(1, 5000) as usize;
    let mut comp = vec![];
    let mut r = divans::DivansBrotliHybridCompressorReader::new(&d[..], o, bs);
    std::io::Read::read_to_end(&mut r, &mut comp).expect("compressing reader fails");
    decompress(s, &comp, &d, 0);
}
