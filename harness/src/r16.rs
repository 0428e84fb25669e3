use crate::{common::*, src::*};
use crate::r20::{compress_raw, data, decompress, new_c, opts};
use std::io::{Error, ErrorKind, Read, Write};
reg!("R16"; r16_read_comp, r16_read_decomp, r16_write_comp, r16_write_decomp);
/// a stream with short transfers, interruptions and transient errors
struct Faults { x: u64, short: u32, intr: u32, err: u32, left: u32, raised: u32 }
impl Faults {
    fn new<S: Src>(s: &mut S) -> Faults { Faults { x: s.u64(), short: s.range_flat(0, 3), intr: if s.flip() { 0 } else { 4 }, err: if s.flip() { 0 } else { s.range_flat(1, 6) }, left: s.range_flat(0, 6), raised: 0 } }
    fn next(&mut self) -> u32 { self.x = self.x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.x >> 33) as u32 }
    fn amount(&mut self, n: usize) -> usize { let r = self.next() as usize; if n == 0 { return 0 } match self.short { 0 => n, 1 => 1, 2 => n.min(1 + r % 7), _ => if r & 3 == 0 { n } else { 1 + (r >> 2) % n } } }
    fn fault(&mut self) -> Option<Error> {
        if self.intr > 0 && self.next() % self.intr == 0 { return Some(Error::new(ErrorKind::Interrupted, "intr")) }
        if self.err > 0 && self.left > 0 && self.next() % self.err == 0 { self.left -= 1; self.raised += 1; return Some(Error::new(if self.next() & 1 == 0 { ErrorKind::WouldBlock } else { ErrorKind::Other }, "injected")) }
        None
    }
}
struct In<'a> { d: &'a [u8], f: &'a mut Faults, idle: u32 }
impl<'a> Read for In<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if let Some(e) = self.f.fault() { return Err(e) }
        if self.d.is_empty() { self.idle += 1; assert!(self.idle < 3000, "reads the ended stream without end"); return Ok(0) }
        let n = self.f.amount(b.len().min(self.d.len()));
        b[..n].copy_from_slice(&self.d[..n]); self.d = &self.d[n..]; Ok(n)
    }
}
/// `hold`: a buffering stream, which hands its bytes on only when it is flushed
struct Out<'a> { v: &'a mut Vec<u8>, f: &'a mut Faults, hold: bool, held: Vec<u8> }
impl<'a> Write for Out<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let Some(e) = self.f.fault() { return Err(e) }
        let n = self.f.amount(b.len()); if self.hold { self.held.extend_from_slice(&b[..n]) } else { self.v.extend_from_slice(&b[..n]) } Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { if let Some(e) = self.f.fault() { return Err(e) } self.v.append(&mut self.held); Ok(()) }
}
fn injected(e: &Error) -> bool { e.to_string() == "injected" }
/// reads to the end, retrying after injected errors; None: the adapter reported an error of its own
fn pump<R: Read, S: Src>(s: &mut S, r: &mut R, got: &mut Vec<u8>, errs: &mut u32, max: usize) -> Option<()> {
    let style = s.range_flat(0, 3); let mut x = s.u64();
    loop {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let q = (x >> 33) as usize;
        let n = match style { 0 => 65536, 1 => 1 + q % 3, 2 => q % 50, _ => 1 + q % 3000 };
        let mut b = vec![0xa5u8; n];
        match r.read(&mut b) {
            Ok(0) if n == 0 => continue,
            Ok(k) => { assert!(k <= n); got.extend_from_slice(&b[..k]); assert!(b[k..].iter().all(|z| *z == 0xa5), "writes past the reported bytes"); if k == 0 { break } }
            Err(e) => { if !injected(&e) { return None } *errs += 1; }
        }
        assert!(got.len() <= max, "more bytes than the codec produces");
    }
    // the end is final
    let mut b = [0u8; 9]; let z = r.read(&mut b);
    match z { Ok(k) => assert!(k == 0, "bytes after the end of the stream"), Err(e) => if injected(&e) { *errs += 1 } }
    Some(())
}
fn some_data<S: Src>(s: &mut S) -> Vec<u8> { let max = if s.chance(12) { 40_000 } else if s.flip() { 3000 } else { 100 }; data(s, max) }
fn bufsize<S: Src>(s: &mut S) -> usize { match s.range_flat(0, 3) { 0 => s.range(1, 3) as usize, 1 => s.range(1, 300) as usize, 2 => 0, _ => s.range(1, 5000) as usize } }
pub fn r16_read_comp<S: Src>(s: &mut S, _lim: u32) {
    let o = opts(s); let d = some_data(s); let mut f = Faults::new(s); let bs = bufsize(s);
    let mut got = vec![]; let mut errs = 0;
    let ok = if s.flip() { let mut r = divans::DivansBrotliHybridCompressorReader::new(In { d: &d, f: &mut f, idle: 0 }, o, bs); pump(s, &mut r, &mut got, &mut errs, 1 << 20) }
        else { let mut r = divans::DivansExperimentalCompressorReader::new(In { d: &d, f: &mut f, idle: 0 }, o, bs); pump(s, &mut r, &mut got, &mut errs, 1 << 20) };
    assert!(ok.is_some(), "the compressing reader fails by itself");
    assert!(errs == f.raised, "{} of {} errors of the underlying stream reported", errs, f.raised);
    decompress(s, &got, &d, 0);
}
pub fn r16_read_decomp<S: Src>(s: &mut S, _lim: u32) {
    let o = opts(s); let d = some_data(s); let mut c = new_c(o); let mut comp = compress_raw(s, &mut c, &d);
    let cut = if s.chance(3) { s.range(1, comp.len() as u32) as usize } else { 0 };
    comp.truncate(comp.len() - cut);
    if cut == 0 && s.chance(4) { let k = s.range(1, 600) as usize; comp.extend(std::iter::repeat(0x5a).take(k)) }
    let mut f = Faults::new(s); let bs = bufsize(s); let multi = s.chance(5) && cut == 0;
    let mut got = vec![]; let mut errs = 0;
    let ok = { let mut r = divans::DivansDecompressorReader::new(In { d: &comp, f: &mut f, idle: 0 }, bs, s.flip(), multi); pump(s, &mut r, &mut got, &mut errs, 1 << 20) };
    if cut == 0 { assert!(ok.is_some(), "the decompressing reader fails by itself"); assert!(errs == f.raised || comp.last() == Some(&0x5a), "{} of {} errors of the underlying stream reported", errs, f.raised); assert!(got == d, "wrong bytes") }
    else { assert!(d.starts_with(&got), "wrong bytes before the cut"); assert!(ok.is_none(), "a stream cut short by {} bytes ends as if it were whole", cut); }
}
fn send<W: Write, S: Src>(s: &mut S, w: &mut W, d: &[u8], errs: &mut u32, flush_each: bool) -> Option<()> {
    let style = s.range_flat(0, 3); let mut x = s.u64(); let mut p = 0; let mut idle = 0;
    while p < d.len() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let q = (x >> 33) as usize;
        let n = (match style { 0 => 65536, 1 => 1 + q % 3, 2 => q % 50, _ => 1 + q % 3000 }).min(d.len() - p);
        match w.write(&d[p..p + n]) { Ok(k) => { assert!(k <= n); p += k; if k == 0 && n > 0 { idle += 1 } else { idle = 0 } } Err(e) => { if !injected(&e) { return None } *errs += 1; } }
        assert!(idle < 1000, "accepts nothing for ever");
    }
    let _ = flush_each;
    loop { match w.flush() { Ok(()) => break, Err(e) => { if e.kind() == ErrorKind::Interrupted { continue } if !injected(&e) { return None } *errs += 1; } } }
    Some(())
}
pub fn r16_write_comp<S: Src>(s: &mut S, _lim: u32) {
    let o = opts(s); let d = some_data(s); let mut f = Faults::new(s); let bs = bufsize(s);
    let hold = s.flip(); let mut got = vec![]; let mut errs = 0;
    let ok = if s.flip() { let mut w = divans::DivansBrotliHybridCompressorWriter::new(Out { v: &mut got, f: &mut f, hold, held: vec![] }, o, bs); send(s, &mut w, &d, &mut errs, false) }
        else { let mut w = divans::DivansExperimentalCompressorWriter::new(Out { v: &mut got, f: &mut f, hold, held: vec![] }, o, bs); send(s, &mut w, &d, &mut errs, false) };
    assert!(ok.is_some(), "the compressing writer fails by itself");
    assert!(errs == f.raised, "{} of {} errors of the underlying stream reported", errs, f.raised);
    decompress(s, &got, &d, 0);
}
pub fn r16_write_decomp<S: Src>(s: &mut S, _lim: u32) {
    let o = opts(s); let d = some_data(s); let mut c = new_c(o); let comp = compress_raw(s, &mut c, &d);
    let mut f = Faults::new(s); let bs = bufsize(s);
    let hold = s.flip(); let mut got = vec![]; let mut errs = 0;
    let ok = { let mut w = divans::DivansDecompressorWriter::new(Out { v: &mut got, f: &mut f, hold, held: vec![] }, bs, s.flip(), s.chance(5)); send(s, &mut w, &comp, &mut errs, false) };
    assert!(ok.is_some(), "the decompressing writer fails by itself");
    assert!(errs == f.raised, "{} of {} errors of the underlying stream reported", errs, f.raised);
    assert!(got == d, "wrong bytes");
}
