"""R16: the stream adapters pass every byte through the codec exactly once, whatever the underlying I/O does."""
from vextract import Fn
from u05 import EnumFrom, StructFrom
RD = 'src/reader.rs'; WR = 'src/writer.rs'; IF = 'src/interface.rs'
TY = [(r'\b[RW]\b(?=\s*,)', 'Io'), (r'\b[PC]\b(?=\s*,)', 'Proc'), (r'BufferType', 'Buf'), (r'io::Error\b', 'IoErr')]
SUBS = [(r'io::ErrorKind', 'ErrorKind'), (r'io::Error::new', 'IoErr::new'), (r'io::Error\b', 'IoErr'), (r'DivansResult::from\(', 'result_from('),
        (r'\bclone_from_slice\b', 'copy_from_slice'), (r'core::cmp::min', 'vmin'), (r'self\.write\(&\[\]\)', 'self.write(empty())'),
        (r'\btry!\s*\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)', r'(match \1 { Ok(v) => v, Err(e) => return Err(e) })'), (r'\bResult<(.*), IoErr>', r'Result<\1, IoErr>')]
ENV = r'''
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum ErrorKind { Interrupted, UnexpectedEof, InvalidInput, InvalidData, WriteZero, Other }
pub struct IoErr { pub k: ErrorKind }
impl IoErr {
  #[verifier::external_body] pub fn new<T>(k: ErrorKind, t: T) -> (r: IoErr) ensures r.k == k { unimplemented!() }
  pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
}
fn vmin(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
#[verifier::external_body] fn empty() -> (r: &'static [u8]) ensures r@.len() == 0 { &[] }
pub struct Buf { pub v: Vec<u8> }
impl Buf { #[verifier::external_body] pub fn slice_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).v@, final(r)@ == final(self).v@ { &mut self.v } }
// ---- environment: the codec, as a consumer and producer of bytes
pub struct Proc { pub cin: Ghost<Seq<u8>>, pub cout: Ghost<Seq<u8>>, pub comp: Ghost<bool>, pub closed: Ghost<bool>, pub csucc: Ghost<bool>, pub psucc: Ghost<bool>, pub failed: Ghost<bool> }
pub open spec fn io_ok(p: Proc, q: Proc, o: Seq<u8>, o2: Seq<u8>, oo: int, oo2: int) -> bool {
  oo <= oo2 <= o2.len() && o2.len() == o.len() && o2.subrange(0, oo) == o.subrange(0, oo) && q.cout@ == p.cout@ + o2.subrange(oo, oo2) && q.comp == p.comp
    && (p.failed@ ==> q.failed@) && (p.csucc@ ==> q.csucc@) && (p.closed@ ==> q.closed@) && (p.psucc@ ==> q.psucc@)
}
impl Proc {
  #[verifier::external_body] pub fn process(&mut self, input: &[u8], io: &mut usize, output: &mut [u8], oo: &mut usize) -> (r: DivansResult)
    requires *old(io) <= input@.len(), *old(oo) <= old(output)@.len(), !old(self).comp@ || !old(self).closed@
    ensures *old(io) <= *final(io) <= input@.len(), final(self).cin@ == old(self).cin@ + input@.subrange(*old(io) as int, *final(io) as int),
      io_ok(*old(self), *final(self), old(output)@, final(output)@, *old(oo) as int, *final(oo) as int), final(self).closed == old(self).closed, final(self).csucc == old(self).csucc,
      r is NeedsMoreInput ==> *final(io) == input@.len(), r is Success ==> final(self).psucc@, r is Failure ==> final(self).failed@ { unimplemented!() }
  #[verifier::external_body] pub fn close(&mut self, output: &mut [u8], oo: &mut usize) -> (r: DivansOutputResult)
    requires *old(oo) <= old(output)@.len()
    ensures final(self).cin == old(self).cin, io_ok(*old(self), *final(self), old(output)@, final(output)@, *old(oo) as int, *final(oo) as int), final(self).closed@,
      r is Success ==> final(self).csucc@, r is Failure ==> final(self).failed@ { unimplemented!() }
}
// ---- environment: the underlying stream; any result std::io allows
pub struct Io { pub got: Ghost<Seq<u8>>, pub eof: Ghost<bool>, pub errs: Ghost<int>, pub wrote: Ghost<Seq<u8>>, pub sent: Ghost<Seq<u8>> }
impl Io {
  #[verifier::external_body] pub fn read(&mut self, b: &mut [u8]) -> (r: Result<usize, IoErr>)
    ensures final(b)@.len() == old(b)@.len(), final(self).wrote == old(self).wrote, final(self).sent == old(self).sent, match r {
      Ok(n) => n <= final(b)@.len() && final(self).got@ == old(self).got@ + final(b)@.subrange(0, n as int) && final(self).errs == old(self).errs
        && (final(self).eof@ == (old(self).eof@ || (n == 0 && old(b)@.len() > 0))),
      Err(e) => final(self).got == old(self).got && final(self).eof == old(self).eof && final(self).errs@ == old(self).errs@ + (if e.k == ErrorKind::Interrupted { 0int } else { 1int }) } { unimplemented!() }
  #[verifier::external_body] pub fn write(&mut self, b: &[u8]) -> (r: Result<usize, IoErr>)
    ensures final(self).got == old(self).got, final(self).sent == old(self).sent, match r {
      Ok(n) => n <= b@.len() && final(self).wrote@ == old(self).wrote@ + b@.subrange(0, n as int) && final(self).errs@ == old(self).errs@ + (if n == 0 && b@.len() > 0 { 1int } else { 0int }),
      Err(e) => final(self).wrote == old(self).wrote && final(self).errs@ == old(self).errs@ + (if e.k == ErrorKind::Interrupted { 0int } else { 1int }) } { unimplemented!() }
  #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), IoErr>)
    ensures final(self).got == old(self).got, final(self).wrote == old(self).wrote, r is Ok ==> final(self).errs == old(self).errs && final(self).sent@ == final(self).wrote@, r is Err ==> final(self).sent == old(self).sent, r is Err ==> final(self).errs@ == old(self).errs@ + 1 { unimplemented!() }
}
'''
RSPEC = r'''
impl GenReader {
  pub open spec fn o(self) -> int { self.input_offset as int }
  pub open spec fn l(self) -> int { self.input_len as int }
  pub open spec fn n(self) -> int { self.input_buffer.v@.len() as int }
  // nothing read from the stream is lost or repeated on its way to the codec; the codec is closed only after all of it
  pub open spec fn wf0(self) -> bool {
    self.o() <= self.l() <= self.n() && 0 < self.n() <= 0x7fff_ffff_ffff_ffff && self.compressor.cin@ + self.input_buffer.v@.subrange(self.o(), self.l()) == self.input.got@
      && (self.compressor.closed@ ==> self.input.eof@ && self.o() == self.l())
      && (self.input_eof ==> self.input.eof@) && (self.compressor.closed@ ==> self.input_eof) && (self.compressor.comp@ && self.has_flushed ==> self.compressor.closed@)
  }
  pub open spec fn wf(self) -> bool { self.wf0() && (self.o() == self.l() ==> self.l() < self.n()) }
  pub open spec fn e(self) -> int { self.input.errs@ - (if self.read_error is Some { 1int } else { 0int }) }
  pub open spec fn ended(self) -> bool { self.compressor.csucc@ || (!self.compressor.comp@ && self.compressor.psucc@) }
}
'''
WSPEC = r'''
impl GenWriter {
  pub open spec fn s(self) -> int { self.pending_start as int }
  pub open spec fn t(self) -> int { self.pending_end as int }
  pub open spec fn n(self) -> int { self.output_buffer.v@.len() as int }
  // nothing the codec produced is lost or repeated on its way to the stream
  pub open spec fn wf(self) -> bool {
    self.s() <= self.t() <= self.n() && self.output.wrote@ + self.output_buffer.v@.subrange(self.s(), self.t()) == self.compressor.cout@
      && (self.compressor.comp@ && self.has_flushed ==> self.compressor.csucc@) && (!self.has_flushed ==> self.compressor.comp@)
  }
  pub open spec fn e(self) -> int { self.output.errs@ - (if self.write_error is Some { 1int } else { 0int }) }
}
'''
CAT = r'''
pub mod sq { use vstd::prelude::*;
pub broadcast proof fn cat_sub(c: Seq<u8>, b: Seq<u8>, o: int, m: int, l: int) requires 0 <= o <= m <= l <= b.len()
  ensures #[trigger] ((c + b.subrange(o, m)) + b.subrange(m, l)) == c + b.subrange(o, l) { assert((c + b.subrange(o, m)) + b.subrange(m, l) =~= c + b.subrange(o, l)); }
pub broadcast proof fn sub_sub(b: Seq<u8>, a: int, m: int, i: int, j: int) requires 0 <= a <= m <= b.len(), 0 <= i <= j <= m - a
  ensures #[trigger] b.subrange(a, m).subrange(i, j) == b.subrange(a + i, a + j) { assert(b.subrange(a, m).subrange(i, j) =~= b.subrange(a + i, a + j)); }
pub broadcast proof fn cat_nil(c: Seq<u8>, b: Seq<u8>, o: int) requires 0 <= o <= b.len()
  ensures #[trigger] (c + b.subrange(o, o)) == c { assert(c + b.subrange(o, o) =~= c); }
pub broadcast proof fn sub_all(b: Seq<u8>, n: int) requires n == b.len() ensures #[trigger] b.subrange(0, n) == b { assert(b.subrange(0, n) =~= b); }
pub broadcast group seqs { cat_sub, sub_sub, cat_nil, sub_all }
}
'''
READ_INV = r'''invariant_except_break avail_in == self.input_len - self.input_offset,
 invariant output_offset <= buf@.len(), buf@.len() == old(buf)@.len(), avail_out == buf@.len() - output_offset,
   self.compressor.comp == old(self).compressor.comp,
   self.compressor.cout@ == old(self).compressor.cout@ + buf@.subrange(0, output_offset as int),
   self.e() == old(self).e(), self.wf(),
 ensures avail_out != buf@.len() || avail_out == 0 || self.ended(),
'''
R16 = [
 EnumFrom(IF, 'ErrMsg'), EnumFrom(IF, 'DivansResult'), EnumFrom(IF, 'DivansOutputResult'), ENV, CAT, 'broadcast use sq::seqs;',
 StructFrom(RD, 'GenReader', TY), RSPEC,
 Fn(IF, 'from', r'^impl From<DivansOutputResult> for DivansResult', rename='result_from', psubs=[(r'\bSelf\b', 'DivansResult')],
    spec='ensures r is Success <==> $1 is Success, r is NeedsMoreOutput <==> $1 is NeedsMoreOutput, r is Failure <==> $1 is Failure, !(r is NeedsMoreInput)'),
 'impl GenReader {',
 Fn(RD, 'new', r'^impl<.*> GenReader<', subs=SUBS + [(r'reader:R', 'reader:Io'), (r'compressor:C', 'compressor:Proc'), ('BufferType', 'Buf'), (r'\bSelf\b', 'GenReader')],
    spec='''requires 0 < $3.v@.len() <= 0x7fff_ffff_ffff_ffff, $1.got@ == $2.cin@, !$2.closed@, $2.comp@ == $4
    ensures r.wf(), r.compressor == $2, r.input == $1, r.read_error is None'''),
 Fn(RD, 'copy_to_front', r'^impl<.*> GenReader<', subs=SUBS,
    spec='''requires old(self).wf0() ensures final(self).wf0(), final(self).compressor == old(self).compressor, final(self).input == old(self).input, final(self).has_flushed == old(self).has_flushed,
       final(self).read_error == old(self).read_error, final(self).input_eof == old(self).input_eof, final(self).l() - final(self).o() == old(self).l() - old(self).o(),
       final(self).o() == final(self).l() ==> final(self).l() < final(self).n()''',
    ghost='let ghost b0 = self.input_buffer.v@; let ghost o0 = self.input_offset as int; let ghost l0 = self.input_len as int;', before=[(r'self\.input_len -= self\.input_offset', 'proof { assert(self.input_buffer.v@.subrange(0, l0 - o0) =~= b0.subrange(o0, l0)); }')]),
 Fn(RD, 'read', r'^impl<.*> Read for GenReader<', subs=SUBS, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
    spec='''requires old(self).wf()
    ensures final(self).wf(), final($1)@.len() == old($1)@.len(), final(self).compressor.comp == old(self).compressor.comp, match r {
       Ok(n) => n <= final($1)@.len() && final(self).compressor.cout@ == old(self).compressor.cout@ + final($1)@.subrange(0, n as int) && final(self).e() == old(self).e()
         && (n == 0 && final($1)@.len() > 0 ==> final(self).ended()),
       Err(_) => final(self).compressor.failed@ || (final(self).compressor.cout == old(self).compressor.cout && final(self).e() == old(self).e() + 1) }''',
    loops=[(READ_INV, 'let ghost b0 = self.input_buffer.v@; let ghost o0 = self.input_offset as int; let ghost l0 = self.input_len as int;')],
    before=[(r'if let ErrorKind::Interrupted', 'proof { assert(self.input_buffer.v@.subrange(o0, l0) =~= b0.subrange(o0, l0)); }'), (r'let old_output_offset', 'let ghost b1 = self.input_buffer.v@;'), (r'avail_in -= ', 'proof { assert(self.input_buffer.v@ =~= b1); }'),
       (r'self\.input_eof = true|self\.input_len \+= size', 'proof { assert(self.input_buffer.v@.subrange(o0, l0) =~= b0.subrange(o0, l0)); }')]),
 '}',
 StructFrom(WR, 'GenWriter', TY), WSPEC, 'impl GenWriter {',
 Fn(WR, 'new', r'^impl<.*> GenWriter<', subs=SUBS + [(r'writer:W', 'writer:Io'), (r'compressor:C', 'compressor:Proc'), ('BufferType', 'Buf'), (r'\bSelf\b', 'GenWriter')],
    spec='''requires $1.wrote@ == $2.cout@, !$2.closed@, $2.comp@ == $4
    ensures r.wf(), r.compressor == $2, r.output == $1, r.write_error is None'''),
 Fn(WR, 'write_pending', r'^impl<.*> GenWriter<', subs=SUBS, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
    spec='''requires old(self).wf() ensures final(self).wf(), final(self).compressor == old(self).compressor, final(self).has_flushed == old(self).has_flushed, final(self).more_output == old(self).more_output,
      final(self).write_error is None,
      match r { Ok(_) => final(self).s() == final(self).t() && final(self).e() == old(self).e() && old(self).write_error is None, Err(_) => final(self).e() == old(self).e() + 1 }''',
    loops=['''invariant self.wf(), self.compressor == old(self).compressor, self.has_flushed == old(self).has_flushed, self.more_output == old(self).more_output, self.write_error is None,
      self.e() == old(self).e(), old(self).write_error is None''']),
 Fn(WR, 'write', r'^impl<.*> Write for GenWriter<', subs=SUBS, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
    spec='''requires old(self).wf(), !old(self).compressor.comp@ || !old(self).compressor.closed@
    ensures final(self).wf(), final(self).has_flushed == old(self).has_flushed, final(self).compressor.closed == old(self).compressor.closed, final(self).compressor.comp == old(self).compressor.comp, $1@.len() == 0 ==> final(self).compressor.cin == old(self).compressor.cin, match r {
       Ok(n) => n <= $1@.len() && (final(self).compressor.cin@ == old(self).compressor.cin@ + $1@.subrange(0, n as int) || final(self).compressor.psucc@) && final(self).e() == old(self).e()
          && (final(self).write_error is None || $1@.len() == 0 ==> final(self).write_error is None && !final(self).more_output && final(self).output.wrote == final(self).compressor.cout),
       Err(_) => final(self).compressor.failed@ || (final(self).compressor.cin == old(self).compressor.cin && final(self).e() == old(self).e() + 1) }''',
    loops=['''invariant self.wf(), input_offset <= $1@.len(), self.has_flushed == old(self).has_flushed, self.compressor.closed == old(self).compressor.closed, self.compressor.comp == old(self).compressor.comp,
      self.compressor.cin@ == old(self).compressor.cin@ + $1@.subrange(0, input_offset as int), self.e() == old(self).e(), self.write_error is None, self.s() == self.t(),
      ensures input_offset == $1@.len(), !self.more_output''']),
 Fn(WR, 'flush', r'^impl<.*> Write for GenWriter<', subs=SUBS, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
    spec='''requires old(self).wf(), !old(self).compressor.comp@ || !old(self).compressor.closed@ || !old(self).more_output
    ensures final(self).wf(), final(self).compressor.cin == old(self).compressor.cin, final(self).compressor.comp == old(self).compressor.comp, match r {
       Ok(_) => final(self).output.wrote == final(self).compressor.cout && final(self).output.sent@ == final(self).output.wrote@ && !final(self).more_output && final(self).has_flushed && final(self).e() == old(self).e()
          && (final(self).compressor.comp@ ==> final(self).compressor.csucc@),
       Err(_) => final(self).compressor.failed@ || final(self).e() == old(self).e() + 1 }''',
    loops=['''invariant self.wf(), self.compressor.cin == old(self).compressor.cin, self.compressor.comp == old(self).compressor.comp, self.e() == old(self).e(), self.s() == self.t(), self.write_error is None, !self.more_output''']),
 '}',
]
