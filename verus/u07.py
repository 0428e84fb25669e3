"""R07: the trailer carries the checksum of everything before it, and only a matching trailer ends in success."""
from vextract import Fn
from u05 import EnumFrom, MIN
from u06 import R06
from units import Const
IF = 'src/interface.rs'; DEC = 'src/codec/decoder.rs'; CM = 'src/codec/mod.rs'; CO = 'src/divans_compressor.rs'
ZIP = [(r'for \(index, \(chk, fil\)\) in checksum\.iter\(\)\.zip\(\s*self\.deserialized_crc\.iter\(\)\)\.enumerate\(\) \{', r'let zx = &checksum; let zy = &self.deserialized_crc; for index in 0..8usize { let chk = &zx[index]; let fil = &zy[index];')]
SUBS = [(r'core::cmp::min', 'vmin'), (r'clone_from_slice', 'copy_from_slice'), (r'DivansResult::from\(', 'result_from('), (r'\bDivansOutputResult::from\(', 'out_from('),
        (r"b'a'", '97u8'), (r"b'n'", '110u8'), (r"b's'", '115u8'), (r"b'~'", '126u8')]
COM = [EnumFrom(IF, 'ErrMsg'), EnumFrom(IF, 'DivansResult'), EnumFrom(IF, 'DivansOutputResult'), EnumFrom(IF, 'DivansInputResult'), MIN,
 Fn(IF, 'from', r'^impl From<DivansOutputResult> for DivansResult', rename='result_from', psubs=[(r'\bSelf\b', 'DivansResult')],
    spec='ensures r is Success <==> $1 is Success, r is NeedsMoreOutput <==> $1 is NeedsMoreOutput, r is Failure <==> $1 is Failure, !(r is NeedsMoreInput), r is Failure ==> r->Failure_0 == $1->Failure_0'), r'''
// the eight bytes at the end of a file whose other bytes have checksum c
pub open spec fn tr(c: u32) -> Seq<u8> { seq![c as u8, (c >> 8) as u8, (c >> 16) as u8, (c >> 24) as u8, 97u8, 110u8, 115u8, 126u8] }
proof fn bytes_of(c: u32) ensures (c as u64) as u8 & 255 == c as u8, ((c as u64) >> 8) as u8 & 255 == (c >> 8) as u8, ((c as u64) >> 16) as u8 & 255 == (c >> 16) as u8, ((c as u64) >> 24) as u8 & 255 == (c >> 24) as u8
{ assert((c as u64) as u8 & 255 == c as u8 && ((c as u64) >> 8) as u8 & 255 == (c >> 8) as u8 && ((c as u64) >> 16) as u8 & 255 == (c >> 16) as u8 && ((c as u64) >> 24) as u8 & 255 == (c >> 24) as u8) by(bit_vector); }
pub mod sq { use vstd::prelude::*;
pub broadcast proof fn cat_sub(c: Seq<u8>, b: Seq<u8>, o: int, m: int, l: int) requires 0 <= o <= m <= l <= b.len()
  ensures #[trigger] ((c + b.subrange(o, m)) + b.subrange(m, l)) == c + b.subrange(o, l) { assert((c + b.subrange(o, m)) + b.subrange(m, l) =~= c + b.subrange(o, l)); }
pub broadcast proof fn sub_sub(b: Seq<u8>, a: int, m: int, i: int, j: int) requires 0 <= a <= m <= b.len(), 0 <= i <= j <= m - a
  ensures #[trigger] b.subrange(a, m).subrange(i, j) == b.subrange(a + i, a + j) { assert(b.subrange(a, m).subrange(i, j) =~= b.subrange(a + i, a + j)); }
pub broadcast proof fn cat_nil(c: Seq<u8>, b: Seq<u8>, o: int) requires 0 <= o <= b.len()
  ensures #[trigger] (c + b.subrange(o, o)) == c { assert(c + b.subrange(o, o) =~= c); }
pub broadcast group seqs { cat_sub, sub_sub, cat_nil }
}
broadcast use sq::seqs;
''']
# ---- reading
DENV = r'''
// ---- environment: the demultiplexer, as a consumer of bytes that stops at its end mark
pub struct Buf8 { pub v: Vec<u8> }
pub struct Dmx { pub got: Ghost<Seq<u8>>, pub eof: Ghost<bool> }
impl Dmx {
  #[verifier::external_body] pub fn write_linear(&mut self, data: &[u8], m8: &mut M8) -> (r: usize)
    ensures r <= data@.len(), old(self).eof@ ==> r == 0 && final(self).eof@, final(self).got@ == old(self).got@ + data@.subrange(0, r as int) { unimplemented!() }
  #[verifier::external_body] pub fn encountered_eof(&self) -> (r: bool) ensures r == self.eof@ { unimplemented!() }
  #[verifier::external_body] pub fn data_ready(&self, i: u8) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] pub fn edit(&mut self, i: u8) -> (r: &mut Buf8) ensures final(self).got == old(self).got, final(self).eof == old(self).eof { unimplemented!() }
}
pub struct M8 { pub x: u8 }
pub struct Base { pub m8: M8 }
impl Base { pub fn get_base_alloc(&mut self) -> (r: &mut M8) ensures *r == old(self).m8, *final(r) == final(self).m8 { &mut self.m8 } }
pub struct Recoder { pub x: u8 }
impl Recoder { #[verifier::external_body] pub fn flush(&mut self, output: &mut [u8], o: &mut usize) -> (r: DivansOutputResult)
    requires *old(o) <= old(output)@.len() ensures *old(o) <= *final(o) <= final(output)@.len(), final(output)@.len() == old(output)@.len(), !(r matches DivansOutputResult::Failure(ErrMsg::BadChecksum(_, _))) { unimplemented!() } }
pub struct Worker { pub x: u8 }
impl Worker { #[verifier::external_body] pub fn push(&mut self, b: &mut Buf8) -> (r: Result<(), ()>) { unimplemented!() } }
pub struct Ctx { pub m8: Base, pub recoder: Recoder }
// the fields of DivansDecoderCodec these functions use; `pre` is what the checksum covered before the first call (the file header)
pub struct Codec { pub ctx: Ctx, pub demuxer: Dmx, pub eof: bool, pub crc: SubDigest, pub deserialized_crc: [u8; 8], pub deserialized_crc_count: u8, pub skip_checksum: bool, pub outstanding_buffer_count: usize, pub pre: Ghost<Seq<u8>> }
impl Codec {
  pub open spec fn n(self) -> int { self.deserialized_crc_count as int }
  pub open spec fn tail(self) -> Seq<u8> { self.deserialized_crc@.subrange(0, self.n()) }
  pub open spec fn sum(self) -> u32 { crc32c(0, self.pre@ + self.demuxer.got@) }
  pub open spec fn read(self) -> Seq<u8> { self.pre@ + self.demuxer.got@ + self.tail() }
  pub open spec fn wf(self) -> bool { self.n() <= 8 && (self.n() > 0 ==> self.demuxer.eof@) && (!self.skip_checksum ==> self.crc.0 == self.sum()) && self.outstanding_buffer_count < 0x7fff_ffff_ffff_ffff }
  // the trailer that was read is the one the bytes before it call for
  pub open spec fn good(self) -> bool { self.n() == 8 && self.tail().subrange(4, 8) =~= tr(0).subrange(4, 8) && (!self.skip_checksum ==> self.tail() =~= tr(self.sum())) }
}
'''
R07A = R06 + COM + ['pub const CMD_CODER: usize = 0; pub type StreamID = u8;', DENV, 'impl Codec {',
 Fn(DEC, 'decode_process_input', r'DivansDecoderCodec<', subs=SUBS + [(r'Worker: MainToThread<AllocU8>', ''), (r'<\s*>', '')],
    spec='''requires old(self).wf(), *old($3) <= $2@.len(), old(self).outstanding_buffer_count < 0x7fff_ffff_ffff_fff0
    ensures final(self).pre == old(self).pre, final(self).skip_checksum == old(self).skip_checksum, *old($3) <= *final($3) <= $2@.len(),
      // every byte taken is either under the checksum or in the trailer, in order
      final(self).read() =~= old(self).read() + $2@.subrange(*old($3) as int, *final($3) as int),
      final(self).n() <= 8, final(self).n() > 0 ==> final(self).demuxer.eof@, !final(self).skip_checksum ==> final(self).crc.0 == final(self).sum(),
      // at the end mark the trailer takes what is offered until it is complete
      !(r is Failure) && final(self).demuxer.eof@ ==> final(self).n() == 8 || *final($3) == $2@.len(),
      final(self).outstanding_buffer_count <= old(self).outstanding_buffer_count + 1''',
    ghost='let _vl = $2.len(); let ghost g0 = self.demuxer.got@; let ghost o0 = *$3 as int; let ghost d0 = self.deserialized_crc@; let ghost n0 = self.n();',
    before=[(r'if !self\.skip_checksum', 'proof { assert(adjusted_input_bytes@ =~= $2@.subrange(o0, $2@.len() as int)); assert(adjusted_input_bytes@.len() == $2@.len() - o0); assert($2@.subrange(o0, $2@.len() as int).subrange(0, adjusted_input_bytes_offset as int) =~= $2@.subrange(o0, o0 + adjusted_input_bytes_offset)); split_invariance(0, self.pre@ + g0, $2@.subrange(o0, o0 + adjusted_input_bytes_offset)); assert(self.pre@ + self.demuxer.got@ =~= (self.pre@ + g0) + $2@.subrange(o0, o0 + adjusted_input_bytes_offset)); }'),
      (r'self\.deserialized_crc_count \+= ', 'proof { assert(self.deserialized_crc@.subrange(0, n0) =~= d0.subrange(0, n0)); }')]),
 Fn(DEC, 'process_eof', r'DivansDecoderCodec<', subs=SUBS + ZIP, attrs='#[verifier::loop_isolation(false)]',
    spec='''requires old(self).wf(), *old($2) <= old($1)@.len()
    ensures final(self).wf(), final(self).read() == old(self).read(), final(self).skip_checksum == old(self).skip_checksum, *old($2) <= *final($2) <= final($1)@.len(),
      r is Success ==> final(self).good(), old(self).n() < 8 ==> !(r is Success), old(self).good() ==> !(r matches DivansResult::Failure(ErrMsg::BadChecksum(_, _))),
      old(self).n() == 8 && !old(self).good() ==> r is Failure || r is NeedsMoreOutput''',
    loops=['invariant 0 <= $i <= 8, self.n() == 8, zy@ == self.deserialized_crc@, zx@ =~= tr(self.crc.0), *self == me, forall|j: int| 0 <= j < $i ==> zx@[j] == zy@[j] || (j < 4 && self.skip_checksum)'],
    before=[(r'let checksum =', 'proof { bytes_of(self.crc.0); }'), (r'let zx', 'let ghost me = *self;'), (r'if \*chk != \*fil', 'proof { let i = index as int; assert(self.tail()[i] == zy@[i]); if i >= 4 && self.good() { assert(self.tail().subrange(4, 8)[i - 4] == tr(0).subrange(4, 8)[i - 4]); assert(self.tail().subrange(4, 8)[i - 4] == self.tail()[i]); } }')]),
 '}']
# ---- writing
EENV = r'''
// ---- environment: command coding and the stream multiplexer append to the output and leave the checksum alone
pub open spec fn app(o: Seq<u8>, o2: Seq<u8>, i: int, i2: int) -> bool { i <= i2 <= o2.len() && o2.len() == o.len() && o2.subrange(0, i) =~= o.subrange(0, i) }
pub struct Muxer { pub done: Ghost<bool> }
impl Muxer {
  #[verifier::external_body] pub fn flush(&mut self, output: &mut [u8]) -> (r: usize) ensures r <= old(output)@.len(), final(output)@.len() == old(output)@.len() { unimplemented!() }
  #[verifier::external_body] pub fn wrote_eof(&self) -> (r: bool) { unimplemented!() }
}
pub struct Cross { pub muxer: Muxer }
impl Cross {
  #[verifier::external_body] pub fn drain_or_fill_internal_buffer_cmd(&mut self, output: &mut [u8], o: &mut usize) -> (r: DivansResult)
    requires *old(o) <= old(output)@.len() ensures app(old(output)@, final(output)@, *old(o) as int, *final(o) as int) { unimplemented!() }
  #[verifier::external_body] pub fn drain_or_fill_internal_buffer_lit(&mut self, output: &mut [u8], o: &mut usize) -> (r: DivansResult)
    requires *old(o) <= old(output)@.len() ensures app(old(output)@, final(output)@, *old(o) as int, *final(o) as int) { unimplemented!() }
}
pub struct Coder { pub x: u8 }
impl Coder { #[verifier::external_body] pub fn close(&mut self) -> (r: DivansResult) { unimplemented!() } }
pub enum OneCommandReturn { Advance, BufferExhausted(DivansResult) }
pub enum CodecTraitResult { Res(OneCommandReturn), UpdateCodecTraitAndAdvance(CodecTraitSelector) }
#[derive(Clone, Copy)] pub enum CodecTraitSelector { DefaultTrait(u8), MixingTrait(u8) }
pub struct Cmds { pub x: u8 }
// the fields of DivansCodec (as instantiated by the compressor) these functions use
pub struct Codec { pub cross_command_state: Cross, pub state: EncodeOrDecodeState, pub crc: SubDigest, pub frozen_checksum: Option<u64>, pub codec_traits: CodecTraitSelector, pub coders: (Coder, Coder) }
pub open spec fn resting(s: EncodeOrDecodeState) -> bool { !(s is WriteChecksum) && !(s is DivansSuccess) && !(s is ShutdownCoder) }
impl Codec {
  // bytes of the trailer written so far
  pub open spec fn cnt(self) -> int { match self.state { EncodeOrDecodeState::WriteChecksum(c) => c as int, EncodeOrDecodeState::DivansSuccess => 8, _ => 0 } }
  pub open spec fn wf(self) -> bool {
    self.cnt() <= 8 && (self.state matches EncodeOrDecodeState::ShutdownCoder(i) ==> i < 2) && match self.frozen_checksum { Some(f) => f <= 0xffff_ffff && (self.state is WriteChecksum || self.state is DivansSuccess), None => self.cnt() == 0 }
  }
  pub open spec fn f(self) -> u32 { self.frozen_checksum->Some_0 as u32 }
  // w: every byte written since the start of the file
  pub open spec fn sess(self, w: Seq<u8>) -> bool {
    self.wf() && match self.frozen_checksum { None => self.crc.0 == crc32c(0, w),
      Some(f) => w.len() >= self.cnt() && self.f() == crc32c(0, w.subrange(0, w.len() - self.cnt())) && w.subrange(w.len() - self.cnt(), w.len() as int) == tr(self.f()).subrange(0, self.cnt()) }
  }
  #[verifier::external_body] fn coder_mut(&mut self, i: StreamID) -> (r: &mut Coder) ensures final(self).state == old(self).state, final(self).crc == old(self).crc, final(self).frozen_checksum == old(self).frozen_checksum, final(self).cross_command_state == old(self).cross_command_state { unimplemented!() }
  #[verifier::external_body] fn end_command(&mut self, output: &mut [u8], o: &mut usize) -> (r: CodecTraitResult)
    requires *old(o) <= old(output)@.len()
    ensures app(old(output)@, final(output)@, *old(o) as int, *final(o) as int), final(self).crc == old(self).crc, final(self).frozen_checksum == old(self).frozen_checksum,
      !(r matches CodecTraitResult::Res(OneCommandReturn::BufferExhausted(DivansResult::Success))) ==> resting(final(self).state) { unimplemented!() }
  #[verifier::external_body] fn e_or_d_specialize(&mut self, output: &mut [u8], o: &mut usize, c: &Cmds, ci: &mut usize, t: u8) -> (r: (Option<DivansResult>, Option<CodecTraitSelector>))
    requires *old(o) <= old(output)@.len(), resting(old(self).state)
    ensures app(old(output)@, final(output)@, *old(o) as int, *final(o) as int), final(self).crc == old(self).crc, final(self).frozen_checksum == old(self).frozen_checksum,
      resting(final(self).state) { unimplemented!() }
}
// what one flush step does to the file written so far
pub open spec fn step(a: Codec, b: Codec, out: Seq<u8>) -> bool {
  b.wf() && match a.frozen_checksum {
    Some(f) => b.frozen_checksum == Some(f) && a.cnt() <= b.cnt() && out == tr(a.f()).subrange(a.cnt(), b.cnt()),
    None => match b.frozen_checksum { None => b.crc.0 == crc32c(a.crc.0, out),
      Some(f) => out.len() >= b.cnt() && b.f() == crc32c(a.crc.0, out.subrange(0, out.len() - b.cnt())) && out.subrange(out.len() - b.cnt(), out.len() as int) == tr(b.f()).subrange(0, b.cnt()) } }
}
proof fn sess_step(a: Codec, b: Codec, out: Seq<u8>) requires step(a, b, out) ensures forall|w: Seq<u8>| #[trigger] a.sess(w) ==> b.sess(w + out) {
  assert forall|w: Seq<u8>| #[trigger] a.sess(w) implies b.sess(w + out) by {
    let v = w + out;
    match a.frozen_checksum {
      Some(f) => { let n = w.len() - a.cnt(); assert(v.len() - b.cnt() == n); assert(v.subrange(0, n) =~= w.subrange(0, n));
        assert(v.subrange(n, v.len() as int) =~= w.subrange(n, w.len() as int) + out); assert(tr(a.f()).subrange(0, a.cnt()) + tr(a.f()).subrange(a.cnt(), b.cnt()) =~= tr(a.f()).subrange(0, b.cnt())); }
      None => match b.frozen_checksum { None => { split_invariance(0, w, out); }
        Some(f) => { let m = out.len() - b.cnt(); split_invariance(0, w, out.subrange(0, m)); assert(v.subrange(0, v.len() - b.cnt()) =~= w + out.subrange(0, m));
          assert(v.subrange(v.len() - b.cnt(), v.len() as int) =~= out.subrange(m, out.len() as int)); } } }
  }
}
pub open spec fn hdr(w: u8) -> Seq<u8> { seq![0xffu8, 0xe5u8, 0x8cu8, 0x9fu8, 0u8, w, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8] }
// THEOREM: when the flush has finished, the file is its body and the trailer for that body
proof fn finished(c: Codec, w: Seq<u8>) requires c.sess(w), c.frozen_checksum is Some, c.cnt() == 8
  ensures w.len() >= 8, w.subrange(w.len() - 8, w.len() as int) =~= tr(crc32c(0, w.subrange(0, w.len() - 8))) { assert(tr(c.f()).subrange(0, 8) =~= tr(c.f())); }
'''
ESUBS = SUBS + [(r'Specialization::IS_DECODING_FILE', 'false'), (r'let nop = [^;]*;', ''), (r'let mut unused = 0usize;\s*let mut unused = ReadableBytes\{[^}]*\};', ''),
  (r'self\.encode_or_decode_one_command\(&mut unused,\s*output_bytes,\s*output_bytes_offset,\s*&nop,\s*&specializations::DEFAULT_TRAIT,\s*true\)', 'self.end_command(output_bytes, output_bytes_offset)'),
  (r'input_bytes: &\[u8\],\s*input_bytes_offset: &mut usize,\s*', ''), (r'<Commands:CommandArray>', ''), (r'&Commands\b', '&Cmds'),
  (r'if !LinearInputBytes::ISOLATED \{(?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*\}', ''), (r'let mut checksum_input_info = ReadableBytes\{[^}]*\};', ''), (r'&mut checksum_input_info,\s*', '')]
OLI = '''self.wf(), self.frozen_checksum == old(self).frozen_checksum, self.crc == old(self).crc, app(old($1)@, $1@, 0, *$2 as int), self.frozen_checksum is Some ==> *$2 == 0 && self.state == old(self).state'''
R07B = R06 + COM + ['pub type StreamID = u8; pub const CMD_CODER: usize = 0; ', Const('src/codec/interface.rs', 'NUM_ARITHMETIC_CODERS'), Const(CM, 'CHECKSUM_LENGTH'), Const(IF, 'HEADER_LENGTH'), Const(IF, 'MAGIC_NUMBER'), EnumFrom(CM, 'EncodeOrDecodeState'), EENV, 'impl Codec {',
 Fn(CM, 'get_crc', r'DivansCodec<', subs=ESUBS, spec='ensures *r == old(self).crc, *final(r) == final(self).crc, final(self).frozen_checksum == old(self).frozen_checksum, final(self).state == old(self).state'),
 Fn(CM, 'internal_flush', r'DivansCodec<', subs=ESUBS, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
    spec='''requires old(self).wf(), *old($2) == 0
    ensures app(old($1)@, final($1)@, 0, *final($2) as int), r is Success ==> final(self).frozen_checksum is Some && final(self).cnt() == 8,
      final(self).frozen_checksum is Some || final(self).crc == old(self).crc,
      final(self).frozen_checksum is Some ==> step(*old(self), *final(self), final($1)@.subrange(0, *final($2) as int)), final(self).wf(), final(self).frozen_checksum is None ==> old(self).frozen_checksum is None''', ghost='let _vl = $1.len();', before=[(r'let crc = self\.frozen_checksum', 'let ghost p0 = $1@; let ghost oo = *$2 as int; proof { bytes_of(self.f()); if old(self).frozen_checksum is None { assert(self.f() == crc32c(old(self).crc.0, p0.subrange(0, oo))); } }'),
      (r'\*output_bytes_offset \+= count_to_copy', 'proof { assert(checksum@ =~= tr(self.f())); assert($1@.subrange(0, oo) =~= p0.subrange(0, oo)); assert($1@.subrange(oo, oo + count_to_copy) =~= tr(self.f()).subrange(count as int, count as int + count_to_copy)); let out = $1@.subrange(0, oo + count_to_copy); assert(out.subrange(0, oo) =~= p0.subrange(0, oo)); assert(out.subrange(oo, oo + count_to_copy) =~= $1@.subrange(oo, oo + count_to_copy)); }'),
      (r'let amt =', 'proof { assert(output_loc@.len() == old($1)@.len() - *$2); }')],
    loops=[('invariant ' + OLI, 'proof { assert($1@.subrange(0, 0) =~= tr(self.f()).subrange(8, 8)); }'), 'invariant self.frozen_checksum is None, self.state is EncodedShutdownNode || self.state is ShutdownCoder, ' + OLI, 'invariant self.frozen_checksum is None, self.state is CoderBufferDrain || self.state is MuxDrain, ' + OLI, 'invariant self.state is MuxDrain, ' + OLI]),
 Fn(CM, 'flush', r'DivansCodec<', subs=ESUBS,
    spec='''requires old(self).wf(), *old($2) <= old($1)@.len()
    ensures *old($2) <= *final($2) <= final($1)@.len(), final($1)@.len() == old($1)@.len(), final($1)@.subrange(0, *old($2) as int) =~= old($1)@.subrange(0, *old($2) as int),
      forall|w: Seq<u8>| #[trigger] old(self).sess(w) ==> final(self).sess(w + final($1)@.subrange(*old($2) as int, *final($2) as int)), final(self).wf(),
      r is Success ==> final(self).frozen_checksum is Some && final(self).cnt() == 8''', ghost='let _vl = $1.len(); let ghost me = *self; let ghost o0 = *$2 as int; let ghost b0 = $1@; let ghost mut ad = Seq::<u8>::empty(); ',
    before=[(r'\*output_bytes_offset \+=', 'proof { assert(adjusted_output_bytes@.len() == b0.len() - o0); ad = adjusted_output_bytes@.subrange(0, adjusted_output_bytes_offset as int); }'),
      (r'ret\s*\}\s*$', 'proof { assert($1@.subrange(o0, *$2 as int) =~= ad); sess_step(me, *self, ad); }')]),

 Fn(CM, 'encode_or_decode', r'DivansCodec<', subs=ESUBS, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]',
    spec="""requires old(self).wf(), resting(old(self).state), *old($4) <= old($3)@.len()
    ensures *old($4) <= *final($4) <= final($3)@.len(), final($3)@.len() == old($3)@.len(), final($3)@.subrange(0, *old($4) as int) =~= old($3)@.subrange(0, *old($4) as int),
      forall|w: Seq<u8>| #[trigger] old(self).sess(w) ==> final(self).sess(w + final($3)@.subrange(*old($4) as int, *final($4) as int)), final(self).wf(), resting(final(self).state)""",
    ghost='let _vl = $3.len(); let ghost me = *self; let ghost o0 = *$4 as int; let ghost b0 = $3@; let ghost mut ad = Seq::<u8>::empty(); ',
    loops=['invariant adjusted_output_bytes_offset <= adjusted_output_bytes@.len() == b0.len() - o0, self.crc == me.crc, self.frozen_checksum is None, self.wf(), resting(self.state), *$4 == o0, final(adjusted_output_bytes)@ == fin'],
    before=[(r'\*output_bytes_offset \+=', 'proof { ad = adjusted_output_bytes@.subrange(0, adjusted_output_bytes_offset as int); }'),
      (r'loop \{', 'let ghost fin = final(adjusted_output_bytes)@;'), (r'return result', 'proof { assert($3@.subrange(o0, *$4 as int) =~= ad); sess_step(me, *self, ad); }')]),
 '}',
 Fn(CO, 'make_header', subs=SUBS + [(r'interface::', '')], spec='ensures r@ =~= hdr($1)'),
 Fn(CO, 'write_header', subs=SUBS + [(r'<CRC:Hasher>', ''), (r'&mut CRC', '&mut SubDigest'), (r'interface::', '')],
    spec="""requires *old($1) <= 16, *old($4) <= old($3)@.len() <= 0x7fff_ffff_ffff_ffff
    ensures *old($4) <= *final($4) <= final($3)@.len(), final($3)@.len() == old($3)@.len(), *final($1) == *old($1) + (*final($4) - *old($4)) <= 16, final($3)@.subrange(0, *old($4) as int) =~= old($3)@.subrange(0, *old($4) as int),
      final($3)@.subrange(*old($4) as int, *final($4) as int) =~= hdr($2).subrange(*old($1) as int, *final($1) as int), final($5).0 == crc32c(old($5).0, final($3)@.subrange(*old($4) as int, *final($4) as int)),
      r is Success <==> *final($1) == 16, !(r is Failure)"""),
]
