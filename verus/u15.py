"""R15: input bytes become literal commands; nothing is lost or repeated, whatever the window, the pieces and the room for commands."""
from vextract import Fn
from u05 import StructFrom, EnumFrom, MIN
RC = 'src/raw_to_cmd/mod.rs'; IF = 'src/interface.rs'; DC = 'src/divans_compressor.rs'; SU = 'src/slice_util.rs'
CMD = r'''
#[derive(Clone, Copy)] pub struct InputReference<'a> { pub data: &'a [u8], pub orig_offset: usize }
#[verifier::allow(autoderive_clone_without_spec)] #[derive(Clone, Copy)] pub struct FeatureFlagSliceType<S> { pub p: core::marker::PhantomData<S> }
impl<S> FeatureFlagSliceType<S> { #[verifier::external_body] pub fn default() -> FeatureFlagSliceType<S> { unimplemented!() } }
#[verifier::allow(autoderive_clone_without_spec)] #[derive(Clone, Copy)] pub struct LiteralCommand<S> { pub data: S, pub prob: FeatureFlagSliceType<S>, pub high_entropy: bool }
#[verifier::allow(autoderive_clone_without_spec)] #[derive(Clone, Copy)] pub struct PredictionModeContextMap<S> { pub literal_context_map: S, pub predmode_speed_and_distance_context_map: S }
#[derive(Clone, Copy)] pub struct CopyCommand { pub distance: u32, pub num_bytes: u32 }
#[derive(Clone, Copy)] pub struct Opaque { pub v: u32 }
#[verifier::allow(autoderive_clone_without_spec)] #[derive(Clone, Copy)] pub enum Command<S> { Literal(LiteralCommand<S>), PredictionMode(PredictionModeContextMap<S>), Copy(CopyCommand), Dict(Opaque), BlockSwitchLiteral(Opaque), BlockSwitchCommand(Opaque), BlockSwitchDistance(Opaque) }
pub type IC<'a> = Command<InputReference<'a>>;
// the bytes a command stands for
pub open spec fn cv(c: IC) -> Seq<u8> { match c { Command::Literal(l) => l.data.data@, _ => Seq::empty() } }
pub open spec fn cvs(s: Seq<IC>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cvs(s.drop_last()) + cv(s.last()) } }
proof fn l_cvs_push(s: Seq<IC>, n: int) requires 0 <= n < s.len() ensures cvs(s.subrange(0, n + 1)) == cvs(s.subrange(0, n)) + cv(s[n])
{ assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); }
proof fn l_cvs_cat(s: Seq<IC>, t: Seq<IC>) ensures cvs(s + t) == cvs(s) + cvs(t) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); assert(cvs(s) + cvs(t) =~= cvs(s)); } else { assert((s + t).drop_last() =~= s + t.drop_last()); l_cvs_cat(s, t.drop_last()); assert(cvs(s) + cvs(t) =~= cvs(s) + cvs(t.drop_last()) + cv(t.last())); } }
// the commands put into c between i and j
pub open spec fn em(c: Seq<IC>, i: int, j: int) -> Seq<u8> { cvs(c.subrange(i, j)) }
proof fn l_em(o: Seq<IC>, c: Seq<IC>, i: int, j: int) requires 0 <= i <= j < c.len(), c.len() == o.len(), forall|k: int| 0 <= k < j ==> c[k] == o[k] ensures em(c, i, j + 1) == em(o, i, j) + cv(c[j])
{ assert(c.subrange(i, j + 1).drop_last() =~= o.subrange(i, j)); }
proof fn l_em0(c: Seq<IC>, i: int) requires 0 <= i <= c.len() ensures em(c, i, i).len() == 0 { assert(c.subrange(i, i).len() == 0); }
// the literals among them lie where they say in the window v
pub open spec fn at(c: IC, v: Seq<u8>) -> bool { match c { Command::Literal(l) => l.data.orig_offset + l.data.data@.len() <= v.len() && l.data.data@ == v.subrange(l.data.orig_offset as int, l.data.orig_offset + l.data.data@.len()), Command::PredictionMode(p) => p.literal_context_map.data@.len() <= 64 && p.predmode_speed_and_distance_context_map.data@.len() <= 0xffff, _ => false } }
'''
ENV = MIN + CMD + r'''
pub struct Mem { pub v: Vec<u8> }
impl Mem {
  #[verifier::external_body] pub fn slice(&self) -> (r: &[u8]) ensures r@ == self.v@ { &self.v }
  #[verifier::external_body] pub fn slice_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).v@, final(r)@ == final(self).v@, final(self).v@.len() == old(self).v@.len() { &mut self.v }
}
pub struct HashMatch {}
pub struct M32 {}
impl HashMatch { #[verifier::external_body] pub fn new(m: &mut M32) -> HashMatch { unimplemented!() } #[verifier::external_body] pub fn free(&mut self, m: &mut M32) { unimplemented!() } }
pub const DISTANCE_CONTEXT_MAP_OFFSET: usize = 8208;
pub const MIXING_OFFSET: usize = 4;
pub const NUM_MIXING_VALUES: usize = 8192;
impl RawToCmdState {
  pub open spec fn n(self) -> int { self.ring_buffer.v@.len() as int }
  pub open spec fn i(self) -> int { self.ring_buffer_decode_index as int }
  pub open spec fn o(self) -> int { self.ring_buffer_output_index as int }
  pub open spec fn wf(self) -> bool { 1 < self.n() <= 0x4000_0000 && self.i() <= self.n() && self.o() <= self.n() }
  // the bytes taken but not yet turned into commands
  pub open spec fn held(self) -> Seq<u8> { let v = self.ring_buffer.v@; if self.o() <= self.i() { v.subrange(self.o(), self.i()) } else { v.subrange(self.o(), self.n()) + v.subrange(0, self.i()) } }
}
'''
I = r'^impl<RingBuffer: SliceWrapperMut<u8> \+ SliceWrapper<u8>, AllocU32: ?Allocator<u32>> RawToCmdState<RingBuffer, AllocU32>'
S = [
     (r'super::interface::', ''), (r'clone_from_slice', 'copy_from_slice'), (r'core::cmp::min', 'vmin'), (r'&mut AllocU32', '&mut M32'), (r'HashMatch::<AllocU32>', 'HashMatch'), (r'rb: ?RingBuffer', 'rb: Mem'), (r'\bSelf\b', 'RawToCmdState'),
     (r'for \(index, item\) in literal_context_map\.iter_mut\(\)\.enumerate\(\) \{', 'let ln = literal_context_map.len(); let mut zi: usize = 0; while zi < ln { let index = zi; let item = &mut literal_context_map[zi]; zi += 1;'),
     (r'for \(index, item\) in prediction_mode_backing\[DISTANCE_CONTEXT_MAP_OFFSET\.\.\]\.iter_mut\(\)\.enumerate\(\) \{', 'let ln = prediction_mode_backing.len() - DISTANCE_CONTEXT_MAP_OFFSET; let mut zi: usize = 0; while zi < ln { let index = zi; let item = &mut prediction_mode_backing[DISTANCE_CONTEXT_MAP_OFFSET + zi]; zi += 1;'),
     (r'for item in prediction_mode_backing\[MIXING_OFFSET\.\.MIXING_OFFSET \+ NUM_MIXING_VALUES\]\.iter_mut\(\) \{', 'let mut zi: usize = 0; while zi < NUM_MIXING_VALUES { let item = &mut prediction_mode_backing[MIXING_OFFSET + zi]; zi += 1;')]
ST = StructFrom(RC, 'RawToCmdState', [(r'<RingBuffer: SliceWrapperMut<u8> \+ SliceWrapper<u8>,\s*AllocU32:Allocator<u32>>', ''), (r'\bRingBuffer\b', 'Mem'), (r'HashMatch<AllocU32>', 'HashMatch')])
OUT = lambda o, oo, lcm, pmb: 'old(self).wf(), *old(%s) <= old(%s)@.len(), old(%s)@.len() >= 64, old(%s)@.len() >= DISTANCE_CONTEXT_MAP_OFFSET + 4' % (oo, o, lcm, pmb)
POST = lambda o, oo, lcm, pmb: 'final(' + lcm + ')@.len() == old(' + lcm + ')@.len(), final(' + pmb + ')@.len() == old(' + pmb + ')@.len(), ' + 'final(self).wf(), final(self).n() == old(self).n(), *old(%s) <= *final(%s) <= final(%s)@.len(), final(%s)@.len() == old(%s)@.len(), forall|j: int| 0 <= j < *old(%s) ==> final(%s)@[j] == old(%s)@[j], forall|j: int| *old(%s) <= j < *final(%s) ==> at(#[trigger] final(%s)@[j], final(self).ring_buffer.v@) && (j > *old(%s) ==> !(final(%s)@[j] is PredictionMode))' % (oo, oo, o, o, o, oo, o, o, oo, oo, o, oo, o)
RFN = [
 Fn(RC, 'new', I, subs=S, spec='requires 1 < $2.v@.len() <= 0x4000_0000 ensures r.wf(), r.held().len() == 0, r.n() == $2.v@.len()'),
 Fn(RC, 'raw_input_ir_mode', I, subs=S, spec='requires old(self).wf() ensures final(self).wf(), final(self).held() == old(self).held(), final(self).n() == old(self).n()'),
 Fn(RC, 'ring_buffer_full', I, subs=S, spec='requires self.wf() ensures r == (self.i() == self.n() || self.i() + 1 == self.o())'),
 Fn(RC, 'flush', I, subs=S, rename="flush<'a>", spec='requires ' + OUT('$1', '$2', '$3', '$4') + ' ensures ' + POST('$1', '$2', '$3', '$4') + ', em(final($1)@, *old($2) as int, *final($2) as int) + final(self).held() =~= old(self).held(), r is Success ==> final(self).held().len() == 0, !(r is Failure), r is NeedsMoreOutput ==> *final($2) == final($1)@.len(), r is Success && old(self).held().len() > 0 ==> *final($2) > *old($2)', attrs='#[verifier::loop_isolation(false)]',
    ghost='let _vl = $1.len(); let ghost oo0 = *$2 as int; let ghost h0 = self.held(); let ghost rb = self.ring_buffer.v@; let ghost pl = $4@.len(); let ghost f3 = final($3)@; let ghost f4 = final($4)@; proof { l_em0($1@, oo0); }',
    loops=['invariant zi <= ln, ln == $3@.len(), final($3)@ == f3 decreases ln - zi', 'invariant zi <= ln, $4@.len() == DISTANCE_CONTEXT_MAP_OFFSET + ln, $4@.len() == pl, final($4)@ == f4 decreases ln - zi', 'invariant zi <= NUM_MIXING_VALUES, $4@.len() >= DISTANCE_CONTEXT_MAP_OFFSET + 4, $4@.len() == pl, final($4)@ == f4 decreases NUM_MIXING_VALUES - zi'],
    before=[(r'output\[\*output_offset\] = ', 'let ghost o1 = $1@;'), (r'\*output_offset \+= 1', 'proof { l_em(o1, $1@, oo0, *$2 as int); if let Command::Literal(l) = $1@[*$2 as int] { assert(l.data.data@ =~= rb.subrange(l.data.orig_offset as int, l.data.orig_offset + l.data.data@.len())); } }')]),
 Fn(RC, 'stream', I, subs=S, rename="stream<'a>", spec='requires ' + OUT('$3', '$4', '$5', '$6') + ', *old($2) <= $1@.len(), $1@.len() < 0x1_0000_0000 ensures ' + POST('$3', '$4', '$5', '$6') + ', *old($2) <= *final($2) <= $1@.len(), em(final($3)@, *old($4) as int, *final($4) as int) + final(self).held() =~= old(self).held() + $1@.subrange(*old($2) as int, *final($2) as int), r is NeedsMoreInput ==> *final($2) == $1@.len(), !(r is Failure), !(r is Success), r is NeedsMoreOutput ==> *old($4) == old($3)@.len() || *final($4) > *old($4)'),
]
R15A = [ENV, EnumFrom(IF, 'ErrMsg'), EnumFrom(IF, 'DivansResult'), EnumFrom(IF, 'DivansOutputResult'), ST, 'impl RawToCmdState {'] + RFN + ['}']
# ---- the compressor around it: commands the codec had no room for are kept frozen, as places in the window
CENV = r'''
// brotli::InputReference::freeze and brotli::SliceOffset
pub struct SliceOffset(pub usize, pub u32);
impl SliceOffset { fn offset(&self) -> (r: usize) ensures r == self.0 { self.0 } fn len(&self) -> (r: usize) ensures r == self.1 { self.1 as usize } }
impl<'a> InputReference<'a> { fn freeze(&self) -> (r: SliceOffset) requires self.data@.len() <= 0xffff_ffff ensures r.0 == self.orig_offset, r.1 == self.data@.len() { SliceOffset(self.orig_offset, self.data.len() as u32) } }
pub type FC = Command<SliceReference>;
// a kept command names a place in the window v
pub open spec fn fits(f: FC, v: Seq<u8>) -> bool { match f { Command::Literal(l) => l.data.start + l.data.len <= v.len(), Command::PredictionMode(_) => false, _ => true } }
pub open spec fn tv(f: FC, v: Seq<u8>) -> Seq<u8> { match f { Command::Literal(l) => v.subrange(l.data.start as int, l.data.start + l.data.len), _ => Seq::empty() } }
pub open spec fn tvs(a: Seq<FC>, v: Seq<u8>, i: int, j: int) -> Seq<u8> decreases j - i { if j <= i { Seq::empty() } else { tvs(a, v, i, j - 1) + tv(a[j - 1], v) } }
// c is what f stands for
pub open spec fn same(f: FC, c: IC, v: Seq<u8>) -> bool { cv(c) == tv(f, v) && (c is Literal <==> f is Literal) && (c is PredictionMode <==> f is PredictionMode) }
// f names the place c lies at
pub open spec fn frz(f: FC, c: IC) -> bool { match (f, c) { (Command::Literal(m), Command::Literal(l)) => m.data.start == l.data.orig_offset && m.data.len == l.data.data@.len(), (Command::Literal(_), _) => false, (_, Command::Literal(_)) => false, (Command::PredictionMode(_), Command::PredictionMode(_)) => true, (Command::PredictionMode(_), _) => false, (_, Command::PredictionMode(_)) => false, _ => true } }
pub open spec fn small(c: IC) -> bool { match c { Command::Literal(l) => l.data.data@.len() <= 0xffff_ffff, Command::PredictionMode(p) => p.literal_context_map.data@.len() <= 0xffff_ffff && p.predmode_speed_and_distance_context_map.data@.len() <= 0xffff_ffff, _ => true } }
proof fn l_frz(f: FC, c: IC, v: Seq<u8>) requires frz(f, c), at(c, v) ensures same(f, c, v), !(c is PredictionMode) ==> fits(f, v) {}
proof fn l_tvs(a: Seq<FC>, c: Seq<IC>, v: Seq<u8>, i: int, j: int) requires 0 <= i <= j <= c.len(), j <= a.len(), forall|k: int| i <= k < j ==> same(#[trigger] a[k], c[k], v) ensures em(c, i, j) == tvs(a, v, i, j) decreases j - i
{ if i < j { l_tvs(a, c, v, i, j - 1); l_em(c, c, i, j - 1); } else { l_em0(c, i); assert(em(c, i, i) =~= Seq::<u8>::empty()); } }
proof fn l_tvs_off(a: Seq<FC>, c: Seq<IC>, v: Seq<u8>, n: int) requires 0 <= n <= c.len(), n <= a.len(), forall|k: int| 0 <= k < n ==> same(#[trigger] a[k], c[k], v) ensures cvs(c.subrange(0, n)) == tvs(a, v, 0, n)
{ l_tvs(a, c, v, 0, n); }
proof fn l_em_cat(c: Seq<IC>, i: int, j: int, k: int) requires 0 <= i <= j <= k <= c.len() ensures em(c, i, k) == em(c, i, j) + em(c, j, k)
{ l_cvs_cat(c.subrange(i, j), c.subrange(j, k)); assert(c.subrange(i, j) + c.subrange(j, k) =~= c.subrange(i, k)); }
proof fn l_tvs_cat(a: Seq<FC>, v: Seq<u8>, i: int, k: int, j: int) requires i <= k <= j ensures tvs(a, v, i, j) == tvs(a, v, i, k) + tvs(a, v, k, j) decreases j - k
{ if k < j { l_tvs_cat(a, v, i, k, j - 1); assert(tvs(a, v, i, j) =~= tvs(a, v, i, k) + tvs(a, v, k, j)); } else { assert(tvs(a, v, i, j) =~= tvs(a, v, i, k) + tvs(a, v, k, j)); } }
proof fn l_pre(a: Seq<FC>, c: Seq<IC>, v: Seq<u8>, s: int, n: int) requires 0 <= s <= n <= c.len(), n <= a.len(), forall|k: int| s <= k < n ==> same(a[k], #[trigger] c[k], v)
  ensures forall|k: int| #![trigger em(c.subrange(0, n), s, k)] s <= k <= n ==> em(c.subrange(0, n), s, k) + tvs(a, v, k, n) == tvs(a, v, s, n), tvs(a, v, n, n).len() == 0
{ assert forall|k: int| #![trigger em(c.subrange(0, n), s, k)] s <= k <= n implies em(c.subrange(0, n), s, k) + tvs(a, v, k, n) == tvs(a, v, s, n) by {
    assert forall|q: int| s <= q < k implies same(#[trigger] a[q], c.subrange(0, n)[q], v) by { assert(same(a[q], c[q], v)); }
    l_tvs(a, c.subrange(0, n), v, s, k); l_tvs_cat(a, v, s, k, n); } }
proof fn l_acc(a: Seq<u8>, d: Seq<u8>, h: Seq<u8>, e: Seq<u8>, h1: Seq<u8>, i: Seq<u8>, x: int, y: int, z: int) requires 0 <= x <= y <= z <= i.len(), d + h =~= a + i.subrange(x, y), e + h1 =~= h + i.subrange(y, z) ensures (d + e) + h1 == a + i.subrange(x, z)
{ assert((d + e) + h1 =~= d + (e + h1)); assert(d + (h + i.subrange(y, z)) =~= (d + h) + i.subrange(y, z)); assert(a + i.subrange(x, y) + i.subrange(y, z) =~= a + i.subrange(x, z)); }
// what was taken of c, and what is left of it
proof fn l_post(c: Seq<IC>, t: int) requires 0 <= t <= c.len()
  ensures forall|u: int| #![trigger em(c.subrange(0, t), 0, u)] 0 <= u <= t ==> em(c.subrange(0, t), 0, u) + cvs(c.subrange(u, t)) == em(c, 0, t), cvs(c.subrange(t, t)).len() == 0
{ assert forall|u: int| #![trigger em(c.subrange(0, t), 0, u)] 0 <= u <= t implies em(c.subrange(0, t), 0, u) + cvs(c.subrange(u, t)) == em(c, 0, t) by { assert(c.subrange(0, t).subrange(0, u) =~= c.subrange(0, u)); l_em_cat(c, 0, u, t); } }
// brotli::interface::thaw: the slices of the command thawed by their own thaw
#[verifier::external_body] fn bthaw<'a>(f: &FC, v: &'a [u8]) -> (r: IC<'a>) requires fits(*f, v@) ensures same(*f, r, v@) { unimplemented!() }
#[verifier::external_body] fn freeze<'a>(p: &FeatureFlagSliceType<InputReference<'a>>) -> FeatureFlagSliceType<SliceReference> { unimplemented!() }
#[verifier::external_body] fn blank<'a>() -> (r: [IC<'a>; 16]) ensures forall|k: int| 0 <= k < 16 ==> cv(#[trigger] r@[k]).len() == 0 { unimplemented!() }
#[verifier::external_body] fn part<'b, 'a>(a: &'b [IC<'a>; 16], i: usize, j: usize) -> (r: &'b [IC<'a>]) requires i <= j <= 16 ensures r@ == a@.subrange(i as int, j as int) { &a[i..j] }
#[verifier::external_body] fn all_mut<'b, 'a>(a: &'b mut [IC<'a>; 16]) -> (r: &'b mut [IC<'a>]) ensures r@ == old(a)@, final(r)@ == final(a)@ { &mut a[..] }
#[verifier::external_body] fn empty() -> (r: &'static [u8]) ensures r@.len() == 0 { &[] }
pub struct InputReferenceCommandArray<'b, 'a>(pub &'b [IC<'a>]);
pub struct Crc {}
pub struct A8 {}
pub type AllocU8 = A8;
pub type AllocU32 = M32;
pub const MAX_PREDMODE_SPEED_AND_DISTANCE_CONTEXT_MAP_SIZE: usize = 8208 + 256 * 4;
pub const MAX_LITERAL_CONTEXT_MAP_SIZE: usize = 256 * 64;
impl A8 { #[verifier::external_body] pub fn alloc_cell(&mut self, n: usize) -> (r: Mem) ensures r.v@.len() == n { unimplemented!() } }
pub struct DivansCompressorOptions { pub window_size: Option<i32> }
impl MinT for i32 { open spec fn iv(self) -> int { self as int } fn vmin_(a: i32, b: i32) -> (r: i32) { if a <= b { a } else { b } } }
fn vmax(a: i32, b: i32) -> (r: i32) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
#[verifier::external_body] fn blank_frozen() -> (r: [Command<SliceReference>; 16]) { unimplemented!() }
// ---- environment: the codec, as a consumer of commands: done = the bytes of the commands taken; cur = the bytes of a literal it has begun and waits to see again
pub struct Codec { pub done: Ghost<Seq<u8>>, pub cur: Ghost<Option<Seq<u8>>> }
impl Codec {
  #[verifier::external_body] pub fn new() -> (r: Codec) ensures r.done@.len() == 0, r.cur@ is None { unimplemented!() }
  #[verifier::external_body] pub fn get_crc(&mut self) -> (r: &mut Crc) ensures *final(self) == *old(self) { unimplemented!() }
  #[verifier::external_body] pub fn encode_or_decode(&mut self, input: &[u8], io: &mut usize, output: &mut [u8], oo: &mut usize, cmds: &InputReferenceCommandArray, co: &mut usize) -> (r: DivansResult)
    requires *old(oo) <= old(output)@.len(), *old(co) < cmds.0@.len(), old(self).cur@ is Some ==> cmds.0@[*old(co) as int] is Literal && cv(cmds.0@[*old(co) as int]) == old(self).cur@->Some_0
    ensures final(output)@.len() == old(output)@.len(), *old(oo) <= *final(oo) <= final(output)@.len(), *old(co) <= *final(co) <= cmds.0@.len(), final(self).done@ == old(self).done@ + em(cmds.0@, *old(co) as int, *final(co) as int),
      r is NeedsMoreInput || r is Success ==> *final(co) == cmds.0@.len() && final(self).cur@ is None,
      r is NeedsMoreOutput ==> *final(co) < cmds.0@.len() && (final(self).cur@ is Some ==> cmds.0@[*final(co) as int] is Literal && cv(cmds.0@[*final(co) as int]) == final(self).cur@->Some_0)
        && (old(self).cur@ is None && cmds.0@[*old(co) as int] is PredictionMode ==> *final(co) > *old(co)) { unimplemented!() }
  #[verifier::external_body] pub fn flush(&mut self, output: &mut [u8], oo: &mut usize) -> (r: DivansOutputResult)
    requires *old(oo) <= old(output)@.len(), old(self).cur@ is None
    ensures final(output)@.len() == old(output)@.len(), *old(oo) <= *final(oo) <= final(output)@.len(), final(self).done == old(self).done, final(self).cur == old(self).cur { unimplemented!() }
}
#[verifier::external_body] fn write_header(hp: &mut usize, w: u8, output: &mut [u8], oo: &mut usize, crc: &mut Crc) -> (r: DivansOutputResult)
  requires *old(oo) <= old(output)@.len(), *old(hp) <= 16 ensures final(output)@.len() == old(output)@.len(), *old(oo) <= *final(oo) <= final(output)@.len(), *final(hp) <= 16 { unimplemented!() }
impl DivansCompressor {
  pub open spec fn st(self) -> int { self.freeze_dried_cmd_start as int }
  pub open spec fn en(self) -> int { self.freeze_dried_cmd_end as int }
  pub open spec fn v(self) -> Seq<u8> { self.cmd_assembler.ring_buffer.v@ }
  pub open spec fn wf(self) -> bool { self.st() <= self.en() <= 16 && self.cmd_assembler.wf() && self.header_progress <= 16 && self.literal_context_map_backing.v@.len() >= 64 && self.prediction_mode_backing.v@.len() >= DISTANCE_CONTEXT_MAP_OFFSET + 4 && self.okf() }
  pub open spec fn okf(self) -> bool { (forall|k: int| self.st() <= k < self.en() ==> fits(#[trigger] self.freeze_dried_cmd_array@[k], self.v()))
    && (self.codec.cur@ is Some ==> self.st() < self.en() && self.freeze_dried_cmd_array@[self.st()] is Literal && tv(self.freeze_dried_cmd_array@[self.st()], self.v()) == self.codec.cur@->Some_0) }
  pub open spec fn kept(self) -> Seq<u8> { tvs(self.freeze_dried_cmd_array@, self.v(), self.st(), self.en()) }
  // every byte taken so far: in commands the codec has, in commands kept, in the window
  pub open spec fn all(self) -> Seq<u8> { self.codec.done@ + self.kept() + self.cmd_assembler.held() }
  pub open spec fn rest(self) -> (usize, u8) { (self.header_progress, self.window_size) }
}
pub const HEADER_LENGTH: usize = 16;
pub const COMPRESSOR_CMD_BUFFER_SIZE: usize = 16;
'''
CS = [(r"slice_util::SliceReference::<u8>::freeze", 'SliceReference::freeze'), (r"slice_util::SliceReference<'static, ?u8>", 'SliceReference'), (r'brotli::interface::thaw', 'bthaw'), (r'brotli::', ''), (r'interface::', ''), (r'DivansResult::from\(', 'result_from('),
      (r'\[Command::<InputReference>::default\(\); ?COMPRESSOR_CMD_BUFFER_SIZE\]', 'blank()'), (r'&self\.freeze_dried_cmd_array\[\.\.\]', '&self.freeze_dried_cmd_array'), (r'&mut temp_bs\[\.\.\]', 'all_mut(&mut temp_bs)'),
      (r'(thawed_buffer|temp_bs)\.split_at\(([\w.]+)\)\.0', r'part(&\1, 0, \2)'), (r'&temp_bs\[(\w+)\.\.(\w+)\]', r'part(&temp_bs, \1, \2)'), (r'&\[\]', 'empty()'),
      (r'for \(frozen, leftover\) in freeze_dried_cmd_array\.split_at_mut\(input\.len\(\)\)\.0\.iter_mut\(\)\.zip\(input\.iter\(\)\) \{', 'let ln = input.len(); let mut zi: usize = 0; while zi < ln { let frozen = &mut freeze_dried_cmd_array[zi]; let leftover = &input[zi]; zi += 1;'),
      (r'for \(thawed, frozen\) in ret\[start_index\.\.end_index\]\.iter_mut\(\)\.zip\(input\[start_index\.\.end_index\]\.iter\(\)\) \{', 'let mut zi: usize = start_index; while zi < end_index { let thawed = &mut ret[zi]; let frozen = &input[zi]; zi += 1;'),
      (r'thaw_commands<', 'thaw_commands<'), (r'\bSelf::', 'DivansCompressor::'), (r'input: &\[Command<SliceReference>\]', 'input: &[Command<SliceReference>; 16]'), (r'data: &\[\],', '')]
FS = [(r"brotli::(interface::)?", ''), (r"data: ?(empty\(\)|&\[\]),", ''), (r"SliceReference::<(?:'a, )?T>", 'SliceReference'), (r"SliceReference<'static, T>", 'SliceReference')]
SRI = r"^impl<'a, T:'a> SliceReference<'a, T>"
CI = r'^impl<DefaultEncoder: ArithmeticEncoderOrDecoder \+ NewWithAllocator<AllocU8>, AllocU8:Allocator<u8>, AllocU32:Allocator<u32>, AllocCDF16:Allocator<interface::DefaultCDF16>>\s*DivansCompressor<'
CC = r'Compressor for DivansCompressor<'
DCS = StructFrom(DC, 'DivansCompressor', [(r'codec:\s*DivansCodec<[\s\S]*?AllocCDF16>,', 'codec: Codec,'), (r'AllocU8::AllocatedMemory', 'Mem'), (r'raw_to_cmd::RawToCmdState<Mem, AllocU32>', 'RawToCmdState'), (r"slice_util::SliceReference<'static, ?u8>", 'SliceReference'), (r'm32: ?AllocU32', 'm32: M32'), (r'Command<SliceReference>; COMPRESSOR_CMD_BUFFER_SIZE', 'Command<SliceReference>; 16')])
CST = '$A, $B'
LI = 'self.freeze_dried_cmd_start <= self.freeze_dried_cmd_end <= 16, self.cmd_assembler.wf(), self.header_progress <= 16, self.freeze_dried_cmd_start == self.freeze_dried_cmd_end && self.codec.cur@ is None'
DONE = '!final(self).codec.bad@ && !(r is Failure) ==> '
HINT2 = (r'let mut out_cmd_offset', 'let ghost e0 = em(temp_bs@, 0, temp_cmd_offset as int); proof { l_post(temp_bs@, temp_cmd_offset as int); }')
HINT = (r'let mut out_cmd_offset', 'proof { l_post(temp_bs@, temp_cmd_offset as int); }')
CFN = [
 StructFrom(SU, 'SliceReference', [(r"data: ?&'a ?\[T\],", '')], derive='#[derive(Clone, Copy)]'),
 'impl SliceReference {', Fn(SU, 'freeze', SRI, subs=FS, spec='ensures r.start == $1.0, r.len == $1.1'),
 Fn(SU, 'thaw', r"^impl<'b> brotli::interface::Unfreezable for SliceReference<'b, u8>", subs=FS, rename="thaw<'a>", spec='requires self.start + self.len <= $1@.len() ensures r.orig_offset == self.start, r.data@ =~= $1@.subrange(self.start as int, self.start + self.len)'), '}',
 CENV, DCS,
 Fn(IF, 'from', r'^impl From<DivansOutputResult> for DivansResult', rename='result_from', psubs=[(r'\bSelf\b', 'DivansResult')], spec='ensures r is Failure == $1 is Failure, r is NeedsMoreOutput == $1 is NeedsMoreOutput, !(r is NeedsMoreInput), r is Success == $1 is Success'),
 Fn(DC, 'thaw_commands', subs=CS, rename="thaw_commands<'a>", attrs='#[verifier::loop_isolation(false)]', spec='requires $3 <= $4 <= 16, forall|k: int| $3 <= k < $4 ==> fits(#[trigger] $1@[k], $2@) ensures forall|k: int| $3 <= k < $4 ==> same($1@[k], #[trigger] r@[k], $2@)',
   loops=['invariant $3 <= zi <= $4, forall|k: int| $3 <= k < zi ==> same($1@[k], #[trigger] ret@[k], $2@) decreases $4 - zi']),
 'impl DivansCompressor {',
 Fn(DC, 'new', r'interface::DivansCompressorFactory<AllocU8,\s*AllocU32,\s*AllocCDF16>\s*for DivansCompressorFactoryStruct', subs=[(r'DivansCodec::<Self::DefaultEncoder[\s\S]*?\)\s*,\s*(?=literal_context_map_backing)', 'Codec::new(), '), (r'\[interface::Command::<slice_util::SliceReference<.static, u8>>::default\(\);\s*COMPRESSOR_CMD_BUFFER_SIZE\]', 'blank_frozen()'), (r'let (cmd_enc|lit_enc) = [^;]*;', ''), (r'raw_to_cmd::', ''), (r'DivansCompressor::<Self::DefaultEncoder, AllocU8, AllocU32, AllocCDF16>', 'DivansCompressor'), (r'core::cmp::(min|max)', r'v\1'), (r'interface::MAX', 'MAX'), (r'super::interface::', ''), (r'\b1 ?<< ?window_size\b', '1usize << (window_size as u32)')],
   psubs=[(r'mut m8: AllocU8', 'mut m8: A8'), (r'mut m32: AllocU32', 'mut m32: M32'), (r', mcdf16: ?AllocCDF16', ''), (r'super::interface::', ''), (r'DivansCompressor<[^>]*>', 'DivansCompressor'), (r',\s*_additional_args: \(\)', '')], spec='ensures r.wf(), r.all().len() == 0',
   before=[(r'let ring_buffer', 'proof { let w = window_size as u32; assert(10 <= w <= 24); assert(1 < (1usize << w) <= 0x4000_0000) by(bit_vector) requires 10 <= w <= 24; }')]),
 Fn(DC, 'freeze_dry', CI, subs=CS, rename="freeze_dry<'a>", attrs='#[verifier::loop_isolation(false)]', spec='''requires $4@.len() <= 16, forall|k: int| 0 <= k < $4@.len() ==> small(#[trigger] $4@[k])
   ensures *final($2) == 0, *final($3) == $4@.len(), forall|k: int| 0 <= k < $4@.len() ==> frz(#[trigger] final($1)@[k], $4@[k]),
     forall|v: Seq<u8>| #![trigger tvs(final($1)@, v, 0, $4@.len() as int)] (forall|k: int| 0 <= k < $4@.len() ==> at($4@[k], v)) ==> tvs(final($1)@, v, 0, $4@.len() as int) == cvs($4@),
     forall|v: Seq<u8>, k: int| #![trigger fits(final($1)@[k], v)] 0 <= k < $4@.len() && at($4@[k], v) && !($4@[k] is PredictionMode) ==> fits(final($1)@[k], v),
     forall|v: Seq<u8>, k: int| #![trigger tv(final($1)@[k], v)] 0 <= k < $4@.len() && at($4@[k], v) ==> tv(final($1)@[k], v) == cv($4@[k])''',
   loops=['invariant zi <= ln, ln == $4@.len(), forall|k: int| 0 <= k < zi ==> frz(#[trigger] $1@[k], $4@[k]) decreases ln - zi'],
   before=[(r'\}\s*\Z', '''proof { let n = $4@.len() as int; assert forall|v: Seq<u8>, k: int| 0 <= k < n && at($4@[k], v) implies #[trigger] same($1@[k], $4@[k], v) && (!($4@[k] is PredictionMode) ==> fits($1@[k], v)) by { l_frz($1@[k], $4@[k], v); }
     assert forall|v: Seq<u8>| (forall|k: int| 0 <= k < n ==> at($4@[k], v)) implies #[trigger] tvs($1@, v, 0, n) == cvs($4@) by { assert forall|k: int| 0 <= k < n implies same(#[trigger] $1@[k], $4@[k], v) by { assert(at($4@[k], v)); l_frz($1@[k], $4@[k], v); } l_tvs($1@, $4@, v, 0, n); assert($4@.subrange(0, n) =~= $4@); } }''')]),
 Fn(DC, 'flush_freeze_dried_cmds', CI, subs=CS, spec='requires old(self).wf(), *old($2) <= old($1)@.len() ensures *final($2) <= final($1)@.len(), final($1)@.len() == old($1)@.len(), !(r is Failure) ==> final(self).wf() && final(self).all() =~= old(self).all(), final(self).cmd_assembler == old(self).cmd_assembler, r is Success ==> final(self).st() == final(self).en()',
   before=[(r'let mut unused', 'proof { l_pre(self.freeze_dried_cmd_array@, thawed_buffer@, self.v(), self.st(), self.en()); }')]),
 Fn(DC, 'encode', CC, subs=CS, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]', spec='''requires old(self).wf(), *old($2) <= $1@.len(), $1@.len() < 0x1_0000_0000, *old($4) <= old($3)@.len()
   ensures *old($2) <= *final($2) <= $1@.len(), *final($4) <= final($3)@.len(), !(r is Failure) ==> final(self).wf() && final(self).all() =~= old(self).all() + $1@.subrange(*old($2) as int, *final($2) as int), r is NeedsMoreInput ==> *final($2) == $1@.len(), !(r is Success)''',
   ghost='let ghost io0 = *$2 as int; let ghost all0 = self.all();', before=[(r'let literal_context_map = ', 'let ghost a0 = self.codec.done@ + self.cmd_assembler.held(); proof { assert(a0 =~= all0); }'), HINT2, (r'return DivansResult::NeedsMoreInput;\s*\}\s*\},\s*DivansResult::Success', 'proof { l_acc(all0, d0, h0, Seq::<u8>::empty(), self.cmd_assembler.held(), $1@, io0, x0, *$2 as int); assert((d0 + Seq::<u8>::empty()) =~= d0); assert(self.kept() =~= Seq::<u8>::empty()); assert(d0 + self.kept() =~= d0); }'), (r'DivansCompressor::freeze_dry\(|Self::freeze_dry\(', 'let ghost m0 = em(temp_bs@.subrange(0, temp_cmd_offset as int), 0, out_cmd_offset as int);'), (r'return codec_ret', 'proof { l_acc(all0, d0, h0, e0, self.cmd_assembler.held(), $1@, io0, x0, *$2 as int); assert((d0 + m0) + self.kept() =~= d0 + (m0 + self.kept())); }'), (r'assert_eq!|if !\(\(temp_cmd_offset\)', 'proof { l_acc(all0, d0, h0, e0, self.cmd_assembler.held(), $1@, io0, x0, *$2 as int); }')],
   loops=[('invariant ' + LI + ', io0 <= *$2 <= $1@.len(), *$4 <= $3@.len(), literal_context_map@.len() >= 64, prediction_mode_backing@.len() >= DISTANCE_CONTEXT_MAP_OFFSET + 4, self.codec.done@ + self.cmd_assembler.held() =~= all0 + $1@.subrange(io0, *$2 as int)',  'let ghost d0 = self.codec.done@; let ghost h0 = self.cmd_assembler.held(); let ghost x0 = *$2 as int;')]),
 Fn(DC, 'flush', CC, subs=CS, attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]', spec='''requires old(self).wf(), *old($2) <= old($1)@.len()
   ensures *final($2) <= final($1)@.len(), !(r is Failure) ==> final(self).wf() && final(self).all() =~= old(self).all(), r is Success ==> final(self).codec.done@ =~= old(self).all()''',
   ghost='let ghost all0 = self.all();', before=[HINT],
   loops=['invariant ' + LI + ', *$2 <= $1@.len(), self.literal_context_map_backing.v@.len() >= 64, self.prediction_mode_backing.v@.len() >= DISTANCE_CONTEXT_MAP_OFFSET + 4, self.codec.done@ + self.cmd_assembler.held() =~= all0 ensures self.codec.done@ =~= all0, self.wf(), self.codec.cur@ is None']),
 '}']
R15 = R15A + CFN
