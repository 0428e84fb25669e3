"""R04: two streams through one wire: nothing is mixed, lost or reordered, however the wire is sliced."""
from vextract import Fn
from u05 import StructFrom, EnumFrom, MIN
from units import Const
MX = 'src/mux.rs'; SU = 'src/slice_util.rs'; IN = 'src/interface.rs'
I = r'^impl<AllocU8: ?Allocator<u8> ?> Mux<AllocU8>'
ENV = MIN + r'''
pub struct Mem { pub v: Vec<u8> }
impl Mem {
  #[verifier::external_body] pub fn default() -> (r: Mem) ensures r.v@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn slice(&self) -> (r: &[u8]) ensures r@ == self.v@ { &self.v }
  #[verifier::external_body] pub fn slice_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).v@, final(r)@ == final(self).v@ { &mut self.v }
}
pub struct Alloc {}
impl Alloc {
  #[verifier::external_body] pub fn alloc_cell(&mut self, n: usize) -> (r: Mem) ensures r.v@.len() == n { unimplemented!() }
  #[verifier::external_body] pub fn free_cell(&mut self, m: Mem) { unimplemented!() }
}
#[verifier::external_body] fn replace(a: &mut Mem, b: Mem) -> (r: Mem) ensures r == *old(a), *final(a) == b { unimplemented!() }
fn vmax(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
// u64::leading_zeros
#[verifier::external_body] fn lz(x: u64) -> (r: u32) ensures r <= 64, x > 0 ==> r <= 63 && (x >> ((63 - r) as u64)) == 1 { x.leading_zeros() }
pub struct Rng { pub start: usize, pub end: usize }
pub struct AllocatedMemoryRange(pub Mem, pub Rng);
impl AllocatedMemoryRange {
  pub open spec fn wf(self) -> bool { self.1.start <= self.1.end <= self.0.v@.len() <= 0x2000_0000_0000_0000 && (self.0.v@.len() == 0 ==> self.1.end == 0) }
  // the bytes in the buffer
  pub open spec fn av(self) -> Seq<u8> { self.0.v@.subrange(self.1.start as int, self.1.end as int) }
}
// ---- the wire format, as an automaton over bytes: this is what splitting the wire means
pub enum Hd { N, S(int, int), H0(int), H1(int, int) }
pub struct D { pub hd: Hd, pub eof: int, pub o0: Seq<u8>, pub o1: Seq<u8>, pub dead: bool }
pub open spec fn o(d: D, s: int) -> Seq<u8> { if s == 0 { d.o0 } else { d.o1 } }
pub open spec fn add(d: D, s: int, x: Seq<u8>) -> D { if s == 0 { D { o0: d.o0 + x, ..d } } else { D { o1: d.o1 + x, ..d } } }
pub open spec fn canon(s: int, n: int) -> Hd { if n == 0 { Hd::N } else { Hd::S(s, n) } }
pub open spec fn start(d: D, b: u8) -> D { if b < 16 { D { hd: Hd::H0((b & 1) as int), ..d } } else { D { hd: canon((b & 1) as int, (1024u32 << ((b >> 4) << 1)) as int), ..d } } }
pub open spec fn step(d: D, b: u8) -> D {
  match d.hd {
    Hd::S(s, n) => D { hd: canon(s, n - 1), ..add(d, s, seq![b]) },
    Hd::H0(s) => D { hd: Hd::H1(s, b as int), ..d },
    Hd::H1(s, l) => D { hd: Hd::S(s, l + 256 * b + 1), ..d },
    Hd::N => if d.eof == 0 { if b == 0xff { D { eof: 1, ..d } } else { start(d, b) } }
      else if d.eof == 1 { if b == 0xfe { D { eof: 2, ..d } } else if b == 0xff { D { dead: true, ..d } } else { start(d, b) } }
      else if d.eof == 2 { if b == 0xff { D { eof: 3, ..d } } else if b == 0xfe { D { dead: true, ..d } } else { start(d, b) } }
      else { D { dead: true, ..d } },
  }
}
pub open spec fn d_init() -> D { D { hd: Hd::N, eof: 0, o0: Seq::empty(), o1: Seq::empty(), dead: false } }
#[verifier::opaque] pub open spec fn run(d: D, w: Seq<u8>) -> D decreases w.len() { if w.len() == 0 { d } else { step(run(d, w.drop_last()), w.last()) } }
proof fn l_cat(d: D, a: Seq<u8>, b: Seq<u8>) ensures run(d, a + b) == run(run(d, a), b) decreases b.len() {
  reveal_with_fuel(run, 2);
  if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); l_cat(d, a, b.drop_last()); }
}
proof fn l_nil(d: D) ensures run(d, Seq::empty()) == d { reveal(run); }
proof fn l_one(d: D, b: u8) ensures run(d, seq![b]) == step(d, b) { reveal_with_fuel(run, 2); assert(seq![b].drop_last() =~= Seq::<u8>::empty()); }
// the body of a run
proof fn l_body(d: D, s: int, n: int, x: Seq<u8>) requires d.hd == canon(s, n), 0 <= x.len() <= n ensures run(d, x) == (D { hd: canon(s, n - x.len()), ..add(d, s, x) }) decreases x.len() {
  reveal(run);
  if x.len() == 0 { assert(d.o0 + x =~= d.o0); assert(d.o1 + x =~= d.o1); } else {
    l_body(d, s, n, x.drop_last()); let e = run(d, x.drop_last());
    assert(d.o0 + x =~= (d.o0 + x.drop_last()) + seq![x.last()]); assert(d.o1 + x =~= (d.o1 + x.drop_last()) + seq![x.last()]);
  }
}
// what is already out does not influence how the wire is read
proof fn l_frame(d: D, p0: Seq<u8>, p1: Seq<u8>, w: Seq<u8>) ensures run(D { o0: p0 + d.o0, o1: p1 + d.o1, ..d }, w) == (D { o0: p0 + run(d, w).o0, o1: p1 + run(d, w).o1, ..run(d, w) }) decreases w.len() {
  reveal(run);
  if w.len() != 0 { l_frame(d, p0, p1, w.drop_last()); let e = run(d, w.drop_last()); let b = w.last();
    assert(p0 + (e.o0 + seq![b]) =~= (p0 + e.o0) + seq![b]); assert(p1 + (e.o1 + seq![b]) =~= (p1 + e.o1) + seq![b]); }
}
'''
LOG = r'''
proof fn l_log(x: u64, k: u64) requires 0 < x < 0x200_0000_0000_0000, k <= 63, (x >> k) == 1
  ensures k <= 56, ({ let m: u32 = if k + 2 >= 9 { (k + 2) as u32 } else { 9 }; m < 64 && (1usize << m) >= x && (1usize << m) <= 0x400_0000_0000_0000 })
{
  assert(k <= 56) by (bit_vector) requires 0 < x < 0x200_0000_0000_0000, k <= 63, (x >> k) == 1;
  let m: u32 = if k + 2 >= 9 { (k + 2) as u32 } else { 9 }; let n = m as u64;
  assert((1u64 << n) >= x && (1u64 << n) <= 0x400_0000_0000_0000) by (bit_vector) requires 0 < x < 0x200_0000_0000_0000, k <= 56, (x >> k) == 1, n == if k + 2 >= 9 { (k + 2) as u64 } else { 9u64 };
  assert((1usize << m) as u64 == (1u64 << n)) by (bit_vector) requires m as u64 == n, n < 64;
}
'''
MUX = r'''
impl BytesToDeserialize {
  pub open spec fn hd(self) -> Hd { match self { BytesToDeserialize::None => Hd::N, BytesToDeserialize::Some(s, n) => canon(s as int, n as int), BytesToDeserialize::Header0(s) => Hd::H0(s as int), BytesToDeserialize::Header1(s, l) => Hd::H1(s as int, l as int) } }
  pub open spec fn ok(self) -> bool { match self { BytesToDeserialize::None => true, BytesToDeserialize::Some(s, n) => s < 2, BytesToDeserialize::Header0(s) => s < 2, BytesToDeserialize::Header1(s, l) => s < 2 } }
}
impl StreamState { pub open spec fn n(self) -> int { match self { StreamState::Running => 0, StreamState::EofStart => 1, StreamState::EofMid => 2, StreamState::EofDone => 3 } } }
impl Mux {
  pub open spec fn b(self, s: int) -> AllocatedMemoryRange { self.buf@[s] }
  pub open spec fn av(self, s: int) -> Seq<u8> { self.buf@[s].av() }
  // what is on its way out already: the part of a run that did not fit
  pub open spec fn pl(self, s: int) -> int { if self.cur_stream == s { self.cur_stream_bytes_avail as int } else { 0 } }
  pub open spec fn pend(self) -> Seq<u8> { self.av(self.cur_stream as int).subrange(0, self.cur_stream_bytes_avail as int) }
  pub open spec fn rest(self, s: int) -> Seq<u8> { self.av(s).subrange(self.pl(s), self.av(s).len() as int) }
  pub open spec fn mass(self) -> int { self.bytes_flushed + self.rest(0).len() + self.rest(1).len() }
  pub open spec fn wfs(self, s: int) -> bool { self.b(s).wf() && (self.b(s).0.v@.len() != 0 ==> self.b(s).1.start + self.pl(s) >= 3) && self.last_flush@[s] <= self.bytes_flushed && self.pl(s) <= self.av(s).len() }
  pub open spec fn wf(self) -> bool { self.wfs(0) && self.wfs(1) && self.cur_stream < 2 && self.mass() <= 0x100_0000_0000_0000 && self.bytes_to_deserialize.ok() && (self.eof.n() == 3 ==> self.bytes_to_deserialize.hd() == Hd::N) }
  // the reading side: what has been split off so far and where in the wire we are
  pub open spec fn d(self) -> D { D { hd: self.bytes_to_deserialize.hd(), eof: self.eof.n(), o0: self.av(0), o1: self.av(1), dead: false } }
  // the writing side: a reader at d that gets what is pending stands between runs
  pub open spec fn good(self, d: D) -> bool { self.wf() && self.bytes_to_deserialize.hd() == Hd::N && run(d, self.pend()).hd == Hd::N && !run(d, self.pend()).dead && run(d, self.pend()).eof == self.eof.n() && (self.eof.n() > 0 ==> self.pend().len() == 0 && self.rest(0).len() == 0 && self.rest(1).len() == 0) }
  // everything written to stream s: what the reader has, what is pending, what waits
  pub open spec fn tot(self, d: D, s: int) -> Seq<u8> { o(run(d, self.pend()), s) + self.rest(s) }
  pub open spec fn side(self) -> (BytesToDeserialize, StreamState) { (self.bytes_to_deserialize, self.eof) }
  pub open spec fn wside(self) -> (u32, StreamID, usize, Seq<usize>) { (self.cur_stream_bytes_avail, self.cur_stream, self.bytes_flushed, self.last_flush@) }
}
pub type StreamID = u8;
pub const NUM_STREAMS: usize = 2;
'''
S = [(r'while ([^{}]*)&& match ([\w.]+) \{([^{}]*)\} \{', r'while \1&& (match \2 {\3}) {'), (r'AllocU8::AllocatedMemory::default\(\)', 'Mem::default()'), (r'AllocU8::AllocatedMemory', 'Mem'), (r'\bAllocU8\b', 'Alloc'), (r'core::mem::replace', 'replace'), (r'clone_from_slice', 'copy_from_slice'), (r'core::cmp::min', 'vmin'), (r'core::cmp::max', 'vmax'),
     (r'\bSelf::', 'Mux::'), (r'\bSelf\b', 'Mux'), (r'(\w+)\.leading_zeros\(\)', r'lz(\1)'), (r'&self\.0\.slice\(\)\[self\.1\.clone\(\)\]', r'&self.0.slice()[self.1.start..self.1.end]'), (r'AllocatedMemoryRange::<u8, Alloc>|AllocatedMemoryRange<u8, Alloc>', 'AllocatedMemoryRange'), (r'Mux::<Alloc>', 'Mux'),
     (r'for index in 0\.\.\(?NUM_STREAMS(?: as usize)?\)? \{', 'let mut index_n: usize = 0; while index_n < 2 { let index = index_n; index_n += 1;')]
MS = StructFrom(MX, 'Mux', [(r'AllocatedMemoryRange<u8, AllocU8>', 'AllocatedMemoryRange')])
BASE = [ENV, EnumFrom(MX, 'BytesToDeserialize'), EnumFrom(MX, 'StreamState'), MS, LOG, MUX, Const(MX, 'MAX_HEADER_SIZE'), Const(MX, 'MAX_FLUSH_VARIANCE'), Const(MX, 'EOF_MARKER'), Const(IN, 'STREAM_ID_MASK')]
RANGE = ['impl AllocatedMemoryRange {', Fn(SU, 'default', r'^impl<.*> Default for AllocatedMemoryRange<', subs=[(r'AllocT::AllocatedMemory', 'Mem'), (r'0\.\.0', 'Rng { start: 0, end: 0 }'), (r'\bSelf\b', 'AllocatedMemoryRange')], spec='ensures r.wf(), r.av().len() == 0, r.0.v@.len() == 0'),
  Fn(SU, 'slice', r'^impl<.*> SliceWrapper<T> for AllocatedMemoryRange<', subs=[(r'&self\.0\.slice\(\)\[self\.1\.clone\(\)\]', r'&self.0.slice()[self.1.start..self.1.end]'), (r'\[T\]', '[u8]')], spec='requires self.wf() ensures r@ =~= self.av()'), '}']
# what a push leaves alone
KEEP = 'final(self).wside() == old(self).wside(), final(self).side() == old(self).side(), final(self).b(1 - $1) == old(self).b(1 - $1)'
PUSH = [
 Fn(MX, 'read_cursor', I, subs=S, spec='requires $1 < 2 ensures r == self.b($1 as int).1.start'),
 Fn(MX, 'write_cursor', I, subs=S, spec='requires $1 < 2 ensures r == self.b($1 as int).1.end'),
 Fn(MX, 'how_much_data_avail', I, subs=S, spec='requires $1 < 2, self.b($1 as int).wf() ensures r == self.av($1 as int).len()'),
 Fn(MX, 'data_avail', I, subs=S, spec='requires $1 < 2, self.b($1 as int).wf() ensures r@ =~= self.av($1 as int)'),
 Fn(MX, 'consume_data', I, subs=S, spec='requires $1 < 2, old(self).wf(), $2 <= old(self).av($1 as int).len(), old(self).pl($1 as int) == 0 ensures final(self).wf(), final(self).av($1 as int) =~= old(self).av($1 as int).skip($2 as int), ' + KEEP),
 Fn(MX, 'is_eof', I, subs=S, spec='requires self.wf() ensures r == (self.eof.n() == 3 && self.av(0).len() == 0 && self.av(1).len() == 0)', loops=['invariant index_n <= 2, self.wf(), forall|j: int| 0 <= j < index_n ==> #[trigger] self.buf@[j].1.start == self.buf@[j].1.end decreases 2 - index_n']),
 Fn(MX, 'unchecked_push', I, subs=S, spec='''requires *old($2) + $3@.len() <= old($1)@.len() ensures *final($2) == *old($2) + $3@.len(), final($1)@ =~= old($1)@.subrange(0, *old($2) as int) + $3@ + old($1)@.subrange(*old($2) + $3@.len(), old($1)@.len() as int)''', ghost='let _vl = $1.len();'),
 Fn(MX, 'prep_push_for_n_bytes', I, subs=S, spec='''requires $1 < 2, old(self).wf(), old(self).mass() + $2 <= 0x100_0000_0000_0000
    ensures (*r.0).v@.len() - *r.1 >= $2, *r.1 >= old(self).av($1 as int).len(), (*r.0).v@.len() <= 0x2000_0000_0000_0000, (*r.0).v@.subrange(*r.1 - old(self).av($1 as int).len(), *r.1 as int) =~= old(self).av($1 as int),
      (*r.0).v@.len() != 0 ==> *r.1 - old(self).av($1 as int).len() + old(self).pl($1 as int) >= 3, (*r.0).v@.len() == 0 ==> *r.1 == 0,
      final(self).b($1 as int).0 == *final(r.0), final(self).b($1 as int).1.end == *final(r.1), final(self).b($1 as int).1.start == *r.1 - old(self).av($1 as int).len(), ''' + KEEP,
   before=[(r'let mut new_buf', 'proof { l_log(desired_size, (log_desired_size - 2) as u64); }')]),
 Fn(MX, 'push_data', I, subs=S, spec='''requires $1 < 2, old(self).wf(), old(self).mass() + $2@.len() <= 0x100_0000_0000_0000
    ensures final(self).wf(), final(self).av($1 as int) =~= old(self).av($1 as int) + $2@, final(self).mass() == old(self).mass() + $2@.len(), ''' + KEEP),
]
STUCK = '''(%(i)s@.len() > 0 && r == 0 && old(self).eof.n() != 3 ==> step(old(self).d(), %(i)s@[0]).dead), (old(self).eof.n() == 3 ==> r == 0), r == %(i)s@.len() || final(self).eof.n() == 3 || (final(self).eof.n() == 1 && %(i)s@[r as int] != 0xfe) || (final(self).eof.n() == 2 && %(i)s@[r as int] != 0xff)'''
DESPEC = '''requires old(self).wf(), old(self).mass() + %(i)s@.len() <= 0x100_0000_0000_0000, old(self).cur_stream_bytes_avail == 0
    ensures final(self).wf(), r <= %(i)s@.len(), final(self).d() == run(old(self).d(), %(i)s@.subrange(0, r as int)), final(self).wside() == old(self).wside(), final(self).mass() <= old(self).mass() + r, ''' + STUCK
BV = r'''
// one byte is put into the output
proof fn l_put(d0: D, w: Seq<u8>, v: Seq<u8>, i: int) requires 0 <= i < v.len(), v.len() == w.len(), forall|j: int| 0 <= j < i ==> v[j] == w[j]
  ensures run(d0, v.subrange(0, i + 1)) == step(run(d0, w.subrange(0, i)), v[i])
{ assert(v.subrange(0, i) =~= w.subrange(0, i)); l_ext1(d0, v, i); }
proof fn l_hdr(b: u8) ensures (b & 1) < 2, b >> 4 < 16, b < 16 ==> b >> 4 == 0, (b >> 4) << 1 < 32
{
  assert((b & 1) < 2 && b >> 4 < 16) by (bit_vector);
  assert(b < 16 ==> b >> 4 == 0) by (bit_vector);
  assert((b >> 4) << 1 < 32) by (bit_vector);
}
proof fn l_len(l: u8, m: u8) ensures (l as u32 | (m as u32) << 8) == l + 256 * m { assert((l as u32 | (m as u32) << 8) == l as u32 + 256 * (m as u32)) by (bit_vector); }
proof fn l_tail(d0: D, w: Seq<u8>, i: int) requires 0 <= i <= w.len()
  ensures forall|k: int| 0 <= k <= w.len() - i ==> run(run(d0, w.subrange(0, i)), #[trigger] w.subrange(i, w.len() as int).subrange(0, k)) == run(d0, w.subrange(0, i + k))
{ assert forall|k: int| 0 <= k <= w.len() - i implies run(run(d0, w.subrange(0, i)), #[trigger] w.subrange(i, w.len() as int).subrange(0, k)) == run(d0, w.subrange(0, i + k)) by {
    l_ext(d0, w, i, i + k); assert(w.subrange(i, w.len() as int).subrange(0, k) =~= w.subrange(i, i + k)); } }
// one more piece of the wire has been read
proof fn l_ext(d0: D, w: Seq<u8>, i: int, j: int) requires 0 <= i <= j <= w.len() ensures run(d0, w.subrange(0, j)) == run(run(d0, w.subrange(0, i)), w.subrange(i, j))
{ l_cat(d0, w.subrange(0, i), w.subrange(i, j)); assert(w.subrange(0, i) + w.subrange(i, j) =~= w.subrange(0, j)); }
proof fn l_ext1(d0: D, w: Seq<u8>, i: int) requires 0 <= i < w.len() ensures run(d0, w.subrange(0, i + 1)) == step(run(d0, w.subrange(0, i)), w[i])
{ l_ext(d0, w, i, i + 1); l_one(run(d0, w.subrange(0, i)), w[i]); assert(w.subrange(i, i + 1) =~= seq![w[i]]); }
'''
DES = [BV, 'impl Mux {',
 Fn(MX, 'deserialize_eof', I, subs=S, spec='''requires old(self).wf(), old(self).bytes_to_deserialize.hd() == Hd::N, old(self).eof.n() != 3, $1@.len() > 0, old(self).eof.n() == 0 ==> $1@[0] == 0xff, $1@[0] == 0xff || $1@[0] == 0xfe
    ensures final(self).wf(), r <= $1@.len(), final(self).d() == run(old(self).d(), $1@.subrange(0, r as int)), final(self).wside() == old(self).wside(), final(self).buf == old(self).buf, ''' + STUCK % {'i': '$1'},
    ghost='let ghost d0 = self.d(); proof { l_nil(d0); assert($1@.subrange(0, 0) =~= Seq::<u8>::empty()); if $1@.len() > 0 { l_ext1(d0, $1@, 0); } if $1@.len() > 1 { l_ext1(d0, $1@, 1); } if $1@.len() > 2 { l_ext1(d0, $1@, 2); } }'),
 Fn(MX, 'deserialize', I, subs=S, attrs='#[verifier::loop_isolation(false)]', spec=DESPEC % {'i': '$1'} + ' decreases $1@.len()',
    ghost='let _vl = $1.len(); let ghost w = $1@; let ghost d0 = self.d(); let ghost ws = self.wside(); let ghost m0 = self.mass(); proof { l_nil(d0); assert(w.subrange(0, 0) =~= Seq::<u8>::empty()); } let ghost n0 = w.len() as int;',
    loops=[('''invariant self.wf(), ret <= n0, n0 == w.len(), input@ =~= w.subrange(ret as int, n0), self.d() == run(d0, w.subrange(0, ret as int)), self.wside() == ws, self.cur_stream_bytes_avail == 0, self.mass() <= m0 + ret, d0.eof == 3 ==> ret == 0, ret == 0 ==> self.d() == d0, m0 + n0 <= 0x100_0000_0000_0000
      decreases input@.len(), (if self.bytes_to_deserialize is Some { 1int } else { 0int })''',
      '''let ghost e = self.d(); let ghost i0 = input@; let ghost rt = ret as int;
      proof { assert(i0 == w.subrange(rt, n0)); l_ext1(d0, w, rt);
        match self.bytes_to_deserialize {
          BytesToDeserialize::Some(s, c) => { let n = if (c as int) < i0.len() { c as int } else { i0.len() as int };
            l_body(e, s as int, c as int, i0.subrange(0, n)); l_ext(d0, w, rt, rt + n); assert(w.subrange(rt, rt + n) =~= i0.subrange(0, n)); assert(i0.subrange(0, i0.len() as int) =~= i0); },
          BytesToDeserialize::None => { l_hdr(i0[0]); if rt + 3 <= n0 { l_len(i0[1], i0[2]); } l_tail(d0, w, rt); l_tail(d0, w, rt + 1); assert(i0.subrange(1, i0.len() as int) =~= w.subrange(rt + 1, n0)); if rt + 3 <= n0 { l_ext1(d0, w, rt + 1); l_ext1(d0, w, rt + 2); } },
          BytesToDeserialize::Header0(_) => { l_tail(d0, w, rt + 1); assert(i0.subrange(1, i0.len() as int) =~= w.subrange(rt + 1, n0)); },
          BytesToDeserialize::Header1(_, l) => { l_len(l, i0[0]); l_tail(d0, w, rt + 1); assert(i0.subrange(1, i0.len() as int) =~= w.subrange(rt + 1, n0)); },
        } }''')]),
]
# ---- writing side
HDR = BV + r'''
impl MuxSliceHeader { pub open spec fn v(self) -> Seq<u8> { match self { MuxSliceHeader::Var(a) => a@, MuxSliceHeader::Fixed(a) => a@ } } }
// h announces a run of n bytes of stream s
pub open spec fn hdr(h: Seq<u8>, s: int, n: int) -> bool {
  (h.len() == 1 && 16 <= h[0] < 0xfe && (h[0] & 1) == s && (1024u32 << ((h[0] >> 4) << 1)) == n) || (h.len() == 3 && h[0] < 16 && (h[0] & 1) == s && h[1] + 256 * h[2] + 1 == n)
}
proof fn l_run(d: D, h: Seq<u8>, s: int, n: int, x: Seq<u8>) requires d.hd == Hd::N, d.eof == 0, !d.dead, hdr(h, s, n), 0 <= s < 2, x.len() == n, n > 0
  ensures run(d, h + x) == add(d, s, x)
{
  reveal_with_fuel(run, 4);
  l_cat(d, h, x);
  if h.len() == 1 { l_one(d, h[0]); assert(h =~= seq![h[0]]); }
  else { l_one(d, h[0]); l_cat(d, seq![h[0]], seq![h[1]]); l_one(run(d, seq![h[0]]), h[1]); l_cat(d, seq![h[0]] + seq![h[1]], seq![h[2]]); l_one(run(d, seq![h[0]] + seq![h[1]]), h[2]); assert(h =~= seq![h[0]] + seq![h[1]] + seq![h[2]]); }
  l_body(run(d, h), s, n, x);
}
// a piece of what is pending goes out
proof fn l_split(d: D, p: Seq<u8>, k: int) requires 0 <= k <= p.len() ensures run(run(d, p.subrange(0, k)), p.subrange(k, p.len() as int)) == run(d, p)
{ l_cat(d, p.subrange(0, k), p.subrange(k, p.len() as int)); assert(p.subrange(0, k) + p.subrange(k, p.len() as int) =~= p); }
proof fn l_code(s: u8) requires s < 2
  ensures (s | (1u8 << 4)) & 1 == s, (s | (2u8 << 4)) & 1 == s, (s | (3u8 << 4)) & 1 == s, 16 <= (s | (1u8 << 4)) < 64, 16 <= (s | (2u8 << 4)) < 64, 16 <= (s | (3u8 << 4)) < 64, s & 1 == s,
    1024u32 << (((s | (1u8 << 4)) >> 4) << 1) == 4096, 1024u32 << (((s | (2u8 << 4)) >> 4) << 1) == 16384, 1024u32 << (((s | (3u8 << 4)) >> 4) << 1) == 65536
{
  assert((s | (1u8 << 4)) & 1 == s && (s | (2u8 << 4)) & 1 == s && (s | (3u8 << 4)) & 1 == s && s & 1 == s) by (bit_vector) requires s < 2;
  assert(16 <= (s | (1u8 << 4)) < 64 && 16 <= (s | (2u8 << 4)) < 64 && 16 <= (s | (3u8 << 4)) < 64) by (bit_vector) requires s < 2;
  assert((s | (1u8 << 4)) >> 4 == 1 && (s | (2u8 << 4)) >> 4 == 2 && (s | (3u8 << 4)) >> 4 == 3) by (bit_vector) requires s < 2;
  assert(1u8 << 1 == 2 && 2u8 << 1 == 4 && 3u8 << 1 == 6) by (bit_vector);
  assert(1024u32 << 2u8 == 4096 && 1024u32 << 4u8 == 16384 && 1024u32 << 6u8 == 65536) by (bit_vector);
}
proof fn l_var(m: usize) requires m < 65536 ensures (m as u8 & 0xff) + 256 * ((m >> 8) as u8 & 0xff) == m
{ assert((m as u8 & 0xff) as usize + 256 * (((m >> 8) as u8 & 0xff) as usize) == m) by (bit_vector) requires m < 65536; }
'''
GD = 'Ghost(d0): Ghost<D>'
G = S + [(r'self\.(serialize_leftover|serialize_stream_id|flush_internal)\(', r'self.\1(Ghost(d0), '), (r'&mut buf_ent\.0\.slice_mut\(\)', 'buf_ent.0.slice_mut()'),
   (r'for (\w+) in 0\.\.hdr\.len\(\) ?\{', r'let mut in_: usize = 0; let hl: usize = hdr.len(); while in_ < hl { let \1 = in_; in_ += 1;'),
   (r'for lf in self\.last_flush\[1\.\.\]\.iter\(\) \{', 'let mut zi: usize = 1; while zi < 2 { let lf = &self.last_flush[zi]; zi += 1;'),
   (r'for \(lf, buf\) in self\.last_flush\.iter\(\)\.zip\(self\.buf\.iter\(\)\) \{', 'let mut zi: usize = 0; while zi < 2 { let lf = &self.last_flush[zi]; let buf = &self.buf[zi]; zi += 1;')]
SAME = 'final(self).side() == old(self).side(), final(self).mass() == old(self).mass()'
OUTW = lambda o, a, b: 'final(%s)@.len() == old(%s)@.len(), final(self).good(run(d0, final(%s)@.subrange(0, %s as int))), final(self).tot(run(d0, final(%s)@.subrange(0, %s as int)), 0) =~= old(self).tot(%s, 0), final(self).tot(run(d0, final(%s)@.subrange(0, %s as int)), 1) =~= old(self).tot(%s, 1)' % (o, o, o, b, o, b, a, o, b, a)
MUXW = [
 Fn(MX, 'chunk_size', spec='ensures r >= 16'),
 Fn(MX, 'get_code', subs=S, attrs='#[verifier::exec_allows_no_decreases_clause]', spec='requires $1 < 2, $2 >= 1 ensures 1 <= r.1 <= $2, r.1 <= 65536, hdr(r.0.v(), $1 as int, r.1 as int)',
    start='l_code($1); if $2 <= 65536 { l_var(($2 - 1) as usize); }'),
 'impl Mux {',
 Fn(MX, 'read_cursor', I, subs=S, spec='requires $1 < 2 ensures r == self.b($1 as int).1.start'),
 Fn(MX, 'write_cursor', I, subs=S, spec='requires $1 < 2 ensures r == self.b($1 as int).1.end'),
 Fn(MX, 'serialize_leftover', I, subs=G, extra=GD, ghost='let _vl = $1.len(); let ghost p = self.pend(); let ghost o_ = *self;', spec='requires old(self).good(d0) ensures r <= old($1)@.len(), r < old($1)@.len() ==> final(self).cur_stream_bytes_avail == 0, ' + SAME + ', ' + OUTW('$1', 'd0', 'r'),
   before=[(r'to_copy\s*\}\s*$', 'proof { l_split(d0, p, to_copy as int); assert($1@.subrange(0, to_copy as int) =~= p.subrange(0, to_copy as int)); assert(self.pend() =~= p.subrange(to_copy as int, p.len() as int)); assert(self.rest(0) =~= o_.rest(0)); assert(self.rest(1) =~= o_.rest(1)); }')]),
 Fn(MX, 'serialize_stream_id', I, subs=G, extra=GD, spec='''requires $1 < 2, *old($3) <= old($2)@.len(), old(self).good(run(d0, old($2)@.subrange(0, *old($3) as int))), old(self).cur_stream_bytes_avail == 0, old(self).eof.n() == 0, old(self).av($1 as int).len() > 0
    ensures *old($3) <= *final($3) <= old($2)@.len(), *old($3) < old($2)@.len() ==> *final($3) > *old($3), *final($3) < old($2)@.len() ==> final(self).cur_stream_bytes_avail == 0,
      ''' + SAME + ', ' + OUTW('$2', 'run(d0, old($2)@.subrange(0, *old($3) as int))', '*final($3)'),
   ghost='let _vl = $2.len(); let ghost o_ = *self; let ghost out0 = $2@; let ghost off0 = *$3; let ghost d1 = run(d0, out0.subrange(0, off0 as int)); let ghost si = $1 as int; let ghost av0 = self.av(si); proof { l_nil(d1); assert(self.pend() =~= Seq::<u8>::empty()); }',
   before=[(r'self\.bytes_flushed \+=', 'let ghost hh = header.v(); let ghost n = num_bytes_should_write as int; let ghost bfin = final(buf)@; let ghost oc0 = *outputted_cursor as int;'),
     (r'let to_write', '''let ghost oc = *outputted_cursor as int; let ghost c = hh + av0.subrange(0, n); proof { assert(oc == oc0 - hh.len()); assert(num_bytes_should_write == c.len()); assert(buf@.subrange(oc, oc + c.len()) =~= c); l_run(d1, hh, si, n, av0.subrange(0, n)); }'''),
     (r'\}\s*\Z', '''proof {
        assert($2@.subrange(0, *$3 as int) =~= out0.subrange(0, off0 as int) + c.subrange(0, to_write as int)); l_cat(d0, out0.subrange(0, off0 as int), c.subrange(0, to_write as int));
        l_split(d1, c, to_write as int); l_nil(d1); l_nil(run(d1, c)); assert(o_.pend() =~= Seq::<u8>::empty());
        assert(o_.rest(0) =~= o_.av(0)); assert(o_.rest(1) =~= o_.av(1)); assert(self.buf@[1 - si] == o_.buf@[1 - si]);
        assert(self.pend() =~= c.subrange(to_write as int, c.len() as int)); assert(self.rest(si) =~= av0.subrange(n, av0.len() as int)); assert(self.rest(1 - si) =~= o_.rest(1 - si));
        assert(av0.subrange(0, n) + av0.subrange(n, av0.len() as int) =~= av0);
      }''')],
   loops=['''invariant hl == 3, hdr@.len() == 3, in_ <= 3, *outputted_cursor + 3 <= buf@.len(), buf@.len() == o_.b(si).0.v@.len(), buf@.len() <= 0x2000_0000_0000_0000, forall|j: int| 0 <= j < in_ ==> buf@[*outputted_cursor + j] == hdr@[j], forall|j: int| *outputted_cursor + 3 <= j < buf@.len() ==> buf@[j] == o_.b(si).0.v@[j], final(buf)@ == bfin decreases hl - in_''',
          '''invariant hl == 1, hdr@.len() == 1, in_ <= 1, *outputted_cursor + 1 <= buf@.len(), buf@.len() == o_.b(si).0.v@.len(), buf@.len() <= 0x2000_0000_0000_0000, forall|j: int| 0 <= j < in_ ==> buf@[*outputted_cursor + j] == hdr@[j], forall|j: int| *outputted_cursor + 1 <= j < buf@.len() ==> buf@[j] == o_.b(si).0.v@[j], final(buf)@ == bfin decreases hl - in_''']),
]

CUR = lambda o, off: 'run(d0, %s@.subrange(0, %s as int))' % (o, off)
LINV = lambda o, off: '%s@.len() == olen, %s <= olen, self.good(%s), self.tot(%s, 0) =~= t0, self.tot(%s, 1) =~= t1, self.side() == sd, self.mass() == ms, self.cur_stream_bytes_avail != 0 ==> %s == olen' % (o, off, CUR(o, off), CUR(o, off), CUR(o, off), off)
GH = 'let _vl = $1.len(); let ghost olen = $1@.len(); let ghost t0 = self.tot(d0, 0); let ghost t1 = self.tot(d0, 1); let ghost sd = self.side(); let ghost ms = self.mass(); proof { l_nil(d0); assert($1@.subrange(0, 0) =~= Seq::<u8>::empty()); }'
DRV = [
 Fn(MX, 'serialize', I, subs=G, extra=GD, attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]', ghost=GH, spec='requires old(self).good(d0), old(self).eof.n() == 0 ensures r <= old($1)@.len(), ' + SAME + ', ' + OUTW('$1', 'd0', 'r'),
   loops=['invariant ' + LINV('$1', 'output_offset') + ' decreases olen - output_offset',
          'invariant 1 <= zi <= 2, last_flush <= self.bytes_flushed, max_flush <= self.bytes_flushed decreases 2 - zi',
          ('invariant_except_break index_n <= 2, self.cur_stream_bytes_avail == 0 invariant last_flush <= 0x100_0000_0000_0000, max_flush <= 0x100_0000_0000_0000, ' + LINV('$1', 'output_offset') + ', flushed_any ==> output_offset > off1, output_offset >= off1 decreases 2 - index_n', '')],
   before=[(r'let mut flushed_any', 'let ghost off1 = output_offset;')]),
 Fn(MX, 'flush_internal', I, subs=G, extra=GD, attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]', ghost=GH, spec='requires old(self).good(d0) ensures r <= old($1)@.len(), r < old($1)@.len() ==> final(self).cur_stream_bytes_avail == 0 && final(self).rest(0).len() == 0 && final(self).rest(1).len() == 0, old(self).eof.n() > 0 ==> r == 0, ' + SAME + ', ' + OUTW('$1', 'd0', 'r'),
   loops=['invariant ' + LINV('$1', 'output_offset') + ', sd.1.n() > 0 ==> output_offset == 0 ensures output_offset < olen ==> self.cur_stream_bytes_avail == 0 && self.rest(0).len() == 0 && self.rest(1).len() == 0 decreases olen - output_offset',
          """invariant zi <= 2, last_flush is Some ==> last_flush->Some_0 <= self.bytes_flushed, last_flush is None ==> forall|j: int| 0 <= j < zi ==> #[trigger] self.buf@[j].1.start == self.buf@[j].1.end,
            last_flush is Some ==> exists|j: int| 0 <= j < zi && #[trigger] self.buf@[j].1.start != self.buf@[j].1.end && self.last_flush@[j] == last_flush->Some_0 decreases 2 - zi""",
          """invariant_except_break index_n <= 2, self.cur_stream_bytes_avail == 0 invariant """ + LINV('$1', 'output_offset') + """, last_flush is Some ==> last_flush->Some_0 <= 0x100_0000_0000_0000, sd.1.n() > 0 ==> output_offset == 0,
            flushed_any ==> output_offset > off1, output_offset >= off1, !flushed_any ==> output_offset == off1 && *self == me && (forall|j: int| 0 <= j < index_n ==> #[trigger] self.buf@[j].1.start == self.buf@[j].1.end || (last_flush is Some && self.last_flush@[j] > last_flush->Some_0))
            ensures index_n <= 2, !flushed_any ==> index_n == 2 decreases 2 - index_n"""],
   before=[(r'let mut flushed_any', 'let ghost off1 = output_offset; let ghost me = *self;')]),
 Fn(MX, 'serialize_close', I, subs=G, extra=GD, ghost=GH, spec='requires old(self).good(d0) ensures r <= old($1)@.len(), r < old($1)@.len() ==> final(self).eof.n() == 3, old(self).eof.n() == 3 ==> r == 0, final(self).mass() == old(self).mass(), final(self).eof.n() >= old(self).eof.n(), ' + OUTW('$1', 'd0', 'r'),
   before=[(r'if \w+\.len\(\) == ret', 'let ghost w = $1@; let ghost c = run(d0, w.subrange(0, ret as int)); proof { if self.pend().len() == 0 { assert(self.pend() =~= Seq::<u8>::empty()); l_nil(c); } }'),
           (r'ret \+= 1;', 'proof { l_put(d0, w, $1@, ret as int); assert(self.pend() =~= Seq::<u8>::empty()); l_nil(c); l_nil(step(c, $1@[ret as int])); }')]),
]
DEM = r'^impl<AllocU8: ?Allocator<u8> ?> StreamDemuxer<AllocU8> for Mux<AllocU8>'; MUXI = r'^impl<AllocU8: ?Allocator<u8> ?> StreamMuxer<AllocU8> for Mux<AllocU8>'
W = S + [(r'self\.(serialize|serialize_close)\(', r'self.\1(Ghost(d0), ')]
INIT = [Fn(MX, 'default', r'^impl<AllocU8: ?Allocator<u8> ?> Default for Mux<', subs=S, spec='ensures r.wf(), r.cur_stream_bytes_avail == 0, r.d() =~= d_init(), r.good(d_init()), r.tot(d_init(), 0).len() == 0, r.tot(d_init(), 1).len() == 0, r.mass() == 0', start='l_nil(d_init());', before=[(r'Mux \{', 'proof { assert(forall|x: Seq<u8>| x.len() == 0 ==> x =~= Seq::<u8>::empty()); }')])]
RDW = [
 Fn(MX, 'write_linear', DEM, subs=S, spec=DESPEC % {'i': '$1'}),
 Fn(MX, 'data_ready', DEM, subs=S, spec='requires $1 < 2, self.b($1 as int).wf() ensures r == self.av($1 as int).len()'),
 Fn(MX, 'peek', DEM, subs=S, spec='requires $1 < 2, self.b($1 as int).wf() ensures r@ =~= self.av($1 as int)'),
 Fn(MX, 'edit', DEM, subs=S + [(r'slice_util::AllocatedMemoryRange<u8, Alloc>', 'AllocatedMemoryRange'), (r'slice_util::', '')], spec='requires $1 < 2 ensures *r == old(self).b($1 as int), *final(r) == final(self).b($1 as int), ' + KEEP),
 Fn(MX, 'consume', DEM, subs=S, spec='requires $1 < 2, old(self).wf(), $2 <= old(self).av($1 as int).len(), old(self).pl($1 as int) == 0 ensures final(self).wf(), final(self).av($1 as int) =~= old(self).av($1 as int).skip($2 as int), ' + KEEP),
 Fn(MX, 'consumed_all_streams_until_eof', DEM, subs=S, spec='requires self.wf() ensures r == (self.eof.n() == 3 && self.av(0).len() == 0 && self.av(1).len() == 0)'),
 Fn(MX, 'encountered_eof', DEM, subs=S, spec='ensures r == (self.eof.n() == 3)'),
]
WRW = [
 Fn(MX, 'write', MUXI, subs=S, extra=GD, spec='''requires $1 < 2, old(self).good(d0), old(self).eof.n() == 0, old(self).mass() + $2@.len() <= 0x100_0000_0000_0000
    ensures r == $2@.len(), final(self).good(d0), final(self).tot(d0, $1 as int) =~= old(self).tot(d0, $1 as int) + $2@, final(self).tot(d0, 1 - $1) =~= old(self).tot(d0, 1 - $1), final(self).mass() == old(self).mass() + $2@.len(), final(self).side() == old(self).side()''',
    ghost='let ghost o_ = *self;', before=[(r'$2\.len\(\)\s*\}\s*\Z'.replace('$2', 'data'), 'proof { assert(self.pend() =~= o_.pend()); assert(self.rest($1 as int) =~= o_.rest($1 as int) + $2@); }')]),
 Fn(MX, 'linearize', MUXI, subs=W, extra=GD, spec='requires old(self).good(d0), old(self).eof.n() == 0 ensures r <= old($1)@.len(), ' + SAME + ', ' + OUTW('$1', 'd0', 'r')),
 Fn(MX, 'flush', MUXI, subs=W, extra=GD, spec='requires old(self).good(d0) ensures r <= old($1)@.len(), r < old($1)@.len() ==> final(self).eof.n() == 3, old(self).eof.n() == 3 ==> r == 0, final(self).mass() == old(self).mass(), final(self).eof.n() >= old(self).eof.n(), ' + OUTW('$1', 'd0', 'r')),
 Fn(MX, 'wrote_eof', MUXI, subs=S, extra='', spec='requires self.wf() ensures r == (self.eof.n() == 3 && self.av(0).len() == 0 && self.av(1).len() == 0)'),
]
THM = [r'''
// w is what the writer put on the wire so far: a writer that says it is done has put exactly what it was given there
proof fn t_writer_done(m: Mux, w: Seq<u8>) requires m.good(run(d_init(), w)), m.eof.n() == 3
  ensures run(d_init(), w).eof == 3, run(d_init(), w).hd == Hd::N, !run(d_init(), w).dead, run(d_init(), w).o0 == m.tot(run(d_init(), w), 0), run(d_init(), w).o1 == m.tot(run(d_init(), w), 1), m.av(0).len() == 0, m.av(1).len() == 0
{ let d = run(d_init(), w); assert(m.pend() =~= Seq::<u8>::empty()); l_nil(d); assert(d.o0 + m.rest(0) =~= d.o0); assert(d.o1 + m.rest(1) =~= d.o1); }
// each contract of the writer is about a wire that goes on from d: chained, they are about the whole wire
proof fn t_writer_chain(w: Seq<u8>, x: Seq<u8>) ensures run(run(d_init(), w), x) == run(d_init(), w + x) { l_cat(d_init(), w, x); }
// the reader: p0, p1 were taken out of the buffers, the first k bytes of the wire were read, e is what the demuxer stands for
spec fn rd(w: Seq<u8>, k: int, p0: Seq<u8>, p1: Seq<u8>, e: D) -> bool { run(d_init(), w.subrange(0, k)) == (D { o0: p0 + e.o0, o1: p1 + e.o1, ..e }) }
proof fn t_reader_reads(w: Seq<u8>, k: int, r: int, p0: Seq<u8>, p1: Seq<u8>, e: D) requires 0 <= k <= k + r <= w.len(), rd(w, k, p0, p1, e) ensures rd(w, k + r, p0, p1, run(e, w.subrange(k, k + r)))
{ l_ext(d_init(), w, k, k + r); l_frame(e, p0, p1, w.subrange(k, k + r)); }
proof fn t_reader_takes(w: Seq<u8>, k: int, p0: Seq<u8>, p1: Seq<u8>, e: D, n: int, f: D) requires rd(w, k, p0, p1, e), 0 <= n <= e.o0.len(), f == (D { o0: e.o0.skip(n), ..e }) ensures rd(w, k, p0 + e.o0.subrange(0, n), p1, f)
{ assert(p0 + e.o0.subrange(0, n) + f.o0 =~= p0 + e.o0); }
proof fn l_dead(d: D, w: Seq<u8>) requires d.dead ensures run(d, w).dead decreases w.len() { reveal(run); if w.len() != 0 { l_dead(d, w.drop_last()); } }
// a reader of a complete wire: at its end-of-file it has read all of it and holds, or has handed out, exactly what was written; before that it gets on
proof fn t_reader_done(w: Seq<u8>, k: int, p0: Seq<u8>, p1: Seq<u8>, e: D)
  requires 0 <= k <= w.len(), rd(w, k, p0, p1, e), run(d_init(), w).eof == 3, run(d_init(), w).hd == Hd::N, !run(d_init(), w).dead, e.eof == 3 ==> e.hd == Hd::N
  ensures e.eof == 3 ==> k == w.len() && p0 + e.o0 == run(d_init(), w).o0 && p1 + e.o1 == run(d_init(), w).o1,
    e.eof != 3 ==> k < w.len() && !step(e, w[k]).dead
{
  let full = w.subrange(0, w.len() as int); assert(full =~= w);
  if k < w.len() { l_ext1(d_init(), w, k); l_ext(d_init(), w, k + 1, w.len() as int);
    if step(run(d_init(), w.subrange(0, k)), w[k]).dead { l_dead(run(d_init(), w.subrange(0, k + 1)), w.subrange(k + 1, w.len() as int)); } }
}
''']
R04A = BASE + RANGE + ['impl Mux {'] + INIT + PUSH + ['}'] + DES + RDW + ['}'] + THM
R04B = BASE + RANGE + ['impl Mux {'] + INIT + PUSH + ['}', EnumFrom(MX, 'MuxSliceHeader'), HDR] + [x for x in MUXW if not (isinstance(x, Fn) and x.name in ('read_cursor', 'write_cursor'))] + DRV + WRW + ['}']
