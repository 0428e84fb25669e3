"""R12: every command field survives coding (encoder's nibble log, replayed by the decoder, rebuilds the same command in the same state)."""
import re
from vextract import Fn, Lost, match, norm
from units import Const
from auto import AUTO, SINCE
from u05 import EnumFrom, StructFrom
I = 'src/codec/interface.rs'; CP = 'src/codec/copy.rs'; DI = 'src/codec/dict.rs'; BT = 'src/codec/block_type.rs'
BK = r'> CrossCommandBookKeeping<'
MIN = r'''
pub trait MinT: Sized + Copy { spec fn iv(self) -> int; fn vmin_(a: Self, b: Self) -> (r: Self) ensures r == (if a.iv() <= b.iv() { a } else { b }); fn vmax_(a: Self, b: Self) -> (r: Self) ensures r == (if a.iv() >= b.iv() { a } else { b }); }
impl MinT for u8 { open spec fn iv(self) -> int { self as int } fn vmin_(a: u8, b: u8) -> (r: u8) { if a <= b { a } else { b } } fn vmax_(a: u8, b: u8) -> (r: u8) { if a >= b { a } else { b } } }
impl MinT for u32 { open spec fn iv(self) -> int { self as int } fn vmin_(a: u32, b: u32) -> (r: u32) { if a <= b { a } else { b } } fn vmax_(a: u32, b: u32) -> (r: u32) { if a >= b { a } else { b } } }
impl MinT for usize { open spec fn iv(self) -> int { self as int } fn vmin_(a: usize, b: usize) -> (r: usize) { if a <= b { a } else { b } } fn vmax_(a: usize, b: usize) -> (r: usize) { if a >= b { a } else { b } } }
fn vmin<T: MinT>(a: T, b: T) -> (r: T) ensures r == (if a.iv() <= b.iv() { a } else { b }) { T::vmin_(a, b) }
fn vmax<T: MinT>(a: T, b: T) -> (r: T) ensures r == (if a.iv() >= b.iv() { a } else { b }) { T::vmax_(a, b) }
// core::mem::size_of_val and u32::leading_zeros (std)
fn vsize_of_u32(a: &u32) -> (r: usize) ensures r == 4 { 4 }
#[verifier::opaque] pub open spec fn bits(x: u32) -> u8 decreases x { if x == 0 { 0 } else { (1 + bits(x / 2)) as u8 } }
#[verifier::external_body] fn vlz(x: u32) -> (r: u32) ensures r == 32 - bits(x), bits(x) <= 32 { x.leading_zeros() }
'''
# the environment of the state machines: tables are identified by (kind, index) slots, the arithmetic coder by the nibbles it carries
def env(dims):
    B = (lambda s: 'requires ' + s) if dims else (lambda s: '')
    return r'''
#[derive(Clone, Copy)] pub struct Prior { pub slot: Ghost<Slot> }
pub enum Slot { Copy(CopyCommandNibblePriorType, int, int), Dict(DictCommandNibblePriorType, int, int), Btype(BlockTypePriorType, int), LitLen(LiteralCommandPriorType, int, int), Pred(PredictionModePriorType, int), Cross(int) }
// what a step does to the adaptive model: code nibble n with table s, then adapt that table towards n
pub enum Ev { Code(Slot, u8), Blend(Slot, u8, i16, i16) }
#[derive(Clone, Copy)] pub struct Speed { pub inc: i16, pub lim: i16 }
impl Speed { #[verifier::external_body] pub fn new(inc: i16, lim: i16) -> (r: Speed) ensures r.inc == inc, r.lim == lim { unimplemented!() } }
pub struct Coder { pub enc: Ghost<bool>, pub nibs: Ghost<Seq<u8>>, pub tr: Ghost<Seq<Ev>> }
impl Coder {
  // R01/R02: an encoder codes the nibble it is given, a decoder returns the nibble that was coded
  #[verifier::external_body] pub fn get_or_put_nibble(&mut self, n: &mut u8, p: Prior, b: BillingDesignation)
     requires old(self).enc@ ==> *old(n) < 16
     ensures *final(n) < 16, old(self).enc@ ==> *final(n) == *old(n), final(self).enc == old(self).enc, final(self).nibs@ == old(self).nibs@.push(*final(n)), final(self).tr@ == old(self).tr@.push(Ev::Code(p.slot@, *final(n))) { unimplemented!() }
  #[verifier::external_body] pub fn blend(&mut self, p: Prior, n: u8, s: Speed)
     ensures final(self).enc == old(self).enc, final(self).nibs == old(self).nibs, final(self).tr@ == old(self).tr@.push(Ev::Blend(p.slot@, n, s.inc, s.lim)) { unimplemented!() }
}
pub uninterp spec fn ADAPT() -> bool;
pub struct Spec {}
impl Spec { #[verifier::external_body] pub fn adapt_cdf(&self) -> (r: bool) ensures r == ADAPT() { unimplemented!() } }
pub struct MemU8 { pub v: Vec<u8> }
impl MemU8 {
  #[verifier::external_body] pub fn slice(&self) -> (r: &[u8]) ensures r@ == self.v@ { &self.v }
  #[verifier::external_body] pub fn slice_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).v@, final(r)@ == final(self).v@ { &mut self.v }
}
pub struct CopyCommandPriors {} pub struct DictCommandPriors {} pub struct BlockTypePriors {} pub struct LiteralCommandPriors {} pub struct CrossCommandPriors {} pub struct PredictionModePriors {}
impl CopyCommandPriors { #[verifier::external_body] pub fn get(&self, t: CopyCommandNibblePriorType, ix: (usize, usize)) -> (r: Prior) %(copy)s ensures r.slot@ == Slot::Copy(t, ix.0 as int, ix.1 as int) { unimplemented!() } }
impl DictCommandPriors { #[verifier::external_body] pub fn get<X: DIx>(&self, t: DictCommandNibblePriorType, ix: X) -> (r: Prior) %(dict)s ensures r.slot@ == Slot::Dict(t, ix.a(), ix.b()) { unimplemented!() } }
impl BlockTypePriors { #[verifier::external_body] pub fn get(&self, t: BlockTypePriorType, ix: (usize,)) -> (r: Prior) %(btype)s ensures r.slot@ == Slot::Btype(t, ix.0 as int) { unimplemented!() } }
pub trait DIx: Sized { spec fn a(self) -> int; spec fn b(self) -> int; spec fn n(self) -> int; }
impl DIx for (usize,) { open spec fn a(self) -> int { self.0 as int } open spec fn b(self) -> int { 0 } open spec fn n(self) -> int { 1 } }
impl DIx for (usize, usize) { open spec fn a(self) -> int { self.0 as int } open spec fn b(self) -> int { self.1 as int } open spec fn n(self) -> int { 2 } }
pub struct Superstate { pub coder: Coder, pub specialization: Spec, pub bk: Bk }
impl Superstate {
  // moves coded bytes between the coder and the stream; touches neither nibbles nor models (R01, R04)
  #[verifier::external_body] pub fn drain_or_fill_internal_buffer_cmd(&mut self, o: &mut [u8], off: &mut usize) -> (r: DivansResult) ensures *final(self) == *old(self) { unimplemented!() }
  #[verifier::external_body] pub fn decoding(&self) -> (r: bool) ensures r == !self.coder.enc@ { unimplemented!() }
}
''' % {'copy': B('ix.0 < copy_dims(t).0, ix.1 < copy_dims(t).1'), 'dict': B('0 <= ix.a() < dict_dims(t).0, 0 <= ix.b() < dict_dims(t).1, ix.n() == (if t is Index || t is Transform { 2int } else { 1int })'), 'btype': B('ix.0 < btype_dims(t)')}

BKV = r'''
// the part of the book keeping both sides share (everything but the table handles and the encoder's own wishes)
#[verifier::ext_equal] pub struct KB { pub last_dlen: u8, pub last_clen: u8, pub last_llen: u32, pub last_4_states: u8, pub lru: Seq<u32>, pub btl: Seq<[u8; 2]>, pub bmax: Seq<u8>, pub cl: Seq<u8>, pub dmap: Seq<u8> }
pub open spec fn kb(b: Bk) -> KB { KB { last_dlen: b.last_dlen, last_clen: b.last_clen, last_llen: b.last_llen, last_4_states: b.last_4_states, lru: b.distance_lru@, btl: b.btype_lru@, bmax: b.btype_max_seen@, cl: b.cmap_lru@, dmap: b.distance_context_map.v@ } }
impl KB {
  pub open spec fn ctype(self) -> int { self.btl[1]@[0] as int }
  pub open spec fn dtype(self) -> int { self.btl[2]@[0] as int }
  pub open spec fn dprior(self, l: u32) -> int { self.dmap[self.dtype() * 4 + (if l <= 2 { 0 } else if l >= 5 { 3 } else { l - 2 })] as int }
  pub open spec fn ok(self) -> bool { self.dmap.len() == 1024 && self.lru.len() == 4 && self.btl.len() == 3 && self.bmax.len() == 3 && self.cl.len() == 13 && forall|i: int| 0 <= i < 4 ==> #[trigger] self.lru[i] < 0x7fff_fff0 }
}
pub open spec fn ev2(s: Slot, n: u8, inc: i16, lim: i16) -> Seq<Ev> { if ADAPT() { seq![Ev::Code(s, n), Ev::Blend(s, n, inc, lim)] } else { seq![Ev::Code(s, n)] } }
// distance mnemonics (R11): code < 4 repeats a recent distance, 4..15 adds or subtracts 1..3 from one of the last two
pub open spec fn mnem(lru: Seq<u32>, code: int) -> int {
  if code < 4 { lru[code] as int } else { let base = lru[(code / 2) % 2] as int; let d = code / 4; if code % 2 == 0 { base + d } else { base - d } }
}
pub open spec fn mnem_ok(lru: Seq<u32>, code: int) -> bool { code < 4 || mnem(lru, code) > 0 }
#[verifier::opaque] pub open spec fn ru4(x: u8) -> u8 { (((x - 1) as u8 | 3) + 1) as u8 }
// d holds the bits of c from rem upwards (and maybe more bits of c)
#[verifier::opaque] pub open spec fn mant(c: u32, d: u32, rem: u8) -> bool { 0 < rem <= 32 && rem % 4 == 0 && d & !c == 0 && (rem == 32 || (c ^ d) >> (rem as u32) == 0) }
proof fn mant_step(c: u32, d: u32, rem: u8) requires mant(c, d, rem)
  ensures ({ let m = (rem - 4) as u8; let n = ((c ^ d) >> m) as u8; ((c ^ d) >> m) < 16 && n < 16 && ({ let d2 = d | ((n as u32) << m); if m == 0 { d2 == c } else { mant(c, d2, m) } }) })
{
  reveal(mant);
  let m = (rem - 4) as u8; let w = m as u32; let k = rem as u32;
  assert((k == 32 || (c ^ d) >> k == 0) && 4 <= k <= 32 && w == sub(k, 4) && d & !c == 0 ==> ({ let n = (c ^ d) >> w; n < 16 && (n as u8) as u32 == n && ({ let d2 = d | (n << w); d2 & !c == 0 && (w == 0 ==> d2 == c) && (w > 0 ==> (c ^ d2) >> w == 0) }) })) by(bit_vector);
}
proof fn mant_facts(c: u32)
  ensures forall|d: u32, rem: u8| #[trigger] mant(c, d, rem) ==> 4 <= rem <= 32 && ({ let m = (rem - 4) as u8; let n = ((c ^ d) >> m) as u8; ((c ^ d) >> m) < 16 && n < 16 && (m == 0 ==> d | ((n as u32) << m) == c) }),
    forall|d: u32, rem: u8, d2: u32, m: u8| #![trigger mant(c, d, rem), mant(c, d2, m)] mant(c, d, rem) && m > 0 && rem == m + 4 && d2 == (d | ((((c ^ d) >> m) as u8 as u32) << m)) ==> mant(c, d2, m)
{
  assert forall|d: u32, rem: u8| #[trigger] mant(c, d, rem) implies 4 <= rem <= 32 && ({ let m = (rem - 4) as u8; let n = ((c ^ d) >> m) as u8; ((c ^ d) >> m) < 16 && n < 16 && (m == 0 ==> d | ((n as u32) << m) == c) }) by { mant_step(c, d, rem); reveal(mant); }
  assert forall|d: u32, rem: u8, d2: u32, m: u8| #![trigger mant(c, d, rem), mant(c, d2, m)] mant(c, d, rem) && m > 0 && rem == m + 4 && d2 == (d | ((((c ^ d) >> m) as u8 as u32) << m)) implies mant(c, d2, m) by { mant_step(c, d, rem); }
}
proof fn bits_top(x: u32) requires x > 0 ensures 1 <= bits(x) <= 32, x >> ((bits(x) - 1) as u32) == 1 decreases x {
  reveal(bits); reveal_with_fuel(bits, 3);
  if x == 1 { assert(1u32 / 2 == 0); assert(bits(0) == 0); assert(1u32 >> 0 == 1) by(bit_vector); }
  else { bits_top(x / 2); let l = bits(x / 2); bits_le(x / 2, 31); let k = (l - 1) as u32; assert(k < 31 && (x / 2) >> k == 1 ==> x >> add(k, 1) == 1) by(bit_vector); }
}
proof fn bits_le(x: u32, n: u8) requires n == 31 ==> x < 0x8000_0000, n == 31 || n == 32 ensures bits(x) <= n { assert(1u32 << 31u32 == 0x8000_0000) by(bit_vector); bits_le_(x, n, n as nat); }
proof fn pow2_le(n: u32) ensures n < 31 ==> 2 * (1u32 << n) == (1u32 << add(n, 1)) { assert(n < 31 ==> mul(2, 1u32 << n) == (1u32 << add(n, 1)) && (1u32 << n) <= 0x4000_0000) by(bit_vector); }
proof fn bits_le_(x: u32, n: u8, k: nat) requires k <= 32, k == 32 || x < (1u32 << (k as u32)) ensures bits(x) <= k decreases k {
  reveal(bits);
  if k == 0 { assert(1u32 << 0u32 == 1) by(bit_vector); assert(x == 0); }
  else if x > 0 {
    if k == 32 { assert(1u32 << 31u32 == 0x8000_0000) by(bit_vector); } else { let j = (k - 1) as u32; pow2_le(j); }
    bits_le_(x / 2, n, (k - 1) as nat);
  }
}
// x has bits(x) binary digits: the leading one alone is a valid start for the mantissa
proof fn bits_start(x: u32)
  ensures bits(0) == 0, x > 0 ==> 1 <= bits(x) <= 32, bits(x) > 1 ==> mant(x, 1u32 << ((bits(x) - 1) as u8), ru4((bits(x) - 1) as u8)), bits(x) == 1 ==> x == 1,
     x >= 15 ==> bits(x) >= 4, x < 0x4000_0000 ==> bits(x) <= 30
{
  reveal(mant); reveal(ru4); reveal(bits); if x == 0 { return; } bits_top(x);
  let l = bits(x); let k = (l - 1) as u32;
  if l > 1 {
    let q = (l - 1) as u8;
    assert(q >= 1 && q <= 31 ==> (sub(q, 1) | 3) <= 31 && add(sub(q, 1) | 3, 1) % 4 == 0 && add(sub(q, 1) | 3, 1) >= q) by(bit_vector);
    let r = ru4(q); let rr = r as u32;
    assert(1 <= k && k <= 31 && x >> k == 1 && k <= rr && rr <= 32 ==> ({ let d = 1u32 << k; d & !x == 0 && (rr == 32 || (x ^ d) >> rr == 0) })) by(bit_vector);
  } else { assert(x >> 0 == x) by(bit_vector); }
  assert(x >= 15 && x >> k == 1 && k < 32 ==> k >= 3) by(bit_vector);
  assert(x < 0x4000_0000 && x >> k == 1 && k < 32 ==> k <= 29) by(bit_vector);
}
'''
COPY = r'''
#[derive(Clone, Copy)] pub struct CopyCommand { pub distance: u32, pub num_bytes: u32 }
pub ghost struct CK { pub st: CopySubstate, pub cc: CopyCommand, pub bk: KB, pub tr: Seq<Ev>, pub fail: bool }
pub open spec fn copy_canon(k: CK) -> CK { match k.st { CopySubstate::Begin => CK { st: CopySubstate::CountSmall, ..k }, CopySubstate::CountDecoded => CK { st: CopySubstate::DistanceLengthMnemonic, ..k }, _ => k } }
pub open spec fn copy_slot(k: CK) -> (Slot, i16, i16) {
  let t = k.bk.ctype(); let p = k.bk.dprior(k.cc.num_bytes);
  match k.st {
    CopySubstate::CountSmall => (Slot::Copy(CopyCommandNibblePriorType::CountSmall, t, ((k.bk.last_4_states >> 4) & 3) as int + 4 * (if k.bk.last_llen == 0 { 3 } else if k.bk.last_llen >= 4 { 3 } else { k.bk.last_llen - 1 })), Speed::MUD.inc, Speed::MUD.lim),
    CopySubstate::CountLengthFirst => (Slot::Copy(CopyCommandNibblePriorType::CountBegNib, t, 0), Speed::FAST.inc, Speed::FAST.lim),
    CopySubstate::CountLengthGreater18Less25 => (Slot::Copy(CopyCommandNibblePriorType::CountLastNib, t, 0), Speed::FAST.inc, Speed::FAST.lim),
    CopySubstate::CountMantissaNibbles(ld, _, _) => (Slot::Copy(CopyCommandNibblePriorType::CountMantissaNib, t, if ld == 0 { (k.bk.last_clen % 4) + 1 } else { 0 }), Speed::SLOW.inc, Speed::SLOW.lim),
    CopySubstate::DistanceLengthMnemonic => (Slot::Copy(CopyCommandNibblePriorType::DistanceMnemonic, p, if k.bk.last_llen < 8 { 1 } else { 0 }), Speed::SLOW.inc, Speed::SLOW.lim),
    CopySubstate::DistanceLengthFirst => (Slot::Copy(CopyCommandNibblePriorType::DistanceBegNib, p, bits(k.cc.num_bytes) as int / 4), Speed::SLOW.inc, Speed::SLOW.lim),
    CopySubstate::DistanceLengthGreater14Less25 => (Slot::Copy(CopyCommandNibblePriorType::DistanceLastNib, p, 0), Speed::ROCKET.inc, Speed::ROCKET.lim),
    CopySubstate::DistanceMantissaNibbles(ld, _, _) => { let i = if ld == 0 { (k.bk.last_dlen % 4) + 1 } else { 0 }; (Slot::Copy(CopyCommandNibblePriorType::DistanceMantissaNib, p, i), if i <= 1 { 4i16 } else { 64i16 }, 0x4000) },
    _ => (Slot::Cross(0), 0, 0),
  }
}
pub open spec fn copy_next(k: CK, n: u8) -> CK {
  match k.st {
    CopySubstate::CountSmall => if n == 15 { CK { st: CopySubstate::CountLengthFirst, ..k } } else { CK { st: CopySubstate::CountDecoded, cc: CopyCommand { num_bytes: n as u32, ..k.cc }, bk: KB { last_clen: bits(n as u32), ..k.bk }, ..k } },
    CopySubstate::CountLengthFirst => if n == 15 { CK { st: CopySubstate::CountLengthGreater18Less25, ..k } } else { CK { st: CopySubstate::CountMantissaNibbles(0, ru4((n + 3) as u8), 1u32 << ((n + 3) as u8)), bk: KB { last_clen: (n + 4) as u8, ..k.bk }, ..k } },
    CopySubstate::CountLengthGreater18Less25 => if n > 13 { CK { fail: true, ..k } } else { CK { st: CopySubstate::CountMantissaNibbles(0, ru4((n + 18) as u8), 1u32 << ((n + 18) as u8)), bk: KB { last_clen: (n + 19) as u8, ..k.bk }, ..k } },
    CopySubstate::CountMantissaNibbles(ld, rem, d) => { let m = (rem - 4) as u8; let d2 = d | ((n as u32) << m);
        if m == 0 { CK { st: CopySubstate::CountDecoded, cc: CopyCommand { num_bytes: d2, ..k.cc }, ..k } } else { CK { st: CopySubstate::CountMantissaNibbles((ld + 4) as u8, m, d2), ..k } } },
    CopySubstate::DistanceLengthMnemonic => if n == 15 { CK { st: CopySubstate::DistanceLengthFirst, ..k } } else if !mnem_ok(k.bk.lru, n as int) { CK { fail: true, ..k } }
        else { let d = mnem(k.bk.lru, n as int) as u32; CK { st: CopySubstate::FullyDecoded, cc: CopyCommand { distance: d, ..k.cc }, bk: KB { last_dlen: bits(d), ..k.bk }, ..k } },
    CopySubstate::DistanceLengthFirst => if n == 14 { CK { st: CopySubstate::DistanceLengthGreater14Less25, ..k } }
        else if n == 15 { let d = if k.bk.lru[1] >= 3 { (k.bk.lru[1] - 3) as u32 } else { (k.bk.lru[1] + 0x1_0000_0000 - 3) as u32 }; CK { st: CopySubstate::FullyDecoded, cc: CopyCommand { distance: d, ..k.cc }, bk: KB { last_dlen: bits(d), ..k.bk }, ..k } }
        else if n == 0 { CK { st: CopySubstate::FullyDecoded, cc: CopyCommand { distance: 1, ..k.cc }, bk: KB { last_dlen: 1, ..k.bk }, ..k } }
        else { CK { st: CopySubstate::DistanceMantissaNibbles(0, ru4(n), 1u32 << n), bk: KB { last_dlen: (n + 1) as u8, ..k.bk }, ..k } },
    CopySubstate::DistanceLengthGreater14Less25 => CK { st: CopySubstate::DistanceMantissaNibbles(0, ru4((n + 14) as u8), 1u32 << ((n + 14) as u8)), bk: KB { last_dlen: (n + 15) as u8, ..k.bk }, ..k },
    CopySubstate::DistanceMantissaNibbles(ld, rem, d) => { let m = (rem - 4) as u8; let d2 = d | ((n as u32) << m);
        if m == 0 { CK { st: CopySubstate::FullyDecoded, cc: CopyCommand { distance: d2, ..k.cc }, ..k } } else { CK { st: CopySubstate::DistanceMantissaNibbles((ld + 4) as u8, m, d2), ..k } } },
    _ => CK { fail: true, ..k },
  }
}
pub open spec fn copy_wf(k: CK) -> bool {
  k.bk.ok() && match k.st {
    CopySubstate::CountMantissaNibbles(ld, rem, _) | CopySubstate::DistanceMantissaNibbles(ld, rem, _) => rem % 4 == 0 && 0 < rem && rem <= 32 && ld as int + rem as int <= 32,
    _ => true,
  }
}
// encoder: the partial state agrees with the command being coded
pub open spec fn copy_cons(k: CK, c: CopyCommand) -> bool {
  match k.st {
    CopySubstate::Begin | CopySubstate::CountSmall => true,
    CopySubstate::CountLengthFirst => c.num_bytes >= 15,
    CopySubstate::CountLengthGreater18Less25 => bits(c.num_bytes) >= 19,
    CopySubstate::CountMantissaNibbles(_, rem, d) => mant(c.num_bytes, d, rem),
    CopySubstate::CountDecoded | CopySubstate::DistanceLengthMnemonic | CopySubstate::DistanceLengthFirst => k.cc.num_bytes == c.num_bytes,
    CopySubstate::DistanceLengthGreater14Less25 => k.cc.num_bytes == c.num_bytes && bits(c.distance) >= 15,
    CopySubstate::DistanceMantissaNibbles(_, rem, d) => k.cc.num_bytes == c.num_bytes && mant(c.distance, d, rem),
    CopySubstate::FullyDecoded => k.cc == c,
  }
}
pub open spec fn copy_k(s: CopyState, u: Superstate) -> CK { CK { st: s.state, cc: s.cc, bk: kb(u.bk), tr: u.coder.tr@, fail: false } }
// inside the distance mantissa loop the state lives in locals
pub open spec fn copy_vk(s: CopyState, u: Superstate, ld: u8, rem: u8, d: u32) -> CK {
  if rem == 0 { CK { st: CopySubstate::FullyDecoded, cc: CopyCommand { distance: d, ..s.cc }, ..copy_k(s, u) } } else { CK { st: CopySubstate::DistanceMantissaNibbles(ld, rem, d), ..copy_k(s, u) } }
}
'''
SUP = [(r'superstate\s*:\s*&mut\s+CrossCommandState<[^>]*>', 'superstate: &mut Superstate')]
SB = [(r'core::cmp::min\(', 'vmin('), (r'core::cmp::max\(', 'vmax('), (r'core::mem::size_of_val\(', 'vsize_of_u32('), (r'((?:\w+\.)*\w+|\((?:\w+\.)*\w+\))\.leading_zeros\(\)', r'vlz(\1)'),
      (r'\b(\w+)\.blend\(', r'superstate.coder.blend(\1, '), (r'Specialization::IS_DECODING_FILE', 'superstate.decoding()'),
      (r'for (\w+) in \(0\.\.(\(.*?\))\)\.rev\(\)\s*\{', r'let mut rev_\1 = \2; while rev_\1 > 0 { rev_\1 = rev_\1 - 1; let \1 = rev_\1;')]
ENUMS = [EnumFrom('src/interface.rs', 'ErrMsg'), EnumFrom('src/interface.rs', 'DivansResult'), EnumFrom('src/interface.rs', 'BillingDesignation'), EnumFrom('src/interface.rs', 'CrossCommandBilling'),
  EnumFrom(CP, 'CopySubstate'), EnumFrom(DI, 'DictSubstate'), EnumFrom(BT, 'BlockTypeState'), EnumFrom('src/codec/literal.rs', 'LiteralSubstate'), EnumFrom('src/codec/context_map.rs', 'PredictionModeSubstate'), EnumFrom(I, 'ContextMapType'),
  EnumFrom('src/codec/priors.rs', 'CopyCommandNibblePriorType'), EnumFrom('src/codec/priors.rs', 'DictCommandNibblePriorType'), EnumFrom('src/codec/priors.rs', 'BlockTypePriorType'), EnumFrom('src/codec/priors.rs', 'LiteralCommandPriorType'), EnumFrom('src/codec/priors.rs', 'PredictionModePriorType')]
def Speeds(src):
    t = src.get('src/probability/interface.rs')
    ms = re.findall(r'pub const (\w+):\s*Speed\s*=\s*Speed\(\s*(\w+)\s*,\s*(\w+)\s*\)', t)
    if len(ms) < 6: raise Lost('speed constants')
    return 'impl Speed { %s }' % ' '.join('pub const %s: Speed = Speed { inc: %s, lim: %s };' % m for m in ms)
BKS = [StructFrom(I, 'CrossCommandBookKeeping', subs=[(r'AllocU8::AllocatedMemory', 'MemU8'), (r'Priors<Cdf16,\s*AllocCDF16>', 'Priors')])]
def Rename(f, a, b):
    def g(src): return f(src).replace('pub struct %s ' % a, 'pub struct %s ' % b)
    return g
EVF = r'''
proof fn ev_facts() ensures forall|tr: Seq<Ev>, s: Slot, n: u8| #[trigger] tr.push(Ev::Code(s, n)) == tr + seq![Ev::Code(s, n)],
   forall|tr: Seq<Ev>, s: Slot, n: u8, i: i16, l: i16| #[trigger] tr.push(Ev::Code(s, n)).push(Ev::Blend(s, n, i, l)) == tr + seq![Ev::Code(s, n), Ev::Blend(s, n, i, l)]
{
  assert forall|tr: Seq<Ev>, s: Slot, n: u8| #[trigger] tr.push(Ev::Code(s, n)) == tr + seq![Ev::Code(s, n)] by { assert(tr.push(Ev::Code(s, n)) =~= tr + seq![Ev::Code(s, n)]); }
  assert forall|tr: Seq<Ev>, s: Slot, n: u8, i: i16, l: i16| #[trigger] tr.push(Ev::Code(s, n)).push(Ev::Blend(s, n, i, l)) == tr + seq![Ev::Code(s, n), Ev::Blend(s, n, i, l)] by { assert(tr.push(Ev::Code(s, n)).push(Ev::Blend(s, n, i, l)) =~= tr + seq![Ev::Code(s, n), Ev::Blend(s, n, i, l)]); }
}
'''
BKFNS = ['impl Bk {',
  Fn(I, 'get_command_block_type', impl=BK, spec='requires kb(*self).ok() ensures r == kb(*self).ctype()'),
  Fn(I, 'get_distance_block_type', impl=BK, spec='requires kb(*self).ok() ensures r == kb(*self).dtype()'),
  Fn(I, 'get_distance_prior', impl=BK, subs=SB, spec='requires kb(*old(self)).ok() ensures r == kb(*final(self)).dprior($1), r < 256, *final(self) == *old(self)'),
  Fn(I, 'distance_mnemonic_code', impl=BK, spec='''requires kb(*self).ok() ensures r <= 15, r < 15 ==> mnem_ok(kb(*self).lru, r as int) && mnem(kb(*self).lru, r as int) == $1''', loops=[('invariant kb(*self).ok(),', '')]),
  '}',
  Fn(I, 'get_distance_from_mnemonic_code', spec='''requires $2 <= 14, forall|i: int| 0 <= i < 4 ==> #[trigger] $1@[i] < 0x7fff_fff0
     ensures r.1 == mnem_ok($1@, $2 as int), r.1 ==> r.0 == mnem($1@, $2 as int)''', start='mnem_bits($2, $1);'),
  Fn(I, 'round_up_mod_4', spec='requires 1 <= $1 <= 200 ensures r == ru4($1), r % 4 == 0, $1 <= r < $1 + 4', start='reveal(ru4); assert(1 <= $1 && $1 <= 200 ==> ({ let x = sub($1, 1) | 3; x <= 203 && add(x, 1) % 4 == 0 && add(x, 1) >= $1 && add(x, 1) < add($1, 4) })) by(bit_vector);'),
]
MNEM = r'''
proof fn mnem_bits(code: u8, lru: &[u32; 4]) requires code <= 14
  ensures code >> 2 == code / 4, (code & 2) >> 1 == (code / 2) % 2, (code as i32 & 1) == code % 2, forall|u: i32| #[trigger] (0i32 & u) == 0, forall|u: i32| #[trigger] (-1i32 & u) == u,
    0i32 << 1 == 0, 1i32 << 1 == 2, 2i32 << 1 == 4, 3i32 << 1 == 6
{
  assert(code >> 2 == code / 4) by(bit_vector); assert((code & 2) >> 1 == (code / 2) % 2) by(bit_vector);
  assert((code as i32 & 1) == code % 2) by(bit_vector);
  assert(forall|u: i32| #[trigger] (0i32 & u) == 0) by(bit_vector); assert(forall|u: i32| #[trigger] (-1i32 & u) == u) by(bit_vector);
  assert(0i32 << 1 == 0 && 1i32 << 1 == 2 && 2i32 << 1 == 4 && 3i32 << 1 == 6) by(bit_vector);
}
proof fn idx_bits() ensures forall|x: u8| #[trigger] (x & 3) == x % 4, forall|i: usize| i <= 4 ==> #[trigger] ((i & 6) << ((i & 2) >> 1)) == (if i <= 1 { 0usize } else { 4 }),
   forall|i: usize| i <= 4 ==> #[trigger] ((i & 2) >> 1) <= 1, 4i16 << 0usize == 4, 4i16 << 4usize == 64, forall|x: usize| #[trigger] (x >> 2) == x / 4, forall|x: u8| x < 64 ==> #[trigger] (x << 2) == 4 * x
{
  assert(forall|x: u8| #[trigger] (x & 3) == x % 4) by(bit_vector);
  assert(forall|i: usize| i <= 4 ==> #[trigger] ((i & 6) << ((i & 2) >> 1)) == (if i <= 1 { 0usize } else { 4 })) by(bit_vector);
  assert(forall|i: usize| i <= 4 ==> #[trigger] ((i & 2) >> 1) <= 1) by(bit_vector); assert(4i16 << 0usize == 4 && 4i16 << 4usize == 64) by(bit_vector);
  assert(forall|x: usize| #[trigger] (x >> 2) == x / 4) by(bit_vector);
  assert forall|x: u8| x < 64 implies #[trigger] (x << 2) == 4 * x by { assert(x < 64 ==> (x << 2) == mul(4, x)) by(bit_vector); }
}
'''
CK_INV = '''kb(superstate.bk).ok(), b0 <= superstate.coder.nibs@.len(), superstate.coder.nibs@.subrange(0, b0) == n0, superstate.coder.enc@ == enc0,
          ({ let k = copy_k(*self, *superstate); let ns = since(superstate.coder.nibs@, b0); copy_wf(k) && copy_canon(k) == copy_run(k0, ns) && copy_live(k0, ns) && (enc0 ==> copy_cons(k, *in_cmd)) }),'''
COPYFN = Fn(CP, 'encode_or_decode', impl=r'impl CopyState', subs=SB, psubs=SUP + [(r'in_cmd', 'in_cmd')],
  attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
  spec='''requires copy_wf(copy_k(*old(self), *old($1))), $2.distance > 0, old($1).coder.enc@ ==> copy_cons(copy_k(*old(self), *old($1)), *$2) && $2.distance < 0x4000_0000
   ensures ({ let u = *old($1); let u2 = *final($1); let b = u.coder.nibs@.len() as int; let ns = since(u2.coder.nibs@, b);
     let k0 = copy_canon(copy_k(*old(self), u)); let k = copy_k(*final(self), u2); let run = copy_run(k0, ns);
     u2.coder.nibs@.len() >= b && u2.coder.nibs@.subrange(0, b) == u.coder.nibs@ && u2.coder.enc == u.coder.enc && copy_live(k0, ns)
     && (run.fail ==> r is Failure && !u.coder.enc@) && (!run.fail ==> copy_canon(k) == run && copy_wf(k) && (u.coder.enc@ ==> copy_cons(k, *$2)))
     && (r is Success ==> !run.fail && k.st is FullyDecoded) })''',
  ghost='let ghost b0 = superstate.coder.nibs@.len() as int; let ghost n0 = superstate.coder.nibs@; let ghost enc0 = superstate.coder.enc@; let ghost k0 = copy_canon(copy_k(*self, *superstate));',
  start='''idx_bits(); ev_facts(); copy_push_facts(copy_canon(copy_k(*self, *superstate)), superstate.coder.nibs@.len() as int); mant_facts(in_cmd.num_bytes); mant_facts(in_cmd.distance); bits_start(in_cmd.num_bytes); bits_start(in_cmd.distance);''',
  loops=[('invariant ' + CK_INV + ' decreases copy_rank(self.state),', ''), ('''invariant kb(superstate.bk).ok(), b0 <= superstate.coder.nibs@.len(), superstate.coder.nibs@.subrange(0, b0) == n0, superstate.coder.enc@ == enc0, self.state is DistanceMantissaNibbles,
          rev_next_len_remaining_sr2 <= 8, len_decoded as int + 4 * rev_next_len_remaining_sr2 <= 32,
          ({ let k = copy_vk(*self, *superstate, len_decoded, (4 * rev_next_len_remaining_sr2) as u8, decoded_so_far); let ns = since(superstate.coder.nibs@, b0); k == copy_run(k0, ns) && copy_live(k0, ns) && (enc0 ==> copy_cons(k, *in_cmd)) }),
          decreases rev_next_len_remaining_sr2''', '')],
  split=(0, ['self.state is %s' % x for x in 'Begin CountSmall CountLengthFirst CountLengthGreater18Less25 CountMantissaNibbles CountDecoded DistanceLengthMnemonic DistanceLengthFirst DistanceLengthGreater14Less25 DistanceMantissaNibbles FullyDecoded'.split()]))
COPYTHM = r'''
// theorem: both ends of one nibble stream that finish a copy command from the same state agree on it, on where it ends, on every shared memory and on every model adaptation
proof fn copy_theorem(k0: CK, stream: Seq<u8>, i: int, j: int, c: CopyCommand)
  requires 0 <= i <= stream.len(), 0 <= j <= stream.len(), copy_live(k0, stream.subrange(0, i)), copy_live(k0, stream.subrange(0, j)), ({ let e = copy_run(k0, stream.subrange(0, i)); let d = copy_run(k0, stream.subrange(0, j)); copy_fin(e) && (copy_fin(d) || d.fail) && copy_cons(e, c) && !e.fail })
  ensures i == j, copy_run(k0, stream.subrange(0, j)).cc == c, !copy_run(k0, stream.subrange(0, j)).fail
{ copy_agree(k0, stream, i, j); }
'''
RANK = r'''
pub open spec fn copy_rank(s: CopySubstate) -> int {
  match s { CopySubstate::Begin => 60, CopySubstate::CountSmall => 59, CopySubstate::CountLengthFirst => 58, CopySubstate::CountLengthGreater18Less25 => 57, CopySubstate::CountMantissaNibbles(_, r, _) => 20 + r as int,
    CopySubstate::CountDecoded => 19, CopySubstate::DistanceLengthMnemonic => 18, CopySubstate::DistanceLengthFirst => 17, CopySubstate::DistanceLengthGreater14Less25 => 16, CopySubstate::DistanceMantissaNibbles(_, _, _) => 15, CopySubstate::FullyDecoded => 0 }
}
'''
def ren(f):
    def g(src): return f(src).replace('pub struct CrossCommandBookKeeping', 'pub struct Bk')
    return g
COMMON = ENUMS + [EnumFrom(I, 'StrideSelection'), Const(I, 'CONTEXT_MAP_CACHE_SIZE'), Const(I, 'BLOCK_TYPE_LITERAL_SWITCH'), Const(I, 'BLOCK_TYPE_COMMAND_SWITCH'), Const(I, 'BLOCK_TYPE_DISTANCE_SWITCH'), Speeds, ren(BKS[0]), MIN]
R12copy = COMMON + [env(False), BKV, EVF, SINCE, MNEM, StructFrom(CP, 'CopyState'), COPY, AUTO('copy', 'CK', 'k.st is FullyDecoded'), COPYTHM, RANK] + BKFNS + ['impl CopyState {', COPYFN, '}']
