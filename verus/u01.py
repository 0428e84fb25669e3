"""R01, second unit: both ends of the ANS coder at their interfaces: the bit and nibble entry points, and the byte queue that refills the decoder from input cut anywhere."""
from vextract import Fn
from u05 import EnumFrom, StructFrom, MIN
import units
from units import R01, ANS, ANS_SPEC, ANS_CONSTS, ANS_THEOREMS, Const
PI = 'src/probability/interface.rs'
CDFENV = r'''
// ---- environment: a probability table. Its contract is R02's (proved there for every table type): the range of a symbol is non-empty and inside the scale,
// and a lookup inside a symbol's range gives that symbol.
#[derive(Clone, Copy)] pub struct CDFT { pub id: u64 }
pub uninterp spec fn st(c: CDFT, s: int) -> int;
pub uninterp spec fn fr(c: CDFT, s: int) -> int;
impl CDFT {
  #[verifier::external_body] pub fn sym_to_start_and_freq(&self, sym: u8) -> (r: SymStartFreq) requires sym < 16
    ensures r.sym == sym, r.range.start == st(*self, sym as int), r.range.freq == fr(*self, sym as int), okrange(r.range.start as int, r.range.freq as int) { unimplemented!() }
  #[verifier::external_body] pub fn cdf_offset_to_sym_start_and_freq(&self, off: Prob) -> (r: SymStartFreq) requires 0 <= off
    ensures r.sym < 16, r.range.start == st(*self, r.sym as int), r.range.freq == fr(*self, r.sym as int), okrange(r.range.start as int, r.range.freq as int),
      forall|s: int| 0 <= s < 16 && #[trigger] st(*self, s) <= off < st(*self, s) + fr(*self, s) ==> r.sym == s { unimplemented!() }
}
// ---- the interval of a bit coded with `p`/256 as the probability of false
pub open spec fn bp(p: int) -> int { if p == 0 { 1 } else { p } }
pub open spec fn bst(b: bool, p: int) -> int { if b { bp(p) * 128 } else { 0 } }
pub open spec fn bfr(b: bool, p: int) -> int { if b { (256 - bp(p)) * 128 } else { bp(p) * 128 } }
proof fn bits7(x: i16) requires 0 <= x <= 255 ensures (x << 7u32) == x * 128 { assert(0 <= x <= 255 ==> (x << 7u32) == x * 128) by(bit_vector); }
'''
PUT_PRE = '''old(self).q.wf(), old(self).q.view().len() == 0, old(self).q.cap() == MAX_BUFFER_SIZE, old(self).start_freq.cap() == MAX_BUFFER_SIZE,
          old(self).start_freq.wf(), old(self).start_freq.view().len() % 4 == 0, old(self).start_freq.view().len() < 4 * 65536, allok(unpack(old(self).start_freq.view()))'''
def PUT_POST(s, f): return '''final(self).q.wf(), final(self).start_freq.wf(), final(self).q.cap() == MAX_BUFFER_SIZE, final(self).start_freq.cap() == MAX_BUFFER_SIZE,
          ({ let all = unpack(old(self).start_freq.view()).push((%s, %s));
             &&& allok(all)
             &&& all.len() < 65536 ==> final(self).q.view().len() == 0 && unpack(final(self).start_freq.view()) == all && final(self).start_freq.view().len() == 4 * all.len()
             &&& all.len() == 65536 ==> final(self).start_freq.view().len() == 0 && final(self).q.view() == encoded(all, Seq::<u8>::empty()) })''' % (s, f)
CSUB = [(r'&\s*CDF\b', '&CDFT'), (r'\bCDF\b', 'CDFT'), (r'self\.put_nibble_internal\(', 'self.put_nibble_internal_(')]
PUTS = ['impl ANSEncoder {',
  Fn(ANS, 'put_nibble_internal', impl=r'^impl<(?!.* for ).*> ANSEncoder<', rename='put_nibble_internal_', psubs=CSUB,
     spec='requires $1 < 16, %s ensures r.start == st($2, $1 as int), r.freq == fr($2, $1 as int), okrange(r.start as int, r.freq as int), %s' % (PUT_PRE, PUT_POST('st($2, $1 as int)', 'fr($2, $1 as int)')),
     start='assert((1i32 << 15u32) == 32768) by(bit_vector);'),
  Fn(ANS, 'put_nibble', impl=r'^impl<.*> EntropyEncoder for ANSEncoder<', subs=CSUB,
     spec='requires $1 < 16, %s ensures r.start == st(*$2, $1 as int), r.freq == fr(*$2, $1 as int), okrange(r.start as int, r.freq as int), %s' % (PUT_PRE, PUT_POST('st(*$2, $1 as int)', 'fr(*$2, $1 as int)'))),
  Fn(ANS, 'put_bit', impl=r'^impl<.*> EntropyEncoder for ANSEncoder<',
     spec='requires %s ensures okrange(bst($1, $2 as int), bfr($1, $2 as int)), %s' % (PUT_PRE, PUT_POST('bst($1, $2 as int)', 'bfr($1, $2 as int)')),
     start='assert forall|x: i16| 0 <= x <= 255 implies #[trigger] (x << 7u32) == x * 128 by { bits7(x); }'),
  Fn(ANS, 'flush', impl=r'^impl<.*> EntropyEncoder for ANSEncoder<',
     spec='''requires old(self).q.wf(), old(self).start_freq.wf(), old(self).start_freq.view().len() % 4 == 0, old(self).start_freq.view().len() <= 4 * 65536,
          allok(unpack(old(self).start_freq.view())),
          old(self).q.view().len() + old(self).start_freq.view().len() / 2 + 16 <= old(self).q.cap()
       ensures final(self).q.wf(), final(self).start_freq.wf(), final(self).q.cap() == old(self).q.cap(), final(self).start_freq.cap() == old(self).start_freq.cap(),
          final(self).start_freq.view().len() == 0,
          old(self).start_freq.view().len() == 0 ==> final(self).q.view() == old(self).q.view(),
          old(self).start_freq.view().len() > 0 ==> final(self).q.view() == encoded(unpack(old(self).start_freq.view()), old(self).q.view())'''),
  '}', 'impl ByteStack {',
  Fn(ANS, 'num_pop_bytes_avail', impl=r'^impl<.*> ByteQueue for ByteStack<', spec='requires self.wf() ensures r == self.view().len(), self.cap() <= usize::MAX'),
  Fn(ANS, 'pop_data', impl=r'^impl<.*> ByteQueue for ByteStack<',
     subs=[(r'core::cmp::min', 'vmin'), (r'let (\w+) = (self\.data\.slice\(\))\[([^\]]*?)\s*\.\.\s*([^\]]*?)\]\.iter\(\);', r'let \1 = vstd::slice::slice_subrange(\2, \3, \4);'),
           (r'for \((\w+), (\w+)\) in (\w+)\.iter_mut\(\)\.zip\((\w+)\) \{', r'let zl = vmin(\3.len(), \4.len()); for zi in 0..zl { let \1 = &mut \3[zi]; let \2 = &\4[zi];')],
     spec='''requires old(self).wf() ensures final(self).wf(), final(self).cap() == old(self).cap(), final($1)@.len() == old($1)@.len(),
        r == (if old($1)@.len() <= old(self).view().len() { old($1)@.len() } else { old(self).view().len() }),
        final($1)@.subrange(0, r as int) + final(self).view() == old(self).view(), final($1)@.subrange(r as int, old($1)@.len() as int) == old($1)@.subrange(r as int, old($1)@.len() as int)''',
     loops=['''invariant *self == *old(self), self.wf(), n <= self.view().len(), n <= old($1)@.len(), zl == n, sl@ == self.view().subrange(0, n as int), $1@.len() == old($1)@.len(),
         forall|q: int| 0 <= q < zi ==> #[trigger] $1@[q] == self.view()[q], forall|q: int| zi <= q < $1@.len() ==> #[trigger] $1@[q] == old($1)@[q]'''])
  , '}']
DSPEC = r'''
// ---- refill: the bytes of a word, least significant first, from wherever the previous slice ended
pub open spec fn p256(k: int) -> int { if k == 0 {1} else if k == 1 {0x100} else if k == 2 {0x1_0000} else if k == 3 {0x100_0000} else if k == 4 {0x1_0000_0000} else if k == 5 {0x100_0000_0000}
  else if k == 6 {0x1_0000_0000_0000} else if k == 7 {0x100_0000_0000_0000} else {0x1_0000_0000_0000_0000} }
pub open spec fn acc4(x: int, got: int, t: Seq<u8>) -> int decreases t.len() { if t.len() == 0 { x } else { acc4(x, got, t.drop_last()) + t.last() as int * p256(got + t.len() - 1) } }
pub open spec fn acc16(x: (int, int), got: int, t: Seq<u8>) -> (int, int) decreases t.len() { if t.len() == 0 { x } else { let y = acc16(x, got, t.drop_last()); let j = got + t.len() - 1;
  if j < 8 { (y.0 + t.last() as int * p256(j), y.1) } else { (y.0, y.1 + t.last() as int * p256(j - 8)) } } }
pub open spec fn need(r: int) -> int { if r <= 0 { 0 } else if r <= 4 { 5 - r } else if r < 16 { 16 } else { 32 - r } }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
// the decoder's registers between calls: a refill under way keeps the bytes it has in their final places
pub open spec fn dwf(d: ANSDecoder) -> bool { let r = d.buffer_a_bytes_required; &&& d.buffer_b_bytes_required <= 1 &&& r < 32
  &&& (2 <= r <= 4 ==> d.state_a as int % 0x1_0000_0000 < p256(r - 1))
  &&& (r == 5 ==> false)
  &&& (16 <= r <= 24 ==> d.state_b == 0 && d.state_a < p256(r - 16)) &&& (24 < r ==> d.state_b < p256(r - 24)) }
pub open spec fn pushed(d: ANSDecoder, t: Seq<u8>) -> (int, int, int, int, int) {   // bytes taken, a, b, request, symbols so far
  let r = d.buffer_a_bytes_required as int; let n = mn(t.len() as int, need(r)); let s = t.subrange(0, n);
  let a = d.state_a as int; let b = d.state_b as int; let c = d.sym_count as int;
  if r == 0 { (0, a, b, 0, c) }
  else if r <= 4 { (n, acc4(if r == 1 && n > 0 { (a % 0x1_0000_0000) * 0x1_0000_0000 } else { a }, r - 1, s), b, if r + n == 5 { 0 } else { r + n }, c) }
  else if r < 16 { let x = acc16((0, 0), 0, s); (n, x.0, x.1, if n == 16 { 0 } else { 16 + n }, 0) }
  else { let x = acc16((a, b), r - 16, s); (n, x.0, x.1, if r + n == 32 { 0 } else { r + n }, c) }
}
pub open spec fn is_pushed(d: ANSDecoder, e: ANSDecoder, t: Seq<u8>, n: int) -> bool {
  (n, e.state_a as int, e.state_b as int, e.buffer_a_bytes_required as int, e.sym_count as int) == pushed(d, t) && (e.buffer_b_bytes_required == d.buffer_b_bytes_required || 5 <= d.buffer_a_bytes_required < 16 && e.buffer_b_bytes_required == 0)
}
pub open spec fn or_ok(x: u64, b: u8, k: int, y: u64) -> bool { y as int == x as int + b as int * p256(k) }
proof fn or_lo(x: u64, b: u8, k: u8) requires k < 4, x as int % 0x1_0000_0000 < p256(k as int)
   ensures or_ok(x, b, k as int, x | ((b as u64) << (k << 3u8))), (x | ((b as u64) << (k << 3u8))) as int % 0x1_0000_0000 < p256(k + 1)
{
  assert((0u8 << 3u8) == 0 && (1u8 << 3u8) == 8 && (2u8 << 3u8) == 16 && (3u8 << 3u8) == 24) by(bit_vector);
  if k == 0 { assert(x % 0x1_0000_0000 < 1 ==> (x | ((b as u64) << 0u8)) == add(x, b as u64) && x <= 0xffff_ffff_0000_0000 && (x | ((b as u64) << 0u8)) % 0x1_0000_0000 < 0x100) by(bit_vector); }
  if k == 1 { assert(x % 0x1_0000_0000 < 0x100 ==> (x | ((b as u64) << 8u8)) == add(x, mul(b as u64, 0x100)) && x <= 0xffff_ffff_0000_00ff && (x | ((b as u64) << 8u8)) % 0x1_0000_0000 < 0x1_0000) by(bit_vector); }
  if k == 2 { assert(x % 0x1_0000_0000 < 0x1_0000 ==> (x | ((b as u64) << 16u8)) == add(x, mul(b as u64, 0x1_0000)) && x <= 0xffff_ffff_0000_ffff && (x | ((b as u64) << 16u8)) % 0x1_0000_0000 < 0x100_0000) by(bit_vector); }
  if k == 3 { assert(x % 0x1_0000_0000 < 0x100_0000 ==> (x | ((b as u64) << 24u8)) == add(x, mul(b as u64, 0x100_0000)) && x <= 0xffff_ffff_00ff_ffff) by(bit_vector); }
}
proof fn or_word(x: u64, b: u8, k: u8) requires k < 8, x < p256(k as int)
   ensures or_ok(x, b, k as int, x | ((b as u64) << (k << 3u8))), (x | ((b as u64) << (k << 3u8))) < p256(k + 1)
{
  assert((0u8 << 3u8) == 0 && (1u8 << 3u8) == 8 && (2u8 << 3u8) == 16 && (3u8 << 3u8) == 24 && (4u8 << 3u8) == 32 && (5u8 << 3u8) == 40 && (6u8 << 3u8) == 48 && (7u8 << 3u8) == 56) by(bit_vector);
  if k == 0 { assert(x < 1 ==> (x | ((b as u64) << 0u8)) == add(x, b as u64)) by(bit_vector); }
  if k == 1 { assert(x < 0x100 ==> (x | ((b as u64) << 8u8)) == add(x, mul(b as u64, 0x100))) by(bit_vector); }
  if k == 2 { assert(x < 0x1_0000 ==> (x | ((b as u64) << 16u8)) == add(x, mul(b as u64, 0x1_0000))) by(bit_vector); }
  if k == 3 { assert(x < 0x100_0000 ==> (x | ((b as u64) << 24u8)) == add(x, mul(b as u64, 0x100_0000))) by(bit_vector); }
  if k == 4 { assert(x < 0x1_0000_0000 ==> (x | ((b as u64) << 32u8)) == add(x, mul(b as u64, 0x1_0000_0000))) by(bit_vector); }
  if k == 5 { assert(x < 0x100_0000_0000 ==> (x | ((b as u64) << 40u8)) == add(x, mul(b as u64, 0x100_0000_0000))) by(bit_vector); }
  if k == 6 { assert(x < 0x1_0000_0000_0000 ==> (x | ((b as u64) << 48u8)) == add(x, mul(b as u64, 0x1_0000_0000_0000))) by(bit_vector); }
  if k == 7 { assert(x < 0x100_0000_0000_0000 ==> (x | ((b as u64) << 56u8)) == add(x, mul(b as u64, 0x100_0000_0000_0000))) by(bit_vector); }
}
proof fn acc4_push(x: int, g: int, t: Seq<u8>, i: int) requires 0 <= i < t.len()
  ensures acc4(x, g, t.subrange(0, i + 1)) == acc4(x, g, t.subrange(0, i)) + t[i] as int * p256(g + i), acc4(x, g, t.subrange(0, 0)) == x
{ assert(t.subrange(0, i + 1).drop_last() =~= t.subrange(0, i)); assert(t.subrange(0, i + 1).last() == t[i]); }
proof fn acc16_push(x: (int, int), g: int, t: Seq<u8>, i: int) requires 0 <= i < t.len()
  ensures ({ let y = acc16(x, g, t.subrange(0, i)); acc16(x, g, t.subrange(0, i + 1)) == (if g + i < 8 { (y.0 + t[i] as int * p256(g + i), y.1) } else { (y.0, y.1 + t[i] as int * p256(g + i - 8)) }) })
{ assert(t.subrange(0, i + 1).drop_last() =~= t.subrange(0, i)); assert(t.subrange(0, i + 1).last() == t[i]); }
pub open spec fn word(t: Seq<u8>) -> int { val4(t) + 0x1_0000_0000 * val4(t.subrange(4, 8)) }
proof fn acc4_full(x: int, t: Seq<u8>) requires t.len() >= 4 ensures acc4(x, 0, t.subrange(0, 4)) == x + val4(t)
{ acc4_push(x, 0, t, 0); acc4_push(x, 0, t, 1); acc4_push(x, 0, t, 2); acc4_push(x, 0, t, 3); }
proof fn acc16_full(t: Seq<u8>) requires t.len() >= 16 ensures acc16((0, 0), 0, t.subrange(0, 16)) == (word(t), word(t.subrange(8, 16)))
{
  let x = (0int, 0int); let u = t.subrange(8, 16); let v = t.subrange(4, 8); let w = u.subrange(4, 8);
  assert(acc16(x, 0, t.subrange(0, 0)) == x);
  acc16_push(x, 0, t, 0); let y0 = acc16(x, 0, t.subrange(0, 1)); assert(y0 == (t[0] as int * 1, 0int));
  acc16_push(x, 0, t, 1); let y1 = acc16(x, 0, t.subrange(0, 2)); assert(y1 == (y0.0 + t[1] as int * 0x100, 0int));
  acc16_push(x, 0, t, 2); let y2 = acc16(x, 0, t.subrange(0, 3)); assert(y2 == (y1.0 + t[2] as int * 0x1_0000, 0int));
  acc16_push(x, 0, t, 3); let y3 = acc16(x, 0, t.subrange(0, 4)); assert(y3 == (y2.0 + t[3] as int * 0x100_0000, 0int));
  acc16_push(x, 0, t, 4); let y4 = acc16(x, 0, t.subrange(0, 5)); assert(y4 == (y3.0 + t[4] as int * 0x1_0000_0000, 0int));
  acc16_push(x, 0, t, 5); let y5 = acc16(x, 0, t.subrange(0, 6)); assert(y5 == (y4.0 + t[5] as int * 0x100_0000_0000, 0int));
  acc16_push(x, 0, t, 6); let y6 = acc16(x, 0, t.subrange(0, 7)); assert(y6 == (y5.0 + t[6] as int * 0x1_0000_0000_0000, 0int));
  acc16_push(x, 0, t, 7); let y7 = acc16(x, 0, t.subrange(0, 8)); assert(y7 == (y6.0 + t[7] as int * 0x100_0000_0000_0000, 0int));
  let y = acc16(x, 0, t.subrange(0, 8));
  assert(v[0] == t[4] && v[1] == t[5] && v[2] == t[6] && v[3] == t[7]);
  assert(y == (word(t), 0int));
  acc16_push(x, 0, t, 8); let y8 = acc16(x, 0, t.subrange(0, 9)); assert(y8 == (y.0, t[8] as int * 1));
  acc16_push(x, 0, t, 9); let y9 = acc16(x, 0, t.subrange(0, 10)); assert(y9 == (y.0, y8.1 + t[9] as int * 0x100));
  acc16_push(x, 0, t, 10); let y10 = acc16(x, 0, t.subrange(0, 11)); assert(y10 == (y.0, y9.1 + t[10] as int * 0x1_0000));
  acc16_push(x, 0, t, 11); let y11 = acc16(x, 0, t.subrange(0, 12)); assert(y11 == (y.0, y10.1 + t[11] as int * 0x100_0000));
  acc16_push(x, 0, t, 12); let y12 = acc16(x, 0, t.subrange(0, 13)); assert(y12 == (y.0, y11.1 + t[12] as int * 0x1_0000_0000));
  acc16_push(x, 0, t, 13); let y13 = acc16(x, 0, t.subrange(0, 14)); assert(y13 == (y.0, y12.1 + t[13] as int * 0x100_0000_0000));
  acc16_push(x, 0, t, 14); let y14 = acc16(x, 0, t.subrange(0, 15)); assert(y14 == (y.0, y13.1 + t[14] as int * 0x1_0000_0000_0000));
  acc16_push(x, 0, t, 15); let y15 = acc16(x, 0, t.subrange(0, 16)); assert(y15 == (y.0, y14.1 + t[15] as int * 0x100_0000_0000_0000));
  assert(u[0] == t[8] && u[1] == t[9] && u[2] == t[10] && u[3] == t[11] && w[0] == t[12] && w[1] == t[13] && w[2] == t[14] && w[3] == t[15]);
}
proof fn word4(a: u8, b: u8, c: u8, d: u8) ensures
  ((a as u64) | ((b as u64) << 8u64) | ((c as u64) << 16u64) | ((d as u64) << 24u64)) as int == a + 256 * b + 65536 * c + 16777216 * d
{ assert(((a as u64) | ((b as u64) << 8u64) | ((c as u64) << 16u64) | ((d as u64) << 24u64)) == add(a as u64, add(mul(256, b as u64), add(mul(65536, c as u64), mul(16777216, d as u64))))) by(bit_vector); }
proof fn word8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8) ensures
  ((a as u64) | ((b as u64) << 8u64) | ((c as u64) << 16u64) | ((d as u64) << 24u64) | ((e as u64) << 32u64) | ((f as u64) << 40u64) | ((g as u64) << 48u64) | ((h as u64) << 56u64)) as int
    == a + 256 * b + 65536 * c + 16777216 * d + 0x1_0000_0000 * (e + 256 * f + 65536 * g + 16777216 * h)
{
  let lo = (a as u64) | ((b as u64) << 8u64) | ((c as u64) << 16u64) | ((d as u64) << 24u64); let hi = (e as u64) | ((f as u64) << 8u64) | ((g as u64) << 16u64) | ((h as u64) << 24u64);
  word4(a, b, c, d); word4(e, f, g, h);
  assert(((a as u64) | ((b as u64) << 8u64) | ((c as u64) << 16u64) | ((d as u64) << 24u64) | ((e as u64) << 32u64) | ((f as u64) << 40u64) | ((g as u64) << 48u64) | ((h as u64) << 56u64))
    == (((a as u64) | ((b as u64) << 8u64) | ((c as u64) << 16u64) | ((d as u64) << 24u64)) | (((e as u64) | ((f as u64) << 8u64) | ((g as u64) << 16u64) | ((h as u64) << 24u64)) << 32u64))) by(bit_vector);
  assert(lo < 0x1_0000_0000 && hi < 0x1_0000_0000 ==> (lo | (hi << 32u64)) == add(lo, mul(hi, 0x1_0000_0000))) by(bit_vector);
}
proof fn shl_or(x: u64, v: u64) requires v < 0x1_0000_0000
  ensures (x << 32u64) as int == (x as int % 0x1_0000_0000) * 0x1_0000_0000, (x << 32u32) == (x << 32u64), ((x << 32u64) | v) as int == (x as int % 0x1_0000_0000) * 0x1_0000_0000 + v as int, ((x << 32u32) | v) == ((x << 32u64) | v)
{ assert(v < 0x1_0000_0000 ==> (x << 32u64) == mul(x % 0x1_0000_0000, 0x1_0000_0000) && (x << 32u32) == (x << 32u64) && ((x << 32u64) | v) == add(mul(x % 0x1_0000_0000, 0x1_0000_0000), v)) by(bit_vector); }
// one symbol: the word under decoding is consumed, the two words change places, and a refill is requested when the word ran low or the chunk ended
pub open spec fn adv(d: ANSDecoder, e: ANSDecoder, start: int, freq: int) -> bool {
  &&& e.state_a == d.state_b &&& (d_next(d.state_a as int, start, freq) >= 0 ==> e.state_b == d_next(d.state_a as int, start, freq))
  &&& e.buffer_b_bytes_required == (if e.state_b < 0x8000_0000 { 1int } else { 0 })
  &&& e.buffer_a_bytes_required == d.buffer_b_bytes_required + (if d.sym_count == 65535 { 8int } else { 0 })
  &&& e.sym_count == (if d.sym_count == 65535 { 0int } else { d.sym_count + 1 })
}
'''

LINK = r'''
pub open spec fn absd(d: ANSDecoder, inp: Seq<u8>) -> Dec { Dec { a: d.state_a as int, b: d.state_b as int, ra: d.buffer_a_bytes_required == 1, rb: d.buffer_b_bytes_required == 1, inp: inp } }
pub open spec fn same(d: ANSDecoder, e: ANSDecoder) -> bool { d.state_a == e.state_a && d.state_b == e.state_b && d.buffer_a_bytes_required == e.buffer_a_bytes_required && d.buffer_b_bytes_required == e.buffer_b_bytes_required && d.sym_count == e.sym_count }
proof fn acc4_cat(x: int, g: int, s: Seq<u8>, t: Seq<u8>) ensures acc4(acc4(x, g, s), g + s.len(), t) == acc4(x, g, s + t) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { acc4_cat(x, g, s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); } }
proof fn acc16_cat(x: (int, int), g: int, s: Seq<u8>, t: Seq<u8>) ensures acc16(acc16(x, g, s), g + s.len(), t) == acc16(x, g, s + t) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { acc16_cat(x, g, s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); } }
// THEOREM: input cut anywhere: two pushes are one push of the concatenation (while the request is open after the first)
proof fn pieces(d: ANSDecoder, e: ANSDecoder, f: ANSDecoder, g: ANSDecoder, s: Seq<u8>, t: Seq<u8>, n: int, m: int, nm: int)
  requires dwf(d), 5 <= d.buffer_a_bytes_required < 16 ==> d.buffer_b_bytes_required == 0, is_pushed(d, e, s, n), dwf(e), e.buffer_a_bytes_required != 0, is_pushed(e, f, t, m), is_pushed(d, g, s + t, nm), d.buffer_a_bytes_required != 0
  ensures n == s.len(), nm == n + m, same(f, g)
{
  let r = d.buffer_a_bytes_required as int;
  assert(s.subrange(0, n) =~= s);
  assert((s + t).subrange(0, nm) =~= s + t.subrange(0, m));
  let t1 = t.subrange(0, m); let base = if r == 1 && n > 0 { (d.state_a as int % 0x1_0000_0000) * 0x1_0000_0000 } else { d.state_a as int };
  if r <= 4 {
    if n > 0 { acc4_cat(base, r - 1, s, t1); } else { assert(s + t1 =~= t1); }
  } else if r < 16 { if n > 0 { acc16_cat((0, 0), 0, s, t1); } else { assert(s + t1 =~= t1); assert(acc16((0int, 0int), 0, s) == (0int, 0int)); } }
  else { acc16_cat((d.state_a as int, d.state_b as int), r - 16, s, t1); }
}
// THEOREM: a refill of the word under decoding is the model's refill
proof fn refill_link(d: ANSDecoder, e: ANSDecoder, inp: Seq<u8>, n: int)
  requires dwf(d), d.buffer_a_bytes_required <= 1, d.buffer_a_bytes_required == 1 ==> d.state_a < 0x8000_0000 && inp.len() >= 4, is_pushed(d, e, inp, n)
  ensures n == (if d.buffer_a_bytes_required == 1 { 4int } else { 0 }), e.buffer_a_bytes_required == 0, e.sym_count == d.sym_count, absd(e, inp.subrange(n, inp.len() as int)) == refill(absd(d, inp))
{ if d.buffer_a_bytes_required == 1 { acc4_full(d.state_a as int * 0x1_0000_0000, inp); } assert(inp.subrange(0, inp.len() as int) =~= inp); }
// THEOREM: the first push of a chunk loads the two words of its header
proof fn load_link(d: ANSDecoder, e: ANSDecoder, inp: Seq<u8>, n: int)
  requires dwf(d), d.buffer_a_bytes_required == 8, d.buffer_b_bytes_required == 0, inp.len() >= 16, is_pushed(d, e, inp, n)
  ensures n == 16, e.buffer_a_bytes_required == 0, e.buffer_b_bytes_required == 0, e.sym_count == 0, e.state_a == word(inp), e.state_b == word(inp.subrange(8, 16))
{ acc16_full(inp); }
proof fn adv_link(d: ANSDecoder, e: ANSDecoder, inp: Seq<u8>, start: int, freq: int)
  requires dwf(d), d.buffer_a_bytes_required == 0, adv(d, e, start, freq), okstate(d.state_a as int), okrange(start, freq), start <= d.state_a as int % 32768
  ensures d.sym_count < 65535 ==> absd(e, inp) == advance(absd(d, inp), start, freq),
    d.sym_count == 65535 ==> (Dec { ra: d.buffer_b_bytes_required == 1, ..absd(e, inp) }) == advance(absd(d, inp), start, freq) && e.buffer_a_bytes_required == 8 + d.buffer_b_bytes_required
{
  let x = d.state_a as int; let h = x / 32768;
  assert(freq * h >= 0) by(nonlinear_arith) requires h >= 0, freq >= 1;
}
// THEOREM: a registers-level decoder that simulates the encoder before symbol k of a chunk, once refilled, sees the symbol's interval, and still simulates it
// after the symbol; after the last symbol of a full chunk it asks for exactly a fresh header
proof fn symbol_link(s: Seq<(int, int)>, tail: Seq<u8>, d: ANSDecoder, d1: ANSDecoder, d2: ANSDecoder, inp: Seq<u8>, n: int, k: int)
  requires allok(s), 0 <= k < s.len() <= 65536, sim(absd(d, inp), e_chunk(s, k, tail)), d.sym_count == k, d.buffer_a_bytes_required <= 1, dwf(d), is_pushed(d, d1, inp, n), dwf(d1),
    s[k].0 <= d1.state_a as int % 32768 < s[k].0 + s[k].1 ==> adv(d1, d2, s[k].0, s[k].1)
  ensures ({ let rest = inp.subrange(n, inp.len() as int);
    &&& d1.buffer_a_bytes_required == 0 && s[k].0 <= d1.state_a as int % 32768 < s[k].0 + s[k].1
    &&& (k < 65535 ==> sim(absd(d2, rest), e_chunk(s, k + 1, tail)) && d2.sym_count == k + 1 && d2.buffer_a_bytes_required <= 1)
    &&& (k + 1 == 65536 ==> d2.sym_count == 0 && d2.buffer_a_bytes_required == 8 && d2.buffer_b_bytes_required == 0 && rest == tail) })
{
  let rest = inp.subrange(n, inp.len() as int);
  refill_link(d, d1, inp, n);
  assert(okrange(s[k].0, s[k].1));
  chunk_ok(s, k + 1, tail);
  decode_step(absd(d, inp), e_chunk(s, k + 1, tail), s[k].0, s[k].1);
  assert(absd(d1, rest) == refill(absd(d, inp)));
  adv_link(d1, d2, rest, s[k].0, s[k].1);
  if k + 1 == 65536 {
    let e = e_chunk(s, k + 1, tail); assert(e == (Enc { a: NORM(), b: NORM(), bytes: tail }));
    let f = Dec { ra: d1.buffer_b_bytes_required == 1, ..absd(d2, rest) };
    assert(sim(f, e));
    if f.ra { assert(f.a * 0x1_0000_0000 + val4(f.inp) == NORM() && f.a >= 0x1_0000); }
    if f.rb { assert(f.b * 0x1_0000_0000 + val4(after_a(f)) == NORM() && f.b >= 0x1_0000); }
  }
}
// THEOREM: the decoder that took the first 16 bytes of a chunk simulates the encoder before its first symbol
proof fn start_link(s: Seq<(int, int)>, tail: Seq<u8>, d: ANSDecoder, e: ANSDecoder, n: int)
  requires allok(s), dwf(d), d.buffer_a_bytes_required == 8, d.buffer_b_bytes_required == 0, is_pushed(d, e, encoded(s, tail), n)
  ensures n == 16, e.sym_count == 0, e.buffer_a_bytes_required == 0, sim(absd(e, encoded(s, tail).subrange(16, encoded(s, tail).len() as int)), e_chunk(s, 0, tail))
{ header_words(s, tail); load_link(d, e, encoded(s, tail), n);
  let v = encoded(s, tail); let u = v.subrange(8, 16); assert(u.subrange(0, 4) =~= v.subrange(8, 12)); assert(u.subrange(4, 8) =~= v.subrange(12, 16)); assert(val4(u) == val4(v.subrange(8, 12))); }
// THEOREM: a bit comes back as it was coded
proof fn bit_link(b: bool, p: int, x: int) requires 0 <= p <= 255, bst(b, p) <= x < bst(b, p) + bfr(b, p) ensures okrange(bst(b, p), bfr(b, p)), (x >= bp(p) * 128) == b {}
'''
DSUB = [(r'(?<![:\w])cmp::min', 'vmin'), (r'CDF\b', 'CDFT')]
PUSHED = 'final(self).sym_count <= 65535, is_pushed(*old(self), *final(self), $1@, r as int), dwf(*final(self))'
R01B = [Const(PI, 'CDF_BITS'), Const(PI, 'LOG2_SCALE'), Const(ANS, 'MAX_BUFFER_SIZE'), MIN, StructFrom(PI, 'ProbRange', derive='#[derive(Clone, Copy)]'), StructFrom(PI, 'SymStartFreq', derive='#[derive(Clone, Copy)]'),
  ANS_SPEC, *ANS_CONSTS, CDFENV, StructFrom(ANS, 'ANSDecoder', derive='#[derive(Clone, Copy)]'), ANS_THEOREMS, DSPEC,
  'impl ANSDecoder {',
  Fn(ANS, 'default', impl='^impl Default for ANSDecoder', subs=[(r'\b1 << \(mem::size_of_val\(&ret\.sym_count\) \* 8\)', '1u64 << (2u64 * 8)'), (r'>= NUM_SYMBOLS_BEFORE_FLUSH', '>= NUM_SYMBOLS_BEFORE_FLUSH as u64')], psubs=[(r'\bSelf\b', 'ANSDecoder')],
     spec='ensures dwf(r), need(r.buffer_a_bytes_required as int) == 16, 5 < r.buffer_a_bytes_required < 16, r.sym_count == 0', start='assert((1u64 << 16u64) == 65536) by(bit_vector);'),
  Fn(ANS, 'num_push_bytes_avail', impl=r'^impl ByteQueue for ANSDecoder', spec='requires dwf(*self) ensures r == need(self.buffer_a_bytes_required as int)'),
  Fn(ANS, 'helper_push_data_really_rare_cases', impl='^impl ANSDecoder', subs=DSUB,
     spec='''requires dwf(*old(self)), 1 <= old(self).buffer_a_bytes_required <= 4 || 16 <= old(self).buffer_a_bytes_required ensures ''' + PUSHED,
     ghost='let ghost r0 = self.buffer_a_bytes_required; let ghost base = if r0 == 1 && data@.len() > 0 { (self.state_a as int % 0x1_0000_0000) * 0x1_0000_0000 } else { self.state_a as int }; let ghost base16 = (self.state_a as int, self.state_b as int);'.replace('data@', '$1@'),
     start='''shl_or(self.state_a, 0);
       assert($1@.subrange(0, 0) =~= Seq::<u8>::empty()); assert(acc4(base, r0 - 1, $1@.subrange(0, 0)) == base); assert(acc16(base16, r0 - 16, $1@.subrange(0, 0)) == base16);
       assert forall|k: u8| k < 32 implies #[trigger] (k << 3u8) == 8 * k by { assert(k < 32 ==> (k << 3u8) == mul(8u8, k)) by(bit_vector); }''',
     loops=[('''invariant self.buffer_a_bytes_required == r0, 1 <= r0 <= 4, bytes_to_copy <= 5 - r0, bytes_to_copy <= $1@.len(), self.state_b == old(self).state_b, self.sym_count == old(self).sym_count, self.buffer_b_bytes_required == old(self).buffer_b_bytes_required,
          $i > 0 || self.state_a as int == base,
          self.state_a as int == acc4(base, r0 - 1, $1@.subrange(0, $i as int)), self.state_a as int % 0x1_0000_0000 < p256(r0 - 1 + $i) || bytes_to_copy == 0, forall|k: u8| k < 32 ==> #[trigger] (k << 3u8) == 8 * k''',
          'proof { or_lo(self.state_a, $1@[$i as int], (r0 - 1 + $i) as u8); acc4_push(base, r0 - 1, $1@, $i as int); }'),
        ('''invariant self.buffer_a_bytes_required == r0, 16 <= r0 < 32, bytes_to_copy <= 32 - r0, bytes_to_copy <= $1@.len(), self.sym_count == old(self).sym_count, self.buffer_b_bytes_required == old(self).buffer_b_bytes_required,
          forall|k: u8| k < 32 ==> #[trigger] (k << 3u8) == 8 * k,
          (self.state_a as int, self.state_b as int) == acc16(base16, r0 - 16, $1@.subrange(0, $i as int)),
          r0 + $i <= 24 ==> self.state_b == 0 && self.state_a < p256(r0 - 16 + $i), r0 + $i > 24 ==> self.state_b < p256(r0 - 24 + $i)''',
          '''proof { let j = (r0 - 16 + $i) as u8; assert((j << 3u8) == 8 * j);
             if j < 8 { or_word(self.state_a, $1@[$i as int], j); } else { assert((((j - 8) as u8) << 3u8) == 8 * (j - 8)); or_word(self.state_b, $1@[$i as int], (j - 8) as u8); }
             acc16_push(base16, r0 - 16, $1@, $i as int); }''')]),
  Fn(ANS, 'helper_push_data_rare_cases', impl='^impl ANSDecoder', subs=DSUB,
     spec='requires dwf(*old(self)), 1 <= old(self).buffer_a_bytes_required ensures ' + PUSHED,
     start='''let d = $1@; if d.len() >= 16 { word8(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]); word8(d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]); acc16_full(d);
        assert(d.subrange(8, 16).subrange(4, 8) =~= d.subrange(12, 16)); }'''),
  Fn(ANS, 'push_data', impl=r'^impl ByteQueue for ANSDecoder', subs=DSUB,
     spec='requires dwf(*old(self)) ensures ' + PUSHED,
     start='''let d = $1@; if self.buffer_a_bytes_required == 1 && d.len() >= 4 { word4(d[0], d[1], d[2], d[3]); acc4_full((self.state_a as int % 0x1_0000_0000) * 0x1_0000_0000, d);
        shl_or(self.state_a, (d[0] as u64) | ((d[1] as u64) << 8u64) | ((d[2] as u64) << 16u64) | ((d[3] as u64) << 24u64)); }'''),
  Fn(ANS, 'helper_get_cdf_value_of_sym', impl='^impl ANSDecoder', spec='requires old(self).buffer_a_bytes_required == 0 ensures *final(self) == *old(self), r as int == old(self).state_a as int % 32768, r >= 0',
     start='let x = self.state_a; assert((x & 32767) == x % 32768) by(bit_vector);'),
  Fn(ANS, 'helper_advance_sym', impl='^impl ANSDecoder',
     spec='''requires okrange($1 as int, $2 as int), old(self).buffer_b_bytes_required <= 1
       ensures adv(*old(self), *final(self), $1 as int, $2 as int), dwf(*final(self))''',
     start='''let x = self.state_a; let b = self.buffer_b_bytes_required; let f = $2 as int;
       assert((x & 32767) == x % 32768) by(bit_vector); assert((x >> 15u32) == x / 32768) by(bit_vector);
       assert(b <= 1 ==> (b | (1u8 << 3)) == b + 8) by(bit_vector); assert(b <= 1 ==> (b | (0u8 << 3)) == b) by(bit_vector);
       let h = x as int / 32768; assert(0 <= f * h <= 32767 * h) by(nonlinear_arith) requires 0 <= f <= 32767, h >= 0;'''),
  Fn(ANS, 'get_nibble_internal', impl='^impl ANSDecoder', subs=DSUB,
     spec='''requires old(self).buffer_a_bytes_required == 0, dwf(*old(self))
       ensures r.0 < 16, r.1.start == st($1, r.0 as int), r.1.freq == fr($1, r.0 as int), okrange(r.1.start as int, r.1.freq as int), adv(*old(self), *final(self), r.1.start as int, r.1.freq as int), dwf(*final(self)),
         forall|s: int| 0 <= s < 16 && #[trigger] st($1, s) <= old(self).state_a as int % 32768 < st($1, s) + fr($1, s) ==> r.0 == s'''),
  Fn(ANS, 'get_nibble', impl='^impl EntropyDecoder for ANSDecoder', subs=DSUB,
     spec='''requires old(self).buffer_a_bytes_required == 0, dwf(*old(self))
       ensures r.0 < 16, r.1.start == st(*$1, r.0 as int), r.1.freq == fr(*$1, r.0 as int), okrange(r.1.start as int, r.1.freq as int), adv(*old(self), *final(self), r.1.start as int, r.1.freq as int), dwf(*final(self)),
         forall|s: int| 0 <= s < 16 && #[trigger] st(*$1, s) <= old(self).state_a as int % 32768 < st(*$1, s) + fr(*$1, s) ==> r.0 == s'''),
  Fn(ANS, 'get_bit', impl='^impl EntropyDecoder for ANSDecoder',
     spec='''requires old(self).buffer_a_bytes_required == 0, dwf(*old(self))
       ensures r == (old(self).state_a as int % 32768 >= bp($1 as int) * 128), adv(*old(self), *final(self), bst(r, $1 as int), bfr(r, $1 as int)), dwf(*final(self))''',
     start='assert forall|x: i16| 0 <= x <= 255 implies #[trigger] (x << 7u32) == x * 128 by { bits7(x); }'),
  '}', LINK]
AC = 'src/arithmetic_coder.rs'; IFC = 'src/interface.rs'
# the coder behind the codec's interface; the two stream halves are passed as slice and offset
IOP = [(r'(\w+)\s*:\s*&mut (?:::interface::)?ReadableBytes', r'in_data: &[u8], in_off: &mut usize'), (r'(\w+)\s*:\s*&mut (?:::interface::)?WritableBytes', r'out_data: &mut [u8], out_off: &mut usize'), (r'::probability::ProbRange', 'ProbRange'), (r'&\s*C\b', '&CDFT')]
IOS = IOP + [(r'input\.data\.split_at\(\*input\.read_offset\)\.1', 'vstd::slice::slice_subrange(in_data, *in_off, in_data.len())'), (r'output\.data\.split_at_mut\(\*output\.write_offset\)\.1', 'tail_mut(out_data, *out_off)'),
  (r'\*input\.read_offset', '*in_off'), (r'\*output\.write_offset', '*out_off'), (r'drain_or_fill_internal_buffer_unchecked\(input, output\)', 'drain_or_fill_internal_buffer_unchecked(in_data, in_off, out_data, out_off)'),
  (r'self\.get_internal_buffer\(\)', 'self.get_internal_buffer_()')]
IOD = IOS + [(r'let ibuffer = self\.get_internal_buffer_mut\(\);', ''), (r'\bibuffer\b', 'self'), (r'self\.get_internal_buffer_\(\)', 'self')]
TAIL = r'''
#[verifier::external_body] pub fn tail_mut(s: &mut [u8], i: usize) -> (r: &mut [u8]) requires i <= old(s)@.len()
  ensures old(s)@.len() <= usize::MAX, r@ == old(s)@.subrange(i as int, old(s)@.len() as int), final(r)@.len() == r@.len() ==> final(s)@ == old(s)@.subrange(0, i as int) + final(r)@ { s.split_at_mut(i).1 }
'''
TR = r'^pub trait ArithmeticEncoderOrDecoder|^trait ArithmeticEncoderOrDecoder'
DI = r'^impl<Decoder\s*:\s*EntropyDecoder.*> ArithmeticEncoderOrDecoder for Decoder'
FILL = '''requires dwf(*old(self)), *old(in_off) <= in_data@.len(), *old(out_off) <= old(out_data)@.len()
       ensures *old(in_off) <= *final(in_off) <= in_data@.len(), dwf(*final(self)), *final(out_off) == *old(out_off), final(out_data)@ == old(out_data)@,
         is_pushed(*old(self), *final(self), in_data@.subrange(*old(in_off) as int, in_data@.len() as int), *final(in_off) - *old(in_off)),
         r is Success || r is NeedsMoreInput, r is Success <==> final(self).buffer_a_bytes_required == 0, r is NeedsMoreInput ==> *final(in_off) == in_data@.len()'''
NIBD = '''requires old(self).buffer_a_bytes_required == 0, dwf(*old(self))
       ensures *final($1) < 16, okrange(r.start as int, r.freq as int), r.start == st(*$2, *final($1) as int), r.freq == fr(*$2, *final($1) as int), adv(*old(self), *final(self), r.start as int, r.freq as int), dwf(*final(self)),
         forall|s: int| 0 <= s < 16 && #[trigger] st(*$2, s) <= old(self).state_a as int % 32768 < st(*$2, s) + fr(*$2, s) ==> *final($1) == s'''
BITD = '''requires old(self).buffer_a_bytes_required == 0, dwf(*old(self))
       ensures *final($1) == (old(self).state_a as int % 32768 >= bp($2 as int) * 128), adv(*old(self), *final(self), bst(*final($1), $2 as int), bfr(*final($1), $2 as int)), dwf(*final(self))'''
def IFACE(side, fill, nib, bit, close):
    dec = side == 'D'; S = IOD if dec else IOS
    un = dict(file=AC, impl=DI) if dec else dict(file=AC, nth=1)
    return [
      Fn(name='has_data_to_drain_or_fill', subs=S, **un, spec='requires %s' % ('dwf(*self) ensures r == (self.buffer_a_bytes_required != 0)' if dec else 'self.q.wf() ensures r == (self.q.view().len() != 0)')),
      Fn(name='drain_or_fill_internal_buffer_unchecked', subs=S, **un, spec=fill),
      Fn(IFC, 'drain_or_fill_internal_buffer', TR, subs=S, spec=fill, start='assert(in_data@.subrange(*in_off as int, *in_off as int) =~= Seq::<u8>::empty());' if dec else ''),
      Fn(name='get_or_put_nibble_without_billing', subs=S, **un, spec=nib),
      Fn(IFC, 'get_or_put_nibble', TR, subs=S, spec=nib),
      Fn(name='get_or_put_bit_without_billing', subs=S, **un, spec=bit),
      Fn(IFC, 'get_or_put_bit', TR, subs=S, spec=bit),
      Fn(name='close', subs=S, **un, spec=close)]
DIV = [EnumFrom(IFC, 'ErrMsg'), EnumFrom(IFC, 'DivansResult'), TAIL, 'pub struct BillingDesignation { }']
DRAIN = '''requires old(self).q.wf(), *old(in_off) <= in_data@.len(), *old(out_off) <= old(out_data)@.len()
       ensures final(self).q.wf(), final(self).start_freq == old(self).start_freq, final(self).q.cap() == old(self).q.cap(), *final(in_off) == *old(in_off), final(out_data)@.len() == old(out_data)@.len(),
         *old(out_off) <= *final(out_off) <= final(out_data)@.len(),
         final(out_data)@.subrange(*old(out_off) as int, *final(out_off) as int) + final(self).q.view() == old(self).q.view(),
         final(out_data)@.subrange(0, *old(out_off) as int) == old(out_data)@.subrange(0, *old(out_off) as int),
         r is Success || r is NeedsMoreOutput, r is Success <==> final(self).q.view().len() == 0, r is NeedsMoreOutput ==> *final(out_off) == final(out_data)@.len()'''
R01B += DIV + ['impl ANSDecoder {', Fn(ANS, 'flush', '^impl EntropyDecoder for ANSDecoder', spec='ensures r is Success, *final(self) == *old(self)')] + IFACE('D', FILL, NIBD, BITD, 'ensures r is Success, *final(self) == *old(self)') + ['}']
R01A = [MIN, StructFrom(PI, 'ProbRange', derive='#[derive(Clone, Copy)]'), StructFrom(PI, 'SymStartFreq', derive='#[derive(Clone, Copy)]'), CDFENV] + R01 + PUTS
FL = PUTS[[getattr(x, 'name', '') for x in PUTS].index('flush')].spec
R01A += DIV + ['impl ANSEncoder {',
  Fn(ANS, 'get_internal_buffer_mut', r'^impl<.*> EntropyEncoder for ANSEncoder<', psubs=[(r'Self::Queue', 'ByteStack')], spec='ensures *r == old(self).q, *final(r) == final(self).q, final(self).start_freq == old(self).start_freq'),
  Fn(ANS, 'get_internal_buffer', r'^impl<.*> EntropyEncoder for ANSEncoder<', rename='get_internal_buffer_', psubs=[(r'Self::Queue', 'ByteStack')], spec='ensures *r == self.q')] + IFACE('E', DRAIN,
  'requires *old($1) < 16, %s ensures *final($1) == *old($1), r.start == st(*$2, *old($1) as int), r.freq == fr(*$2, *old($1) as int), okrange(r.start as int, r.freq as int), %s' % (PUT_PRE, PUT_POST('st(*$2, *old($1) as int)', 'fr(*$2, *old($1) as int)')),
  'requires %s ensures *final($1) == *old($1), okrange(bst(*old($1), $2 as int), bfr(*old($1), $2 as int)), %s' % (PUT_PRE, PUT_POST('bst(*old($1), $2 as int)', 'bfr(*old($1), $2 as int)')),
  FL + ', r is Success') + ['}']
