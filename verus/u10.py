"""R10: contracts on the mixing-weight update (src/codec/weights.rs)."""
from vextract import Fn, Lost
from units import Const, R03, NUM
from u05 import MIN
W = 'src/codec/weights.rs'; PI = 'src/probability/interface.rs'
SB = [(r'(\w+)\.leading_zeros\(\)', r'((\1) as u64).leading_zeros()'), (r'(\w+\[[01]\])\.leading_zeros\(\)', r'((\1) as u32).leading_zeros()'),
      (r'core::cmp::min\(', 'vmin_u32('), (r'core::cmp::max\((\d+) - \((\w+) as i16\), 0\)', r'vmax_i16(\1 - (\2 as i16), 0)'), (r'core::cmp::max\((-?\d+),', r'vmax_i32(\1,'),
      (r'\(full_model_sum_p1\.wrapping_mul\(full_model_sum_p0\)\)\.leading_zeros\(\)', '((full_model_sum_p1.wrapping_mul(full_model_sum_p0)) as u64).leading_zeros()'),
      (r'(weights\[[01]\])\s*>>=\s*([^;]+);', r'\1 = \1 >> (\2);'), (r'::probability::numeric::', ''), (r'\bProb\b', 'i16'),
      (r'normalize_weights\(&mut self\.model_weights\)', 'normalize_weights(&mut self.model_weights)')]
LEM = r'''
fn vmin_u32(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
fn vmax_i16(a: i16, b: i16) -> (r: i16) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
fn vmax_i32(a: i32, b: i32) -> (r: i32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
#[verifier::external_body]
fn lookup_divisor8(d: u8) -> (r: i32) requires d > 0 ensures recip8_ok(r as int, d as int) { unimplemented!() }
// what normalize_weights leaves behind: small enough for the update, possibly zero
pub open spec fn small(w: [i32; 2]) -> bool { 0 <= w[0] < 0x100_0000 && 0 <= w[1] < 0x100_0000 }
// the weights between two updates
pub open spec fn wok(w: [i32; 2]) -> bool { w[0] >= 1 && w[1] >= 1 }
pub open spec fn norm_ok(n: i16) -> bool { (n as u16) <= 32768 }
proof fn lz64(d: u64) requires 0 < d < 0x8000_0000_0000_0000 ensures ({ let l = vstd::std_specs::bits::u64_leading_zeros(d); 1 <= l <= 63 && (d >> ((63 - l) as u64)) == 1 })
{
   vstd::std_specs::bits::axiom_u64_leading_zeros(d);
   let l = vstd::std_specs::bits::u64_leading_zeros(d) as u64;
   assert(d < 0x8000_0000_0000_0000 ==> (d >> 63u64) & 1 == 0) by(bit_vector);
   assert(d > 0 && 0 < l <= 63 && (d >> sub(63u64, l)) & 1 != 0 && d >> sub(64u64, l) == 0 ==> (d >> sub(63u64, l)) == 1) by(bit_vector);
}
proof fn total_shift(t: u64) requires 2 <= t <= 0xffff_fffe
   ensures ({ let l = vstd::std_specs::bits::u64_leading_zeros(t); l >= 32 && l <= 63 && ({ let s = if l <= 56 { (56 - l) as u64 } else { 0 }; s <= 24 && 0 < (t >> s) <= 255 }) })
{
   lz64(t);
   let l = vstd::std_specs::bits::u64_leading_zeros(t) as u64;
   assert(t <= 0xffff_fffe && l <= 63 && t >> sub(63u64, l) == 1 ==> l >= 32) by(bit_vector);
   assert(t >= 1 && l <= 56 && t >> sub(63u64, l) == 1 ==> t >> sub(56u64, l) <= 255 && t >> sub(56u64, l) > 0) by(bit_vector);
   assert(l > 56 && l <= 63 && t >> sub(63u64, l) == 1 ==> t >> 0u64 <= 255 && t >> 0u64 == t) by(bit_vector);
}
proof fn shr_le(a: i32, t: i64, s: u64) requires 0 <= a <= t, 0 <= s <= 24, 0 <= t <= 0xffff_fffe, (t >> s) <= 255
   ensures 0 <= (a >> s) <= (t >> s), ((a >> s) as u16) == (a >> s), (((a >> s) as u16) << 8) == (a >> s) * 256
{
   assert(0 <= a && (a as i64) <= t && s <= 24 && 0 <= t && t <= 0xffff_fffe ==> 0 <= (a >> s) && ((a >> s) as i64) <= (t >> s)) by(bit_vector);
   let x = a >> s;
   assert(0 <= x <= 255 ==> ((x as u16) as i32) == x && (((x as u16) << 8) as i32) == mul(x, 256)) by(bit_vector);
}
proof fn shr_same(t: i64, s: u64) requires 0 <= t, s <= 24 ensures (t >> s) == (t as u64) >> s { assert(0 <= t && s <= 24 ==> (t >> s) == ((t as u64) >> s)) by(bit_vector); }
proof fn lz32(d: u32) requires 0 < d < 0x8000_0000 ensures ({ let l = vstd::std_specs::bits::u32_leading_zeros(d); 1 <= l <= 31 && (d >> ((31 - l) as u32)) == 1 })
{
   vstd::std_specs::bits::axiom_u32_leading_zeros(d);
   let l = vstd::std_specs::bits::u32_leading_zeros(d) as u32;
   assert(d < 0x8000_0000 ==> (d >> 31u32) & 1 == 0) by(bit_vector);
   assert(d > 0 && 0 < l <= 31 && (d >> sub(31u32, l)) & 1 != 0 && d >> sub(32u32, l) == 0 ==> (d >> sub(31u32, l)) == 1) by(bit_vector);
}
// the shift chosen from the larger weight brings any weight of at most that many bits below 2^24
proof fn fix_shift(a: i32, b: i32) requires a >= 1, b >= 1
   ensures ({ let la = vstd::std_specs::bits::u32_leading_zeros(a as u32); let lb = vstd::std_specs::bits::u32_leading_zeros(b as u32); let m = if la <= lb { la } else { lb };
      m <= 31 && m >= 1 && (32 - m >= 24 ==> 0 <= (a >> ((32 - m - 24) as u32)) < 0x100_0000 && 0 <= (b >> ((32 - m - 24) as u32)) < 0x100_0000) && (32 - m < 24 ==> a < 0x100_0000 && b < 0x100_0000) })
{
   lz32(a as u32); lz32(b as u32);
   let la = vstd::std_specs::bits::u32_leading_zeros(a as u32) as u32; let lb = vstd::std_specs::bits::u32_leading_zeros(b as u32) as u32;
   bound32(a, la, if la <= lb { la } else { lb }); bound32(b, lb, if la <= lb { la } else { lb });
}
proof fn bound32(a: i32, l: u32, m: u32) requires a >= 1, 1 <= m <= l <= 31, ((a as u32) >> ((31 - l) as u32)) == 1
   ensures m <= 8 ==> 0 <= (a >> ((8 - m) as u32)) < 0x100_0000, m > 8 ==> a < 0x100_0000
{
   let s = (31 - l) as u32;
   assert(a >= 1 && 1 <= m && m <= l && l <= 31 && s == sub(31u32, l) && ((a as u32) >> s) == 1 ==> (m <= 8 ==> 0 <= (a >> sub(8u32, m)) && (a >> sub(8u32, m)) < 0x100_0000) && (m > 8 ==> a < 0x100_0000)) by(bit_vector);
}
// the adjustment is bounded: |error * efficacy| < 2^45 and the shift is at least 15
proof fn adjust(p1: int, n1: int, g: u64) requires 1 <= p1 <= 32767, 1 <= n1 <= 32767, g == p1 * (32768 - p1)
   ensures ({ let e = 32768 - p1; let f = 32768 * n1 - p1 * 32768; -0x2000_0000_0000 < e * f < 0x2000_0000_0000 && -0x4000_0000 < f < 0x4000_0000 && 32767 <= g <= 0x1000_0000
      && ({ let l = 64 - vstd::std_specs::bits::u64_leading_zeros(g); 15 <= l <= 29 }) })
{
   let e = 32768 - p1; let f = 32768 * n1 - p1 * 32768;
   assert(p1 * e >= 32767) by(nonlinear_arith) requires 1 <= p1 <= 32767, e == 32768 - p1;
   assert(p1 * e <= 0x1000_0000) by(nonlinear_arith) requires e == 32768 - p1;
   assert(e * f < 0x2000_0000_0000 && e * f > -0x2000_0000_0000) by(nonlinear_arith) requires 1 <= e <= 32767, -0x4000_0000 < f < 0x4000_0000;
   lz64(g);
   let l = vstd::std_specs::bits::u64_leading_zeros(g) as u64;
   assert(32767 <= g && g <= 0x1000_0000 && 1 <= l && l <= 63 && (g >> sub(63u64, l)) == 1 ==> l <= 49 && l >= 35) by(bit_vector);
}
proof fn adj_shift(x: i64, l: u32) requires -0x2000_0000_0000 < x < 0x2000_0000_0000, 15 <= l <= 29 ensures -0x4000_0000 <= (x >> l) < 0x4000_0000
{
   assert(-0x2000_0000_0000 < x && x < 0x2000_0000_0000 && 15 <= l && l <= 29 ==> -0x4000_0000 <= (x >> l) && (x >> l) < 0x4000_0000) by(bit_vector);
}
pub struct Weights { pub model_weights: [i32; 2], pub mixing_param: u8, pub normalized_weight: i16 }
pub open spec fn inv(s: Weights) -> bool { wok(s.model_weights) && norm_ok(s.normalized_weight) }
'''
# the division lemmas and contracts proved under R03 are proved again here (same text), so this unit stands on its own
R10 = [Const(PI, 'CDF_BITS'), Const(PI, 'BLEND_FIXED_POINT_PRECISION'), Const(PI, 'LOG2_SCALE')] + R03 + [LEM,
  Fn(W, 'compute_normalized_weight', subs=SB, spec='requires wok($1) ensures norm_ok(r)',
     start='''let t = ($1[0] as i64 + $1[1] as i64) as i64; total_shift(t as u64);
       assert forall|s: i16| 0 <= s <= 24 && #[trigger] (t >> s) <= 255 implies 0 <= ($1[0] >> s) <= (t >> s) && (($1[0] >> s) as u16) == ($1[0] >> s) && ((($1[0] >> s) as u16) << 8) == ($1[0] >> s) * 256 by { shr_le($1[0], t, s as u64); }
       assert forall|s: i16| 0 <= s <= 24 implies #[trigger] (t >> s) == (t as u64) >> (s as u64) by { shr_same(t, s as u64); }
       assert forall|a: int, b: int| 0 <= a <= b && 0 < b <= 255 implies 0 <= #[trigger] ((a * 256) / b) <= 256 by { assert(0 <= (a * 256) / b <= 256) by(nonlinear_arith) requires 0 <= a <= b, 0 < b; }
       assert(forall|x: i16| (#[trigger] (x as u16)) <= 256 ==> 0 <= x && x <= 256 && (x << 7usize) as u16 <= 32768) by(bit_vector); assert(forall|x: i16| 0 <= x && x <= 256 ==> (#[trigger] (x << 7usize)) as u16 <= 32768) by(bit_vector);'''),
  Fn(W, 'fix_weights', subs=SB, spec='requires wok(*old($1)) ensures small(*final($1))', start='fix_shift($1[0], $1[1]);'),
  Fn(W, 'normalize_weights', subs=SB, spec='requires wok(*old($1)) ensures small(*final($1))',
     start='let a = $1[0]; let b = $1[1]; assert(a >= 1 && b >= 1 && ((a|b) & 0x7f000000) == 0 ==> a < 0x100_0000 && b < 0x100_0000) by(bit_vector);'),
  Fn(W, 'compute_new_weight', nth=1, subs=SB, spec='requires small($3), forall|i: int| 0 <= i < 2 ==> 1 <= #[trigger] $1[i] <= 32767, 1 <= $2 <= 32767 ensures r >= 1',
     start='''let i = if $4 { 1int } else { 0 }; let n1 = $1[i] as int; let p1 = $2 as int;
       assert(1i64 << 15usize == 32768) by(bit_vector);
       assert(p1 * (32768 - p1) >= 0 && p1 * (32768 - p1) <= 0x1000_0000) by(nonlinear_arith) requires 1 <= p1 <= 32767;
       adjust(p1, n1, (p1 * (32768 - p1)) as u64);
       assert forall|x: i64, l: u32| -0x2000_0000_0000 < x < 0x2000_0000_0000 && 15 <= l <= 29 implies -0x4000_0000 <= #[trigger] (x >> l) < 0x4000_0000 by { adj_shift(x, l); }'''),
  'impl Weights {',
  Fn(W, 'new', impl=r'impl Weights', subs=[(r'model_weights:\s*\[1;\s*2\]', 'model_weights: [1, 1]')], psubs=[(r'^Self$', 'Weights')], spec='ensures inv(r)', start='assert((1i16 << 14usize) as u16 <= 32768) by(bit_vector);'),
  Fn(W, 'update', impl=r'impl Weights', subs=SB, spec='''requires inv(*old(self)), old(self).mixing_param != 0, forall|i: int| 0 <= i < 2 ==> 1 <= #[trigger] $1[i] <= 32767, 1 <= $2 <= 32767
     ensures inv(*final(self)), final(self).mixing_param == old(self).mixing_param'''),
  Fn(W, 'set_mixing_param', impl=r'impl Weights', spec='requires inv(*old(self)) ensures inv(*final(self))'),
  Fn(W, 'norm_weight', impl=r'impl Weights', spec='requires inv(*self) ensures norm_ok(r)'),
  '}']
