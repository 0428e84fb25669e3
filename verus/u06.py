"""R06: crc32c_update == CRC-32C, for every buffer and every split."""
from vextract import Fn, Lost
CRC = 'src/codec/crc32.rs'; DEC = 'src/codec/decoder.rs'
SPEC = r'''
// one bit of the reflected Castagnoli polynomial 0x1EDC6F41
pub open spec fn bit1(c: u32) -> u32 { if c & 1 == 1 { (c >> 1) ^ 0x82F63B78 } else { c >> 1 } }
pub open spec fn sh8(c: u32) -> u32 { bit1(bit1(bit1(bit1(bit1(bit1(bit1(bit1(c)))))))) }
pub open spec fn sh(c: u32, n: nat) -> u32 decreases n { if n == 0 { c } else { sh8(sh(c, (n - 1) as nat)) } }
// the register after the bytes of s (bitwise definition)
pub open spec fn reg(c: u32, s: Seq<u8>) -> u32 decreases s.len() { if s.len() == 0 { c } else { reg(sh8(c ^ (s[0] as u32)), s.subrange(1, s.len() as int)) } }
// CRC-32C continued from a previous checksum value; crc32c(0, s) is the standard checksum of s
pub open spec fn crc32c(c: u32, s: Seq<u8>) -> u32 { !reg(!c, s) }

proof fn sh8_xor(x: u32, y: u32) ensures sh8(x ^ y) == sh8(x) ^ sh8(y) {
  b1_xor(x, y);
  let x1 = bit1(x); let y1 = bit1(y); b1_xor(x1, y1);
  let x2 = bit1(x1); let y2 = bit1(y1); b1_xor(x2, y2);
  let x3 = bit1(x2); let y3 = bit1(y2); b1_xor(x3, y3);
  let x4 = bit1(x3); let y4 = bit1(y3); b1_xor(x4, y4);
  let x5 = bit1(x4); let y5 = bit1(y4); b1_xor(x5, y5);
  let x6 = bit1(x5); let y6 = bit1(y5); b1_xor(x6, y6);
  let x7 = bit1(x6); let y7 = bit1(y6); b1_xor(x7, y7);
}
proof fn b1_xor(x: u32, y: u32) ensures bit1(x ^ y) == bit1(x) ^ bit1(y) {
  assert((if (x ^ y) & 1 == 1 { ((x ^ y) >> 1) ^ 0x82F63B78u32 } else { (x ^ y) >> 1 })
     == (if x & 1 == 1 { (x >> 1) ^ 0x82F63B78u32 } else { x >> 1 }) ^ (if y & 1 == 1 { (y >> 1) ^ 0x82F63B78u32 } else { y >> 1 })) by(bit_vector);
}
proof fn b1_even(x: u32) requires x & 1 == 0 ensures bit1(x) == x >> 1 { }
// a register whose low byte is zero just shifts
proof fn sh8_hi(y: u32) requires y & 0xff == 0 ensures sh8(y) == y >> 8 {
  assert(y & 0xff == 0 ==> y & 1 == 0 && (y >> 1) & 1 == 0 && (y >> 1 >> 1) & 1 == 0 && (y >> 1 >> 1 >> 1) & 1 == 0
     && (y >> 1 >> 1 >> 1 >> 1) & 1 == 0 && (y >> 1 >> 1 >> 1 >> 1 >> 1) & 1 == 0 && (y >> 1 >> 1 >> 1 >> 1 >> 1 >> 1) & 1 == 0
     && (y >> 1 >> 1 >> 1 >> 1 >> 1 >> 1 >> 1) & 1 == 0 && (y >> 1 >> 1 >> 1 >> 1 >> 1 >> 1 >> 1 >> 1) == y >> 8) by(bit_vector);
  b1_even(y); b1_even(y >> 1); b1_even(y >> 1 >> 1); b1_even(y >> 1 >> 1 >> 1); b1_even(y >> 1 >> 1 >> 1 >> 1);
  b1_even(y >> 1 >> 1 >> 1 >> 1 >> 1); b1_even(y >> 1 >> 1 >> 1 >> 1 >> 1 >> 1); b1_even(y >> 1 >> 1 >> 1 >> 1 >> 1 >> 1 >> 1);
}
proof fn sh8_byte(c: u32) ensures sh8(c) == sh8(c & 0xff) ^ (c >> 8) {
  let y = c & 0xffff_ff00u32;
  assert((c & 0xff) ^ (c & 0xffff_ff00u32) == c && (c & 0xffff_ff00u32) & 0xff == 0 && (c & 0xffff_ff00u32) >> 8 == c >> 8) by(bit_vector);
  sh8_xor(c & 0xff, y); sh8_hi(y);
}
proof fn sh_xor(x: u32, y: u32, n: nat) ensures sh(x ^ y, n) == sh(x, n) ^ sh(y, n) decreases n {
  if n > 0 { sh_xor(x, y, (n - 1) as nat); sh8_xor(sh(x, (n - 1) as nat), sh(y, (n - 1) as nat)); }
}
proof fn sh_inner(x: u32, n: nat) ensures sh(sh8(x), n) == sh(x, n + 1) decreases n { if n > 0 { sh_inner(x, (n - 1) as nat); } else { assert(sh(x, 0) == x); assert(sh(x, 1) == sh8(sh(x, 0))); } }
proof fn xor_assoc(a: u32, b: u32, c: u32) ensures (a ^ b) ^ c == a ^ (b ^ c), a ^ b == b ^ a { assert((a ^ b) ^ c == a ^ (b ^ c) && a ^ b == b ^ a) by(bit_vector); }
// appending one byte
proof fn reg_push(c: u32, s: Seq<u8>) requires s.len() > 0 ensures reg(c, s) == sh8(reg(c, s.drop_last()) ^ (s.last() as u32)) decreases s.len() {
  let t = s.subrange(1, s.len() as int);
  if s.len() == 1 {
    assert(s.drop_last().len() == 0); assert(t.len() == 0);
    assert(reg(sh8(c ^ (s[0] as u32)), t) == sh8(c ^ (s[0] as u32)));
    assert(reg(c, s.drop_last()) == c);
  } else {
    let c2 = sh8(c ^ (s[0] as u32));
    reg_push(c2, t);
    assert(s.drop_last().subrange(1, s.len() - 1) =~= t.drop_last());
    assert(s.drop_last()[0] == s[0]);
    assert(t.last() == s.last());
  }
}
proof fn reg_cat(c: u32, a: Seq<u8>, b: Seq<u8>) ensures reg(reg(c, a), b) == reg(c, a + b) decreases a.len() {
  if a.len() == 0 { assert(a + b =~= b); }
  else {
    let t = a.subrange(1, a.len() as int);
    reg_cat(sh8(c ^ (a[0] as u32)), t, b);
    assert((a + b).subrange(1, (a + b).len() as int) =~= t + b);
    assert((a + b)[0] == a[0]);
  }
}
// THEOREM: feeding the pieces one after another is feeding the whole
proof fn split_invariance(c: u32, a: Seq<u8>, b: Seq<u8>) ensures crc32c(crc32c(c, a), b) == crc32c(c, a + b) {
  let r = reg(!c, a);
  assert(!(!r) == r) by(bit_vector);
  reg_cat(!c, a, b);
}
// the register after s is linear:  reg(c, s) == sh(c, |s|) ^ reg(0, s)  and  reg(0, s) == XOR_i sh(s[i], |s|-i)
pub open spec fn contrib(s: Seq<u8>, i: int) -> u32 decreases i { if i <= 0 { 0 } else { contrib(s, i - 1) ^ sh(s[i - 1] as u32, (s.len() - (i - 1)) as nat) } }
proof fn sh_zero(n: nat) ensures sh(0, n) == 0 decreases n { if n > 0 { sh_zero((n - 1) as nat); assert(0u32 & 0xff == 0 && 0u32 >> 8 == 0) by(bit_vector); sh8_hi(0); } }
proof fn contrib_step(s: Seq<u8>, t: Seq<u8>, i: int) requires s.len() > 0, t == s.drop_last(), 0 <= i <= t.len()
   ensures contrib(s, i) == sh8(contrib(t, i)) decreases i {
  if i > 0 {
    contrib_step(s, t, i - 1);
    let n = (t.len() - (i - 1)) as nat;
    assert(s[i - 1] == t[i - 1]);
    assert(sh(s[i - 1] as u32, n + 1) == sh8(sh(s[i - 1] as u32, n)));
    sh8_xor(contrib(t, i - 1), sh(t[i - 1] as u32, n));
  } else { sh_zero(1); assert(sh(0, 0) == 0); }
}
proof fn reg_linear(c: u32, s: Seq<u8>) ensures reg(c, s) == sh(c, s.len()) ^ contrib(s, s.len() as int) decreases s.len() {
  if s.len() == 0 { assert(c ^ 0 == c) by(bit_vector); }
  else {
    let t = s.drop_last();
    reg_push(c, s); reg_linear(c, t);
    let m = contrib(t, t.len() as int); let b = s.last() as u32; let k = sh(c, t.len());
    contrib_step(s, t, t.len() as int);
    sh8_xor(k ^ m, b); sh8_xor(k, m);
    assert(sh(b, 1) == sh8(b)) by { assert(sh(b, 0) == b); }
    assert(sh(c, s.len()) == sh8(k));
    xor_assoc(sh8(k), sh8(m), sh8(b));
  }
}
// the table driven 16-byte step
proof fn block16(c: u32, s: Seq<u8>, w: u32)
  requires s.len() == 16, w == c ^ ((s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24))
  ensures reg(c, s) == sh(s[15] as u32, 1) ^ sh(s[14] as u32, 2) ^ sh(s[13] as u32, 3) ^ sh(s[12] as u32, 4) ^ sh(s[11] as u32, 5)
     ^ sh(s[10] as u32, 6) ^ sh(s[9] as u32, 7) ^ sh(s[8] as u32, 8) ^ sh(s[7] as u32, 9) ^ sh(s[6] as u32, 10) ^ sh(s[5] as u32, 11) ^ sh(s[4] as u32, 12)
     ^ sh(((w >> 24) as u8) as u32, 13) ^ sh(((w >> 16) as u8) as u32, 14) ^ sh(((w >> 8) as u8) as u32, 15) ^ sh((w as u8) as u32, 16)
{
  reg_linear(c, s);
  reveal_with_fuel(contrib, 17);
  let b0 = s[0]; let b1 = s[1]; let b2 = s[2]; let b3 = s[3];
  let c0 = c & 0xff; let c1 = (c >> 8) & 0xff; let c2 = (c >> 16) & 0xff; let c3 = (c >> 24) & 0xff;
  assert(c == ((c & 0xff) ^ (((c >> 8) & 0xff) << 8)) ^ ((((c >> 16) & 0xff) << 16) ^ (((c >> 24) & 0xff) << 24))) by(bit_vector);
  assert((c >> 8) & 0xff < 256 && (c >> 16) & 0xff < 256 && (c >> 24) & 0xff < 256) by(bit_vector);
  byte_shift(c1, 1, 15); byte_shift(c2, 2, 14); byte_shift(c3, 3, 13);
  sh_xor(c0 ^ (c1 << 8), (c2 << 16) ^ (c3 << 24), 16); sh_xor(c0, c1 << 8, 16); sh_xor(c2 << 16, c3 << 24, 16);
  lanes(c, b0, b1, b2, b3, w);
  sh_xor(c0, b0 as u32, 16); sh_xor(c1, b1 as u32, 15); sh_xor(c2, b2 as u32, 14); sh_xor(c3, b3 as u32, 13);
  xor20(sh(c0, 16), sh(c1, 15), sh(c2, 14), sh(c3, 13),
    sh(s[0] as u32, 16), sh(s[1] as u32, 15), sh(s[2] as u32, 14), sh(s[3] as u32, 13), sh(s[4] as u32, 12), sh(s[5] as u32, 11), sh(s[6] as u32, 10),
    sh(s[7] as u32, 9), sh(s[8] as u32, 8), sh(s[9] as u32, 7), sh(s[10] as u32, 6), sh(s[11] as u32, 5), sh(s[12] as u32, 4), sh(s[13] as u32, 3),
    sh(s[14] as u32, 2), sh(s[15] as u32, 1));
  assert(contrib(s, 0) == 0);
}
proof fn lanes(c: u32, b0: u8, b1: u8, b2: u8, b3: u8, w: u32) requires w == c ^ ((b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24))
  ensures (w as u8) as u32 == (c & 0xff) ^ (b0 as u32), ((w >> 8) as u8) as u32 == ((c >> 8) & 0xff) ^ (b1 as u32),
    ((w >> 16) as u8) as u32 == ((c >> 16) & 0xff) ^ (b2 as u32), ((w >> 24) as u8) as u32 == ((c >> 24) & 0xff) ^ (b3 as u32)
{
  assert(w == c ^ ((b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24)) ==>
    (w as u8) as u32 == (c & 0xff) ^ (b0 as u32) && ((w >> 8) as u8) as u32 == ((c >> 8) & 0xff) ^ (b1 as u32)
    && ((w >> 16) as u8) as u32 == ((c >> 16) & 0xff) ^ (b2 as u32) && ((w >> 24) as u8) as u32 == ((c >> 24) & 0xff) ^ (b3 as u32)) by(bit_vector);
}
// shifting a byte left by 8k costs k steps
proof fn byte_shift(x: u32, k: u32, n: nat) requires x < 256, 1 <= k <= 3
  ensures sh(x << (8 * k) as u32, n + k as nat) == sh(x, n) {
  let y1 = x << 8; let y2 = x << 16; let y3 = x << 24;
  assert(x < 256 ==> (x << 8) & 0xff == 0 && (x << 16) & 0xff == 0 && (x << 24) & 0xff == 0 && (x << 8) >> 8 == x && (x << 16) >> 8 == x << 8 && (x << 24) >> 8 == x << 16) by(bit_vector);
  sh8_hi(y1); sh8_hi(y2); sh8_hi(y3);
  sh_inner(y1, n); sh_inner(y2, n + 1); sh_inner(y3, n + 2);
}
proof fn xor20(a0: u32, a1: u32, a2: u32, a3: u32, t0: u32, t1: u32, t2: u32, t3: u32, t4: u32, t5: u32, t6: u32, t7: u32, t8: u32, t9: u32, t10: u32,
  t11: u32, t12: u32, t13: u32, t14: u32, t15: u32)
  ensures ((a0 ^ a1) ^ (a2 ^ a3)) ^ (0u32 ^ t0 ^ t1 ^ t2 ^ t3 ^ t4 ^ t5 ^ t6 ^ t7 ^ t8 ^ t9 ^ t10 ^ t11 ^ t12 ^ t13 ^ t14 ^ t15)
    == t15 ^ t14 ^ t13 ^ t12 ^ t11 ^ t10 ^ t9 ^ t8 ^ t7 ^ t6 ^ t5 ^ t4 ^ (a3 ^ t3) ^ (a2 ^ t2) ^ (a1 ^ t1) ^ (a0 ^ t0)
{
  assert(((a0 ^ a1) ^ (a2 ^ a3)) ^ (0u32 ^ t0 ^ t1 ^ t2 ^ t3 ^ t4 ^ t5 ^ t6 ^ t7 ^ t8 ^ t9 ^ t10 ^ t11 ^ t12 ^ t13 ^ t14 ^ t15)
    == t15 ^ t14 ^ t13 ^ t12 ^ t11 ^ t10 ^ t9 ^ t8 ^ t7 ^ t6 ^ t5 ^ t4 ^ (a3 ^ t3) ^ (a2 ^ t2) ^ (a1 ^ t1) ^ (a0 ^ t0)) by(bit_vector);
}
// the real table: entry [k][b] is the register of byte b after k+1 byte steps. Not assumed unchecked: enumeration r06_table
// compares all 16*256 entries of the real TABLE16 with the bitwise definition in every run.
#[verifier::external_body]
fn table16(k: usize, b: usize) -> (r: u32) requires k < 16, b < 256 ensures r == sh(b as u32, (k + 1) as nat) { unimplemented!() }
proof fn mask8() ensures forall|x: u32| ((#[trigger] (x as u8)) as usize) < 256 {}
proof fn tail_step(c: u32, b: u8)
  ensures sh8(c ^ (b as u32)) == sh((((c as u8) ^ b) as u32), 1) ^ (c >> 8) {
  sh8_byte(c ^ (b as u32));
  assert((c ^ (b as u32)) & 0xff == (((c as u8) ^ b) as u32) && (c ^ (b as u32)) >> 8 == c >> 8) by(bit_vector);
  let x = ((c as u8) ^ b) as u32;
  assert(sh(x, 0) == x); assert(sh(x, 1) == sh8(x));
}
'''
TSUB = [(r'TABLE16\[(\d+)\]\[', r'table16(\1, ['), ]
class FnT(Fn):
    """TABLE16[k][e] -> table16(k, e)"""
    def emit(self, src, log):
        import re
        t = Fn.emit(self, src, log)
        from vextract import match
        while True:
            m = re.search(r'TABLE16\[([^\]]+)\]\[', t)
            if not m: break
            o = m.end() - 1; c = match(t, o)
            t = t[:m.start()] + 'table16(%s, %s)' % (m.group(1), t[o+1:c-1]) + t[c:]
        log.append('%s: TABLE16[k][e] -> table16(k, e) (contract of the table, enumerated in every run)' % self.name)
        return t
R06 = [SPEC,
  Fn(CRC, 'crc32c_init', spec='ensures r == 0'),
  FnT(CRC, 'fallback_crc32c_update', spec='ensures r == crc32c($1, $2@)',
     subs=[(r'&\s*(\w+)\.split_at\(', r'\1.split_at('), (r'for\s+&(\w+)\s+in\s+(\w+)\s*\{', r'proof { assert(\2@.subrange(0, \2@.len() as int) =~= \2@); } for ii in 0..\2.len() { let \1 = \2[ii];')],
     loops=[('''invariant reg(!$1_0, $2_0@) == reg($1, $2@), decreases $2@.len(),''',
             '''let ghost c_in = $1; let ghost b_in = $2@;
             proof { let s = b_in.subrange(0, 16); let t = b_in.subrange(16, b_in.len() as int); assert(b_in.subrange(0, b_in.len() as int) =~= b_in);
               block16(c_in, s, c_in ^ ((s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24)));
               assert(s + t =~= b_in); reg_cat(c_in, s, t); mask8(); }'''),
            ('''invariant reg(!$1_0, $2_0@) == reg($1, $2@.subrange($i as int, $2@.len() as int)), $i <= $2@.len(),''',
             '''let ghost c_in = $1; let ghost b_in = $2@;
             proof { let s = b_in.subrange($i as int, b_in.len() as int); tail_step(c_in, b_in[$i as int]); assert(s.subrange(1, s.len() as int) =~= b_in.subrange($i + 1, b_in.len() as int)); }''')]),
  Fn(CRC, 'crc32c_update', spec='ensures r == crc32c($1, $2@)'),
  '#[derive(Clone, Copy)] pub struct SubDigest(pub u32);',
  Fn(DEC, 'default_crc', spec='ensures r.0 == 0'),
  'impl SubDigest {',
  Fn(DEC, 'write', impl='Hasher for SubDigest', spec='ensures final(self).0 == crc32c(old(self).0, $1@)'),
  Fn(DEC, 'finish', impl='Hasher for SubDigest', spec='ensures r == self.0 as u64'),
  '}',
]
