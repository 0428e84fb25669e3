import re, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from vextract import Fn, Lost, match, norm

def Const(file, name, ty=None):
    """copies `const NAME: T = EXPR;` verbatim from the source"""
    def f(src):
        t = src.get(file)
        m = re.search(r'\bconst\s+%s\s*:\s*([^=]+)=\s*([^;]+);' % re.escape(name), t)
        if not m: raise Lost('const %s in %s' % (name, file))
        return 'pub const %s: %s = %s;' % (name, ty or m.group(1).strip(), m.group(2).strip())
    return f

class ConstEval:
    """evaluates `const NAME: T = EXPR;` from the source text (integer literals, named constants of the same or the listed files, + - * << >> and
    parentheses, casts between unsigned types that do not truncate) and emits the value"""
    def __init__(self, file, name, ty, also=()):
        self.file, self.name, self.ty, self.files = file, name, ty, (file,) + tuple(also)
    def rhs(self, src, name):
        for f in self.files:
            m = re.search(r'\bconst\s+%s\s*:\s*([^=]+)=\s*([^;]+);' % re.escape(name), src.get(f))
            if m: return m.group(2)
        raise Lost('const %s in %s' % (name, self.file))
    def value(self, src, name, depth=0):
        if depth > 8: raise Lost('const %s: too deep' % name)
        out = []
        for t in re.findall(r'0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|size))?|\d[\d_]*(?:[iu](?:8|16|32|64|size))?|[A-Za-z_]\w*|<<|>>|[-+*()]|\S', self.rhs(src, name)):
            if re.match(r'\d', t):
                t = re.sub(r'(?<=[0-9a-fA-F_])[iu](8|16|32|64|size)$', '', t).replace('_', ''); out.append(str(int(t, 0)))
            elif re.match(r'(as|u8|u16|u32|u64|usize|i32|i64)$', t): continue
            elif re.match(r'[A-Za-z_]', t): out.append(str(self.value(src, t, depth + 1)))
            elif t in ('<<', '>>', '+', '-', '*', '(', ')'): out.append(t)
            else: raise Lost('const %s: %s' % (name, t))
        v = eval(' '.join(out), {'__builtins__': {}})
        if not 0 <= v < 1 << 64: raise Lost('const %s out of range' % name)
        return v
    def __call__(self, src): return 'pub const %s: %s = %d;' % (self.name, self.ty, self.value(src, self.name))

NUM = 'src/probability/numeric.rs'

SHIFTS = r'''
proof fn shr_i32(x: i32, s: u8) requires 0 <= x, s < 16
   ensures (x >> s) as int == x as int / pow2s(s as int), pow2s(s as int) > 0 {
   assert(x >= 0 ==> (x >> 0u8) == x) by(bit_vector);
   assert(x >= 0 ==> (x >> 1u8) == x / 2) by(bit_vector);
   assert(x >= 0 ==> (x >> 2u8) == x / 4) by(bit_vector);
   assert(x >= 0 ==> (x >> 3u8) == x / 8) by(bit_vector);
   assert(x >= 0 ==> (x >> 4u8) == x / 16) by(bit_vector);
   assert(x >= 0 ==> (x >> 5u8) == x / 32) by(bit_vector);
   assert(x >= 0 ==> (x >> 6u8) == x / 64) by(bit_vector);
   assert(x >= 0 ==> (x >> 7u8) == x / 128) by(bit_vector);
   assert(x >= 0 ==> (x >> 8u8) == x / 256) by(bit_vector);
   assert(x >= 0 ==> (x >> 9u8) == x / 512) by(bit_vector);
   assert(x >= 0 ==> (x >> 10u8) == x / 1024) by(bit_vector);
   assert(x >= 0 ==> (x >> 11u8) == x / 2048) by(bit_vector);
   assert(x >= 0 ==> (x >> 12u8) == x / 4096) by(bit_vector);
   assert(x >= 0 ==> (x >> 13u8) == x / 8192) by(bit_vector);
   assert(x >= 0 ==> (x >> 14u8) == x / 16384) by(bit_vector);
   assert(x >= 0 ==> (x >> 15u8) == x / 32768) by(bit_vector);
   reveal(pow2s);
}
#[verifier::opaque]
pub open spec fn pow2s(s: int) -> int {
   if s == 0 {1} else if s == 1 {2} else if s == 2 {4} else if s == 3 {8} else if s == 4 {16} else if s == 5 {32}
   else if s == 6 {64} else if s == 7 {128} else if s == 8 {256} else if s == 9 {512} else if s == 10 {1024}
   else if s == 11 {2048} else if s == 12 {4096} else if s == 13 {8192} else if s == 14 {16384} else if s == 15 {32768} else {65536}
}
proof fn shr31(x: i64) requires x >= 0 ensures (x >> 31u32) == x / 0x8000_0000 {
   assert(x >= 0 ==> (x >> 31u32) == x / 0x8000_0000) by(bit_vector);
}
'''
NUM_LEMMAS = r'''
// (m, s) is a usable reciprocal of d: with M = 2^31 + m and K = 32 + s,  2^K < M*d <= 2^K + 2^(s+1)
pub open spec fn recip_ok(m: int, s: int, d: int) -> bool {
   0 <= s < 15 && 0 < d && 0 < m <= 0x8000_0001 &&
   0x1_0000_0000 * pow2s(s) < (0x8000_0000 + m) * d <= 0x1_0000_0000 * pow2s(s) + 2 * pow2s(s)
}
proof fn pow2s_facts(s: int) requires 0 <= s < 16 ensures pow2s(s) > 0, pow2s(s+1) == 2 * pow2s(s), pow2s(s) <= 32768 { reveal(pow2s); }
proof fn exact_div(mm: int, k: int, d: int, n: int, slack: int, lim: int)
   requires d > 0, k > 0, k < mm * d <= k + slack, slack * lim <= k, 0 <= n < lim, slack >= 0
   ensures (mm * n) / k == n / d
{
   let q = n / d; let r = n % d;
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
   vstd::arithmetic::div_mod::lemma_mod_bound(n, d);
   assert(n == d * q + r);
   let e = mm * d - k;
   assert(0 < e <= slack);
   assert(e * n <= slack * n) by(nonlinear_arith) requires e <= slack, n >= 0;
   assert(slack * n <= slack * (lim - 1)) by(nonlinear_arith) requires n <= lim - 1, slack >= 0;
   assert(slack * (lim - 1) == slack * lim - slack) by(nonlinear_arith);
   assert(e * n < k);
   assert(e * n >= 0) by(nonlinear_arith) requires e > 0, n >= 0;
   assert((mm * n) * d == (mm * d) * n) by(nonlinear_arith);
   assert((mm * d) * n == k * n + e * n) by(nonlinear_arith) requires e == mm * d - k;
   assert(k * n == (k * q) * d + k * r) by(nonlinear_arith) requires n == d * q + r;
   assert(k * r <= k * (d - 1)) by(nonlinear_arith) requires r <= d - 1, k > 0;
   assert(k * (d - 1) == k * d - k) by(nonlinear_arith);
   assert(k * r >= 0) by(nonlinear_arith) requires r >= 0, k > 0;
   // (k q) d <= (mm n) d < (k q + k) d
   assert((k * q) * d <= (mm * n) * d);
   assert((k * q + k) * d == (k * q) * d + k * d) by(nonlinear_arith);
   assert((mm * n) * d < (k * q + k) * d);
   assert(k * q <= mm * n) by(nonlinear_arith) requires (k * q) * d <= (mm * n) * d, d > 0;
   assert(mm * n < k * q + k) by(nonlinear_arith) requires (mm * n) * d < (k * q + k) * d, d > 0;
   let rem = mm * n - k * q;
   assert(mm * n == q * k + rem) by(nonlinear_arith) requires rem == mm * n - k * q;
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(mm * n, k, q, rem);
}
// floor(floor((n + t)/2) / 2^s) with t = floor(m n / 2^31)  ==  floor((2^31 + m) n / 2^(32+s))
proof fn shift_form(m: int, n: int, s: int)
   requires 0 <= s < 15, m >= 0, n >= 0
   ensures ((n + (m * n) / 0x8000_0000) / 2) / pow2s(s) == ((0x8000_0000 + m) * n) / (0x1_0000_0000 * pow2s(s))
{
   pow2s_facts(s);
   let x = (0x8000_0000 + m) * n;
   assert(x == 0x8000_0000 * n + m * n) by(nonlinear_arith) requires x == (0x8000_0000 + m) * n;
   assert(x / 0x8000_0000 == n + (m * n) / 0x8000_0000);
   assert(x >= 0) by(nonlinear_arith) requires x == (0x8000_0000 + m) * n, m >= 0, n >= 0;
   assert((x / 0x8000_0000) / 2 == x / 0x1_0000_0000);
   vstd::arithmetic::div_mod::lemma_div_denominator(x, 0x1_0000_0000, pow2s(s));
}
proof fn mul_bounds(m: int, n: int) requires 0 <= m <= 0x8000_0001, 0 <= n <= 0x7fff_ffff
   ensures 0 <= m * n <= 0x8000_0001 * 0x7fff_ffff, (m * n) / 0x8000_0000 <= 0x7fff_ffff
{
   assert(0 <= m * n) by(nonlinear_arith) requires m >= 0, n >= 0;
   assert(m * n <= 0x8000_0001 * n) by(nonlinear_arith) requires m <= 0x8000_0001, n >= 0;
}
'''
FAST_DIV = Fn(NUM, 'fast_divide_30bit_by_16bit',
    spec='''requires 0 <= $1, 0 <= $2.1 < 15, 0 <= $2.0 <= 0x8000_0001, ($2.0 * $1) / 0x8000_0000 <= $1 + 1
    ensures exists|d: int| #[trigger] recip_ok($2.0 as int, $2.1 as int, d) ==> true,
      forall|d: int| #[trigger] recip_ok($2.0 as int, $2.1 as int, d) ==> r as int == $1 as int / d''')

R03 = [
    Const(NUM, 'LOG_MAX_NUMERATOR'), Const(NUM, 'SHIFT_16_BY_8'),
    'pub type DenominatorType = i16; pub type Denominator8Type = u8;',
    SHIFTS, NUM_LEMMAS,
    r'''
proof fn shl_facts(b: u8) requires 1 <= b <= 15 ensures (1i64 << b) as int == 2 * pow2s(b - 1), pow2s(b - 1) > 0 {
   assert(1 <= b <= 15 ==> (1i64 << b) == (if b == 1 {2i64} else if b == 2 {4} else if b == 3 {8} else if b == 4 {16} else if b == 5 {32}
     else if b == 6 {64} else if b == 7 {128} else if b == 8 {256} else if b == 9 {512} else if b == 10 {1024} else if b == 11 {2048}
     else if b == 12 {4096} else if b == 13 {8192} else if b == 14 {16384} else {32768i64})) by(bit_vector);
   reveal(pow2s);
}
proof fn shl31(x: i64) requires 0 <= x <= 65536 ensures (x << 31usize) == x * 0x8000_0000 {
   assert(0 <= x <= 65536 ==> (x << 31usize) == x * 0x8000_0000) by(bit_vector);
}
proof fn lz16(d: u16) requires d > 0 ensures
   ({ let l = vstd::std_specs::bits::u16_leading_zeros(d); 0 <= l <= 15 && pow2s(15 - l) <= d < 2 * pow2s(15 - l) }) {
   vstd::std_specs::bits::axiom_u16_leading_zeros(d);
   reveal(pow2s);
   let l = vstd::std_specs::bits::u16_leading_zeros(d) as u16;
   assert(d > 0 && l <= 15 && (d >> sub(15u16, l)) & 1 != 0 && (l == 0 || d >> sub(16u16, l) == 0) ==>
      (l == 0 && 32768 <= d) || (l == 1 && 16384 <= d < 32768) || (l == 2 && 8192 <= d < 16384) || (l == 3 && 4096 <= d < 8192)
      || (l == 4 && 2048 <= d < 4096) || (l == 5 && 1024 <= d < 2048) || (l == 6 && 512 <= d < 1024) || (l == 7 && 256 <= d < 512)
      || (l == 8 && 128 <= d < 256) || (l == 9 && 64 <= d < 128) || (l == 10 && 32 <= d < 64) || (l == 11 && 16 <= d < 32)
      || (l == 12 && 8 <= d < 16) || (l == 13 && 4 <= d < 8) || (l == 14 && 2 <= d < 4) || (l == 15 && d == 1)) by(bit_vector);
}
''',
    Fn(NUM, 'k16bit_length', subs=[(r'(\w+)\.leading_zeros\(\)', r'((\1) as u16).leading_zeros()')],
       spec='requires $1 > 0 ensures 1 <= r <= 15, pow2s(r - 1) <= $1 < 2 * pow2s(r - 1)',
       start='lz16($1 as u16); reveal(pow2s);'),
    Fn(NUM, 'compute_divisor',
       spec='requires $1 > 0 ensures recip_ok(r.0 as int, r.1 as int, $1 as int)',
       start='''
       assert forall|b: u8| 1 <= b <= 15 implies (#[trigger] (1i64 << b)) as int == 2 * pow2s(b - 1) && pow2s(b - 1) > 0 by { shl_facts(b); }
       assert forall|x: i64| 0 <= x <= 65536 implies #[trigger] (x << 31usize) == x * 0x8000_0000 by { shl31(x); }
       assert forall|p: int| (pow2s(p - 1) <= $1 < 2 * #[trigger] pow2s(p - 1) && 1 <= p <= 15) implies
           recip_ok(((2 * pow2s(p - 1) - $1) * 0x8000_0000) / ($1 as int) + 1, p - 1, $1 as int)
           && 0 <= ((2 * pow2s(p - 1) - $1) * 0x8000_0000) / ($1 as int) <= 0x8000_0000 by {
           divisor_ok($1 as int, p - 1);
       }'''),
    r'''
proof fn divisor_ok(d: int, s: int) requires 0 < d < 32768, 0 <= s < 15, pow2s(s) <= d < 2 * pow2s(s)
   ensures recip_ok(((2 * pow2s(s) - d) * 0x8000_0000) / d + 1, s, d), 0 <= ((2 * pow2s(s) - d) * 0x8000_0000) / d <= 0x8000_0000
{
   pow2s_facts(s);
   let a = (2 * pow2s(s) - d) * 0x8000_0000;
   let q = a / d; let r = a % d;
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, d);
   vstd::arithmetic::div_mod::lemma_mod_bound(a, d);
   assert(a <= d * 0x8000_0000);
   assert(q <= 0x8000_0000) by(nonlinear_arith) requires a == d * q + r, 0 <= r < d, a <= d * 0x8000_0000, d > 0;
   assert(q >= 0) by(nonlinear_arith) requires a == d * q + r, 0 <= r < d, a >= 0, d > 0;
   // (2^31 + q + 1) d = 2^31 d + (a - r) + d = 2^32 2^s - r + d
   assert((0x8000_0000 + (q + 1)) * d == 0x8000_0000 * d + d * q + d) by(nonlinear_arith);
}
''',
    Fn(NUM, 'fast_divide_30bit_by_16bit',
       spec='''requires 0 <= $1, exists|d: int| #[trigger] recip_ok($2.0 as int, $2.1 as int, d)
       ensures forall|d: int| #[trigger] recip_ok($2.0 as int, $2.1 as int, d) ==> r as int == $1 as int / d''',
       start='''
       let m = $2.0 as int; let n = $1 as int; let s = $2.1 as int;
       mul_bounds(m, n);
       shift_form(m, n, s);
       assert forall|x: i64| x >= 0 implies #[trigger] (x >> 31u32) == x / 0x8000_0000 by { shr31(x); }
       assert forall|x: i32, k: u8| x >= 0 && k < 16 implies #[trigger] (x >> k) as int == x as int / pow2s(k as int) by { shr_i32(x, k); }
       assert forall|x: i32| x >= 0 implies #[trigger] (x >> 1) == x / 2 by { assert(x >= 0 ==> (x >> 1) == x / 2) by(bit_vector); }
       let t = (m * n) / 0x8000_0000;
       assert(t + (n - t) / 2 == (n + t) / 2);
       assert(t <= n || t == n + 1) by(nonlinear_arith) requires t == (m * n) / 0x8000_0000, 0 <= m <= 0x8000_0001, 0 <= n <= 0x7fff_ffff;
       assert(n - t >= 0) by(nonlinear_arith) requires t == (m * n) / 0x8000_0000, 0 <= m <= 0x8000_0001, 0 <= n <= 0x7fff_ffff;
       assert forall|d: int| #[trigger] recip_ok(m, s, d) implies ((0x8000_0000 + m) * n) / (0x1_0000_0000 * pow2s(s)) == n / d by {
          pow2s_facts(s);
          exact_div(0x8000_0000 + m, 0x1_0000_0000 * pow2s(s), d, n, 2 * pow2s(s), 0x8000_0000);
       }'''),
    r'''
// composition: for every numerator and every denominator the reciprocal computed from the denominator divides exactly
fn reciprocal_division_is_exact(n: i32, d: i16) -> (r: i32) requires n >= 0, d > 0 ensures r as int == n as int / d as int {
   let inv = compute_divisor(d);
   fast_divide_30bit_by_16bit(n, inv)
}
pub open spec fn recip8_ok(m: int, d: int) -> bool { 0 < d && 0 < m <= 0x100_0001 && 0x100_0000 < m * d <= 0x100_0000 + 256 }
proof fn div8_ok(d: int) requires 0 < d < 256 ensures recip8_ok(0x100_0000int / d + 1, d), 0 <= 0x100_0000int / d <= 0x100_0000 {
   let q = 0x100_0000int / d; let r = 0x100_0000int % d;
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(0x100_0000, d);
   vstd::arithmetic::div_mod::lemma_mod_bound(0x100_0000, d);
   assert(q <= 0x100_0000) by(nonlinear_arith) requires 0x100_0000 == d * q + r, 0 <= r, d >= 1;
   assert(q >= 0) by(nonlinear_arith) requires 0x100_0000 == d * q + r, 0 <= r < d, d > 0;
   assert((q + 1) * d == d * q + d) by(nonlinear_arith);
}
''',
    Fn(NUM, 'compute_divisor8', spec='requires $1 > 0 ensures recip8_ok(r as int, $1 as int)',
       subs=[(r'let\s+(\w+)\s*=\s*1\s*;', r'let \1: i32 = 1;'), (r'\(1\s*<<', '(1i32 <<')],
       start='assert((1i32 << 24usize) == 0x100_0000) by(bit_vector); div8_ok($1 as int);'),
    Fn(NUM, 'fast_divide_16bit_by_8bit',
       spec='''requires exists|d: int| #[trigger] recip8_ok($2 as int, d)
       ensures forall|d: int| #[trigger] recip8_ok($2 as int, d) ==> (r as u16) as int == $1 as int / d''',
       start='''
       let m = $2 as int; let n = $1 as int;
       assert(0 <= m * n <= 0x100_0001 * 65535) by(nonlinear_arith) requires 0 <= m <= 0x100_0001, 0 <= n <= 65535;
       assert forall|x: i64| x >= 0 implies #[trigger] (x >> 24usize) == x / 0x100_0000 by { assert(x >= 0 ==> (x >> 24usize) == x / 0x100_0000) by(bit_vector); }
       assert forall|x: i64| 0 <= x <= 65535 implies (#[trigger] (x as i16)) as u16 == x by { assert(0 <= x <= 65535 ==> ((x as i16) as u16) == x) by(bit_vector); }
       assert forall|d: int| #[trigger] recip8_ok(m, d) implies (m * n) / 0x100_0000 == n / d && n / d <= n by { exact_div(m, 0x100_0000, d, n, 256, 65536); assert(n / d <= n) by(nonlinear_arith) requires n >= 0, d > 0; }
       '''),
]
UNITS = {'R03': [('num', R03)]}

# ------------------------------------------------------------------------------------------------ R02
PI = 'src/probability/interface.rs'
FC = 'src/probability/frequentist_cdf.rs'
OC = 'src/probability/opt_frequentist_cdf.rs'

CDF_SPEC = r'''
#[derive(Clone, Copy)]
pub struct ProbRange { pub start: Prob, pub freq: Prob }
pub struct SymStartFreq { pub range: ProbRange, pub sym: u8 }
#[derive(Clone, Copy)]
pub struct Speed(pub i16, pub i16);
pub type Arr = [i16; 16];
// the representation invariant: cumulative counts with every symbol holding at least g counts, total at most m
pub open spec fn wf(c: Arr, g: int, m: int) -> bool {
   c[0] >= g && (forall|i: int| 1 <= i < 16 ==> (#[trigger] c[i]) - c[i - 1] >= g) && c[15] <= m
}
pub open spec fn BOUND() -> int { 24573 }
pub open spec fn MAXINC() -> int { 8175 }
proof fn wf_mono(c: Arr, g: int, m: int, i: int, j: int) requires wf(c, g, m), g >= 0, 0 <= i <= j < 16
   ensures c[j] - c[i] >= g * (j - i), c[i] >= g decreases j - i + 16 * (if i == 0 {0int} else {1}) , i {
   if i < j { wf_mono(c, g, m, i, j - 1); assert(g * (j - i) == g * (j - 1 - i) + g) by(nonlinear_arith); }
   else { assert(g * (j - i) == 0) by(nonlinear_arith) requires i == j;
     if i > 0 { let z = 0int; base_ge(c, g, m, i); } }
}
proof fn base_ge(c: Arr, g: int, m: int, i: int) requires wf(c, g, m), g >= 0, 0 <= i < 16 ensures c[i] >= g decreases i {
   if i > 0 { base_ge(c, g, m, i - 1); }
}
// scaled cumulative value: floor(c[s] * 2^15 / total), 0 below the first symbol
pub open spec fn sc(c: Arr, s: int) -> int { if s < 0 { 0 } else { (c[s] as int * 32768) / (c[15] as int) } }
pub open spec fn start_of(c: Arr, s: int) -> int { sc(c, s - 1) + 1 }
pub open spec fn end_of(c: Arr, s: int) -> int { sc(c, s) }
proof fn sc_gap(a: int, b: int, m: int) requires 0 <= a, a + 2 <= b <= m, 0 < m <= 32767
   ensures 0 <= (a * 32768) / m, (a * 32768) / m + 2 <= (b * 32768) / m <= 32768
{
   let x = (a * 32768) / m; let y = (b * 32768) / m;
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a * 32768, m);
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b * 32768, m);
   vstd::arithmetic::div_mod::lemma_mod_bound(a * 32768, m);
   vstd::arithmetic::div_mod::lemma_mod_bound(b * 32768, m);
   assert(m * x <= a * 32768 < m * x + m);
   assert(m * y <= b * 32768 < m * y + m);
   assert(b * 32768 >= a * 32768 + 2 * 32768);
   assert(m * y + m > m * x + 2 * m);
   assert(y + 1 > x + 2) by(nonlinear_arith) requires m * y + m > m * x + 2 * m, m > 0;
   assert(x >= 0) by(nonlinear_arith) requires m * x + m > a * 32768, a >= 0, m > 0;
   assert(y <= 32768) by(nonlinear_arith) requires m * y <= b * 32768, b <= m, m > 0;
}
proof fn intervals(c: Arr, s: int) requires wf(c, 2, 32767), 0 <= s < 16
   ensures 0 <= sc(c, s - 1), sc(c, s - 1) + 2 <= sc(c, s) <= 32768, sc(c, 15) == 32768, 0 < c[15] <= 32767, 0 < c[s] <= c[15],
      s > 0 ==> 0 < c[s - 1] <= c[15], s < 15 ==> sc(c, s) < 32768,
      0 <= c[s] * 32768 <= 0x3fff_ffff, s > 0 ==> 0 <= c[s - 1] * 32768 <= 0x3fff_ffff,
      s > 0 ==> sc(c, s - 1) <= 32767 && sc(c, s - 1) >= 1
{
   base_ge(c, 2, 32767, s); base_ge(c, 2, 32767, 15);
   wf_mono(c, 2, 32767, s, 15);
   assert(2 * (15 - s) >= 0);
   sc_gap(if s == 0 {0} else { c[s - 1] as int }, c[s] as int, c[15] as int);
   if s > 0 { base_ge(c, 2, 32767, s - 1); wf_mono(c, 2, 32767, s - 1, 15); sc_gap(0, c[s - 1] as int, c[15] as int);
     assert(0int * 32768 / (c[15] as int) == 0) by(nonlinear_arith) requires c[15] > 0; }
   assert((c[15] as int * 32768) / (c[15] as int) == 32768) by(nonlinear_arith) requires c[15] > 0;
   assert(0int * 32768 / (c[15] as int) == 0) by(nonlinear_arith) requires c[15] > 0;
   if s < 15 { base_ge(c, 2, 32767, s + 1); wf_mono(c, 2, 32767, s + 1, 15); sc_gap(c[s] as int, c[s + 1] as int, c[15] as int); }
}
// p lies in symbol s's interval: the rescaled offset floor(p*total/2^15) selects exactly s
proof fn lookup(c: Arr, s: int, p: int) requires wf(c, 2, 32767), 0 <= s < 16, start_of(c, s) <= p < end_of(c, s), 0 <= p < 32768
   ensures (p * c[15]) / 32768 < c[s], s > 0 ==> c[s - 1] <= (p * c[15]) / 32768, 0 <= (p * c[15]) / 32768 <= 32767
{
   intervals(c, s);
   let m = c[15] as int;
   let y = sc(c, s);
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c[s] as int * 32768, m);
   vstd::arithmetic::div_mod::lemma_mod_bound(c[s] as int * 32768, m);
   assert((p + 1) * m <= m * y) by(nonlinear_arith) requires p + 1 <= y, m > 0;
   assert((p + 1) * m == p * m + m) by(nonlinear_arith);
   assert(p * m + m <= c[s] as int * 32768);
   assert(p * m >= 0) by(nonlinear_arith) requires p >= 0, m > 0;
   if s > 0 {
      let x = sc(c, s - 1);
      vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c[s - 1] as int * 32768, m);
      vstd::arithmetic::div_mod::lemma_mod_bound(c[s - 1] as int * 32768, m);
      assert(p * m >= m * (x + 1)) by(nonlinear_arith) requires p >= x + 1, m > 0;
      assert(m * (x + 1) == m * x + m) by(nonlinear_arith);
      assert(p * m >= c[s - 1] as int * 32768);
   }
}
proof fn below(c: Arr, i: int, j: int) requires wf(c, 2, 32767), 0 <= i <= j < 16 ensures c[i] <= c[j] { wf_mono(c, 2, 32767, i, j); assert(2 * (j - i) >= 0); }
proof fn shl15(x: i32) requires 0 <= x <= 32767 ensures (x << 15u32) == x * 32768 {
   assert(0 <= x <= 32767 ==> (x << 15u32) == x * 32768) by(bit_vector);
}
proof fn shr15(x: i32) requires 0 <= x ensures (x >> 15u32) == x / 32768 {
   assert(0 <= x ==> (x >> 15u32) == x / 32768) by(bit_vector);
}
proof fn mask15(s: u8) requires s < 16 ensures (s as usize & 0xf) == s { assert(s < 16 ==> (s as usize & 0xf) == s) by(bit_vector); }
pub open spec fn good_range(c: Arr, s: int, r: ProbRange) -> bool {
   r.start == start_of(c, s) && r.start + r.freq == end_of(c, s) && r.freq >= 1 && 1 <= r.start && r.start + r.freq <= 32768
}
'''
STARTFREQ_START = '''
    intervals(%(c)s, $1 as int); mask15($1);
    shl15(%(c)s[$1 as int] as i32);
    if $1 > 0 { shl15(%(c)s[$1 as int - 1] as i32); }
'''
LOOKUP_START = '''
    base_ge(%(c)s, 2, 32767, 15);
    let m = %(c)s[15] as int;
    assert(0 <= $1 * m <= 32767 * 32767) by(nonlinear_arith) requires 0 <= $1 <= 32767, 0 <= m <= 32767;
    shr15(($1 * m) as i32);
    assert(($1 * m) / 32768 < m) by(nonlinear_arith) requires 0 <= $1 <= 32767, 0 < m;
    assert(0 <= ($1 * m) / 32768) by(nonlinear_arith) requires 0 <= $1, 0 < m;
    assert forall|s: int| 0 <= s < 16 && #[trigger] start_of(%(c)s, s) <= $1 < end_of(%(c)s, s) implies
        ($1 * m) / 32768 < %(c)s[s] && (s > 0 ==> %(c)s[s - 1] <= ($1 * m) / 32768) by { lookup(%(c)s, s, $1 as int); }
    assert forall|i: int, j: int| 0 <= i <= j < 16 implies %(c)s[i] <= %(c)s[j] by { below(%(c)s, i, j); }
'''
def BASE(c, pre='', wfx='true'):
    """the trait's default methods, instantiated at one implementing type; c = its cumulative array"""
    k = {'c': c}
    P = 'wf(%(c)s, 2, 32767), %(w)s' % {'c': c, 'w': wfx}
    return [
    Fn(PI, 'sym_to_start_and_freq', impl=r'trait BaseCDF',
       spec='requires %s, $1 < 16 ensures r.sym == $1, good_range(%s, $1 as int, r.range)' % (P, c),
       start=STARTFREQ_START % k),
    Fn(PI, 'sym_to_start_and_freq_with_div_hint', impl=r'trait BaseCDF',
       spec='requires %s, $1 < 16 ensures r.sym == $1, good_range(%s, $1 as int, r.range)' % (P, c)),
    Fn(PI, 'cdf_offset_to_sym_start_and_freq', impl=r'trait BaseCDF',
       spec='''requires %s, 0 <= $1 ensures r.sym < 16, good_range(%s, r.sym as int, r.range),
         forall|s: int| 0 <= s < 16 && #[trigger] start_of(%s, s) <= $1 < end_of(%s, s) ==> r.sym == s''' % (P, c, c, c),
       start=LOOKUP_START % k),
    ]

BLEND_SUBS = [(r'const\s+CDF_BIAS\s*:\s*\[Prob;\s*16\]\s*=', 'let CDF_BIAS: [Prob; 16] =')]
AVG_DESUGAR = [
    # `for (s, o) in A.iter_mut().zip(B.iter()) {` over 16-element arrays -> indexed loop; *s / *o -> A[ii] / B[ii]
    (r'for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s*([\w.]+)\.iter_mut\(\)\.zip\(([\w.]+)\.iter\(\)\)\s*\{', r'for ii in 0..16usize { /*ZIP \1 \2 \3 \4*/'),
]
def desugar_zip(text):
    m = re.search(r'/\*ZIP (\w+) (\w+) (\S+) (\S+)\*/', text)
    if not m: raise Lost('average: loop shape changed')
    s, o, A, B = m.groups()
    text = text.replace(m.group(0), '')
    text = re.sub(r'\*%s\b' % s, '%s[ii]' % A, text)
    text = re.sub(r'\*%s\b' % o, '%s[ii]' % B, text)
    return text
class FnZ(Fn):
    def emit(self, src, log):
        t = Fn.emit(self, src, log)
        log.append('%s: iter_mut().zip(iter()) loop written as an indexed loop' % self.name)
        return desugar_zip(t)

R02 = [
    Const(PI, 'CDF_BITS'), Const(PI, 'LOG2_SCALE'), Const(PI, 'BLEND_FIXED_POINT_PRECISION'),
    'fn lookup_divisor(_m: i16) { }',
    CDF_SPEC,
    'impl Speed {',
    Fn(PI, 'lim', impl='^impl Speed', spec='requires self.1 <= 0x4000 ensures r == self.1'),
    Fn(PI, 'inc', impl='^impl Speed', spec='ensures r == self.0'),
    '}',
    '#[derive(Clone, Copy)] pub struct FrequentistCDF16 { pub cdf: [Prob; 16] }\nimpl FrequentistCDF16 {',
    Fn(FC, 'default', impl='^impl Default for FrequentistCDF16', spec='ensures wf(r.cdf, 3, BOUND())'),
    Fn(FC, 'max', impl='^impl BaseCDF for', spec='ensures r == self.cdf[15]'),
    Fn(FC, 'div_by_max', impl='^impl BaseCDF for', spec='requires $1 >= 0, self.cdf[15] > 0 ensures r as int == $1 as int / self.cdf[15] as int'),
    Fn(FC, 'cdf', impl='^impl BaseCDF for', spec='requires $1 < 16 ensures r == self.cdf[$1 as int]', start='mask15($1);'),
  ] + BASE('self.cdf') + [
    Fn(FC, 'blend', impl='^impl CDF16 for', subs=BLEND_SUBS,
       spec='''requires wf(old(self).cdf, 3, BOUND()), $1 < 16, 0 <= $2.0 <= MAXINC(), $2.1 <= 0x4000
       ensures wf(final(self).cdf, 3, BOUND())''',
       start='''
       assert forall|x: i16| x >= 0 implies (#[trigger] (x >> 2)) == x / 4 by { assert(x >= 0 ==> (x >> 2) == x / 4) by(bit_vector); }
       let ghost c0 = self.cdf;
       assert forall|i: int| 0 <= i < 16 implies 3 <= #[trigger] c0[i] <= BOUND() by { wf_mono(c0, 3, BOUND(), i, 15); assert(3 * (15 - i) >= 0); }
       '''.replace('let ghost', 'let'),
       loops=['''invariant wf(old(self).cdf, 3, BOUND()), $1 < 16, 0 <= $2.0 <= MAXINC(), $2.1 <= 0x4000, increment == $2.0,
          forall|x: i16| x >= 0 ==> (#[trigger] (x >> 2)) == x / 4,
          forall|i: int| 0 <= i < 16 ==> 3 <= #[trigger] old(self).cdf[i] <= BOUND(),
          forall|j: int| 0 <= j < 16 ==> #[trigger] self.cdf[j] == old(self).cdf[j] + (if $1 <= j < $i { $2.0 as int } else { 0 }),''',
              '''invariant
          wf(old(self).cdf, 3, BOUND()), $1 < 16, 0 <= $2.0 <= MAXINC(),
          forall|x: i16| x >= 0 ==> (#[trigger] (x >> 2)) == x / 4,
          forall|j: int| 0 <= j < 16 ==> 3 <= #[trigger] old(self).cdf[j] <= BOUND(),
          forall|j: int| 0 <= j < 16 ==> #[trigger] CDF_BIAS[j] == j + 1,
          forall|j: int| 0 <= j < 16 ==> #[trigger] self.cdf[j] ==
             ({ let y = old(self).cdf[j] + (if $1 <= j { $2.0 as int } else { 0 });
                if j < $i { (y + j + 1) - (y + j + 1) / 4 } else { y } }),''']),
    r'''
fn copy_of(&self) -> (r: Self) ensures r == *self { *self }''',
    FnZ(FC, 'average', impl='^impl CDF16 for',
       subs=AVG_DESUGAR + [(r'core::cmp::min\(\s*(\w+)\.leading_zeros\(\)\s*,\s*17\s*\)', r'minlz(\1)'),
                           (r'\(1\s*<<\s*BLEND_FIXED_POINT_PRECISION\)', '(1i32 << BLEND_FIXED_POINT_PRECISION)')],
       spec='''requires wf(self.cdf, 3, BOUND()), wf($1.cdf, 3, BOUND()), 0 <= $2 <= 32768
       ensures wf(r.cdf, 2, 32767)''',
       start='''
       assert((1i32 << 15i8) == 32768) by(bit_vector);
       base_ge(self.cdf, 3, BOUND(), 15); base_ge($1.cdf, 3, BOUND(), 15);
       assert(9 <= self.cdf[15] * $1.cdf[15] <= 24573 * 24573) by(nonlinear_arith) requires 3 <= self.cdf[15] <= 24573, 3 <= $1.cdf[15] <= 24573;
       assert forall|x: i32, k: u32| x >= 0 && k <= 16 implies (#[trigger] (x >> k)) as int == x as int / p2(k as int) by { shr_p2(x, k); }
       assert forall|x: i32| x >= 0 implies (#[trigger] (x >> 15i8)) == x / 32768 by { assert(x >= 0 ==> (x >> 15i8) == x / 32768) by(bit_vector); }
       ''',
       loops=['''invariant wf(self.cdf, 3, BOUND()), wf($1.cdf, 3, BOUND()), 0 <= $2 <= 32768,
         ourmax == self.cdf[15], othermax == $1.cdf[15], ourmax >= 3, othermax >= 3,
         desired_shift <= 16, shift_ok(ourmax as int * othermax as int, desired_shift as int), inv_mix_rate == 32768 - $2,
         forall|x: i32, k: u32| x >= 0 && k <= 16 ==> (#[trigger] (x >> k)) as int == x as int / p2(k as int),
         forall|x: i32| x >= 0 ==> (#[trigger] (x >> 15i8)) == x / 32768,
         forall|j: int| ii <= j < 16 ==> retval.cdf[j] == self.cdf[j],
         forall|j: int| 0 <= j < ii ==> retval.cdf[j] == mixed(self.cdf[j] as int, $1.cdf[j] as int, ourmax as int, othermax as int, desired_shift as int, $2 as int),
         ii > 0 ==> wfp(retval.cdf, ii as int),'''],
       before=[(r'let\s+rescaled_self\b', '''proof {
           mix_step(self.cdf, $1.cdf, ii as int, desired_shift as int, $2 as int);
         }''')]),
    r'''}
pub open spec fn wfp(c: Arr, n: int) -> bool {
   c[0] >= 2 && (forall|i: int| 1 <= i < n ==> (#[trigger] c[i]) - c[i - 1] >= 2)
}
#[verifier::opaque]
pub open spec fn p2(s: int) -> int {
   if s == 0 {1} else if s == 1 {2} else if s == 2 {4} else if s == 3 {8} else if s == 4 {16} else if s == 5 {32}
   else if s == 6 {64} else if s == 7 {128} else if s == 8 {256} else if s == 9 {512} else if s == 10 {1024}
   else if s == 11 {2048} else if s == 12 {4096} else if s == 13 {8192} else if s == 14 {16384} else if s == 15 {32768} else {65536}
}
proof fn shr_p2(x: i32, k: u32) requires x >= 0, k <= 16 ensures (x >> k) as int == x as int / p2(k as int) {
   reveal(p2);
   assert(x >= 0 ==> (x >> 0u32) == x) by(bit_vector);
   assert(x >= 0 ==> (x >> 1u32) == x / 2) by(bit_vector);
   assert(x >= 0 ==> (x >> 2u32) == x / 4) by(bit_vector);
   assert(x >= 0 ==> (x >> 3u32) == x / 8) by(bit_vector);
   assert(x >= 0 ==> (x >> 4u32) == x / 16) by(bit_vector);
   assert(x >= 0 ==> (x >> 5u32) == x / 32) by(bit_vector);
   assert(x >= 0 ==> (x >> 6u32) == x / 64) by(bit_vector);
   assert(x >= 0 ==> (x >> 7u32) == x / 128) by(bit_vector);
   assert(x >= 0 ==> (x >> 8u32) == x / 256) by(bit_vector);
   assert(x >= 0 ==> (x >> 9u32) == x / 512) by(bit_vector);
   assert(x >= 0 ==> (x >> 10u32) == x / 1024) by(bit_vector);
   assert(x >= 0 ==> (x >> 11u32) == x / 2048) by(bit_vector);
   assert(x >= 0 ==> (x >> 12u32) == x / 4096) by(bit_vector);
   assert(x >= 0 ==> (x >> 13u32) == x / 8192) by(bit_vector);
   assert(x >= 0 ==> (x >> 14u32) == x / 16384) by(bit_vector);
   assert(x >= 0 ==> (x >> 15u32) == x / 32768) by(bit_vector);
   assert(x >= 0 ==> (x >> 16u32) == x / 65536) by(bit_vector);
}
// product of the two totals scaled into 15 bits, and not over-scaled
pub open spec fn shift_ok(p: int, s: int) -> bool {
   0 <= s <= 15 && p2(s) > 0 && p < 32768 * p2(s) && (s == 0 || 16384 * p2(s) <= p)
}
fn minlz(x: i32) -> (r: u32)
   requires 0 < x < 0x4000_0000
   ensures 2 <= r <= 17, shift_ok(x as int, 17 - r)
{
   let l = (x as u32).leading_zeros();
   proof {
      vstd::std_specs::bits::axiom_u32_leading_zeros(x as u32);
      reveal(p2);
      let d = x as u32;
      assert(l <= 31 && 0 < d < 0x4000_0000 && (d >> sub(31u32, l)) & 1 != 0 && (l == 0 || d >> sub(32u32, l) == 0) ==>
         l >= 2 && (l >= 17 ==> d < 32768) && (l == 16 ==> 32768 <= d < 65536) && (l == 15 ==> 65536 <= d < 131072) && (l == 14 ==> 131072 <= d < 262144)
         && (l == 13 ==> 262144 <= d < 524288) && (l == 12 ==> 524288 <= d < 1048576) && (l == 11 ==> 1048576 <= d < 2097152)
         && (l == 10 ==> 2097152 <= d < 4194304) && (l == 9 ==> 4194304 <= d < 8388608) && (l == 8 ==> 8388608 <= d < 16777216)
         && (l == 7 ==> 16777216 <= d < 33554432) && (l == 6 ==> 33554432 <= d < 67108864) && (l == 5 ==> 67108864 <= d < 134217728)
         && (l == 4 ==> 134217728 <= d < 268435456) && (l == 3 ==> 268435456 <= d < 536870912) && (l == 2 ==> 536870912 <= d < 1073741824)) by(bit_vector);
   }
   if l < 17 { l } else { 17 }
}
pub open spec fn mixed(a: int, b: int, ma: int, mb: int, s: int, mix: int) -> int {
   (((a * mb) / p2(s)) * mix + ((b * ma) / p2(s)) * (32768 - mix) + 1) / 32768
}
// floor((x+g*m)/k) - floor(x/k) >= 2 whenever 2k <= g*m
proof fn div_gap(x: int, y: int, k: int) requires k > 0, 0 <= x, y - x >= 2 * k ensures y / k - x / k >= 2, x / k >= 0 {
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, k);
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, k);
   vstd::arithmetic::div_mod::lemma_mod_bound(x, k);
   vstd::arithmetic::div_mod::lemma_mod_bound(y, k);
   let q = y / k; let p = x / k;
   assert(k * q + k > k * p + 2 * k);
   assert(q + 1 > p + 2) by(nonlinear_arith) requires k * q + k > k * p + 2 * k, k > 0;
   assert(p >= 0) by(nonlinear_arith) requires k * p + k > x, x >= 0, k > 0;
}
proof fn elem(a: int, ap: int, ma: int, mb: int, s: int)
   requires 3 <= ma <= BOUND(), 3 <= mb <= BOUND(), shift_ok(ma * mb, s), 0 <= ap, ap + 3 <= a <= ma
   ensures 0 <= (ap * mb) / p2(s), (ap * mb) / p2(s) + 2 <= (a * mb) / p2(s) <= 32767, 0 <= a * mb <= ma * mb, 0 <= ma * mb <= 24573 * 24573
{
   let k = p2(s);
   assert(a * mb >= (ap + 3) * mb) by(nonlinear_arith) requires a >= ap + 3, mb >= 0;
   assert((ap + 3) * mb == ap * mb + 3 * mb) by(nonlinear_arith);
   // 2k <= 3 mb :  16384 k <= ma*mb <= 24573 mb
   assert(ma * mb <= 24573 * mb) by(nonlinear_arith) requires ma <= 24573, mb >= 0;
   assert(24573 * mb <= 24573 * 24573);
   if s == 0 { reveal(p2); } else { assert(2 * k <= 3 * mb); }
   assert(ap * mb >= 0) by(nonlinear_arith) requires ap >= 0, mb >= 0;
   div_gap(ap * mb, a * mb, k);
   assert(a * mb <= ma * mb) by(nonlinear_arith) requires a <= ma, mb >= 0;
   assert((a * mb) / k <= 32767) by(nonlinear_arith) requires a * mb < 32768 * k, k > 0;
}
proof fn mix_step(c: Arr, d: Arr, i: int, s: int, mix: int)
   requires wf(c, 3, BOUND()), wf(d, 3, BOUND()), 0 <= i < 16, 0 <= mix <= 32768, shift_ok(c[15] as int * d[15] as int, s)
   ensures
     ({ let ma = c[15] as int; let mb = d[15] as int;
        let rs = (c[i] * mb) / p2(s); let ro = (d[i] * ma) / p2(s);
        &&& 0 <= c[i] * mb <= 24573 * 24573 &&& 0 <= d[i] * ma <= 24573 * 24573
        &&& 0 <= rs <= 32767 &&& 0 <= ro <= 32767
        &&& 0 <= rs * mix <= 32767 * mix &&& 0 <= ro * (32768 - mix) <= 32767 * (32768 - mix)
        &&& 0 <= rs * mix + ro * (32768 - mix) <= 32767 * 32768
        &&& 2 <= mixed(c[i] as int, d[i] as int, ma, mb, s, mix) <= 32767
        &&& (i > 0 ==> mixed(c[i] as int, d[i] as int, ma, mb, s, mix) - mixed(c[i - 1] as int, d[i - 1] as int, ma, mb, s, mix) >= 2) })
{
   let ma = c[15] as int; let mb = d[15] as int;
   base_ge(c, 3, BOUND(), i); base_ge(d, 3, BOUND(), i); base_ge(c, 3, BOUND(), 15); base_ge(d, 3, BOUND(), 15);
   wf_mono(c, 3, BOUND(), i, 15); wf_mono(d, 3, BOUND(), i, 15);
   assert(3 * (15 - i) >= 0);
   let cp = if i > 0 { c[i - 1] as int } else { 0 }; let dp = if i > 0 { d[i - 1] as int } else { 0 };
   if i > 0 { base_ge(c, 3, BOUND(), i - 1); base_ge(d, 3, BOUND(), i - 1); }
   assert(ma * mb == mb * ma) by(nonlinear_arith);
   elem(c[i] as int, cp, ma, mb, s); elem(d[i] as int, dp, mb, ma, s);
   let rs = (c[i] * mb) / p2(s); let ro = (d[i] * ma) / p2(s);
   let rsp = (cp * mb) / p2(s); let rop = (dp * ma) / p2(s);
   let w = 32768 - mix;
   assert(0 <= rs * mix <= 32767 * mix) by(nonlinear_arith) requires 0 <= rs <= 32767, mix >= 0;
   assert(0 <= ro * w <= 32767 * w) by(nonlinear_arith) requires 0 <= ro <= 32767, w >= 0;
   assert(rs * mix >= rsp * mix + 2 * mix) by(nonlinear_arith) requires rs >= rsp + 2, mix >= 0;
   assert(ro * w >= rop * w + 2 * w) by(nonlinear_arith) requires ro >= rop + 2, w >= 0;
   assert(rsp * mix >= 0) by(nonlinear_arith) requires rsp >= 0, mix >= 0;
   assert(rop * w >= 0) by(nonlinear_arith) requires rop >= 0, w >= 0;
}
''',
]
UNITS['R02'] = [('cdf', R02)]

def pick(unit, name):
    for u in unit:
        if isinstance(u, Fn) and u.name == name: return u
    raise KeyError(name)

OSUB = [(r'\bnumeric::', '')]
class FnO(Fn):
    pass
R02OPT = [
    Const(NUM, 'LOG_MAX_NUMERATOR'), SHIFTS, NUM_LEMMAS, pick(R03, 'fast_divide_30bit_by_16bit'),
    r'''
// ASSUMED here, discharged by complete enumeration of all 32767 table entries on the real table (native obligation recip_table)
#[verifier::external_body]
fn lookup_divisor(d: i16) -> (r: (i64, u8)) requires d > 0 ensures recip_ok(r.0 as int, r.1 as int, d as int) { panic!() }
#[derive(Clone, Copy)]
pub struct OptFrequentistCDF16 { pub cdf: FrequentistCDF16, pub inv_max_and_bitlen: (i64, u8) }
pub open spec fn cached(o: OptFrequentistCDF16) -> bool { recip_ok(o.inv_max_and_bitlen.0 as int, o.inv_max_and_bitlen.1 as int, o.cdf.cdf[15] as int) }
impl OptFrequentistCDF16 {
''',
    Fn(OC, 'new', impl='^impl OptFrequentistCDF16', subs=OSUB, spec='requires $1.cdf[15] > 0 ensures r.cdf == $1, cached(r)'),
    Fn(OC, 'default', impl='^impl Default', subs=OSUB, spec='ensures wf(r.cdf.cdf, 3, BOUND()), cached(r)'),
    Fn(OC, 'max', impl='^impl BaseCDF for', subs=OSUB, spec='ensures r == self.cdf.cdf[15]'),
    Fn(OC, 'cdf', impl='^impl BaseCDF for', subs=OSUB, spec='requires $1 < 16 ensures r == self.cdf.cdf[$1 as int]'),
    Fn(OC, 'div_by_max', impl='^impl BaseCDF for', subs=OSUB,
       spec='requires $1 >= 0, cached(*self) ensures r as int == $1 as int / self.cdf.cdf[15] as int'),
    Fn(OC, 'blend', impl='^impl CDF16 for', subs=OSUB,
       spec='''requires wf(old(self).cdf.cdf, 3, BOUND()), cached(*old(self)), $1 < 16, 0 <= $2.0 <= MAXINC(), $2.1 <= 0x4000
       ensures wf(final(self).cdf.cdf, 3, BOUND()), cached(*final(self))'''),
    Fn(OC, 'average', impl='^impl CDF16 for', subs=OSUB,
       spec='''requires wf(self.cdf.cdf, 3, BOUND()), wf($1.cdf.cdf, 3, BOUND()), 0 <= $2 <= 32768
       ensures wf(r.cdf.cdf, 2, 32767), cached(r)'''),
] + BASE('self.cdf.cdf', wfx='cached(*self)') + ['}']
# the reduction facts used by new/default/blend/average: totals are positive
for u in R02OPT:
    if isinstance(u, Fn) and u.name in ('default',): pass
def _opt():
    base = [u for u in R02]
    # lookup_divisor in cdf_offset_to_sym_start_and_freq is the non-avoid-divide `()` variant
    out = []
    for u in base:
        if isinstance(u, str) and u.startswith('fn lookup_divisor'):
            u = 'fn lookup_divisor_hint(_m: i16) { }'
        elif isinstance(u, Fn) and u.name == 'cdf_offset_to_sym_start_and_freq':
            u = _hint(u)
        out.append(u)
    return out + [(_hint(u) if isinstance(u, Fn) and u.name == 'cdf_offset_to_sym_start_and_freq' else u) for u in R02OPT]
def _hint(u):
    import copy
    v = copy.copy(u)
    v.subs = list(u.subs) + [(r'\blookup_divisor\(', 'lookup_divisor_hint(')]
    return v
UNITS['R02'] = [('cdf', _opt())]

# ------------------------------------------------------------------------------------------------ R01
ANS = 'src/ans.rs'
ANS_SPEC = r'''
pub type ANSState = u64;
pub type StartFreqType = Prob;
// stand-in for the allocator-provided buffer: a fixed-length byte array with slice()/slice_mut()
pub struct Mem { pub v: Vec<u8> }
impl Mem {
   #[verifier::external_body]
   pub fn slice(&self) -> (r: &[u8]) ensures r@ == self.v@ { self.v.as_slice() }
   pub fn set(&mut self, i: usize, b: u8) requires i < old(self).v@.len() ensures final(self).v@ == old(self).v@.update(i as int, b) { self.v.set(i, b); }
}
pub struct ByteStack { pub data: Mem, pub nbytes: usize }
impl ByteStack {
   pub open spec fn wf(&self) -> bool { self.nbytes <= self.data.v@.len() }
   pub open spec fn view(&self) -> Seq<u8> { self.data.v@.subrange(self.nbytes as int, self.data.v@.len() as int) }
   pub open spec fn cap(&self) -> int { self.data.v@.len() as int }
}
pub struct ANSEncoder { pub q: ByteStack, pub start_freq: ByteStack }

pub open spec fn NORM() -> int { 0x8000_0000 }
pub open spec fn TOP() -> int { 0x8000_0000_0000_0000 }
pub open spec fn okstate(a: int) -> bool { NORM() <= a < TOP() }
pub open spec fn okrange(start: int, freq: int) -> bool { 0 <= start && 1 <= freq < 32768 && start + freq <= 32768 }
pub open spec fn le4(x: int) -> Seq<u8> { seq![(x % 256) as u8, ((x / 256) % 256) as u8, ((x / 65536) % 256) as u8, ((x / 16777216) % 256) as u8] }
pub open spec fn le8(x: int) -> Seq<u8> { le4(x) + le4(x / 0x1_0000_0000) }
pub open spec fn val4(s: Seq<u8>) -> int { s[0] as int + 256 * s[1] as int + 65536 * s[2] as int + 16777216 * s[3] as int }
pub open spec fn lim_of(freq: int) -> int { 0x1_0000_0000_0000 * freq }
// one encoder step
pub open spec fn e_keep(a: int, freq: int) -> int { if a >= lim_of(freq) { a / 0x1_0000_0000 } else { a } }
pub open spec fn e_out(a: int, freq: int) -> Seq<u8> { if a >= lim_of(freq) { le4(a) } else { Seq::<u8>::empty() } }
pub open spec fn e_next(a: int, start: int, freq: int) -> int { (e_keep(a, freq) / freq) * 32768 + e_keep(a, freq) % freq + start }
pub struct Enc { pub a: int, pub b: int, pub bytes: Seq<u8> }
pub open spec fn e_step(e: Enc, start: int, freq: int) -> Enc { Enc { a: e.b, b: e_next(e.a, start, freq), bytes: e_out(e.a, freq) + e.bytes } }
// the encoder's working state after the symbols k..n of a chunk were processed (last symbol first)
pub open spec fn e_chunk(s: Seq<(int, int)>, k: int, tail: Seq<u8>) -> Enc decreases s.len() - k {
   if k >= s.len() || k < 0 { Enc { a: NORM(), b: NORM(), bytes: tail } } else { e_step(e_chunk(s, k + 1, tail), s[k].0, s[k].1) }
}
pub open spec fn encoded(s: Seq<(int, int)>, tail: Seq<u8>) -> Seq<u8> { let e = e_chunk(s, 0, tail); le8(e.b) + le8(e.a) + e.bytes }
pub open spec fn allok(s: Seq<(int, int)>) -> bool { forall|i: int| 0 <= i < s.len() ==> okrange((#[trigger] s[i]).0, s[i].1) }
// one decoder step on the state about to be decoded
pub open spec fn d_next(x: int, start: int, freq: int) -> int { freq * (x / 32768) + x % 32768 - start }

proof fn step_inverse(a: int, start: int, freq: int) requires okstate(a), okrange(start, freq)
   ensures okstate(e_next(a, start, freq)),
     start <= e_next(a, start, freq) % 32768 < start + freq,
     d_next(e_next(a, start, freq), start, freq) == e_keep(a, freq),
     e_keep(a, freq) >= 0x1_0000,
     (e_keep(a, freq) < NORM()) == (a >= lim_of(freq)),
     a >= lim_of(freq) ==> e_keep(a, freq) * 0x1_0000_0000 + a % 0x1_0000_0000 == a,
     e_keep(a, freq) < lim_of(freq), (e_keep(a, freq) / freq) < 0x1_0000_0000_0000, e_keep(a, freq) % freq < freq,
     0 <= e_keep(a, freq) % freq, 0 <= e_keep(a, freq) / freq
{
   let st = e_keep(a, freq);
   assert(lim_of(freq) >= 0x1_0000_0000_0000) by(nonlinear_arith) requires freq >= 1, lim_of(freq) == 0x1_0000_0000_0000 * freq;
   if a >= lim_of(freq) {
      assert(a / 0x1_0000_0000 >= 0x1_0000 * freq);
      assert(st < NORM());
   } else { assert(st >= 0x1_0000 * freq); }
   let q = st / freq; let r = st % freq;
   vstd::arithmetic::div_mod::lemma_fundamental_div_mod(st, freq);
   vstd::arithmetic::div_mod::lemma_mod_bound(st, freq);
   assert(q >= 0x1_0000) by(nonlinear_arith) requires st >= 0x1_0000 * freq, st == freq * q + r, r < freq, freq >= 1;
   assert(q < 0x1_0000_0000_0000) by(nonlinear_arith) requires st < 0x1_0000_0000_0000 * freq, st == freq * q + r, r >= 0, freq >= 1;
   let x = e_next(a, start, freq);
   assert(x == q * 32768 + (r + start));
   assert(x / 32768 == q && x % 32768 == r + start);
   assert(freq * q + (r + start) - start == st);
   assert(0x1_0000 * freq >= 0x1_0000);
}
'''
ANS_BITS = r'''
proof fn bits_low4(x: u64) ensures
   (x & 0xff) as u8 == ((x as int) % 256) as u8, ((x >> 8u64) & 0xff) as u8 == ((x as int / 256) % 256) as u8,
   ((x >> 16u64) & 0xff) as u8 == ((x as int / 65536) % 256) as u8, ((x >> 24u64) & 0xff) as u8 == ((x as int / 16777216) % 256) as u8,
   ((x >> 32u64) & 0xff) as u8 == ((x as int / 0x1_0000_0000) % 256) as u8, ((x >> 40u64) & 0xff) as u8 == ((x as int / 0x100_0000_0000) % 256) as u8,
   ((x >> 48u64) & 0xff) as u8 == ((x as int / 0x1_0000_0000_0000) % 256) as u8, ((x >> 56u64) & 0xff) as u8 == ((x as int / 0x100_0000_0000_0000) % 256) as u8,
   (x >> 32u64) == x / 0x1_0000_0000
{
   assert((x & 0xff) == x % 256) by(bit_vector);
   assert(((x >> 8u64) & 0xff) == (x / 256) % 256) by(bit_vector);
   assert(((x >> 16u64) & 0xff) == (x / 65536) % 256) by(bit_vector);
   assert(((x >> 24u64) & 0xff) == (x / 16777216) % 256) by(bit_vector);
   assert(((x >> 32u64) & 0xff) == (x / 0x1_0000_0000) % 256) by(bit_vector);
   assert(((x >> 40u64) & 0xff) == (x / 0x100_0000_0000) % 256) by(bit_vector);
   assert(((x >> 48u64) & 0xff) == (x / 0x1_0000_0000_0000) % 256) by(bit_vector);
   assert(((x >> 56u64) & 0xff) == (x / 0x100_0000_0000_0000) % 256) by(bit_vector);
   assert((x >> 32u64) == x / 0x1_0000_0000) by(bit_vector);
}
proof fn shl15_u64(x: u64) requires x < 0x1_0000_0000_0000 ensures (x << 15u32) == x * 32768 {
   assert(x < 0x1_0000_0000_0000 ==> (x << 15u32) == x * 32768) by(bit_vector);
}
proof fn consts() ensures (((0x8000_0000u64 >> 15u32) << 32u64)) == 0x1_0000_0000_0000u64 {
   assert((((0x8000_0000u64 >> 15u32) << 32u64)) == 0x1_0000_0000_0000u64) by(bit_vector);
}
'''
SLSUBS = [(r'self\.data\.slice_mut\(\)\[([^\]]+)\]\s*=\s*(\w+)\s*;', r'self.data.set(\1, \2);'),
          (r'&(\w+)\[self\.nbytes\s*\.\.\s*\w+\.len\(\)\]', r'vstd::slice::slice_subrange(\1, self.nbytes, \1.len())'),
          (r'for\s+(\w+)\s+in\s+(\w+)\.iter\(\)\.rev\(\)\s*\{', r'let mut kk = \2.len(); while kk > 0 { kk -= 1; let \1 = &\2[kk]; '),
          (r'&(\w+)\[\.\.\]', r'\1.as_slice()')]
GEN = [(r'ByteStack<\w+>', 'ByteStack')]
BS = r'ByteStack<AllocU8>\s*$'
ANS_THEOREMS = r'''
pub struct Dec { pub a: int, pub b: int, pub ra: bool, pub rb: bool, pub inp: Seq<u8> }
pub open spec fn after_a(d: Dec) -> Seq<u8> { if d.ra { d.inp.subrange(4, d.inp.len() as int) } else { d.inp } }
// the decoder holding lazily-refilled states simulates the encoder state e
pub open spec fn sim(d: Dec, e: Enc) -> bool {
   &&& (d.ra ==> d.inp.len() >= 4 && d.a * 0x1_0000_0000 + val4(d.inp) == e.b && 0x1_0000 <= d.a < NORM())
   &&& (!d.ra ==> d.a == e.b)
   &&& (d.rb ==> after_a(d).len() >= 4 && d.b * 0x1_0000_0000 + val4(after_a(d)) == e.a && 0x1_0000 <= d.b < NORM())
   &&& (!d.rb ==> d.b == e.a)
   &&& e.bytes =~= (if d.rb { after_a(d).subrange(4, after_a(d).len() as int) } else { after_a(d) })
}
pub open spec fn refill(d: Dec) -> Dec { if d.ra { Dec { a: d.a * 0x1_0000_0000 + val4(d.inp), b: d.b, ra: false, rb: d.rb, inp: after_a(d) } } else { d } }
pub open spec fn advance(d: Dec, start: int, freq: int) -> Dec { let x = d_next(d.a, start, freq); Dec { a: d.b, b: x, ra: d.rb, rb: x < NORM(), inp: d.inp } }
proof fn val4_le4(x: int) requires x >= 0 ensures val4(le4(x)) == x % 0x1_0000_0000, le4(x).len() == 4 {
   let a = x % 256; let b = (x / 256) % 256; let c = (x / 65536) % 256; let d = (x / 16777216) % 256;
   assert(x / 256 / 256 == x / 65536); assert(x / 65536 / 256 == x / 16777216); assert(x / 16777216 / 256 == x / 0x1_0000_0000);
   assert(x == a + 256 * b + 65536 * c + 16777216 * d + 0x1_0000_0000 * (x / 0x1_0000_0000));
}
proof fn decode_step(d: Dec, e: Enc, start: int, freq: int)
   requires okstate(e.a), okrange(start, freq), sim(d, e_step(e, start, freq))
   ensures ({ let d1 = refill(d); d1.a == e_next(e.a, start, freq) && okstate(d1.a) && start <= d1.a % 32768 < start + freq && sim(advance(d1, start, freq), e) })
{
   let e2 = e_step(e, start, freq);
   step_inverse(e.a, start, freq);
   let d1 = refill(d);
   let d2 = advance(d1, start, freq);
   val4_le4(e.a);
   if e.a >= lim_of(freq) {
      assert(e2.bytes.subrange(0, 4) =~= le4(e.a));
      assert(e2.bytes.subrange(4, e2.bytes.len() as int) =~= e.bytes);
      let rest = if d.rb { after_a(d).subrange(4, after_a(d).len() as int) } else { after_a(d) };
      assert(after_a(d2) =~= rest);
      assert(rest.subrange(0, 4) =~= le4(e.a));
      assert(val4(rest) == val4(rest.subrange(0, 4)));
   } else {
      assert(e2.bytes =~= e.bytes);
   }
   if d.rb { assert(after_a(d2) =~= d1.inp.subrange(4, d1.inp.len() as int)); }
}
proof fn chunk_ok(s: Seq<(int, int)>, k: int, tail: Seq<u8>) requires allok(s), 0 <= k <= s.len()
   ensures okstate(e_chunk(s, k, tail).a), okstate(e_chunk(s, k, tail).b) decreases s.len() - k
{
   if k < s.len() { chunk_ok(s, k + 1, tail); assert(okrange(s[k].0, s[k].1)); step_inverse(e_chunk(s, k + 1, tail).a, s[k].0, s[k].1); }
}
pub open spec fn run(d: Dec, s: Seq<(int, int)>, k: int) -> Dec decreases k {
   if k <= 0 { d } else { advance(refill(run(d, s, k - 1)), s[k - 1].0, s[k - 1].1) }
}
proof fn run_sim(s: Seq<(int, int)>, tail: Seq<u8>, d: Dec, k: int)
   requires allok(s), 0 <= k <= s.len(), sim(d, e_chunk(s, 0, tail))
   ensures sim(run(d, s, k), e_chunk(s, k, tail)),
     forall|j: int| 0 <= j < k ==> s[j].0 <= #[trigger] refill(run(d, s, j)).a % 32768 < s[j].0 + s[j].1 && okstate(refill(run(d, s, j)).a)
   decreases k
{
   if k > 0 {
      run_sim(s, tail, d, k - 1);
      chunk_ok(s, k, tail);
      assert(okrange(s[k - 1].0, s[k - 1].1));
      decode_step(run(d, s, k - 1), e_chunk(s, k, tail), s[k - 1].0, s[k - 1].1);
   }
}
// THEOREM: the decoder, started on the 16-byte header of an encoded chunk, sees at every step an offset inside the interval the
// encoder used for that symbol, and has consumed exactly the chunk's bytes when the last symbol is decoded (nothing pending).
proof fn chunk_round_trip(s: Seq<(int, int)>, tail: Seq<u8>, a: int, b: int)
   requires allok(s), s.len() > 0,
     a == e_chunk(s, 0, tail).b, b == e_chunk(s, 0, tail).a   // the two 64-bit words at the front of encoded(s, tail)
   ensures ({ let d = Dec { a: a, b: b, ra: false, rb: false, inp: e_chunk(s, 0, tail).bytes };
      (forall|j: int| 0 <= j < s.len() ==> s[j].0 <= #[trigger] refill(run(d, s, j)).a % 32768 < s[j].0 + s[j].1)
      && ({ let f = run(d, s, s.len() as int); !f.ra && !f.rb && f.inp =~= tail }) })
{
   let d = Dec { a: a, b: b, ra: false, rb: false, inp: e_chunk(s, 0, tail).bytes };
   run_sim(s, tail, d, s.len() as int);
}
// the header words are recoverable from the first 16 bytes
proof fn header_words(s: Seq<(int, int)>, tail: Seq<u8>) requires allok(s)
   ensures ({ let v = encoded(s, tail); let e = e_chunk(s, 0, tail); v.len() == 16 + e.bytes.len() && v.subrange(16, v.len() as int) =~= e.bytes
      && val4(v) + 0x1_0000_0000 * val4(v.subrange(4, 8)) == e.b && val4(v.subrange(8, 12)) + 0x1_0000_0000 * val4(v.subrange(12, 16)) == e.a })
{
   let v = encoded(s, tail); let e = e_chunk(s, 0, tail);
   chunk_ok(s, 0, tail);
   val4_le4(e.b); val4_le4(e.b / 0x1_0000_0000); val4_le4(e.a); val4_le4(e.a / 0x1_0000_0000);
   assert(v.subrange(0, 4) =~= le4(e.b)); assert(v.subrange(4, 8) =~= le4(e.b / 0x1_0000_0000));
   assert(v.subrange(8, 12) =~= le4(e.a)); assert(v.subrange(12, 16) =~= le4(e.a / 0x1_0000_0000));
   assert(val4(v) == val4(v.subrange(0, 4)));
}
'''
ANS_CONSTS = [ConstEval(ANS, n, t, ('src/probability/interface.rs',)) for n, t in (('NORMALIZATION_INTERVAL', 'u64'), ('ENC_START_STATE', 'u64'), ('NUM_SYMBOLS_BEFORE_FLUSH', 'u32'), ('SCALE_MASK', 'u64'))]
R01 = [
    Const('src/probability/interface.rs', 'CDF_BITS'), Const('src/probability/interface.rs', 'LOG2_SCALE'),
    Const(ANS, 'MAX_BUFFER_SIZE'),
    ANS_SPEC, ANS_BITS,
    *ANS_CONSTS,
    'impl ByteStack {',
    Fn(ANS, 'reset', impl=r'^impl<(?!.* for ).*> ByteStack<', subs=SLSUBS, spec='ensures final(self).wf(), final(self).view() =~= Seq::<u8>::empty(), final(self).cap() == old(self).cap()'),
    Fn(ANS, 'bytes', impl=r'^impl<(?!.* for ).*> ByteStack<', subs=SLSUBS, spec='requires old(self).wf() ensures r@ == old(self).view(), *final(self) == *old(self)'),
    Fn(ANS, 'is_empty', impl=r'^impl<(?!.* for ).*> ByteStack<', subs=SLSUBS, spec='requires self.wf() ensures r == (self.view().len() == 0)'),
    Fn(ANS, 'stack_byte', impl=r'^impl<(?!.* for ).*> ByteStack<', subs=SLSUBS,
       spec='''requires old(self).wf(), old(self).view().len() < old(self).cap()
       ensures final(self).wf(), final(self).view() =~= seq![$1] + old(self).view(), final(self).cap() == old(self).cap()'''),
    Fn(ANS, 'stack_data', impl=r'^impl<(?!.* for ).*> ByteStack<', subs=SLSUBS,
       spec='''requires old(self).wf(), old(self).view().len() + $1@.len() <= old(self).cap()
       ensures final(self).wf(), final(self).view() =~= $1@ + old(self).view(), final(self).cap() == old(self).cap()''',
       loops=['''invariant old(self).wf(), self.wf(), 0 <= kk <= $1@.len(), old(self).view().len() + $1@.len() <= old(self).cap(), self.cap() == old(self).cap(),
          self.view() =~= $1@.subrange(kk as int, $1@.len() as int) + old(self).view() decreases kk''']),
    Fn(ANS, 'stack_u16', impl=r'^impl<(?!.* for ).*> ByteStack<', subs=SLSUBS,
       spec='''requires old(self).wf(), old(self).view().len() + 2 <= old(self).cap()
       ensures final(self).wf(), final(self).view() =~= seq![($1 % 256) as u8, ($1 / 256) as u8] + old(self).view(), final(self).cap() == old(self).cap()''',
       start='let s = $1; assert((s & 0xff) as u8 == (s % 256) as u8) by(bit_vector); assert(((s >> 8u16) & 0xff) as u8 == (s / 256) as u8) by(bit_vector); assert(((s >> 8) & 0xff) as u8 == (s / 256) as u8) by(bit_vector);'),
    '}',
    'impl ANSEncoder {',
    Fn(ANS, 'reverse_put_sym', impl=r'^impl<(?!.* for ).*> ANSEncoder<', subs=SLSUBS,
       spec='''requires old(self).q.wf(), old(self).q.view().len() + 4 <= old(self).q.cap(), okstate(*old($1) as int), okrange($3 as int, $4 as int),
       ensures final(self).start_freq == old(self).start_freq, final(self).q.wf(), final(self).q.cap() == old(self).q.cap(),
          *final($1) == *old($2), *final($2) as int == e_next(*old($1) as int, $3 as int, $4 as int), okstate(*final($2) as int),
          final(self).q.view() =~= e_out(*old($1) as int, $4 as int) + old(self).q.view()''',
       start='''
          let x = *$1; let f = $4 as int;
          consts(); bits_low4(x); step_inverse(x as int, $3 as int, f);
          assert(0x1_0000_0000_0000 * f <= 0x1_0000_0000_0000 * 32767) by(nonlinear_arith) requires f <= 32767;
          assert forall|y: u64| y < 0x1_0000_0000_0000 implies #[trigger] (y << 15u32) == y * 32768 by { shl15_u64(y); }
       '''),
    Fn(ANS, 'flush_chunk', impl=r'^impl<(?!.* for ).*> ANSEncoder<', subs=SLSUBS + [(r'(?<![:\w])mem::swap', 'core::mem::swap')],
       spec='''requires old(self).q.wf(), old(self).start_freq.wf(), old(self).start_freq.view().len() % 4 == 0, old(self).start_freq.view().len() <= 4 * 65536,
          allok(unpack(old(self).start_freq.view())),
          old(self).q.view().len() + old(self).start_freq.view().len() / 2 + 16 <= old(self).q.cap()
       ensures final(self).q.wf(), final(self).start_freq.wf(), final(self).q.cap() == old(self).q.cap(), final(self).start_freq.cap() == old(self).start_freq.cap(),
          final(self).start_freq.view().len() == 0,
          old(self).start_freq.view().len() == 0 ==> final(self).q.view() == old(self).q.view(),
          old(self).start_freq.view().len() > 0 ==> final(self).q.view() =~= encoded(unpack(old(self).start_freq.view()), old(self).q.view())''',
       start='''
          let l = self.start_freq.view().len() as usize;
          assert(forall|x: usize| (#[trigger] (x & 3)) == x % 4) by { assert forall|x: usize| (#[trigger] (x & 3)) == x % 4 by { assert((x & 3) == x % 4) by(bit_vector); } }
          assert(forall|x: usize| (#[trigger] (x >> 2)) == x / 4) by { assert forall|x: usize| (#[trigger] (x >> 2)) == x / 4 by { assert((x >> 2) == x / 4) by(bit_vector); } }
          assert forall|a: u8, b: u8| b < 128 implies (#[trigger] ((a as i16) | ((b as i16) << 8))) == a + 256 * b by { assert(b < 128 ==> ((a as i16) | ((b as i16) << 8)) == (a as i16) + 256 * (b as i16)) by(bit_vector); }
          assert forall|x: u64| true implies #[trigger] bits_ok(x) by { bits_low4(x); }
       ''',
       before=[(r'self\.reverse_put_sym\(', '''proof {
            let v = self.start_freq.view(); let n = (v.len() / 4) as int; let s = unpack(v); let k = n - 1 - index as int;
            assert(okrange(s[k].0, s[k].1));
            assert(s[k].0 == start && s[k].1 == freq);
            step_inverse(state_a as int, start as int, freq as int);
            phi_step(state_a as int, start as int, freq as int);
            assert(e_chunk(s, k, old(self).q.view()) == e_step(e_chunk(s, k + 1, old(self).q.view()), s[k].0, s[k].1));
          }''' ),
          (r'self\.q\.stack_data\(', '''proof {
            assert(bits_ok(state_a)); assert(bits_ok(state_b));
            let e = e_chunk(unpack(old(self).start_freq.view()), 0, old(self).q.view());
            chunk_ok(unpack(old(self).start_freq.view()), 0, old(self).q.view());
            assert(state_a as int == e.b && state_b as int == e.a);
            le8_bytes(state_a as int); le8_bytes(state_b as int);
          }''')],
       loops=['''invariant old(self).q.wf(), self.q.wf(), self.start_freq == old(self).start_freq, old(self).start_freq.wf(), self.q.cap() == old(self).q.cap(),
          len * 4 == self.start_freq.view().len(), len <= 65536, index <= len, okstate(state_a as int), okstate(state_b as int),
          allok(unpack(old(self).start_freq.view())),
          old(self).q.view().len() + old(self).start_freq.view().len() / 2 + 16 <= old(self).q.cap(),
          forall|a: u8, b: u8| b < 128 ==> (#[trigger] ((a as i16) | ((b as i16) << 8))) == a + 256 * b,
          2 * (self.q.view().len() - old(self).q.view().len()) + phi(state_a as int) + phi(state_b as int) <= 4 * index,
          ({ let e = e_chunk(unpack(old(self).start_freq.view()), len as int - index as int, old(self).q.view());
             state_a == e.a && state_b == e.b && self.q.view() =~= e.bytes }),
          forall|x: u64| #[trigger] bits_ok(x),
          decreases len - index''']),
    Fn(ANS, 'put_start_freq', impl=r'^impl<(?!.* for ).*> ANSEncoder<', subs=SLSUBS + [(r'(?<![:\w])mem::size_of::<\w+>\(\)', '2usize')],
       spec='''requires okrange($1 as int, $2 as int), old(self).q.wf(), old(self).q.view().len() == 0, old(self).q.cap() == MAX_BUFFER_SIZE, old(self).start_freq.cap() == MAX_BUFFER_SIZE,
          old(self).start_freq.wf(), old(self).start_freq.view().len() % 4 == 0, old(self).start_freq.view().len() < 4 * 65536, allok(unpack(old(self).start_freq.view()))
       ensures final(self).q.wf(), final(self).start_freq.wf(), final(self).q.cap() == MAX_BUFFER_SIZE, final(self).start_freq.cap() == MAX_BUFFER_SIZE,
          ({ let all = unpack(old(self).start_freq.view()).push(($1 as int, $2 as int));
             &&& allok(all)
             &&& all.len() < 65536 ==> final(self).q.view().len() == 0 && unpack(final(self).start_freq.view()) =~= all && final(self).start_freq.view().len() == 4 * all.len()
             &&& all.len() == 65536 ==> final(self).start_freq.view().len() == 0 && final(self).q.view() =~= encoded(all, Seq::<u8>::empty()) })''',
       before=[(r'if\s+self\.start_freq\.bytes\(\)', '''proof {
            let all = unpack(old(self).start_freq.view()).push(($1 as int, $2 as int));
            assert(self.start_freq.view().len() == old(self).start_freq.view().len() + 4);
            assert(unpack(self.start_freq.view()) =~= all);
            assert(65536u32 as usize == 65536usize);
            assert((65536usize << 2) == 262144) by(bit_vector);
            assert(self.q.view() =~= Seq::<u8>::empty());
          }''')]),
    '}',
    r'''
pub open spec fn bits_ok(x: u64) -> bool {
   (x & 0xff) as u8 == ((x as int) % 256) as u8 && ((x >> 8u64) & 0xff) as u8 == ((x as int / 256) % 256) as u8 &&
   ((x >> 16u64) & 0xff) as u8 == ((x as int / 65536) % 256) as u8 && ((x >> 24u64) & 0xff) as u8 == ((x as int / 16777216) % 256) as u8 &&
   ((x >> 32u64) & 0xff) as u8 == ((x as int / 0x1_0000_0000) % 256) as u8 && ((x >> 40u64) & 0xff) as u8 == ((x as int / 0x100_0000_0000) % 256) as u8 &&
   ((x >> 48u64) & 0xff) as u8 == ((x as int / 0x1_0000_0000_0000) % 256) as u8 && ((x >> 56u64) & 0xff) as u8 == ((x as int / 0x100_0000_0000_0000) % 256) as u8
}
// pending (start, freq) pairs in arrival order; the stack holds the latest first
pub open spec fn val2(v: Seq<u8>, i: int) -> int { v[i] as int + 256 * v[i + 1] as int }
pub open spec fn unpack(v: Seq<u8>) -> Seq<(int, int)> {
   Seq::new(v.len() / 4, |i: int| (val2(v, 4 * ((v.len() / 4) as int - 1 - i)), val2(v, 4 * ((v.len() / 4) as int - 1 - i) + 2)))
}
proof fn le8_bytes(x: int) requires x >= 0 ensures le8(x) =~= seq![(x % 256) as u8, ((x / 256) % 256) as u8, ((x / 65536) % 256) as u8, ((x / 16777216) % 256) as u8,
   ((x / 0x1_0000_0000) % 256) as u8, ((x / 0x100_0000_0000) % 256) as u8, ((x / 0x1_0000_0000_0000) % 256) as u8, ((x / 0x100_0000_0000_0000) % 256) as u8]
{
   let y = x / 0x1_0000_0000;
   assert(y / 256 == x / 0x100_0000_0000); assert(y / 65536 == x / 0x1_0000_0000_0000); assert(y / 16777216 == x / 0x100_0000_0000_0000);
}
pub open spec fn phi(a: int) -> int { if a >= 0x8000_0000_0000 { 4 } else { 0 } }
proof fn phi_step(a: int, start: int, freq: int) requires okstate(a), okrange(start, freq)
   ensures a >= lim_of(freq) ==> phi(a) == 4 && phi(e_next(a, start, freq)) == 0 && e_out(a, freq).len() == 4,
      a < lim_of(freq) ==> e_out(a, freq).len() == 0
{
   assert(lim_of(freq) >= 0x1_0000_0000_0000) by(nonlinear_arith) requires freq >= 1, lim_of(freq) == 0x1_0000_0000_0000 * freq;
   if a >= lim_of(freq) {
      let st = e_keep(a, freq);
      vstd::arithmetic::div_mod::lemma_fundamental_div_mod(st, freq);
      vstd::arithmetic::div_mod::lemma_mod_bound(st, freq);
      let q = st / freq; let r = st % freq;
      assert(q <= st) by(nonlinear_arith) requires st == freq * q + r, r >= 0, freq >= 1, st >= 0;
   }
}
pub struct ANSDecoder { pub state_a: u64, pub state_b: u64, pub sym_count: u16, pub buffer_a_bytes_required: u8, pub buffer_b_bytes_required: u8 }
impl ANSDecoder {
''',
    Fn(ANS, 'helper_get_cdf_value_of_sym', impl='^impl ANSDecoder', spec='requires old(self).buffer_a_bytes_required == 0 ensures *final(self) == *old(self), r as int == old(self).state_a as int % 32768, r >= 0',
       start='let x = self.state_a; assert((x & 32767) == x % 32768) by(bit_vector);'),
    Fn(ANS, 'helper_advance_sym', impl='^impl ANSDecoder',
       spec='''requires okstate(old(self).state_a as int), okrange($1 as int, $2 as int), $1 <= old(self).state_a as int % 32768 < $1 + $2,
          old(self).buffer_b_bytes_required <= 1, old(self).buffer_a_bytes_required == 0
       ensures final(self).state_a == old(self).state_b, final(self).state_b as int == d_next(old(self).state_a as int, $1 as int, $2 as int),
          final(self).sym_count == (if old(self).sym_count == 65535 { 0int } else { old(self).sym_count + 1 }),
          final(self).buffer_b_bytes_required == (if final(self).state_b < 0x8000_0000 { 1int } else { 0 }),
          final(self).buffer_a_bytes_required == old(self).buffer_b_bytes_required + (if old(self).sym_count == 65535 { 8int } else { 0 })''',
       start='''
          let x = self.state_a; let b = self.buffer_b_bytes_required; let f = $2 as int;
          assert((x & 32767) == x % 32768) by(bit_vector);
          assert((x >> 15u32) == x / 32768) by(bit_vector);
          assert(b <= 1 ==> (b | (1u8 << 3)) == b + 8) by(bit_vector);
          assert(b <= 1 ==> (b | (0u8 << 3)) == b) by(bit_vector);
          let h = x as int / 32768;
          assert(0 <= f * h <= 32767 * h) by(nonlinear_arith) requires 0 <= f <= 32767, h >= 0;
       '''),
    '}',
    ANS_THEOREMS,
]
UNITS['R01'] = None
import importlib
for _p, _n in (('R06', 'crc'), ('R05', 'cmds')):
    UNITS[_p] = [(_n, getattr(importlib.import_module('u' + _p[1:]), _p))]
UNITS['R01'] = [('encoder', importlib.import_module('u01').R01A), ('decoder', importlib.import_module('u01').R01B)]
UNITS['R12'] = [('copy', importlib.import_module('u12').R12copy), ('dict', importlib.import_module('u12d').R12dict), ('literal', importlib.import_module('u12l').R12lit), ('bt', importlib.import_module('u11').R11)]
UNITS['R11'] = [('bt', importlib.import_module('u11').R11)]
UNITS['R13'] = importlib.import_module('u13').UNITS
UNITS['R10'] = [('weights', importlib.import_module('u10').R10)]
UNITS['R16'] = [('adapters', importlib.import_module('u16').R16)]
UNITS['R14'] = [('grow', importlib.import_module('u14').R14A), ('recycle', importlib.import_module('u14').R14B)]
UNITS['R07'] = [('read', importlib.import_module('u07').R07A), ('write', importlib.import_module('u07').R07B)]
UNITS['R17'] = [('cells', importlib.import_module('u17').R17A), ('compressor', importlib.import_module('u17').R17B), ('decompressor', importlib.import_module('u17').R17C)]
UNITS['R04'] = [('read', importlib.import_module('u04').R04A), ('write', importlib.import_module('u04').R04B)]
UNITS['R15'] = [('window', importlib.import_module('u15').R15)]
