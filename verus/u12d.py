"""R12, dictionary command coder."""
import re
from vextract import Fn, Lost, match
from auto import AUTO, SINCE
from u12 import COMMON, BKV, EVF, MNEM, BKFNS, SUP, SB, DI, CP, env
from u05 import StructFrom
def DictBits2(src):
    t = src.get(DI); m = re.search(r'\bconst\s+DICT_BITS\s*:\s*\[u8;\s*25\]\s*=\s*\[([^\]]*)\]', t)
    if not m: raise Lost('DICT_BITS')
    v = [x.strip() for x in m.group(1).split(',') if x.strip()]
    if len(v) != 25: raise Lost('DICT_BITS size')
    return '// the 25 values of DICT_BITS\npub open spec fn dbits(i: int) -> u8 { %s { 0 } }\nfn dict_bits(i: usize) -> (r: u8) requires i < 25 ensures r == dbits(i as int) { let t = [%s]; t[i] }' % (' '.join('if i == %d { %s } else' % (i, x) for i, x in enumerate(v)), ', '.join('%su8' % x for x in v))
DICT = r'''
#[derive(Clone, Copy)] pub struct DictCommand { pub word_size: u8, pub transform: u8, pub final_size: u8, pub empty: u8, pub word_id: u32 }
pub const kBrotliMaxDictionaryWordLength: u8 = 24;
pub uninterp spec fn DICT() -> Seq<u8>;
pub uninterp spec fn xform(word: Seq<u8>, transform: int) -> Seq<u8>;
#[verifier::external_body] fn dict_bytes() -> (r: &'static [u8]) ensures r@ == DICT(), r@.len() == 122784 { unimplemented!() }
#[verifier::external_body] fn TransformDictionaryWord(dst: &mut [u8], word: &[u8], len: i32, transform: i32) -> (r: i32)
   requires old(dst)@.len() >= 37, len == word@.len(), len <= 24, 0 <= transform < 121
   ensures 0 <= r <= 37, final(dst)@.len() == old(dst)@.len(), r == xform(word@, transform as int).len() { unimplemented!() }
pub ghost struct DK { pub st: DictSubstate, pub dc: DictCommand, pub bk: KB, pub tr: Seq<Ev>, pub fail: bool }
pub open spec fn dict_canon(k: DK) -> DK { match k.st { DictSubstate::Begin => DK { st: DictSubstate::WordSizeFirst, ..k }, _ => k } }
pub open spec fn dict_slot(k: DK) -> (Slot, i16, i16) {
  let t = k.bk.ctype();
  match k.st {
    DictSubstate::WordSizeFirst => (Slot::Dict(DictCommandNibblePriorType::SizeBegNib, t, 0), Speed::MUD.inc, Speed::MUD.lim),
    DictSubstate::WordSizeGreater18Less25 => (Slot::Dict(DictCommandNibblePriorType::SizeLastNib, t, 0), Speed::MUD.inc, Speed::MUD.lim),
    DictSubstate::WordIndexMantissa(ld, _, _) => (Slot::Dict(DictCommandNibblePriorType::Index, k.bk.dprior(k.dc.word_size as u32), if ld == 0 { (dbits(k.dc.word_size as int) % 4) + 1 } else { 0 }), Speed::MUD.inc, Speed::MUD.lim),
    DictSubstate::TransformHigh => (Slot::Dict(DictCommandNibblePriorType::Transform, 0, k.dc.word_size as int / 2), Speed::FAST.inc, Speed::FAST.lim),
    _ => (Slot::Dict(DictCommandNibblePriorType::Transform, 1, k.dc.transform as int / 16), Speed::FAST.inc, Speed::FAST.lim),
  }
}
pub open spec fn dict_fsize(dc: DictCommand) -> u8 { xform(DICT().subrange(dc.word_id as int, dc.word_id + dc.word_size), dc.transform as int).len() as u8 }
pub open spec fn dict_sized(k: DK, w: int) -> DK { DK { dc: DictCommand { word_size: w as u8, ..k.dc }, st: DictSubstate::WordIndexMantissa(0, ru4(dbits(w)), 0), ..k } }
pub open spec fn dict_next(k: DK, n: u8) -> DK {
  match k.st {
    DictSubstate::WordSizeFirst => if n == 15 { DK { st: DictSubstate::WordSizeGreater18Less25, ..k } } else { dict_sized(k, n + 4) },
    DictSubstate::WordSizeGreater18Less25 => if n + 19 > 24 { DK { fail: true, ..k } } else { dict_sized(k, n + 19) },
    DictSubstate::WordIndexMantissa(ld, rem, d) => { let m = (rem - 4) as u8; let d2 = d | ((n as u32) << m);
        if m == 0 { DK { dc: DictCommand { word_id: d2, ..k.dc }, st: DictSubstate::TransformHigh, ..k } } else { DK { st: DictSubstate::WordIndexMantissa((ld + 4) as u8, m, d2), ..k } } },
    DictSubstate::TransformHigh => DK { dc: DictCommand { transform: n << 4, ..k.dc }, st: DictSubstate::TransformLow, ..k },
    DictSubstate::TransformLow => { let t = k.dc.transform | n; if t >= 121 { DK { fail: true, ..k } } else { let dc = DictCommand { transform: t, ..k.dc }; DK { dc: DictCommand { final_size: dict_fsize(dc), ..dc }, st: DictSubstate::FullyDecoded, ..k } } },
    _ => DK { fail: true, ..k },
  }
}
pub open spec fn dict_wf(k: DK) -> bool {
  k.bk.ok() && match k.st {
    DictSubstate::WordIndexMantissa(ld, rem, d) => rem % 4 == 0 && 0 < rem && ld as int + rem as int <= 12 && d < 4096 && 4 <= k.dc.word_size <= 24,
    DictSubstate::TransformHigh => 4 <= k.dc.word_size <= 24 && k.dc.word_id < 4096,
    DictSubstate::TransformLow => 4 <= k.dc.word_size <= 24 && k.dc.word_id < 4096,
    _ => true,
  }
}
// what a Brotli dictionary reference can be: RFC 7932 appendix A has 2^bbits(n) words of n bytes (written down here, not taken from the code)
pub open spec fn bbits(w: int) -> u32 { if w < 4 || w > 24 { 0 } else if w == 6 || w == 7 { 11 } else if w <= 12 { 10 } else if w <= 14 { 9 } else if w == 15 || w == 18 { 8 } else if w <= 20 { 7 } else if w <= 22 { 6 } else { 5 } }
pub open spec fn dict_ok(c: DictCommand) -> bool { 4 <= c.word_size <= 24 && c.transform < 121 && c.word_id < 1u32 << bbits(c.word_size as int) }
// every such word number fits in the index nibbles the coder sets aside for words of that size
proof fn dict_room(w: int, id: u32) requires 4 <= w <= 24, id < 1u32 << bbits(w) ensures mant(id, 0, ru4(dbits(w))) {
  reveal(mant); reveal(ru4); let b = dbits(w); assert(1 <= b <= 12); let y = sub(b, 1); let x = add(y | 3, 1); let rem = x as u32; let k = bbits(w);
  assert(y <= 11 ==> (y | 3) <= 11 && add(y | 3, 1) % 4 == 0) by(bit_vector);
  assert(0u8 | 3 == 3 && 1u8 | 3 == 3 && 2u8 | 3 == 3 && 3u8 | 3 == 3 && 4u8 | 3 == 7 && 5u8 | 3 == 7 && 6u8 | 3 == 7 && 7u8 | 3 == 7 && 8u8 | 3 == 11 && 9u8 | 3 == 11 && 10u8 | 3 == 11 && 11u8 | 3 == 11) by(bit_vector);
  assert(k <= rem);   // the table entry of this word size leaves room
  assert(id < 1u32 << k && k <= rem && rem <= 12 ==> (id ^ 0) >> rem == 0 && 0 & !id == 0) by(bit_vector);
}
pub open spec fn dict_cons(k: DK, c: DictCommand) -> bool {
  match k.st {
    DictSubstate::Begin | DictSubstate::WordSizeFirst => true,
    DictSubstate::WordSizeGreater18Less25 => c.word_size >= 19,
    DictSubstate::WordIndexMantissa(_, rem, d) => k.dc.word_size == c.word_size && mant(c.word_id, d, rem),
    DictSubstate::TransformHigh => k.dc.word_size == c.word_size && k.dc.word_id == c.word_id,
    DictSubstate::TransformLow => k.dc.word_size == c.word_size && k.dc.word_id == c.word_id && k.dc.transform == (c.transform >> 4) << 4,
    DictSubstate::FullyDecoded => k.dc.word_size == c.word_size && k.dc.word_id == c.word_id && k.dc.transform == c.transform,
  }
}
pub open spec fn dict_k(s: DictState, u: Superstate) -> DK { DK { st: s.state, dc: s.dc, bk: kb(u.bk), tr: u.coder.tr@, fail: false } }
pub open spec fn dict_rank(s: DictSubstate) -> int { match s { DictSubstate::Begin => 300, DictSubstate::WordSizeFirst => 299, DictSubstate::WordSizeGreater18Less25 => 298, DictSubstate::WordIndexMantissa(_, r, _) => 20 + r as int, DictSubstate::TransformHigh => 3, DictSubstate::TransformLow => 2, DictSubstate::FullyDecoded => 1 } }
proof fn dict_bits_facts()
  ensures forall|s: Seq<u8>| #[trigger] s.subrange(0, s.len() as int) == s, forall|w: int| 4 <= w <= 24 ==> { let b = #[trigger] dbits(w); 1 <= b <= 12 && ru4(b) % 4 == 0 && 0 < ru4(b) && ru4(b) <= 12 },
    forall|t: u8| #![trigger t & 0xf] (t & 0xf) < 16 && (((t >> 4) << 4) | (t & 0xf)) == t, forall|t: u8| #[trigger] (t >> 4) < 16, forall|n: u8| #[trigger] (n >> 4) == n / 16, forall|n: usize| #[trigger] (n >> 4) == n / 16, forall|n: usize| #[trigger] (n >> 1) == n / 2,
    forall|d: u32, n: u8, m: u8| #![trigger d | ((n as u32) << m)] d < 4096 && n < 16 && m <= 8 ==> (d | ((n as u32) << m)) < 4096
{
  reveal(ru4); assert forall|s: Seq<u8>| #[trigger] s.subrange(0, s.len() as int) == s by { assert(s.subrange(0, s.len() as int) =~= s); }
  assert(forall|b: u8| 1 <= b <= 12 ==> { let x = add(#[trigger] sub(b, 1) | 3, 1); x % 4 == 0 && 0 < x && x <= 12 }) by(bit_vector);
  assert forall|w: int| 4 <= w <= 24 implies ({ let b = #[trigger] dbits(w); 1 <= b <= 12 && ru4(b) % 4 == 0 && 0 < ru4(b) && ru4(b) <= 12 }) by { let b = dbits(w); assert(1 <= b <= 12); let y = sub(b, 1); assert(y == b - 1); let x = add(y | 3, 1); assert(y <= 11 ==> (y | 3) <= 11) by(bit_vector); }
  assert(forall|t: u8| #![trigger t & 0xf] (t & 0xf) < 16 && (((t >> 4) << 4) | (t & 0xf)) == t) by(bit_vector); assert(forall|t: u8| #[trigger] (t >> 4) < 16) by(bit_vector);
  assert(forall|n: u8| #[trigger] (n >> 4) == n / 16) by(bit_vector); assert(forall|n: usize| #[trigger] (n >> 4) == n / 16) by(bit_vector); assert(forall|n: usize| #[trigger] (n >> 1) == n / 2) by(bit_vector);
  assert forall|d: u32, n: u8, m: u8| #![trigger d | ((n as u32) << m)] d < 4096 && n < 16 && m <= 8 implies (d | ((n as u32) << m)) < 4096 by { let mm = m as u32; let nn = n as u32; assert(d < 4096 && nn < 16 && mm <= 8 ==> (d | (nn << mm)) < 4096) by(bit_vector); }
}
proof fn dict_theorem(k0: DK, stream: Seq<u8>, i: int, j: int, c: DictCommand)
  requires 0 <= i <= stream.len(), 0 <= j <= stream.len(), dict_live(k0, stream.subrange(0, i)), dict_live(k0, stream.subrange(0, j)), ({ let e = dict_run(k0, stream.subrange(0, i)); let d = dict_run(k0, stream.subrange(0, j)); dict_fin(e) && (dict_fin(d) || d.fail) && dict_cons(e, c) && !e.fail })
  ensures i == j, ({ let d = dict_run(k0, stream.subrange(0, j)); !d.fail && d.dc.word_size == c.word_size && d.dc.word_id == c.word_id && d.dc.transform == c.transform })
{ dict_agree(k0, stream, i, j); }
'''
FN = Fn(DI, 'encode_or_decode', impl=r'impl DictState', subs=SB + [(r'&\s*kBrotliDictionary\b', 'dict_bytes()'), (r'\bDICT_BITS\[([^\]]*)\]', r'dict_bits(\1)')], psubs=SUP,
  attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
  spec='''requires dict_wf(dict_k(*old(self), *old($1))), old($1).coder.enc@ ==> dict_ok(*$2) && dict_cons(dict_k(*old(self), *old($1)), *$2)
   ensures ({ let u = *old($1); let u2 = *final($1); let b = u.coder.nibs@.len() as int; let ns = since(u2.coder.nibs@, b);
     let k0 = dict_canon(dict_k(*old(self), u)); let k = dict_k(*final(self), u2); let run = dict_run(k0, ns);
     u2.coder.nibs@.len() >= b && u2.coder.nibs@.subrange(0, b) == u.coder.nibs@ && u2.coder.enc == u.coder.enc && dict_live(k0, ns)
     && (run.fail ==> r is Failure && !u.coder.enc@) && (!run.fail ==> dict_canon(k) == run && dict_wf(k) && (u.coder.enc@ ==> dict_cons(k, *$2)))
     && (r is Success ==> !run.fail && k.st is FullyDecoded) })''',
  ghost='let ghost b0 = $1.coder.nibs@.len() as int; let ghost n0 = $1.coder.nibs@; let ghost enc0 = $1.coder.enc@; let ghost k0 = dict_canon(dict_k(*self, *$1));',
  start='idx_bits(); dict_bits_facts(); ev_facts(); dict_push_facts(dict_canon(dict_k(*self, *$1)), $1.coder.nibs@.len() as int); mant_facts($2.word_id); if dict_ok(*$2) { dict_room($2.word_size as int, $2.word_id); }',
  loops=['''invariant kb($1.bk).ok(), b0 <= $1.coder.nibs@.len(), $1.coder.nibs@.subrange(0, b0) == n0, $1.coder.enc@ == enc0,
          ({ let k = dict_k(*self, *$1); let ns = since($1.coder.nibs@, b0); dict_wf(k) && dict_canon(k) == dict_run(k0, ns) && dict_live(k0, ns) && (enc0 ==> dict_cons(k, *$2)) }),
     decreases dict_rank(self.state)'''],
  split=(0, ['self.state is %s' % x for x in 'Begin WordSizeFirst WordSizeGreater18Less25 WordIndexMantissa TransformHigh TransformLow FullyDecoded'.split()]))
R12dict = COMMON + [env(False), BKV, EVF, SINCE, MNEM, StructFrom(DI, 'DictState'), '#[derive(Clone, Copy)] pub struct CopyCommand { pub distance: u32, pub num_bytes: u32 }', DictBits2, DICT, AUTO('dict', 'DK', 'k.st is FullyDecoded')] + BKFNS + ['impl DictState {', FN, '}']
