"""R12, literal lengths (the header of a literal command: count and high-entropy flag)."""
import re
from vextract import Fn
from auto import AUTO, SINCE
from u12 import COMMON, BKV, EVF, MNEM, BKFNS, SUP, SB, env
from u05 import EnumFrom
from units import Const
LI = 'src/codec/literal.rs'
LITENV = r'''
#[derive(Clone, Copy)] pub struct CopyCommand { pub distance: u32, pub num_bytes: u32 }
pub struct LitCmd { pub data: MemU8, pub prob: MemU8, pub high_entropy: bool }
// AllocatedMemoryPrefix (R14): a buffer and the length of its used prefix
pub struct Pre { pub mem: MemU8, pub len: u32 }
pub struct LitOwn { pub data: Pre, pub prob: MemU8, pub high_entropy: bool }
pub struct LiteralState { pub lc: LitOwn, pub state: LiteralSubstate }
// the main thread's allocator: R14 proves that alloc_cell(n) hands out a prefix of n bytes
pub struct Recycler {}
impl Recycler { #[verifier::external_body] pub fn alloc_cell_of(&mut self, n: usize) -> (r: Pre) ensures r.len == n as u32 { unimplemented!() } }
// which thread runs this state machine: a worker has no allocator and no literal coder
pub uninterp spec fn MAIN() -> bool;
#[verifier::external_body] fn main_ctx(u: &Superstate) -> (r: (Option<Recycler>, Option<()>)) ensures r.0 is Some == MAIN(), r.1 is Some == MAIN() { unimplemented!() }
#[verifier::external_body] fn data_ready(u: &Superstate) -> (r: usize) { unimplemented!() }
impl LiteralState {
  // the payload goes through the literal coder: it touches neither the command coder nor the command book keeping, nor the length
  #[verifier::external_body] fn content_bytes(&mut self, u: &mut Superstate, c: &LitCmd, o: &mut [u8], off: &mut usize) -> (r: DivansResult)
     requires lit_payload(old(self).state)
     ensures *final(u) == *old(u), final(self).lc.data.len == old(self).lc.data.len, final(self).lc.high_entropy == old(self).lc.high_entropy, lit_payload(final(self).state), r is Success ==> final(self).state is FullyDecoded { unimplemented!() }
}
pub open spec fn lit_payload(s: LiteralSubstate) -> bool { s is LiteralNibbleIndex || s is SafeLiteralNibbleIndex || s is LiteralNibbleLowerHalf }
pub ghost struct LK { pub st: LiteralSubstate, pub len: u32, pub he: bool, pub bk: KB, pub tr: Seq<Ev>, pub fail: bool }
pub open spec fn lit_canon(k: LK) -> LK { if k.st is Begin { LK { st: LiteralSubstate::LiteralCountSmall(false), ..k } } else if lit_payload(k.st) { LK { st: LiteralSubstate::FullyDecoded, ..k } } else { k } }
pub open spec fn lit_slot(k: LK) -> (Slot, i16, i16) {
  let t = k.bk.ctype();
  match k.st {
    LiteralSubstate::LiteralCountSmall(_) => (Slot::LitLen(LiteralCommandPriorType::CountSmall, t, 0), Speed::MED.inc, Speed::MED.lim),
    LiteralSubstate::LiteralCountFirst => (Slot::LitLen(LiteralCommandPriorType::SizeBegNib, t, 0), Speed::MUD.inc, Speed::MUD.lim),
    LiteralSubstate::LiteralCountLengthGreater14Less25 => (Slot::LitLen(LiteralCommandPriorType::SizeLastNib, t, 0), Speed::MUD.inc, Speed::MUD.lim),
    _ => (Slot::LitLen(LiteralCommandPriorType::SizeMantissaNib, t, 0), Speed::MUD.inc, Speed::MUD.lim),
  }
}
pub open spec fn lit_done(k: LK, n: int) -> LK { LK { st: LiteralSubstate::FullyDecoded, len: n as u32, ..k } }
pub open spec fn lit_seen(k: LK, n: int) -> LK { LK { bk: KB { last_llen: n as u32, ..k.bk }, ..k } }
pub open spec fn lit_next(k: LK, n: u8) -> LK {
  match k.st {
    LiteralSubstate::LiteralCountSmall(_) => if n == 14 { LK { st: LiteralSubstate::LiteralCountFirst, ..k } } else if n == 15 { LK { st: LiteralSubstate::LiteralCountSmall(true), he: true, ..k } } else { lit_seen(lit_done(k, n + 1), n + 1) },
    LiteralSubstate::LiteralCountFirst => if n == 15 { LK { st: LiteralSubstate::LiteralCountLengthGreater14Less25, ..k } } else if n <= 1 { lit_done(k, n + 15) }
        else { LK { st: LiteralSubstate::LiteralCountMantissaNibbles(ru4((n - 1) as u8), 1u32 << ((n - 1) as u8)), ..k } },
    LiteralSubstate::LiteralCountLengthGreater14Less25 => LK { st: LiteralSubstate::LiteralCountMantissaNibbles(ru4((n + 14) as u8), 1u32 << ((n + 14) as u8)), ..k },
    LiteralSubstate::LiteralCountMantissaNibbles(rem, d) => { let m = (rem - 4) as u8; let d2 = d | ((n as u32) << m);
        if m == 0 { lit_seen(lit_done(k, d2 + 15), d2 + 15) } else { LK { st: LiteralSubstate::LiteralCountMantissaNibbles(m, d2), ..k } } },
    _ => LK { fail: true, ..k },
  }
}
pub open spec fn lit_wf(k: LK) -> bool {
  k.bk.ok() && !(k.st is LiteralNibbleIndexWithECDF) && match k.st { LiteralSubstate::LiteralCountMantissaNibbles(rem, _) => rem % 4 == 0 && 0 < rem && rem <= 32, _ => true }
}
// lengths a literal command can have
pub open spec fn lit_ok(c: LitCmd) -> bool { 1 <= c.data.v@.len() < 0x4000_0000 }
pub open spec fn lit_big(c: LitCmd) -> u32 { (c.data.v@.len() - 15) as u32 }
pub open spec fn lit_cons(k: LK, c: LitCmd) -> bool {
  match k.st {
    LiteralSubstate::Begin | LiteralSubstate::LiteralCountSmall(false) => !k.he,
    LiteralSubstate::LiteralCountSmall(true) => k.he && c.high_entropy,
    _ => k.he == c.high_entropy && match k.st {
      LiteralSubstate::LiteralCountFirst => c.data.v@.len() >= 15,
      LiteralSubstate::LiteralCountLengthGreater14Less25 => c.data.v@.len() >= 15 && bits(lit_big(c)) >= 15,
      LiteralSubstate::LiteralCountMantissaNibbles(rem, d) => c.data.v@.len() >= 15 && mant(lit_big(c), d, rem),
      _ => k.len == c.data.v@.len(),
    }
  }
}
pub open spec fn lit_k(s: LiteralState, u: Superstate) -> LK { LK { st: s.state, len: s.lc.data.len, he: s.lc.high_entropy, bk: kb(u.bk), tr: u.coder.tr@, fail: false } }
'''
THM = r'''
// theorem: an encoder and a decoder that start a literal in one state over one nibble stream agree on where the header ends, the length and the flag
proof fn lit_theorem(k0: LK, stream: Seq<u8>, i: int, j: int, c: LitCmd)
  requires 0 <= i <= stream.len(), 0 <= j <= stream.len(), lit_live(k0, stream.subrange(0, i)), lit_live(k0, stream.subrange(0, j)), ({ let e = lit_run(k0, stream.subrange(0, i)); let d = lit_run(k0, stream.subrange(0, j)); lit_fin(e) && (lit_fin(d) || d.fail) && lit_cons(e, c) && !e.fail })
  ensures i == j, ({ let d = lit_run(k0, stream.subrange(0, j)); !d.fail && d.len == c.data.v@.len() && d.he == c.high_entropy && d == lit_run(k0, stream.subrange(0, i)) })
{ lit_agree(k0, stream, i, j); }
'''
DRAIN = (r'drain_or_fill_static_buffer\(\s*CMD_CODER,\s*&mut superstate\.coder,\s*&mut superstate\.demuxer,\s*&mut superstate\.muxer,\s*output_bytes,\s*output_offset,\s*&mut (?:Some\(m\.get_base_alloc\(\)\)|None)\)', 'superstate.drain_or_fill_internal_buffer_cmd(output_bytes, output_offset)')
LSUBS = SB + [DRAIN,
  (r'let _ltype = superstate\.bk\.get_literal_block_type\(\);', ''),
  (r'let \(mut lit_coder, mut m8, mut lbk, mut lit_high_priors, mut lit_low_priors\) = if LinearInputBytes::ISOLATED \{.*?\n        \};', 'let (mut m8, mut lit_coder) = main_ctx(superstate);'),
  (r'm\.use_cached_allocation::<UninitializedOnAlloc>\(\)\.alloc_cell\(', 'm.alloc_cell_of('),
  (r'self\.lc\.data\.1 = ', 'self.lc.data.len = '),
  (r'superstate\.demuxer\.data_ready\(LIT_CODER as u8\)', 'data_ready(superstate)'),
  (r'LiteralSubstate::LiteralNibbleIndexWithECDF\(nibble_index\) => \{.*?\n                \},', 'LiteralSubstate::LiteralNibbleIndexWithECDF(nibble_index) => { vpanic() },'),
  (r'self\.encode_or_decode_content_bytes\(.*?&mut superstate\.specialization\)', 'self.content_bytes(superstate, in_cmd, output_bytes, output_offset)'),
]
LSUBS = [('(?s)' + a if '.*?' in a and '(?s)' not in a and a not in [x[0] for x in SB] else a, b) for a, b in LSUBS]
CMD = [(r'in_cmd\s*:\s*&LiteralCommand<ISlice>', 'in_cmd: &LitCmd'), (r",\s*ctraits\s*:\s*&'static CTraits", '')]
FN = Fn(LI, 'encode_or_decode', impl=r'LiteralState<AllocU8>', subs=LSUBS, psubs=SUP + CMD,
  attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]',
  spec='''requires lit_wf(lit_k(*old(self), *old($1))), $2.prob.v@.len() == 0, old($1).coder.enc@ ==> lit_ok(*$2) && lit_cons(lit_k(*old(self), *old($1)), *$2)
   ensures ({ let u = *old($1); let u2 = *final($1); let b = u.coder.nibs@.len() as int; let ns = since(u2.coder.nibs@, b);
     let k0 = lit_canon(lit_k(*old(self), u)); let k = lit_k(*final(self), u2); let run = lit_run(k0, ns);
     u2.coder.nibs@.len() >= b && u2.coder.nibs@.subrange(0, b) == u.coder.nibs@ && u2.coder.enc == u.coder.enc && lit_live(k0, ns)
     && !run.fail && lit_canon(k) == run && lit_wf(k) && (u.coder.enc@ ==> lit_cons(k, *$2))
     && (r is Success ==> k.st is FullyDecoded) })''',
  ghost='let ghost b0 = $1.coder.nibs@.len() as int; let ghost n0 = $1.coder.nibs@; let ghost enc0 = $1.coder.enc@; let ghost k0 = lit_canon(lit_k(*self, *$1));',
  start='idx_bits(); ev_facts(); lit_push_facts(lit_canon(lit_k(*self, *$1)), $1.coder.nibs@.len() as int); mant_facts(lit_big(*$2)); bits_start(lit_big(*$2));',
  loops=['''invariant kb($1.bk).ok(), b0 <= $1.coder.nibs@.len(), $1.coder.nibs@.subrange(0, b0) == n0, $1.coder.enc@ == enc0,
          ({ let k = lit_k(*self, *$1); let ns = since($1.coder.nibs@, b0); lit_wf(k) && lit_canon(k) == lit_run(k0, ns) && lit_live(k0, ns) && !lit_run(k0, ns).fail && (enc0 ==> lit_cons(k, *$2)) }),
     '''],
  split=(0, ['self.state is %s' % x for x in 'Begin LiteralCountSmall LiteralCountFirst LiteralCountLengthGreater14Less25 LiteralCountMantissaNibbles FullyDecoded'.split()]))
R12lit = COMMON + [Const(LI, 'NUM_LITERAL_LENGTH_MNEMONIC'), env(False), '''
impl LiteralCommandPriors { #[verifier::external_body] pub fn get<X: DIx>(&self, t: LiteralCommandPriorType, ix: X) -> (r: Prior) ensures r.slot@ == Slot::LitLen(t, ix.a(), ix.b()) { unimplemented!() } }''',
  BKV, EVF, SINCE, MNEM, LITENV, AUTO('lit', 'LK', 'k.st is FullyDecoded'), THM] + BKFNS + ['impl LiteralState {',
  Fn(LI, 'state_literal_nibble_index', impl=r'LiteralState<AllocU8>', spec='ensures lit_payload(r)'),
  Fn(LI, 'get_nibble_code_state', impl=r'LiteralState<AllocU8>', psubs=CMD, spec='requires $2.prob.v@.len() == 0 ensures lit_payload(r)'),
  FN, '}']
