"""R05: interpreting commands is LZ77 expansion over the history window, whatever the output slices."""
import re
from vextract import Fn, Lost, match, norm
from units import Const
M = 'src/cmd_to_raw/mod.rs'
IMPL = r'^impl<.*> DivansRecodeState<RingBuffer>'

def EnumFrom(file, name):
    """copies an enum declaration verbatim (without derives)"""
    def f(src):
        t = src.get(file)
        m = re.search(r'\b(?:pub\s+)?enum\s+%s\s*\{' % name, t)
        if not m: raise Lost('enum %s in %s' % (name, file))
        return '#[derive(Clone, Copy)] pub enum %s %s' % (name, re.sub(r'=\s*(\d+)u8', r'= \1', t[m.end()-1:match(t, m.end()-1)]))
    return f
def StructFrom(file, name, subs=(), derive=''):
    """copies a struct declaration verbatim, with every field public"""
    def f(src):
        t = src.get(file)
        m = re.search(r'\bstruct\s+%s\b[^;{]*\{' % name, t)
        if not m: raise Lost('struct %s in %s' % (name, file))
        b = t[m.end()-1:match(t, m.end()-1)]
        for r, x in subs: b = re.sub(r, x, b)
        b = re.sub(r'(?m)([{,]\s*)(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:', r'\1pub \2:', b)
        return '%s pub struct %s %s' % (derive, name, b)
    return f

MIN = r'''
pub trait MinT: Sized + Copy { spec fn iv(self) -> int; fn vmin_(a: Self, b: Self) -> (r: Self) ensures r == (if a.iv() <= b.iv() { a } else { b }); }
impl MinT for u32 { open spec fn iv(self) -> int { self as int } fn vmin_(a: u32, b: u32) -> (r: u32) { if a <= b { a } else { b } } }
impl MinT for usize { open spec fn iv(self) -> int { self as int } fn vmin_(a: usize, b: usize) -> (r: usize) { if a <= b { a } else { b } } }
fn vmin<T: MinT>(a: T, b: T) -> (r: T) ensures r == (if a.iv() <= b.iv() { a } else { b }) { T::vmin_(a, b) }
'''
ENV = r'''
// ---- environment: the caller's ring buffer (any slice type), the brotli dictionary, command types of the brotli crate
pub struct RingBuf { pub v: Vec<u8> }
impl RingBuf {
  #[verifier::external_body] pub fn slice(&self) -> (r: &[u8]) ensures r@ == self.v@ { &self.v }
  #[verifier::external_body] pub fn slice_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).v@, final(r)@ == final(self).v@ { &mut self.v }
}
pub struct Sl { pub v: Vec<u8> }
impl Sl { #[verifier::external_body] pub fn slice(&self) -> (r: &[u8]) ensures r@ == self.v@ { &self.v } }
pub struct LiteralCommand { pub data: Sl, pub high_entropy: bool }
impl LiteralCommand { #[verifier::external_body] pub fn slice(&self) -> (r: &[u8]) ensures r@ == self.data.v@ { &self.data.v } }
#[derive(Clone, Copy)] pub struct CopyCommand { pub distance: u32, pub num_bytes: u32 }
pub struct DictCommand { pub word_size: u8, pub transform: u8, pub final_size: u8, pub empty: u8, pub word_id: u32 }
pub struct Opaque {}
pub enum Command { Copy(CopyCommand), Dict(DictCommand), Literal(LiteralCommand), BlockSwitchCommand(Opaque), BlockSwitchLiteral(Opaque), BlockSwitchDistance(Opaque), PredictionMode(Opaque) }
pub uninterp spec fn DICT() -> Seq<u8>;
pub uninterp spec fn OFFS() -> Seq<u32>;
pub uninterp spec fn xform(word: Seq<u8>, transform: int) -> Seq<u8>;
pub const kBrotliMaxDictionaryWordLength: u8 = 24;
#[verifier::external_body] fn dict_bytes() -> (r: &'static [u8]) ensures r@ == DICT(), r@.len() == 122784 { unimplemented!() }
// lengths checked natively in every run (enumeration r05_dict)
#[verifier::external_body] fn dict_offsets() -> (r: &'static [u32]) ensures r@ == OFFS(), r@.len() == 25, forall|i: int| 0 <= i < 25 ==> #[trigger] r@[i] <= 122784 { unimplemented!() }
#[verifier::external_body] fn TransformDictionaryWord(dst: &mut [u8], word: &[u8], len: i32, transform: i32) -> (r: i32)
   requires old(dst)@.len() >= 37, len == word@.len(), len <= 24, 0 <= transform < 121
   ensures 0 <= r <= 37, final(dst)@.len() == old(dst)@.len(), final(dst)@.subrange(0, r as int) == xform(word@, transform as int) { unimplemented!() }
'''
SPEC = r'''
pub open spec fn app(w: Seq<u8>, x: Seq<u8>) -> Seq<u8> { (w + x).subrange(x.len() as int, (w.len() + x.len()) as int) }
// what a copy of n bytes at distance dist appends to the history window w (byte i repeats with period dist)
pub open spec fn rep(w: Seq<u8>, dist: int, n: nat) -> Seq<u8> { Seq::new(n, |i: int| w[w.len() - dist + i % dist]) }
proof fn app_app(w: Seq<u8>, x: Seq<u8>, y: Seq<u8>) ensures app(app(w, x), y) =~= app(w, x + y) {}
proof fn mod_shift(i: int, d: int) requires d > 0, i >= d ensures (i - d) % d == i % d {
   vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(i, d);
}
proof fn mod_small(i: int, d: int) requires 0 <= i < d ensures i % d == i { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, d as nat); }
proof fn rep_prefix(w: Seq<u8>, dist: int, n: nat) requires 0 < dist <= w.len(), n <= dist
   ensures rep(w, dist, n) =~= w.subrange(w.len() - dist, w.len() - dist + n)
{ assert forall|i: int| 0 <= i < n implies #[trigger] (i % dist) == i by { mod_small(i, dist); } }
proof fn rep_get(w: Seq<u8>, dist: int, n: nat, i: int) requires 0 < dist <= w.len(), 0 <= i < n ensures
   rep(w, dist, n)[i] == (if i < dist { w[w.len() - dist + i] } else { rep(w, dist, n)[i - dist] })
{ if i < dist { mod_small(i, dist); } else { mod_shift(i, dist); } }
// continuing a copy from the window it left is the same copy
proof fn rep_cont(w: Seq<u8>, dist: int, k: nat, j: nat) requires 0 < dist <= w.len()
   ensures rep(w, dist, k) + rep(app(w, rep(w, dist, k)), dist, j) =~= rep(w, dist, k + j)
{
   let a = rep(w, dist, k); let w2 = app(w, a); let b = rep(w2, dist, j); let all = rep(w, dist, k + j);
   assert forall|i: int| 0 <= i < j implies #[trigger] b[i] == all[k + i] by { rep_cont_at(w, dist, k, j, i); }
}
proof fn rep_cont_at(w: Seq<u8>, dist: int, k: nat, j: nat, i: int) requires 0 < dist <= w.len(), 0 <= i < j
   ensures rep(app(w, rep(w, dist, k)), dist, j)[i] == rep(w, dist, k + j)[k + i] decreases i
{
   let a = rep(w, dist, k); let w2 = app(w, a); let b = rep(w2, dist, j); let all = rep(w, dist, k + j);
   rep_get(w2, dist, j, i); rep_get(w, dist, k + j, k + i);
   if i < dist {
      assert(b[i] == w2[w2.len() - dist + i]);
      let q = k - dist + i;
      if q < 0 { } else { assert(w2[w2.len() - dist + i] == a[q]); assert(a[q] == all[q]); }
   } else { rep_cont_at(w, dist, k, j, i - dist); }
}
proof fn rep_tail(w: Seq<u8>, dist: int, i: nat, m: nat) requires 0 < dist <= w.len(), m < dist
   ensures rep(w, dist, (i * dist) as nat) + w.subrange(w.len() - dist, w.len() - dist + m) =~= rep(w, dist, (i * dist + m) as nat)
{
   rep_block(w, dist, i); let big = rep(w, dist, ((i + 1) * dist) as nat);
   assert((i + 1) * dist == i * dist + dist && i * dist >= 0) by(nonlinear_arith) requires dist > 0;
   assert(rep(w, dist, (i * dist + m) as nat) =~= big.subrange(0, i * dist + m));
   assert(rep(w, dist, (i * dist) as nat) =~= big.subrange(0, i * dist));
}
proof fn rep_block(w: Seq<u8>, dist: int, i: nat) requires 0 < dist <= w.len()
   ensures rep(w, dist, (i * dist) as nat) + w.subrange(w.len() - dist, w.len() as int) =~= rep(w, dist, ((i + 1) * dist) as nat)
{
   assert((i + 1) * dist == i * dist + dist && i * dist >= 0) by(nonlinear_arith) requires dist > 0;
   assert forall|j: int| i * dist <= j < i * dist + dist implies #[trigger] (j % dist) == j - i * dist by {
      vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(j, dist, i as int, j - i * dist);
   }
}
impl State {
  pub open spec fn L(self) -> int { self.ring_buffer.v@.len() as int }
  pub open spec fn d(self) -> int { self.state.ring_buffer_decode_index as int }
  pub open spec fn o(self) -> int { self.state.ring_buffer_output_index as int }
  pub open spec fn sub(self) -> int { self.state.input_sub_offset as int }
  pub open spec fn wf(self) -> bool { 64 <= self.L() <= 0x100_0000 && self.d() < self.L() && self.o() < self.L() }
  // the history window, oldest byte first
  pub open spec fn win(self) -> Seq<u8> { let r = self.ring_buffer.v@; r.subrange(self.d(), self.L()) + r.subrange(0, self.d()) }
  // bytes decoded but not yet handed to the caller
  pub open spec fn pn(self) -> int { if self.o() <= self.d() { self.d() - self.o() } else { self.d() - self.o() + self.L() } }
  pub open spec fn pend(self) -> Seq<u8> { self.win().subrange(self.L() - self.pn(), self.L()) }
  pub open spec fn space(self) -> int { self.L() - 1 - self.pn() }
}
// s2 is s with the bytes x appended to history and pending output
pub open spec fn appended(s: State, s2: State, x: Seq<u8>) -> bool {
  s2.wf() && s2.L() == s.L() && s2.win() =~= app(s.win(), x) && s2.pn() == s.pn() + x.len() && s2.o() == s.o()
  && s2.state.total_offset == s.state.total_offset && s2.pend() =~= s.pend() + x
}
// overwriting the oldest bytes in place (no wrap) appends to the history
proof fn win_append(s: State, s2: State, x: Seq<u8>)
  requires s.wf(), s2.L() == s.L(), x.len() <= s.space(), s.d() + x.len() <= s.L(), s2.o() == s.o(), s2.state.total_offset == s.state.total_offset,
    s2.d() == (if s.d() + x.len() == s.L() { 0 } else { s.d() + x.len() }),
    s2.ring_buffer.v@ =~= s.ring_buffer.v@.subrange(0, s.d()) + x + s.ring_buffer.v@.subrange(s.d() + x.len(), s.L())
  ensures appended(s, s2, x)
{
}
// s2 is s with x bytes handed out; everything else unchanged
pub open spec fn emitted(s: State, s2: State, x: Seq<u8>) -> bool {
  s2.wf() && s2.L() == s.L() && s2.win() == s.win() && x + s2.pend() =~= s.pend() && s2.pn() == s.pn() - x.len() && s2.d() == s.d()
  && s2.state.total_offset == s.state.total_offset + x.len() && s2.sub() == s.sub()
}
pub open spec fn dword(c: DictCommand) -> Seq<u8> { let a = OFFS()[c.word_size as int] + c.word_id * c.word_size; xform(DICT().subrange(a, a + c.word_size), c.transform as int) }
// commands that denote nothing and must be rejected
pub open spec fn bad_copy(c: CopyCommand, l: int) -> bool { c.distance == 0 || c.distance >= l }
pub open spec fn bad_dict(c: DictCommand) -> bool {
  c.word_size >= 25 || c.word_id >= 122784 || OFFS()[c.word_size as int] + c.word_id * c.word_size + c.word_size > 122784 || c.transform >= 121
  || (c.final_size != 0 && dword(c).len() != c.final_size)
}
pub open spec fn bad(c: Command, l: int) -> bool { match c { Command::Copy(c) => bad_copy(c, l), Command::Dict(c) => bad_dict(c), _ => false } }
// what the command denotes over window w
pub open spec fn den(c: Command, w: Seq<u8>) -> Seq<u8> {
  match c { Command::Literal(l) => l.data.v@, Command::Copy(c) => rep(w, c.distance as int, c.num_bytes as nat), Command::Dict(c) => dword(c), _ => Seq::empty() }
}
// what is still to be appended, input_sub_offset bytes of the command being done already
pub open spec fn rest(c: Command, s: State) -> Seq<u8> {
  match c {
    Command::Literal(l) => l.data.v@.subrange(s.sub(), l.data.v@.len() as int),
    Command::Copy(c) => rep(s.win(), c.distance as int, (c.num_bytes - s.sub()) as nat),
    Command::Dict(c) => if s.sub() == 0 { dword(c) } else { Seq::empty() },
    _ => Seq::empty(),
  }
}
pub open spec fn mid(c: Command, s: State) -> bool {
  match c {
    Command::Literal(l) => s.sub() <= l.data.v@.len() < 0x1_0000_0000,
    Command::Copy(c) => s.sub() <= c.num_bytes,
    Command::Dict(c) => s.sub() == 0 || (!bad_dict(c) && s.sub() == dword(c).len()),
    _ => s.sub() == 0,
  }
}
proof fn rest_is_den(c: Command, s: State) requires s.sub() == 0 ensures rest(c, s) =~= den(c, s.win()) { }
// one call made progress on c and lost nothing: x is what it appended
pub open spec fn stepped(c: Command, s: State, s2: State) -> bool {
  s2.wf() && s2.L() == s.L() && s2.o() == s.o() && s2.state.total_offset == s.state.total_offset && mid(c, s2) && rest(c, s2).len() <= rest(c, s).len()
  && s2.pn() == s.pn() + (rest(c, s).len() - rest(c, s2).len())
  && s2.pend() + rest(c, s2) =~= s.pend() + rest(c, s) && app(s2.win(), rest(c, s2)) =~= app(s.win(), rest(c, s))
}
pub open spec fn copied(c: CopyCommand, s: State, s2: State, r: DivansOutputResult) -> bool {
  let k = s2.sub() - s.sub(); let n = c.num_bytes - s.sub();
  match r {
    DivansOutputResult::Failure(_) => bad_copy(c, s.L()) && s2 == s,
    _ => !bad_copy(c, s.L()) && 0 <= k <= n && appended(s, s2, rep(s.win(), c.distance as int, k as nat)) && (r is Success <==> k == n) && (k == 0 && n > 0 ==> s.space() == 0)
  }
}
proof fn copied_parsed(c: CopyCommand, s: State, s2: State, r: DivansOutputResult) requires s.wf(), s.sub() <= c.num_bytes, copied(c, s, s2, r)
  ensures parsed(Command::Copy(c), s, s2, r)
{
  if !(r is Failure) {
    let k = s2.sub() - s.sub(); let n = c.num_bytes - s.sub(); let w = s.win(); let dist = c.distance as int; let x = rep(w, dist, k as nat); let y = rep(s2.win(), dist, (n - k) as nat);
    assert(s2.win() == app(w, x));
    rep_cont(w, dist, k as nat, (n - k) as nat);
    app_app(w, x, y);
    assert(x + y =~= rest(Command::Copy(c), s));
    assert(s2.pend() + y =~= s.pend() + (x + y));
  }
}
// parse contract for one command
pub open spec fn parsed(c: Command, s: State, s2: State, r: DivansOutputResult) -> bool {
  match r {
    DivansOutputResult::Success => !bad(c, s.L()) && stepped(c, s, s2) && rest(c, s2).len() == 0,
    DivansOutputResult::NeedsMoreOutput => stepped(c, s, s2) && (s.pn() == 0 ==> rest(c, s2).len() < rest(c, s).len()),
    DivansOutputResult::Failure(_) => bad(c, s.L()) && s2 == s,
  }
}
proof fn app_len(w: Seq<u8>, x: Seq<u8>) ensures app(w, x).len() == w.len() {}
// everything commands i.. denote, from window w
pub open spec fn all_den(cmds: Seq<Command>, i: int, w: Seq<u8>) -> Seq<u8> decreases cmds.len() - i {
  if i < 0 || i >= cmds.len() { Seq::empty() } else { den(cmds[i], w) + all_den(cmds, i + 1, app(w, den(cmds[i], w))) }
}
// everything still to be appended when command i has been begun
pub open spec fn all_rest(cmds: Seq<Command>, i: int, s: State) -> Seq<u8> {
  if i < 0 || i >= cmds.len() { Seq::empty() } else { rest(cmds[i], s) + all_den(cmds, i + 1, app(s.win(), rest(cmds[i], s))) }
}
pub open spec fn all_ok(cmds: Seq<Command>) -> bool { forall|i: int| 0 <= i < cmds.len() ==> (#[trigger] cmds[i] matches Command::Literal(l) ==> l.data.v@.len() < 0x1_0000_0000) }
pub open spec fn list_mid(cmds: Seq<Command>, i: int, s: State) -> bool { if 0 <= i < cmds.len() { mid(cmds[i], s) } else { s.sub() == 0 } }
// the step from one command to the next
proof fn list_facts(cmds: Seq<Command>) requires all_ok(cmds)
  ensures forall|i: int, s: State, s2: State, x: Seq<u8>| #![trigger emitted(s, s2, x), all_rest(cmds, i, s)] emitted(s, s2, x) ==> all_rest(cmds, i, s2) == all_rest(cmds, i, s) && list_mid(cmds, i, s2) == list_mid(cmds, i, s),
    forall|i: int, s: State, s2: State| #![trigger stepped(cmds[i], s, s2)] 0 <= i < cmds.len() && stepped(cmds[i], s, s2) ==> s2.pend() + all_rest(cmds, i, s2) == s.pend() + all_rest(cmds, i, s),
    forall|i: int, j: int, s: State, s2: State, s3: State| #![trigger stepped(cmds[i], s, s2), left(cmds, j, s3)] done_step(cmds, i, j, s, s2, s3) ==> left(cmds, j, s3) == s.pend() + all_rest(cmds, i, s) && list_mid(cmds, j, s3),
{
  assert forall|i: int, s: State, s2: State, x: Seq<u8>| #![trigger emitted(s, s2, x), all_rest(cmds, i, s)] emitted(s, s2, x) implies all_rest(cmds, i, s2) == all_rest(cmds, i, s) && list_mid(cmds, i, s2) == list_mid(cmds, i, s) by { emitted_all(cmds, i, s, s2, x); }
  assert forall|i: int, s: State, s2: State| #![trigger stepped(cmds[i], s, s2)] 0 <= i < cmds.len() && stepped(cmds[i], s, s2) implies s2.pend() + all_rest(cmds, i, s2) == s.pend() + all_rest(cmds, i, s) by { stepped_all(cmds, i, s, s2); }
  assert forall|i: int, j: int, s: State, s2: State, s3: State| #![trigger stepped(cmds[i], s, s2), left(cmds, j, s3)] done_step(cmds, i, j, s, s2, s3) implies left(cmds, j, s3) == s.pend() + all_rest(cmds, i, s) && list_mid(cmds, j, s3) by {
    stepped_all(cmds, i, s, s2); next_cmd(cmds, i, s2, s3); assert(s3.pend() == s2.pend());
  }
}
// command i was finished and the interpreter is ready for command j = i + 1
pub open spec fn done_step(cmds: Seq<Command>, i: int, j: int, s: State, s2: State, s3: State) -> bool {
  0 <= i < cmds.len() && j == i + 1 && stepped(cmds[i], s, s2) && rest(cmds[i], s2).len() == 0 && s3.sub() == 0
  && s3.ring_buffer == s2.ring_buffer && s3.d() == s2.d() && s3.o() == s2.o()
}
proof fn next_cmd(cmds: Seq<Command>, i: int, s: State, s2: State)
  requires 0 <= i < cmds.len(), s.wf(), mid(cmds[i], s), rest(cmds[i], s).len() == 0, s2.win() == s.win(), s2.sub() == 0, all_ok(cmds)
  ensures all_rest(cmds, i + 1, s2) =~= all_rest(cmds, i, s), list_mid(cmds, i + 1, s2)
{
  assert(rest(cmds[i], s) =~= Seq::<u8>::empty());
  assert(app(s.win(), rest(cmds[i], s)) =~= s.win());
  if i + 1 < cmds.len() { rest_is_den(cmds[i + 1], s2); assert(rest(cmds[i + 1], s2) =~= den(cmds[i + 1], s2.win())); }
}
proof fn stepped_all(cmds: Seq<Command>, i: int, s: State, s2: State) requires 0 <= i < cmds.len(), stepped(cmds[i], s, s2)
  ensures s2.pend() + all_rest(cmds, i, s2) =~= s.pend() + all_rest(cmds, i, s)
{
  let t = all_den(cmds, i + 1, app(s.win(), rest(cmds[i], s)));
  assert(app(s2.win(), rest(cmds[i], s2)) == app(s.win(), rest(cmds[i], s)));
  assert(s2.pend() + all_rest(cmds, i, s2) =~= (s2.pend() + rest(cmds[i], s2)) + t);
  assert(s.pend() + all_rest(cmds, i, s) =~= (s.pend() + rest(cmds[i], s)) + t);
}
// handing out bytes changes neither history nor what is left
proof fn emitted_same(c: Command, s: State, s2: State, x: Seq<u8>) requires emitted(s, s2, x) ensures rest(c, s2) == rest(c, s), mid(c, s2) == mid(c, s) {}
proof fn emitted_rest(c: Command) ensures forall|s: State, s2: State, x: Seq<u8>| #[trigger] emitted(s, s2, x) ==> rest(c, s2) == rest(c, s) && mid(c, s2) == mid(c, s) {
  assert forall|s: State, s2: State, x: Seq<u8>| #[trigger] emitted(s, s2, x) implies rest(c, s2) == rest(c, s) && mid(c, s2) == mid(c, s) by { emitted_same(c, s, s2, x); }
}
proof fn emitted_all(cmds: Seq<Command>, i: int, s: State, s2: State, x: Seq<u8>) requires emitted(s, s2, x) ensures all_rest(cmds, i, s2) == all_rest(cmds, i, s), list_mid(cmds, i, s2) == list_mid(cmds, i, s) {
  if 0 <= i < cmds.len() { emitted_same(cmds[i], s, s2, x); }
}
// THEOREM: any run of encode_commands calls (each Success or NeedsMoreOutput, as its contract says) over any output slices, from a
// fresh interpreter, hands out exactly what the commands denote over an all-zero window
pub open spec fn left(cmds: Seq<Command>, i: int, s: State) -> Seq<u8> { s.pend() + all_rest(cmds, i, s) }
pub struct Call { pub before: State, pub i: int, pub after: State, pub i2: int, pub x: Seq<u8> }
pub open spec fn call_ok(cmds: Seq<Command>, c: Call) -> bool { c.x + left(cmds, c.i2, c.after) == left(cmds, c.i, c.before) }
pub open spec fn outs(cs: Seq<Call>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { outs(cs, n - 1) + cs[n - 1].x } }
pub open spec fn chain(cmds: Seq<Command>, s0: State, cs: Seq<Call>) -> bool {
  cs.len() > 0 && cs[0].before == s0 && cs[0].i == 0 && (forall|k: int| 0 <= k < cs.len() ==> call_ok(cmds, #[trigger] cs[k]))
  && (forall|k: int| 0 < k < cs.len() ==> (#[trigger] cs[k]).before == cs[k - 1].after && cs[k].i == cs[k - 1].i2)
}
proof fn cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures a + (b + c) =~= (a + b) + c {}
proof fn chain_conserves(cmds: Seq<Command>, s0: State, cs: Seq<Call>, n: int)
  requires chain(cmds, s0, cs), 0 < n <= cs.len()
  ensures outs(cs, n) + left(cmds, cs[n - 1].i2, cs[n - 1].after) == left(cmds, 0, s0)
  decreases n
{
  hide(left);
  let l = cs[n - 1];
  assert(call_ok(cmds, l));
  if n == 1 { assert(outs(cs, 0) + l.x =~= l.x); assert(outs(cs, 1) == outs(cs, 0) + l.x); }
  else {
    chain_conserves(cmds, s0, cs, n - 1);
    cat_assoc(outs(cs, n - 1), l.x, left(cmds, l.i2, l.after));
  }
}
proof fn start_left(cmds: Seq<Command>, s0: State) requires s0.wf(), s0.pn() == 0, s0.sub() == 0 ensures left(cmds, 0, s0) =~= all_den(cmds, 0, s0.win()) {
  assert(s0.pend() =~= Seq::<u8>::empty());
  if cmds.len() > 0 { rest_is_den(cmds[0], s0); assert(rest(cmds[0], s0) =~= den(cmds[0], s0.win())); }
  assert(all_rest(cmds, 0, s0) =~= all_den(cmds, 0, s0.win()));
}
proof fn expansion(cmds: Seq<Command>, s0: State, cs: Seq<Call>)
  requires s0.wf(), s0.pn() == 0, s0.sub() == 0, chain(cmds, s0, cs), cs.last().i2 == cmds.len(), cs.last().after.pn() == 0, cs.last().after.wf()
  ensures outs(cs, cs.len() as int) =~= all_den(cmds, 0, s0.win())
{
  chain_conserves(cmds, s0, cs, cs.len() as int);
  start_left(cmds, s0);
  assert(left(cmds, cs.last().i2, cs.last().after) =~= Seq::<u8>::empty());
}
// only output[off..off2] was written, and it now holds x
pub open spec fn wrote(o: Seq<u8>, o2: Seq<u8>, off: int, off2: int, x: Seq<u8>) -> bool {
  o2.len() == o.len() && 0 <= off <= off2 <= o.len() && x == o2.subrange(off, off2)
  && forall|i: int| (0 <= i < off || off2 <= i < o.len()) ==> #[trigger] o2[i] == o[i]
}
'''
JOIN = r'''
// two writes one after the other are one write of the two pieces
proof fn join_writes(o0: Seq<u8>, off0: int)
  ensures forall|o1: Seq<u8>, off1: int, o2: Seq<u8>, off2: int| #![trigger wrote(o0, o1, off0, off1, o1.subrange(off0, off1)), wrote(o1, o2, off1, off2, o2.subrange(off1, off2))]
     wrote(o0, o1, off0, off1, o1.subrange(off0, off1)) && wrote(o1, o2, off1, off2, o2.subrange(off1, off2)) ==>
     wrote(o0, o2, off0, off2, o2.subrange(off0, off2)) && o2.subrange(off0, off2) == o1.subrange(off0, off1) + o2.subrange(off1, off2)
{
  assert forall|o1: Seq<u8>, off1: int, o2: Seq<u8>, off2: int| #![trigger wrote(o0, o1, off0, off1, o1.subrange(off0, off1)), wrote(o1, o2, off1, off2, o2.subrange(off1, off2))]
     wrote(o0, o1, off0, off1, o1.subrange(off0, off1)) && wrote(o1, o2, off1, off2, o2.subrange(off1, off2)) implies
     wrote(o0, o2, off0, off2, o2.subrange(off0, off2)) && o2.subrange(off0, off2) == o1.subrange(off0, off1) + o2.subrange(off1, off2) by {
     assert(o2.subrange(off0, off2) =~= o1.subrange(off0, off1) + o2.subrange(off1, off2));
  }
}
'''
SL = [(r'core::cmp::min\(', 'vmin('), (r'core::mem::replace\(&mut (\w+),\s*&mut\s*\[\]\)', r'\1'), (r'\bclone_from_slice\b', 'copy_from_slice'), (r'\bDivansRecodeState<RingBuffer>', 'State')]
DS = [(r'&\s*kBrotliDictionary\b', 'dict_bytes()'), (r'\bkBrotliDictionaryOffsetsByLength\b', 'dict_offsets()')]
PAT = [(r'&\s*Command::(\w+)\s*\(', r'Command::\1('), (r'\(\s*ref\s+(\w+)\s*\)', r'(\1)'), (r'Command<SliceType>', 'Command')]
START_COPY = '''
  if $1.distance > 0 { let d = $1.distance as int; assert forall|a: int| a >= 0 implies (#[trigger] (a / d)) * d <= a < (a / d) * d + d by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, d); assert(d * (a / d) == (a / d) * d) by(nonlinear_arith); vstd::arithmetic::div_mod::lemma_mod_bound(a, d); } }
  if 0 < $1.distance < self.L() { let w = self.win(); let d = $1.distance as int; assert forall|n: nat| n <= d implies #[trigger] rep(w, d, n) == w.subrange(w.len() - d, w.len() - d + n) by { rep_prefix(w, d, n); } }
'''
R05 = [MIN, ENV, EnumFrom('src/interface.rs', 'ErrMsg'), EnumFrom('src/interface.rs', 'DivansOutputResult'), Const(M, 'REPEAT_BUFFER_MAX_SIZE'),
  StructFrom(M, 'RingBufferIndexState'),
  'pub struct State { pub ring_buffer: RingBuf, pub state: RingBufferIndexState }',
  SPEC, JOIN, 'impl State {',
  Fn(M, 'decode_space_left_in_ring_buffer', impl=IMPL, spec='requires self.wf() ensures r == self.space()'),
  Fn(M, 'flush', impl=IMPL, subs=SL, spec='''requires old(self).wf(), *old($2) <= old($1)@.len(), old(self).state.total_offset + old(self).pn() <= usize::MAX
     ensures emitted(*old(self), *final(self), final($1)@.subrange(*old($2) as int, *final($2) as int)),
       wrote(old($1)@, final($1)@, *old($2) as int, *final($2) as int, final($1)@.subrange(*old($2) as int, *final($2) as int)),
       r is Success <==> final(self).pn() == 0, r is Success || (r is NeedsMoreOutput && *final($2) == old($1)@.len())'''),
  Fn(M, 'copy_to_ring_buffer', impl=IMPL, subs=SL, spec='''requires old(self).wf(), $1@.len() < 0x1_0000_0000
     ensures r <= $1@.len(), r == if $1@.len() <= old(self).space() { $1@.len() as int } else { old(self).space() },
       appended(*old(self), *final(self), $1@.subrange(0, r as int)), final(self).sub() == old(self).sub()'''),
  Fn(M, 'copy_decoded_from_ring_buffer', impl=IMPL, subs=SL, spec='''requires self.wf(), old($1)@.len() == $3, $3 <= $2 <= self.L()
     ensures final($1)@ =~= self.win().subrange(self.L() - $2, self.L() - $2 + $3)'''),
  Fn(M, 'copy_some_decoded_from_ring_buffer_to_decoded', impl=IMPL, subs=SL, spec='''requires old(self).wf(), 0 < $1 < old(self).L(), $2 <= $1
     ensures r matches Ok(n) && n <= $2 && n <= old(self).space() && ($2 > 0 && old(self).space() > 0 ==> n > 0)
       && appended(*old(self), *final(self), old(self).win().subrange(old(self).L() - $1, old(self).L() - $1 + n)) && final(self).sub() == old(self).sub()''',
     ghost='let ghost s0 = *self; let ghost x0 = self.win();',
     before=[(r'self\.state\.ring_buffer_decode_index\s*\+=', '''proof {
        let n = self.ring_buffer.v@.len() as int; let r0 = s0.ring_buffer.v@; let x = x0.subrange(s0.L() - $1, s0.L() - $1 + trunc_amount_to_copy);
        assert(x =~= r0.subrange(src_distance_index as int, src_distance_index + trunc_amount_to_copy));
        assert(self.ring_buffer.v@ =~= r0.subrange(0, s0.d()) + x + r0.subrange(s0.d() + trunc_amount_to_copy, n));
     }'''), (r'Ok\(', '''proof { win_append(s0, *self, x0.subrange(s0.L() - $1, s0.L() - $1 + trunc_amount_to_copy)); }''')]),
  Fn(M, 'parse_literal', impl=IMPL, subs=SL, spec='''requires old(self).wf(), $1@.len() < 0x1_0000_0000, old(self).sub() <= $1@.len()
     ensures ({ let k = final(self).sub() - old(self).sub(); let c = $1@.subrange(old(self).sub(), $1@.len() as int);
       k >= 0 && k == (if c.len() <= old(self).space() { c.len() as int } else { old(self).space() }) && appended(*old(self), *final(self), c.subrange(0, k))
       && match r { DivansOutputResult::Success => k == c.len(), DivansOutputResult::NeedsMoreOutput => k < c.len() && k == old(self).space(), DivansOutputResult::Failure(_) => false } })'''),
  Fn(M, 'parse_copy', impl=IMPL, subs=SL, spec='''requires old(self).wf(), old(self).sub() <= $1.num_bytes
     ensures copied(*$1, *old(self), *final(self), r)''', start=START_COPY,
     ghost='let ghost s0 = *self; let ghost w0 = self.win(); let ghost dist = $1.distance as int; let ghost left = $1.num_bytes - self.sub();',
     before=[(r'for\s+\w+\s+in', '''proof {
          assert(num_repeat_iter * dist <= num_bytes_to_copy);
          assert(repeat_buffer@ =~= w0.subrange(s0.L() - dist, s0.L()));
          assert(rep(w0, dist, 0) =~= Seq::<u8>::empty()); assert(app(w0, Seq::<u8>::empty()) =~= w0);
          assert(0 * dist == 0);
          assert(appended(s0, *self, rep(w0, dist, 0)));
        }'''), (r'let\s+\w+\s*=\s*self\.copy_to_ring_buffer\(repeat_buffer\.split_at', '''proof {
           rep_tail(w0, dist, num_repeat_iter as nat, rem_bytes as nat);
           assert(repeat_buffer@.subrange(0, rem_bytes as int).subrange(0, rem_bytes as int) =~= w0.subrange(s0.L() - dist, s0.L() - dist + rem_bytes));
           app_app(w0, rep(w0, dist, (num_repeat_iter * dist) as nat), w0.subrange(s0.L() - dist, s0.L() - dist + rem_bytes)); }''')],
     loops=[('''invariant s0.wf(), forall|a: int| a >= 0 ==> (#[trigger] (a / dist)) * dist <= a < (a / dist) * dist + dist, 0 < dist <= 64, dist < s0.L(), dist == $1.distance, w0 == s0.win(), left == $1.num_bytes - s0.sub(), num_bytes_to_copy <= left, num_bytes_to_copy <= s0.space(),
          num_repeat_iter * dist <= num_bytes_to_copy, repeat_buffer@ =~= w0.subrange(s0.L() - dist, s0.L()), self.sub() == s0.sub() + $i * dist,
          appended(s0, *self, rep(w0, dist, ($i * dist) as nat)),''',
          '''proof { assert($i * dist + dist <= num_repeat_iter * dist && $i * dist >= 0 && ($i + 1) * dist == $i * dist + dist) by(nonlinear_arith) requires 0 <= $i < num_repeat_iter, dist > 0;
               rep_block(w0, dist, $i as nat); assert(repeat_buffer@.subrange(0, dist) =~= repeat_buffer@);
               app_app(w0, rep(w0, dist, ($i * dist) as nat), repeat_buffer@); }''')]),
  Fn(M, 'parse_dictionary', impl=IMPL, subs=SL + DS, start='let a = $1.word_id as int; let b = $1.word_size as int; assert(0 <= a < 122784 && 0 <= b < 25 ==> 0 <= a * b <= 3100000) by(nonlinear_arith);', spec='''requires old(self).wf(), mid(Command::Dict(*$1), *old(self))
     ensures parsed(Command::Dict(*$1), *old(self), *final(self), r)''',
     before=[(r'if\s+self\.decode_space_left_in_ring_buffer', '''proof {
        let a = OFFS()[$1.word_size as int] + $1.word_id * $1.word_size; let b = DICT().subrange(a, a + $1.word_size);
        assert(b.subrange(0, b.len() as int) =~= b);
        assert(transformed_word@.subrange(0, final_len as int) =~= dword(*$1));
        assert(transformed_word@.subrange(0, final_len as int).subrange(0, final_len as int) =~= dword(*$1));
     }''')]),
  Fn(M, 'parse_command', impl=IMPL, subs=SL + PAT, start='''let s = *self; if let Command::Copy(c) = $1 { let c = *c; assert forall|s2: State, r: DivansOutputResult| #[trigger] copied(c, s, s2, r) implies parsed(Command::Copy(c), s, s2, r) by { copied_parsed(c, s, s2, r); } }''', spec='''requires old(self).wf(), mid(*$1, *old(self))
     ensures parsed(*$1, *old(self), *final(self), r)'''),
  Fn(M, 'encode_cmd', impl=IMPL, subs=SL + PAT, spec='''requires old(self).wf(), mid(*$1, *old(self)), *old($3) <= old($2)@.len(),
       old(self).state.total_offset + old(self).pn() + rest(*$1, *old(self)).len() <= usize::MAX
     ensures ({ let x = final($2)@.subrange(*old($3) as int, *final($3) as int); let s = *old(self); let s2 = *final(self);
       wrote(old($2)@, final($2)@, *old($3) as int, *final($3) as int, x) && s2.wf() && s2.L() == s.L()
       && match r {
         DivansOutputResult::Success => !bad(*$1, s.L()) && s2.sub() == 0 && x + s2.pend() =~= s.pend() + rest(*$1, s) && s2.win() =~= app(s.win(), rest(*$1, s)),
         DivansOutputResult::NeedsMoreOutput => *final($3) == old($2)@.len() && mid(*$1, s2) && x + (s2.pend() + rest(*$1, s2)) =~= s.pend() + rest(*$1, s)
             && app(s2.win(), rest(*$1, s2)) =~= app(s.win(), rest(*$1, s)),
         DivansOutputResult::Failure(_) => bad(*$1, s.L()),
       } })''',
     attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
     ghost='let ghost s0 = *self; let ghost o0 = $2@; let ghost off0 = *$3 as int; let ghost total = self.pend() + rest(*$1, *self);',
     start='''let off0 = *$3 as int; assert($2@.subrange(off0, off0) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty() + (self.pend() + rest(*$1, *self)) =~= self.pend() + rest(*$1, *self)); join_writes($2@, off0); emitted_rest(*$1);''',
     loops=[('''invariant_except_break
          wrote(o0, $2@, off0, *$3 as int, $2@.subrange(off0, *$3 as int)), self.wf(), self.L() == s0.L(), mid(*$1, *self),
          $2@.subrange(off0, *$3 as int) + (self.pend() + rest(*$1, *self)) =~= total, app(self.win(), rest(*$1, *self)) =~= app(s0.win(), rest(*$1, s0)),
          self.state.total_offset + self.pn() + rest(*$1, *self).len() <= usize::MAX,
        ensures
          wrote(o0, $2@, off0, *$3 as int, $2@.subrange(off0, *$3 as int)), self.wf(), self.L() == s0.L(), mid(*$1, *self), !bad(*$1, s0.L()), rest(*$1, *self) =~= Seq::<u8>::empty(),
          $2@.subrange(off0, *$3 as int) + self.pend() =~= total, self.win() =~= app(s0.win(), rest(*$1, s0)),
          self.state.total_offset + self.pn() <= usize::MAX,
        decreases rest(*$1, *self).len(), self.pn(),''')]),
  Fn(M, 'encode_commands', impl='Compressor for DivansRecodeState', subs=SL + PAT + [(r'for\s+(\w+)\s+in\s+([^{]*?)\.iter\(\)\s*\{', r'let cmds_ = \2; for ii in 0..cmds_.len() { let \1 = &cmds_[ii];')],
     psubs=[(r'SliceType', '')],
     attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
     spec='''requires old(self).wf(), all_ok($1@), list_mid($1@, *old($2) as int, *old(self)), *old($4) <= old($3)@.len(),
       old(self).state.total_offset + left($1@, *old($2) as int, *old(self)).len() <= usize::MAX
     ensures ({ let x = final($3)@.subrange(*old($4) as int, *final($4) as int); let s = *old(self); let s2 = *final(self);
       wrote(old($3)@, final($3)@, *old($4) as int, *final($4) as int, x) && s2.wf() && s2.L() == s.L()
       && match r {
         DivansOutputResult::Success => *final($2) == $1@.len() && s2.pn() == 0 && x + left($1@, *final($2) as int, s2) =~= left($1@, *old($2) as int, s),
         DivansOutputResult::NeedsMoreOutput => *final($4) == old($3)@.len() && *final($2) <= $1@.len() && list_mid($1@, *final($2) as int, s2) && x + left($1@, *final($2) as int, s2) =~= left($1@, *old($2) as int, s),
         DivansOutputResult::Failure(_) => *old($2) > $1@.len() || (*final($2) < $1@.len() && bad($1@[*final($2) as int], s.L())),
       } })''',
     ghost='let ghost s0 = *self; let ghost o0 = $3@; let ghost off0 = *$4 as int; let ghost i0 = *$2 as int; let ghost total = left($1@, *$2 as int, *self); let ghost cs = $1@;',
     start='''let off0 = *$4 as int; assert($3@.subrange(off0, off0) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty() + left($1@, *$2 as int, *self) =~= left($1@, *$2 as int, *self)); join_writes($3@, off0); list_facts($1@);''',
     loops=[('''invariant i0 <= cs.len(), cmds_@ == cs.subrange(i0, cs.len() as int), *$2 == i0 + $i, *$2 <= cs.len(),
          wrote(o0, $3@, off0, *$4 as int, $3@.subrange(off0, *$4 as int)), self.wf(), self.L() == s0.L(), list_mid(cs, *$2 as int, *self),
          $3@.subrange(off0, *$4 as int) + left(cs, *$2 as int, *self) =~= total, self.state.total_offset + left(cs, *$2 as int, *self).len() <= usize::MAX,''',
          ''),
       ('''invariant_except_break list_mid(cs, *$2 as int, *self),
          $3@.subrange(off0, *$4 as int) + left(cs, *$2 as int, *self) =~= total, self.state.total_offset + left(cs, *$2 as int, *self).len() <= usize::MAX,
        invariant *$2 == i0 + ii, *$2 < cs.len(), *cmd == cs[*$2 as int],
          wrote(o0, $3@, off0, *$4 as int, $3@.subrange(off0, *$4 as int)), self.wf(), self.L() == s0.L(),
        ensures self.sub() == 0, list_mid(cs, *$2 + 1, *self), $3@.subrange(off0, *$4 as int) + left(cs, *$2 + 1, *self) =~= total, self.state.total_offset + left(cs, *$2 + 1, *self).len() <= usize::MAX,
        decreases rest(*cmd, *self).len(), self.pn(),''', '')]),
  '}',
]
