"""R17: the C interface's allocator returns every block of the caller's exactly once, and nothing else."""
from vextract import Fn
from u05 import StructFrom
AU = 'src/ffi/alloc_util.rs'; MO = 'src/ffi/mod.rs'; IF = 'src/ffi/interface.rs'; CO = 'src/ffi/compressor.rs'; DE = 'src/ffi/decompressor.rs'
# The heap is a ghost ledger, threaded through as one extra parameter: which blocks of the caller's are out (with their size in bytes, the opaque
# pointer they were requested with and the cells written so far), which blocks belong to Rust's own allocator, and which states live where.
HEAP = r'''
#[derive(Clone, Copy)] pub struct Opq { pub a: Ghost<int> }
#[derive(Clone, Copy)] pub struct Ptr { pub a: Ghost<int> }
#[derive(Clone, Copy)] pub struct AllocFn { pub a: Ghost<int> }
#[derive(Clone, Copy)] pub struct FreeFn { pub a: Ghost<int> }
impl CAllocator { #[verifier::external_body] fn clone(&self) -> (r: CAllocator) ensures r == *self { unimplemented!() } }
#[verifier::external_body] fn null_mut() -> (r: Opq) { unimplemented!() }
pub struct Ty {}
pub uninterp spec fn dv() -> Ty;
// size_of::<Ty>() and size_of::<state>(): any positive numbers
pub uninterp spec fn SZ() -> usize;
pub uninterp spec fn SZS() -> usize;
#[verifier::external_body] fn ty_default() -> (r: Ty) ensures r == dv() { unimplemented!() }
#[verifier::external_body] fn size_of_ty() -> (r: usize) ensures r == SZ(), r > 0 { unimplemented!() }
#[verifier::external_body] fn size_of_state() -> (r: usize) ensures r == SZS(), r > 0 { unimplemented!() }
pub fn same<A>(a: A) -> (r: A) ensures r == a { a }
pub fn as_ptr(a: RawS) -> (r: Ptr) ensures r.a == a.a { Ptr { a: a.a } }
pub struct RawS { pub a: Ghost<int>, pub n: usize }
// a box: the address it owns and its length; a box of length 0 owns nothing
pub struct BoxS { pub a: Ghost<int>, pub n: usize }
impl BoxS {
  fn len(&self) -> (r: usize) ensures r == self.n { self.n }
  #[verifier::external_body] fn as_mut_ptr(&self) -> (r: Ptr) ensures r.a == self.a { unimplemented!() }
}
#[verifier::external_body] fn empty_box() -> (r: BoxS) ensures r.n == 0 { unimplemented!() }
#[verifier::external_body] fn into_raw(b: BoxS) -> (r: RawS) ensures r.a == b.a, r.n == b.n { unimplemented!() }
#[verifier::external_body] fn replace<A>(x: &mut A, y: A) -> (r: A) ensures r == *old(x), *final(x) == y { unimplemented!() }
#[verifier::external_body] fn forget<A>(x: A) { }
pub struct Blk { pub bytes: int, pub by: Opq, pub cells: Seq<Option<Ty>> }
pub struct Heap { pub user: Ghost<Map<int, Blk>>, pub std: Ghost<Map<int, int>>, pub st: Ghost<Map<int, State>>, pub freed: Ghost<nat>, pub got: Ghost<nat> }
impl Heap {
  pub open spec fn u(self) -> Map<int, Blk> { self.user@ }
  pub open spec fn s(self) -> Map<int, int> { self.std@ }
  // a call of the caller's functions
  #[verifier::external_body] fn alloc(&mut self, f: AllocFn, o: Opq, n: usize) -> (r: Ptr)
    ensures !old(self).u().contains_key(r.a@), !old(self).s().contains_key(r.a@), !old(self).st@.contains_key(r.a@), final(self).std == old(self).std, final(self).st == old(self).st, final(self).freed == old(self).freed, final(self).got@ == old(self).got@ + 1,
      exists|c: Seq<Option<Ty>>| final(self).u() == old(self).u().insert(r.a@, Blk { bytes: n as int, by: o, cells: c }) && forall|j: int| 0 <= j < c.len() ==> c[j] is None { unimplemented!() }
  // only a block that is out, and that came from the same allocator, may be given back
  #[verifier::external_body] fn free(&mut self, f: FreeFn, o: Opq, p: Ptr)
    requires old(self).u().contains_key(p.a@), old(self).u()[p.a@].by == o
    ensures final(self).u() == old(self).u().remove(p.a@), final(self).std == old(self).std, final(self).st@ == old(self).st@.remove(p.a@), final(self).freed@ == old(self).freed@ + 1, final(self).got == old(self).got { unimplemented!() }
  #[verifier::external_body] fn slice(&mut self, p: Ptr, n: usize) -> (r: RawS)
    requires n == 0 || (old(self).u().contains_key(p.a@) && n * SZ() <= old(self).u()[p.a@].bytes) || (old(self).s().contains_key(p.a@) && old(self).s()[p.a@] == n)
    ensures r.a == p.a, r.n == n, final(self).std == old(self).std, final(self).st == old(self).st, final(self).freed == old(self).freed, final(self).got == old(self).got,
      old(self).s().contains_key(p.a@) || n == 0 ==> final(self).user == old(self).user,
      n != 0 && !old(self).s().contains_key(p.a@) ==> exists|c: Seq<Option<Ty>>| c.len() == n && final(self).u() == old(self).u().insert(p.a@, Blk { cells: c, ..old(self).u()[p.a@] }) { unimplemented!() }
  #[verifier::external_body] fn put(&mut self, x: &RawS, i: usize, v: Ty)
    requires i < x.n, old(self).u().contains_key(x.a@), x.n == old(self).u()[x.a@].cells.len()
    ensures final(self).u() == old(self).u().insert(x.a@, Blk { cells: old(self).u()[x.a@].cells.update(i as int, Some(v)), ..old(self).u()[x.a@] }), final(self).std == old(self).std, final(self).st == old(self).st, final(self).freed == old(self).freed, final(self).got == old(self).got { unimplemented!() }
  // Box::from_raw: every cell has been written
  #[verifier::external_body] fn boxed(&mut self, x: RawS) -> (r: BoxS)
    requires (old(self).u().contains_key(x.a@) && old(self).u()[x.a@].cells.len() == x.n && forall|j: int| 0 <= j < x.n ==> old(self).u()[x.a@].cells[j] is Some) || (old(self).s().contains_key(x.a@) && old(self).s()[x.a@] == x.n) || x.n == 0
    ensures r.a == x.a, r.n == x.n, *final(self) == *old(self) { unimplemented!() }
  #[verifier::external_body] fn std_vec(&mut self, n: usize) -> (r: BoxS)
    ensures r.n == n, final(self).user == old(self).user, final(self).st == old(self).st, final(self).freed == old(self).freed, final(self).got == old(self).got, n == 0 ==> final(self).std == old(self).std,
      n != 0 ==> !old(self).s().contains_key(r.a@) && !old(self).u().contains_key(r.a@) && !old(self).st@.contains_key(r.a@) && final(self).s() == old(self).s().insert(r.a@, n as int) { unimplemented!() }
  // dropping a box gives its block to Rust's allocator, which must own it
  #[verifier::external_body] fn drop_box(&mut self, b: BoxS)
    requires b.n != 0 ==> old(self).s().contains_key(b.a@) && old(self).s()[b.a@] == b.n
    ensures final(self).user == old(self).user, final(self).st == old(self).st, final(self).freed == old(self).freed, final(self).got == old(self).got, b.n == 0 ==> final(self).std == old(self).std, b.n != 0 ==> final(self).s() == old(self).s().remove(b.a@) { unimplemented!() }
}
'''
CALLOC = StructFrom(IF, 'CAllocator', [(r'extern "C" fn\(data: \*mut c_void, size: usize\) -> \*mut c_void', 'AllocFn'), (r'extern "C" fn\(data: \*mut c_void, ptr: \*mut c_void\) -> \(\)', 'FreeFn'), (r'\*mut c_void', 'Opq')])
MB = [(r'\bunsafe\s*\{', '{'), (r'core::mem::transmute::<[^()]*>', 'same'), (r'core::slice::from_raw_parts_mut', 'heap.slice'), (r'(?<!slice::)(?<!heap\.)\bslice::from_raw_parts_mut', 'heap.slice'),
      (r'\balloc_fn\(', 'heap.alloc(alloc_fn, '), (r'\bfree_fn\(', 'heap.free(free_fn, '), (r'core::mem::size_of::<(?:Ty|usize)>\(\)', 'size_of_ty()'),
      (r'for item in (\w+)\.iter_mut\(\) \{\s*\{\s*core::ptr::write\(item, ([^;]*)\)\};\s*\}', r'let mut ii: usize = 0; while ii < \1.n { heap.put(&\1, ii, \2); ii += 1; }'),
      (r'\b(?:Ty|T)::default\(\)', 'ty_default()'), (r'vec!\[ty_default\(\);\s*(\w+)\]\.into_boxed_slice\(\)', r'heap.std_vec(\1)'), (r'Vec::<Ty>::new\(\)\.into_boxed_slice\(\)', 'empty_box()'),
      (r'Box::from_raw', 'heap.boxed'), (r'Box::into_raw', 'into_raw'), (r'core::mem::replace', 'replace'), (r'core::mem::forget', 'forget'), (r'\(\*(\w+)\.0\)', r'\1.0'), (r'print!\([^;]*\);', ''),
      # what an unnamed or underscored box binding owns is dropped
      (r'let (_\w*) = (replace\(&mut bv\.0, empty_box\(\)\));', r'let \1 = \2; heap.drop_box(\1);'), (r'(?<=[;{}])(\s*)(replace\(&mut bv\.0, empty_box\(\)\));', r'\1heap.drop_box(\2);'), (r'(?<=[;{}])(\s*)bv\.0 = ([^;]*);', r'\1let newb = \2; heap.drop_box(replace(&mut bv.0, newb));'),
      (r'MemoryBlock<Ty>', 'MemoryBlock'), (r'SubclassableAllocator(?:::)?<Ty>', 'SubclassableAllocator'), (r'_ty:core::marker::PhantomData::<Ty>::default\(\),', ''), (r'\bSelf\b', 'SubclassableAllocator')]
HP = 'heap: &mut Heap'
OWN = r'''
pub struct MemoryBlock(pub BoxS);
pub struct SubclassableAllocator { pub alloc: CAllocator }
// the block a cell holds belongs to the allocator it came from
pub open spec fn mine(a: CAllocator, b: MemoryBlock, h: Heap) -> bool {
  b.0.n != 0 ==> (if a.alloc_func is Some { h.u().contains_key(b.0.a@) && h.u()[b.0.a@].by == a.opaque } else { h.s().contains_key(b.0.a@) && h.s()[b.0.a@] == b.0.n })
}
'''
STATE0 = 'pub struct State {}\n'
A = [CALLOC, HEAP, STATE0, OWN, 'impl MemoryBlock {',
 Fn(AU, 'default', r'^impl<.*> Default for MemoryBlock<', subs=MB[:-1] + [(r'\bSelf\b', 'MemoryBlock')], spec='ensures r.0.n == 0'),
 # dropping a cell never hands anything to Rust's allocator: what is not empty is leaked
 Fn(AU, 'drop', r'^impl<.*> Drop for MemoryBlock<', subs=MB, rename='drop_glue', spec='ensures final(self).0.n == 0'),
 '}', 'impl SubclassableAllocator {',
 Fn(AU, 'new', r'^impl<.*> SubclassableAllocator<', subs=MB, spec='ensures r.alloc == $1'),
 Fn(AU, 'alloc_cell', r'^impl<.*> alloc::Allocator<Ty> for SubclassableAllocator<', subs=MB, extra=HP, spec='''requires $1 * SZ() <= usize::MAX
    ensures r.0.n == $1, final(self).alloc == old(self).alloc, mine(final(self).alloc, r, *final(heap)), final(heap).st == old(heap).st, final(heap).freed == old(heap).freed,
      old(self).alloc.alloc_func is None ==> final(heap).user == old(heap).user && final(heap).got == old(heap).got,
      old(self).alloc.alloc_func is Some ==> final(heap).std == old(heap).std,
      $1 == 0 ==> final(heap).user == old(heap).user && final(heap).std == old(heap).std && final(heap).got == old(heap).got,
      // exactly one fresh block, of the right size, every cell of it the default value
      (old(self).alloc.alloc_func is Some && $1 != 0) ==> final(heap).got@ == old(heap).got@ + 1 && !old(heap).u().contains_key(r.0.a@) && final(heap).u().contains_key(r.0.a@) && final(heap).u().remove(r.0.a@) =~= old(heap).u()
        && final(heap).u()[r.0.a@].bytes == $1 * SZ() && final(heap).u()[r.0.a@].by == old(self).alloc.opaque && final(heap).u()[r.0.a@].cells =~= Seq::new($1 as nat, |j: int| Some(dv()))''',
    before=[(r'let mut ii: usize', 'let ghost k = *heap; let ghost a0 = slice_ref.a@;')],
    loops=['''invariant ii <= slice_ref.n, slice_ref.n == $1, slice_ref.a@ == a0, heap.u().contains_key(a0), heap.u()[a0].cells.len() == slice_ref.n, heap.u()[a0].bytes == k.u()[a0].bytes, heap.u()[a0].by == k.u()[a0].by, heap.u().remove(a0) =~= k.u().remove(a0), heap.std == k.std, heap.st == k.st, heap.freed == k.freed, heap.got == k.got,
      forall|j: int| 0 <= j < ii ==> heap.u()[a0].cells[j] == Some(dv()) ensures ii == slice_ref.n decreases slice_ref.n - ii''']),
 Fn(AU, 'free_cell', r'^impl<.*> alloc::Allocator<Ty> for SubclassableAllocator<', subs=MB, extra=HP, spec='''requires mine(old(self).alloc, $1, *old(heap))
    ensures final(self).alloc == old(self).alloc, final(heap).got == old(heap).got,
      $1.0.n == 0 ==> *final(heap) == *old(heap),
      $1.0.n != 0 && old(self).alloc.alloc_func is None ==> final(heap).user == old(heap).user && final(heap).freed == old(heap).freed && final(heap).s() =~= old(heap).s().remove($1.0.a@),
      // given back exactly once, and nothing else; without a free function the caller keeps its blocks
      $1.0.n != 0 && old(self).alloc.alloc_func is Some && old(self).alloc.free_func is Some ==> final(heap).u() =~= old(heap).u().remove($1.0.a@) && final(heap).freed@ == old(heap).freed@ + 1 && final(heap).std == old(heap).std,
      $1.0.n != 0 && old(self).alloc.alloc_func is Some && old(self).alloc.free_func is None ==> *final(heap) == *old(heap)'''),
 '}']

R17A = A
# ---- the functions of the C interface; a state behind a pointer lives in the ledger too, so that it cannot be read once its block is gone
STATES = r"""
pub open spec fn held(s: State, h: Heap) -> bool {
  s.wf() && if s.custom_allocator.alloc_func is Some { forall|a: int| #[trigger] s.owned().contains(a) ==> h.u().contains_key(a) && h.u()[a].by == s.custom_allocator.opaque && !h.st@.contains_key(a) }
  else { forall|a: int| #[trigger] s.owned().contains(a) ==> h.s().contains_key(a) && !h.st@.contains_key(a) }
}
// a live state at p
pub open spec fn at(p: Ptr, h: Heap) -> bool {
  h.st@.contains_key(p.a@) && held(h.st@[p.a@], h) && !h.st@[p.a@].owned().contains(p.a@)
  && (if h.st@[p.a@].custom_allocator.alloc_func is Some { h.u().contains_key(p.a@) && h.u()[p.a@].by == h.st@[p.a@].custom_allocator.opaque } else { h.s().contains_key(p.a@) })
}
pub open spec fn ca(p: Ptr, h: Heap) -> CAllocator { h.st@[p.a@].custom_allocator }
impl Heap {
  #[verifier::external_body] fn at(&self, p: Ptr) -> (r: &State) requires self.st@.contains_key(p.a@) ensures *r == self.st@[p.a@] { unimplemented!() }
  #[verifier::external_body] fn read(&self, p: Ptr) -> (r: State) requires self.st@.contains_key(p.a@) ensures r == self.st@[p.a@] { unimplemented!() }
  // core::ptr::write: the block is out and large enough
  #[verifier::external_body] fn write(&mut self, p: Ptr, s: State) requires old(self).u().contains_key(p.a@), old(self).u()[p.a@].bytes >= SZS()
    ensures final(self).st@ == old(self).st@.insert(p.a@, s), final(self).user == old(self).user, final(self).std == old(self).std, final(self).got == old(self).got, final(self).freed == old(self).freed { unimplemented!() }
  #[verifier::external_body] fn box_state(&mut self, s: State) -> (r: Ptr)
    ensures !old(self).u().contains_key(r.a@), !old(self).s().contains_key(r.a@), !old(self).st@.contains_key(r.a@), final(self).st@ == old(self).st@.insert(r.a@, s), final(self).user == old(self).user, final(self).s() == old(self).s().insert(r.a@, 1), final(self).got == old(self).got, final(self).freed == old(self).freed { unimplemented!() }
  #[verifier::external_body] fn std_free(&mut self, p: Ptr) requires old(self).s().contains_key(p.a@)
    ensures final(self).s() == old(self).s().remove(p.a@), final(self).st@ == old(self).st@.remove(p.a@), final(self).user == old(self).user, final(self).got == old(self).got, final(self).freed == old(self).freed { unimplemented!() }
  // dropping a Box of a state: its Drop, then the memory
  fn drop_boxed(&mut self, p: Ptr) requires at(p, *old(self)), ca(p, *old(self)).alloc_func is None
    ensures final(self).user == old(self).user, final(self).s() =~= old(self).s().remove_keys(old(self).st@[p.a@].owned()).remove(p.a@)
  { let s = self.read(p); drop_state(s, self); self.std_free(p); }
}
fn drop_state(s: State, heap: &mut Heap) requires held(s, *old(heap))
  ensures s.custom_allocator.alloc_func is Some ==> final(heap).std == old(heap).std && (if s.custom_allocator.free_func is Some { final(heap).u() =~= old(heap).u().remove_keys(s.owned()) } else { final(heap).user == old(heap).user }),
    s.custom_allocator.alloc_func is None ==> final(heap).user == old(heap).user && final(heap).s() =~= old(heap).s().remove_keys(s.owned()), final(heap).st == old(heap).st
{ let mut t = s; t.drop_glue(heap); }
"""
INNER = r"""
// the compressor or decompressor inside a state: the blocks it holds. That it hands back exactly these through its allocators is assumed here
// (free_cell above is what it hands them back with) and searched natively over whole sessions.
pub struct Inner { pub own: Ghost<Set<int>>, pub by: CAllocator }
impl Inner {
  #[verifier::external_body] fn free_ref(&mut self, heap: &mut Heap)
    requires old(self).by.alloc_func is Some ==> forall|a: int| #[trigger] old(self).own@.contains(a) ==> old(heap).u().contains_key(a) && old(heap).u()[a].by == old(self).by.opaque,
      old(self).by.alloc_func is None ==> forall|a: int| #[trigger] old(self).own@.contains(a) ==> old(heap).s().contains_key(a)
    ensures final(heap).st == old(heap).st,
      old(self).by.alloc_func is Some ==> final(heap).std == old(heap).std && (if old(self).by.free_func is Some { final(heap).u() == old(heap).u().remove_keys(old(self).own@) } else { final(heap).user == old(heap).user }),
      old(self).by.alloc_func is None ==> final(heap).user == old(heap).user && final(heap).s() == old(heap).s().remove_keys(old(self).own@) { unimplemented!() }
}
"""
CSTATE = r"""
pub struct Opts {}
impl Opts { #[verifier::external_body] fn default() -> (r: Opts) { unimplemented!() } }
pub type State = DivansCompressorState;
impl DivansCompressorState {
  pub open spec fn owned(self) -> Set<int> { match self.compressor { CompressorState::OptionStage(_) => Set::empty(), CompressorState::BrotliCompressor(c) => c.own@, CompressorState::InternalCompressor(c) => c.own@ } }
  pub open spec fn wf(self) -> bool { match self.compressor { CompressorState::OptionStage(_) => true, CompressorState::BrotliCompressor(c) => c.by == self.custom_allocator, CompressorState::InternalCompressor(c) => c.by == self.custom_allocator } }
}
"""
DSTATE = r"""
pub type State = DivansDecompressorState;
impl DivansDecompressorState {
  pub open spec fn owned(self) -> Set<int> { self.decompressor.own@ }
  pub open spec fn wf(self) -> bool { self.decompressor.by == self.custom_allocator }
}
#[verifier::external_body] fn new_inner(a: SubclassableAllocator, b: SubclassableAllocator, c: SubclassableAllocator, skip_crc: bool, multithread: bool, heap: &mut Heap) -> (r: Inner)
  requires a.alloc == b.alloc, b.alloc == c.alloc
  ensures r.by == a.alloc, final(heap).st == old(heap).st, r.own@.disjoint(old(heap).u().dom()), r.own@.disjoint(old(heap).s().dom()), r.own@.disjoint(old(heap).st@.dom()),
    a.alloc.alloc_func is Some ==> final(heap).std == old(heap).std && final(heap).u().dom() == old(heap).u().dom().union(r.own@) && final(heap).u().remove_keys(r.own@) == old(heap).u() && (forall|x: int| #[trigger] r.own@.contains(x) ==> final(heap).u()[x].by == a.alloc.opaque),
    a.alloc.alloc_func is None ==> final(heap).user == old(heap).user && final(heap).got == old(heap).got && final(heap).s().dom() == old(heap).s().dom().union(r.own@) && final(heap).s().remove_keys(r.own@) == old(heap).s() { unimplemented!() }
"""

def cs(which):
    S = 'DivansCompressorState' if which == 'compressor' else 'DivansDecompressorState'
    subs = [(r'\b(?:unsafe\s+)?extern\b', ''), (r'\bunsafe\s*\{', '{'), (r'core::mem::transmute::<[^()]*>', 'same'), (r'\*mut (?:u8|usize|T|c_void|(?:\w+::)?' + S + r')\b', 'Ptr'),
       (r'core::mem::size_of::<(?:\w+::)*' + S + r'>\(\)', 'size_of_state()'), (r'core::mem::size_of::<(?:usize|T)>\(\)', 'size_of_ty()'),
       (r'\balloc_fn\(', 'heap.alloc(alloc_fn, '), (r'\bfree_fn\(', 'heap.free(free_fn, '), (r'\(\*(\w+)\)', r'heap.at(\1)'), (r'alloc_util::(alloc_stdlib|free_stdlib)\(', r'\1(heap, '),
       (r'core::ptr::null_mut\(\)', 'null_mut()'), (r'core::ptr::write', 'heap.write'), (r'\b(\w+_(?:with|without)_custom_alloc|free_(?:de)?compressor_no_custom_alloc)\(', r'\1(heap, '),
       (r'alloc_util::Box::<\w+>::into_raw', 'same'), (r'alloc_util::Box::<\w+>::new', 'heap.box_state'),
       (r'let _\w* = alloc_util::Box::from_raw\((\w+)\);', r'heap.drop_boxed(\1);'), (r'(?:core::mem::)?drop\(alloc_util::Box::from_raw\((\w+)\)\);', r'heap.drop_boxed(\1);'), (r'(?<=[;{])(\s*)alloc_util::Box::from_raw\((\w+)\);', r'\1heap.drop_boxed(\2);'),
       # a state bound to an underscored name is dropped at the end of its scope
       (r'(?s)let (_\w+) = core::ptr::read\((\w+)\);([^{}]*)\}', r'let \1 = heap.read(\2);\3 drop_state(\1, heap); }'), (r'(?:core::mem::)?\bdrop\(core::ptr::read\((\w+)\)\)', r'drop_state(heap.read(\1), heap)'),
       (r'compressor::CompressorState::default\(\)', 'CompressorState::default()'), (r'decompressor::DecompressorFactory::new\(', 'new_inner('), (r'(multithread != 0,?\s*)\)', r'\1 heap)'),
       (r'SubclassableAllocator::<[\w:]+>::new', 'SubclassableAllocator::new'), (r'\bdecompressor:new_inner', 'decompressor: new_inner')]
    BOX = [(r'\bunsafe\s*\{', '{'), (r'\*mut T\b', 'Ptr'), (r'core::slice::from_raw_parts_mut', 'heap.slice'), (r'T::default\(\)', 'ty_default()'), (r'vec!\[ty_default\(\);\s*(\w+)\]\.into_boxed_slice\(\)', r'heap.std_vec(\1)'), (r'Box::into_raw', 'into_raw'),
       (r'(?:(?<=[;{])(\s*)|let _\w* = |(?:core::mem::)?drop\()Box::from_raw\((\w+)\)\)?;', r'\1 let bx = heap.boxed(\2); heap.drop_box(bx);')]
    G = 'final(heap).st == old(heap).st'
    def malloc(n, sz): return Fn(MO, 'divans_%s_malloc_%s' % (which, n), subs=subs, extra=HP, spec="""requires at($1, *old(heap)), $2 * SZ() <= usize::MAX
      ensures final(heap).st == old(heap).st, final(heap).freed == old(heap).freed,
        ca($1, *old(heap)).alloc_func is Some ==> final(heap).std == old(heap).std && final(heap).got@ == old(heap).got@ + 1 && !old(heap).u().contains_key(r.a@) && final(heap).u().contains_key(r.a@) && final(heap).u().remove(r.a@) =~= old(heap).u() && final(heap).u()[r.a@].by == ca($1, *old(heap)).opaque && final(heap).u()[r.a@].bytes >= $2 * %s,
        ca($1, *old(heap)).alloc_func is None ==> final(heap).user == old(heap).user && final(heap).got == old(heap).got && ($2 != 0 ==> !old(heap).s().contains_key(r.a@) && final(heap).s() =~= old(heap).s().insert(r.a@, $2 as int))""" % sz)
    def free(n): return Fn(MO, 'divans_%s_free_%s' % (which, n), subs=subs, extra=HP, spec="""requires at($1, *old(heap)), !old(heap).st@.contains_key($2.a@), !old(heap).st@[$1.a@].owned().contains($2.a@),
        // the block came from the matching malloc
        ca($1, *old(heap)).alloc_func is Some ==> old(heap).u().contains_key($2.a@) && old(heap).u()[$2.a@].by == ca($1, *old(heap)).opaque,
        ca($1, *old(heap)).alloc_func is None && $3 != 0 ==> old(heap).s().contains_key($2.a@) && old(heap).s()[$2.a@] == $3
      ensures final(heap).st@ =~= old(heap).st@, final(heap).got == old(heap).got,
        ca($1, *old(heap)).alloc_func is Some ==> final(heap).std == old(heap).std && (if ca($1, *old(heap)).free_func is Some { final(heap).freed@ == old(heap).freed@ + 1 && final(heap).u() =~= old(heap).u().remove($2.a@) } else { final(heap).user == old(heap).user && final(heap).freed == old(heap).freed }),
        // without a caller's allocator none of the caller's functions is called
        ca($1, *old(heap)).alloc_func is None ==> final(heap).user == old(heap).user && final(heap).freed == old(heap).freed && ($3 != 0 ==> final(heap).s() =~= old(heap).s().remove($2.a@)) && ($3 == 0 ==> final(heap).std == old(heap).std)""")
    NEW = """!old(heap).st@.contains_key(r.a@) && at(r, *final(heap)) && ca(r, *final(heap)) == %s && final(heap).st@ =~= old(heap).st@.insert(r.a@, final(heap).st@[r.a@])"""
    FRESH = """(%s.alloc_func is Some ==> final(heap).std == old(heap).std && !old(heap).u().contains_key(r.a@) && final(heap).u()[r.a@].bytes == SZS() && final(heap).u().remove_keys(final(heap).st@[r.a@].owned()).remove(r.a@) =~= old(heap).u())
        && (%s.alloc_func is None ==> final(heap).user == old(heap).user && final(heap).s().remove_keys(final(heap).st@[r.a@].owned()).remove(r.a@) =~= old(heap).s())"""
    NONE = 'ca(r, *final(heap)).alloc_func is None && !old(heap).st@.contains_key(r.a@) && at(r, *final(heap)) && final(heap).user == old(heap).user && final(heap).got == old(heap).got'
    u = [CALLOC, HEAP, OWN, INNER, CSTATE if which == 'compressor' else DSTATE]
    if which == 'compressor':
        from u05 import EnumFrom
        def en(src):
            import re
            return re.sub(r'#\[derive\(Clone, Copy\)\]', '', re.sub(r'FFI\w+', 'Inner', re.sub('DivansCompressorOptions', 'Opts', EnumFrom(CO, 'CompressorState')(src))))
        u += [en, StructFrom(CO, S), 'impl CompressorState {', Fn(CO, 'default', r'^impl Default for CompressorState', subs=[('DivansCompressorOptions', 'Opts'), (r'\bSelf\b', 'CompressorState')], spec='ensures r is OptionStage'), '}']
        DROP = [(r'(\w+)\.free_ref\(\)', r'\1.free_ref(heap)')]
    else:
        def st(src):
            import re
            from vextract import match, Lost
            t = src.get(DE); m = re.search(r'struct DivansDecompressorState \{\s*(pub custom_allocator: CAllocator),\s*(pub decompressor): ::DivansDecompressor<', t)
            if not m: raise Lost('DivansDecompressorState')
            return 'pub struct DivansDecompressorState { %s, %s: Inner }' % (m.group(1), m.group(2))
        u += [st]
        DROP = [(r'(\w+)\.free_ref\(\)', r'\1.free_ref(heap)')]
    FREED = """ensures ca($1, *old(heap)).alloc_func is Some ==> final(heap).std == old(heap).std && (if ca($1, *old(heap)).free_func is Some { final(heap).u() =~= old(heap).u().remove_keys(old(heap).st@[$1.a@].owned()).remove($1.a@) } else { final(heap).user == old(heap).user }),
        ca($1, *old(heap)).alloc_func is None ==> final(heap).user == old(heap).user && final(heap).s() =~= old(heap).s().remove_keys(old(heap).st@[$1.a@].owned()).remove($1.a@)"""
    u += ['impl %s {' % S, Fn(CO if which == 'compressor' else DE, 'drop', r'^impl Drop for ' + S, subs=DROP, extra=HP, rename='drop_glue', start='let ow = self.owned(); assert(forall|a: int| #[trigger] self.owned().contains(a) <==> ow.contains(a));', spec="""requires held(*old(self), *old(heap))
      ensures old(self).custom_allocator.alloc_func is Some ==> final(heap).std == old(heap).std && (if old(self).custom_allocator.free_func is Some { final(heap).u() =~= old(heap).u().remove_keys(old(self).owned()) } else { final(heap).user == old(heap).user }),
        old(self).custom_allocator.alloc_func is None ==> final(heap).user == old(heap).user && final(heap).s() =~= old(heap).s().remove_keys(old(self).owned()), final(heap).st == old(heap).st"""), '}', STATES,
      'impl SubclassableAllocator {', Fn(AU, 'new', r'^impl<.*> SubclassableAllocator<', subs=MB, spec='ensures r.alloc == $1'), '}',
      Fn(AU, 'alloc_stdlib', nth=1, subs=BOX, extra=HP, spec="""ensures final(heap).user == old(heap).user, final(heap).st == old(heap).st, final(heap).got == old(heap).got, final(heap).freed == old(heap).freed, $1 == 0 ==> final(heap).std == old(heap).std,
        $1 != 0 ==> !old(heap).s().contains_key(r.a@) && final(heap).s() =~= old(heap).s().insert(r.a@, $1 as int)"""),
      Fn(AU, 'free_stdlib', nth=1, subs=BOX, extra=HP, spec="""requires $2 != 0 ==> old(heap).s().contains_key($1.a@) && old(heap).s()[$1.a@] == $2
        ensures final(heap).user == old(heap).user, final(heap).st == old(heap).st, final(heap).got == old(heap).got, final(heap).freed == old(heap).freed, $2 == 0 ==> final(heap).std == old(heap).std, $2 != 0 ==> final(heap).s() =~= old(heap).s().remove($1.a@)"""),
      Fn(MO, 'divans_new_%s_without_custom_alloc' % which, nth=1, subs=subs, extra=HP, spec="""ensures !old(heap).st@.contains_key(r.a@), !old(heap).s().contains_key(r.a@), !old(heap).u().contains_key(r.a@), final(heap).st@ == old(heap).st@.insert(r.a@, $1), final(heap).s() =~= old(heap).s().insert(r.a@, 1), final(heap).user == old(heap).user, final(heap).got == old(heap).got"""),
      Fn(MO, 'divans_new_%s_with_custom_alloc' % which, subs=subs, extra=HP, spec='ensures ' + NEW % '$1' + ', ' + FRESH % ('$1', '$1') + ', $1.alloc_func is None ==> final(heap).got == old(heap).got' + (', $1.alloc_func is Some ==> final(heap).got@ == old(heap).got@ + 1' if which == 'compressor' else '')),
      Fn(MO, 'divans_new_%s' % which, subs=subs, extra=HP, spec='ensures ' + NONE),
      Fn(MO, 'free_%s_no_custom_alloc' % which, subs=subs, extra=HP, spec='requires at($1, *old(heap)), ca($1, *old(heap)).alloc_func is None ensures final(heap).user == old(heap).user, final(heap).s() =~= old(heap).s().remove_keys(old(heap).st@[$1.a@].owned()).remove($1.a@)'),
      Fn(MO, 'divans_free_%s' % which, subs=subs, extra=HP, spec='requires at($1, *old(heap)) ' + FREED),
      malloc('u8', '1'), malloc('usize', 'SZ()'), free('u8'), free('usize')]
    if which == 'decompressor': u.append(Fn(MO, 'divans_new_serial_decompressor', subs=subs, extra=HP, spec='ensures ' + NONE))
    return u
R17B = cs('compressor'); R17C = cs('decompressor')
