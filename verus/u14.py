"""R14: growable and recycling buffers never lose, leak or alias bytes."""
from vextract import Fn
from u05 import StructFrom
RB = 'src/resizable_buffer.rs'; AU = 'src/alloc_util.rs'; SU = 'src/slice_util.rs'
# blocks have identities; the allocator's ghost state is the set of blocks it has handed out and not got back
MEM = r'''
pub struct Mem { pub v: Vec<u8>, pub id: Ghost<int> }
impl Mem {
  #[verifier::external_body] pub fn default() -> (r: Mem) ensures r.v@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn slice(&self) -> (r: &[u8]) ensures r@ == self.v@ { &self.v }
  #[verifier::external_body] pub fn slice_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).v@, final(r)@ == final(self).v@, final(self).id == old(self).id { &mut self.v }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
}
pub open spec fn own(m: Mem) -> Set<int> { if m.v@.len() == 0 { Set::empty() } else { set![m.id@] } }
pub open spec fn has(a: Alloc, m: Mem) -> bool { own(m).subset_of(a.live@) }
pub struct Alloc { pub live: Ghost<Set<int>> }
impl Alloc {
  #[verifier::external_body] pub fn alloc_cell(&mut self, n: usize) -> (r: Mem)
    ensures r.v@.len() == n, own(r).disjoint(old(self).live@), final(self).live@ == old(self).live@.union(own(r)) { unimplemented!() }
  // a block that is not out (returned twice, or not this allocator's) may not be returned
  #[verifier::external_body] pub fn free_cell(&mut self, m: Mem)
    requires has(*old(self), m) ensures final(self).live@ == old(self).live@.difference(own(m)) { unimplemented!() }
}
#[verifier::external_body] fn replace(a: &mut Mem, b: Mem) -> (r: Mem) ensures r == *old(a), *final(a) == b { unimplemented!() }
// s.split_at_mut(n).0 and .1
fn half0<'a>(s: &'a mut [u8], n: usize) -> (r: &'a mut [u8]) requires n <= old(s)@.len() ensures r@ =~= old(s)@.subrange(0, n as int), final(r)@.len() == n ==> final(s)@ =~= final(r)@ + old(s)@.subrange(n as int, old(s)@.len() as int) { &mut s[..n] }
fn half1<'a>(s: &'a mut [u8], n: usize) -> (r: &'a mut [u8]) requires n <= old(s)@.len() ensures r@ =~= old(s)@.subrange(n as int, old(s)@.len() as int), final(r)@.len() == old(s)@.len() - n ==> final(s)@ =~= old(s)@.subrange(0, n as int) + final(r)@ { &mut s[n..] }
pub open spec fn mx(a: int, b: int) -> int { if a >= b { a } else { b } }
fn vmax(a: usize, b: usize) -> (r: usize) ensures r == mx(a as int, b as int) { if a >= b { a } else { b } }
'''
SUBS = [(r'AllocT::AllocatedMemory::default', 'Mem::default'), (r'AllocT::AllocatedMemory', 'Mem'), (r'core::cmp::max', 'vmax'), (r'core::mem::replace', 'replace'), (r'\.is_empty\(\)', '.len() == 0'), (r'clone_from_slice', 'copy_from_slice'), (r'((?:self|cell)(?:\.\w+)*\.slice_mut\(\))\.split_at_mut\(((?:[^()]|\([^()]*\))*)\)\.(\d)', r'half\3(\1, \2)'),
        (r'AllocatedMemoryPrefix::<T, AllocT>|AllocatedMemoryPrefix<T, AllocT>', 'Prefix'), (r'\bAllocT\b', 'Alloc'), (r'\[T\]', '[u8]')]
RBS = SUBS + [(r'ResizableByteBuffer::<T, Alloc>', 'ResizableByteBuffer'), (r'\bSelf\b', 'ResizableByteBuffer')]
R14A = [MEM, StructFrom(RB, 'ResizableByteBuffer', [(r'AllocT::AllocatedMemory', 'Mem')]), r'''
impl ResizableByteBuffer {
  pub open spec fn wf(self) -> bool { self.size <= self.data.v@.len() <= 0x7fff_ffff_ffff_ffff }
  // the bytes the buffer holds
  pub open spec fn got(self) -> Seq<u8> { self.data.v@.subrange(0, self.size as int) }
}
''', 'impl ResizableByteBuffer {',
 Fn(RB, 'new', r'^impl<.*> ResizableByteBuffer<', subs=RBS, spec='ensures r.wf(), r.got().len() == 0, own(r.data) == Set::<int>::empty()'),
 Fn(RB, 'ensure_free_space_in_buffer', r'^impl<.*> ResizableByteBuffer<', subs=RBS, spec='''requires old(self).wf(), has(*old($1), old(self).data), $2 <= 0x3fff_ffff_ffff_ffff, old(self).size <= 0x3fff_ffff_ffff_ffff
    ensures final(self).wf(), final(self).got() =~= old(self).got(), final(self).size == old(self).size, final(self).data.v@.len() - final(self).size >= $2,
      has(*final($1), final(self).data), final($1).live@.difference(own(final(self).data)) =~= old($1).live@.difference(own(old(self).data))'''),
 Fn(RB, 'checkout_next_buffer', r'^impl<.*> ResizableByteBuffer<', subs=RBS + [(r'allocator: &mut Alloc, min_size: Option<usize>\)', r'allocator: \&mut Alloc, min_size: Option<usize>)')], spec='''requires old(self).wf(), has(*old($1), old(self).data), $2 is Some ==> $2->Some_0 <= 0x3fff_ffff_ffff_ffff, old(self).size <= 0x3fff_ffff_ffff_ffff
    ensures r@.len() >= (if $2 is Some { $2->Some_0 as int } else { 1int }), final(self).size == old(self).size,
      final(r)@.len() == r@.len() ==> (final(self).wf() && final(self).got() =~= old(self).got()
        && final(r)@ =~= final(self).data.v@.subrange(final(self).size as int, final(self).data.v@.len() as int)
        && has(*final($1), final(self).data) && final($1).live@.difference(own(final(self).data)) =~= old($1).live@.difference(own(old(self).data)))'''),
 Fn(RB, 'commit_next_buffer', r'^impl<.*> ResizableByteBuffer<', subs=RBS, spec='''requires old(self).wf(), $1 <= old(self).data.v@.len() - old(self).size
    ensures final(self).wf(), final(self).got() =~= old(self).got() + old(self).data.v@.subrange(old(self).size as int, old(self).size + $1), final(self).data == old(self).data, final(self).size == old(self).size + $1'''),
 Fn(RB, 'len', r'^impl<.*> ResizableByteBuffer<', subs=RBS, spec='requires self.wf() ensures r == self.got().len()'),
 Fn(RB, 'is_empty', r'^impl<.*> ResizableByteBuffer<', subs=RBS, spec='requires self.wf() ensures r == (self.got().len() == 0)'),
 Fn(RB, 'slice', r'^impl<.*> ResizableByteBuffer<', subs=RBS, spec='requires self.wf() ensures r@ =~= self.got()'),
 Fn(RB, 'free', r'^impl<.*> ResizableByteBuffer<', subs=RBS, spec='''requires has(*old($1), old(self).data)
    ensures own(final(self).data) == Set::<int>::empty(), final($1).live@ =~= old($1).live@.difference(own(old(self).data))'''),
 '}', r'''
// theorem: over the contracts, what is read back after a checkout, a write into the space offered and a commit is what was there, then what was written
fn t_write(b: &mut ResizableByteBuffer, a: &mut Alloc, want: usize, w: &[u8])
  requires old(b).wf(), has(*old(a), old(b).data), w@.len() <= want <= 0x3fff_ffff_ffff_ffff, old(b).size <= 0x3fff_ffff_ffff_ffff
  ensures final(b).wf(), final(b).got() =~= old(b).got() + w@, has(*final(a), final(b).data), final(a).live@.difference(own(final(b).data)) =~= old(a).live@.difference(own(old(b).data))
{
  let ghost g0 = b.got(); let ghost s0 = b.size;
  { let s = b.checkout_next_buffer(a, Some(want)); let ghost n0 = s@.len(); let mut i: usize = 0;
    while i < w.len() invariant i <= w@.len() <= s@.len(), s@.len() == n0, forall|j: int| 0 <= j < i ==> s@[j] == w@[j] decreases w@.len() - i { s[i] = w[i]; i += 1; } }
  b.commit_next_buffer(w.len());
  proof { assert(b.got() =~= g0 + w@); }
}
''']
# ---- the recycling allocator; a CachedAllocator is a borrow of a RepurposingAlloc with a clearing policy, so its methods are checked on the RepurposingAlloc
CAS = [(r'self\.alloc\.cached_allocation', 'self.cached_allocation'), (r'&mut self\.alloc\.get_base_alloc\(\)', 'self.get_base_alloc()'), (r'self\.alloc\.alloc\b', 'self.alloc'),
       (r'ShouldClear::should_clear\(\)', 'should_clear()'), (r'for item in (\w+)\.slice_mut\(\)\.iter_mut\(\) \{\s*\*item = ([^;]+);\s*\}', r'let ghost n0 = \1.v@.len(); let ghost i0 = \1.id@; let mut ii: usize = 0; while ii < \1.len() { \1.slice_mut()[ii] = \2; ii += 1; }'),
       (r'\bSelf\b', 'Prefix'), (r'AllocatedMemoryPrefix<T, Alloc>', 'Prefix')]
RAS = [(r'Self::AllocatedMemory', 'Mem'), (r'\bSelf\b', 'RepurposingAlloc')]
PFS = [(r'\bSelf\b', 'Prefix'), (r'AllocatedMemoryPrefix\(', 'Prefix('), (r'self\.0\.slice_mut\(\)\.split_at_mut', 'self.0.slice_mut().split_at_mut')]
OWNR = 'final(self).live().difference(own(final(self).cached_allocation))'
R14B = [MEM, r'''
pub struct Prefix(pub Mem, pub u32);
impl Prefix { pub open spec fn n(self) -> int { self.1 as int } pub open spec fn wf(self) -> bool { self.1 <= self.0.v@.len() } }
pub struct RepurposingAlloc { pub alloc: Alloc, pub cached_allocation: Mem }
impl RepurposingAlloc {
  pub open spec fn live(self) -> Set<int> { self.alloc.live@ }
  pub open spec fn wf(self) -> bool { has(self.alloc, self.cached_allocation) }
  // the blocks that are in use by somebody: neither free nor kept for recycling
  pub open spec fn used(self) -> Set<int> { self.alloc.live@.difference(own(self.cached_allocation)) }
}
uninterp spec fn sc() -> Option<u8>;
#[verifier::external_body] fn should_clear() -> (r: Option<u8>) ensures r == sc() { unimplemented!() }
''', 'impl Prefix {',
 Fn(SU, 'default', r'^impl<.*> Default for AllocatedMemoryPrefix<', subs=SUBS + PFS, spec='ensures r.wf(), r.n() == 0, own(r.0) == Set::<int>::empty()'),
 Fn(SU, 'mem', r'^impl<.*> AllocatedMemoryPrefix<', subs=SUBS + PFS, spec='ensures *r == old(self).0, *final(r) == final(self).0, final(self).1 == old(self).1'),
 Fn(SU, 'components', r'^impl<.*> AllocatedMemoryPrefix<', subs=SUBS + PFS, spec='ensures r.0 == self.0, r.1 == self.1'),
 Fn(SU, 'slice', r'^impl<.*> SliceWrapper<T> for AllocatedMemoryPrefix<', subs=SUBS + PFS, spec='requires self.wf() ensures r@ =~= self.0.v@.subrange(0, self.n())'),
 Fn(SU, 'len', r'^impl<.*> SliceWrapper<T> for AllocatedMemoryPrefix<', subs=SUBS + PFS, spec='ensures r == self.n()'),
 Fn(SU, 'slice_mut', r'^impl<.*> SliceWrapperMut<T> for AllocatedMemoryPrefix<', subs=SUBS + PFS, spec='requires old(self).wf() ensures r@ =~= old(self).0.v@.subrange(0, old(self).n()), final(self).1 == old(self).1, final(self).0.id == old(self).0.id, final(r)@.len() == r@.len() ==> (final(self).0.v@.len() == old(self).0.v@.len() && final(r)@ =~= final(self).0.v@.subrange(0, old(self).n()))'),
 Fn(SU, 'new', r'^impl ?<.*> AllocatedMemoryPrefix<', subs=SUBS + PFS, spec='requires $2 <= 0xffff_ffff ensures r.wf(), r.n() == $2, own(r.0).disjoint(old($1).live@), final($1).live@ == old($1).live@.union(own(r.0))'),
 Fn(SU, 'realloc', r'^impl ?<.*> AllocatedMemoryPrefix<', subs=SUBS + PFS, spec='requires $2 <= $1.v@.len(), $2 <= 0xffff_ffff ensures r.wf(), r.n() == $2, r.0 == $1'),
 '}', 'impl RepurposingAlloc {',
 Fn(AU, 'new', r'^impl<.*> RepurposingAlloc<', subs=SUBS + RAS, spec='ensures r.wf(), r.used() =~= $1.live@, r.alloc == $1'),
 Fn(AU, 'disassemble', r'^impl<.*> RepurposingAlloc<', subs=SUBS + RAS, spec='ensures r.0 == self.alloc, r.1 == self.cached_allocation'),
 Fn(AU, 'reassemble', r'^impl<.*> RepurposingAlloc<', subs=SUBS + RAS, spec='ensures r.alloc == $1.0, r.cached_allocation == $1.1'),
 Fn(AU, 'get_base_alloc', r'^impl<.*> RepurposingAlloc<', subs=SUBS + RAS, spec='ensures *r == old(self).alloc, *final(r) == final(self).alloc, final(self).cached_allocation == old(self).cached_allocation'),
 Fn(AU, 'free_ref', r'^impl<.*> RepurposingAlloc<', subs=SUBS + RAS, spec='requires old(self).wf() ensures final(self).wf(), own(final(self).cached_allocation) == Set::<int>::empty(), final(self).live() =~= old(self).used(), final(self).used() =~= old(self).used()'),
 Fn(AU, 'free', r'^impl<.*> RepurposingAlloc<', subs=SUBS + RAS, spec='requires self.wf() ensures r.live@ =~= self.used()'),
 Fn(AU, 'alloc_cell', r'^impl<.*> Allocator<T> for RepurposingAlloc<', subs=SUBS + RAS, spec='''requires old(self).wf()
    ensures final(self).wf(), r.v@.len() == $1, own(r).disjoint(old(self).live()), final(self).used() =~= old(self).used().union(own(r)), final(self).cached_allocation == old(self).cached_allocation'''),
 Fn(AU, 'free_cell', r'^impl<.*> Allocator<T> for RepurposingAlloc<', subs=SUBS + RAS, rename='free_cell', spec='''requires old(self).wf(), own($1).subset_of(old(self).used())
    ensures final(self).wf(), final(self).used() =~= old(self).used().difference(own($1)), final(self).cached_allocation == old(self).cached_allocation'''),
 # the two methods of the cached view
 Fn(AU, 'alloc_cell', r"^impl<.*> Allocator<T> for CachedAllocator<", subs=SUBS + CAS, rename='cached_alloc_cell', spec='''requires old(self).wf(), $1 <= 0xffff_ffff
    ensures final(self).wf(), r.wf(), r.n() == $1, own(r.0).disjoint(old(self).used()), final(self).used() =~= old(self).used().union(own(r.0)), own(r.0).disjoint(own(final(self).cached_allocation)),
      own(old(self).cached_allocation).subset_of(own(final(self).cached_allocation).union(own(r.0))),
      (sc() is Some && old(self).cached_allocation.v@.len() >= $1) ==> forall|j: int| 0 <= j < r.0.v@.len() ==> r.0.v@[j] == sc()->Some_0''',
    loops=['invariant ii <= retval.v@.len(), retval.v@.len() == n0, retval.id@ == i0, sc() is Some, forall|j: int| 0 <= j < ii ==> retval.v@[j] == sc()->Some_0 ensures ii == retval.v@.len() decreases retval.v@.len() - ii']),
 Fn(AU, 'free_cell', r"^impl<.*> Allocator<T> for CachedAllocator<", subs=SUBS + CAS, rename='cached_free_cell', spec='''requires old(self).wf(), own($1.0).subset_of(old(self).used())
    ensures final(self).wf(), final(self).used() =~= old(self).used().difference(own($1.0)),
      final(self).cached_allocation.v@.len() >= old(self).cached_allocation.v@.len()'''),
 '}']
