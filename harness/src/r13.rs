//! Model cells: every context the format produces has a cell of its own.
use crate::{common::*, src::*};
use divans::verif_hooks::priors::*;
pub fn reg(v: &mut Vec<crate::Body>) {
    v.push(crate::Body { prop: "R13", name: "r13_all", f: r13_all::<crate::src::N> });
    v.push(crate::Body { prop: "R13", name: "r13_session", f: r13_session::<crate::src::N> });
    v.push(crate::Body { prop: "R13", name: "r13_fields", f: r13_fields::<crate::src::N> });
    // demonstration of the recorded finding; not part of the search
    v.push(crate::Body { prop: "R13-finding", name: "r13_undeclared", f: r13_undeclared::<crate::src::N> });
}
/// a one-byte stand-in for a frequency table (only the addresses of cells matter)
#[derive(Clone, Copy, Default)]
pub struct V(u8);
impl BaseCDF for V {
    fn num_symbols() -> u8 { 2 }
    fn cdf(&self, _s: u8) -> Prob { 0 }
    fn div_by_max(&self, v: i32) -> i32 { v }
    fn max(&self) -> Prob { 1 }
    fn log_max(&self) -> Option<i8> { None }
    fn cdf_offset_to_sym_start_and_freq(&self, _o: Prob) -> SymStartFreq { unimplemented!() }
}
pub struct Mem(Vec<V>);
impl Default for Mem { fn default() -> Self { Mem(Vec::new()) } }
impl SliceWrapper<V> for Mem { fn slice(&self) -> &[V] { &self.0 } }
impl SliceWrapperMut<V> for Mem { fn slice_mut(&mut self) -> &mut [V] { &mut self.0 } }
/// n cells (contents are never looked at)
fn cells(n: usize) -> Mem { let mut v: Vec<V> = Vec::with_capacity(n); unsafe { v.set_len(n) } Mem(v) }
pub struct VA;
impl Allocator<V> for VA {
    type AllocatedMemory = Mem;
    fn alloc_cell(&mut self, n: usize) -> Mem { cells(n) }
    fn free_cell(&mut self, _m: Mem) {}
}
type D = (u32, u32, u32);
/// one row per model table: (kind, extents of the context values the format can produce); extent 0 = dimension absent
macro_rules! tables { ($s:ident, $pick:ident, $cell:ident, $count:ident, $len:ident; $($i:literal $t:ident [$(($b:expr, $d:expr)),*]);* $(;)?) => {
    pub const NT: u32 = 0 $(+ { let _ = $i; 1 })*;
    /// number of cells and the base address
    pub fn $len(t: u32) -> usize { match t { $($i => <$t<V, VA> as PriorCollection<V, VA, _>>::NUM_ALL_PRIORS,)* _ => unreachable!() } }
    pub fn $count(t: u32) -> u32 { match t { $($i => { let v: &[D] = &[$($d),*]; v.len() as u32 })* _ => unreachable!() } }
    pub fn $pick(t: u32, k: u32) -> D { match t { $($i => { let v = [$($d),*]; v[k as usize] })* _ => unreachable!() } }
    /// offset of the cell selected by the real `get`, and whether it lies inside the memory
    pub fn $cell(t: u32, k: u32, x: D, mem: Mem) -> (usize, Mem) { match t { $($i => {
        let b = [$($b),*];
        let mut p = $t::<V, VA> { priors: mem };
        let base = p.priors.0.as_ptr() as usize;
        let d = $pick(t, k);
        let (x0, x1, x2) = (x.0 as usize, x.1 as usize, x.2 as usize);
        let a = if d.2 > 0 { p.get(b[k as usize].clone(), (x0, x1, x2)) as *mut V } else if d.1 > 0 { p.get(b[k as usize].clone(), (x0, x1)) as *mut V } else { p.get(b[k as usize].clone(), (x0,)) as *mut V };
        (a as usize - base, p.priors)
    })* _ => unreachable!() } }
} }
tables! { s, dims, cell, kinds, total;
  0 CrossCommandPriors [(CrossCommandBilling::FullSelection, (16, 1, 0))];
  1 LiteralNibblePriors [(LiteralNibblePriorType::CombinedNibble, (3, 256, 256))];
  2 LiteralCommandPriors [(LiteralCommandPriorType::CountSmall, (256, 1, 0)), (LiteralCommandPriorType::SizeBegNib, (256, 0, 0)), (LiteralCommandPriorType::SizeLastNib, (256, 0, 0)), (LiteralCommandPriorType::SizeMantissaNib, (256, 0, 0))];
  3 LiteralCommandPriorsCM [(LiteralCMPriorType::FirstNibble, (1, 256, 0)), (LiteralCMPriorType::SecondNibble, (1, 16, 256))];
  4 CopyCommandPriors [(CopyCommandNibblePriorType::DistanceBegNib, (256, 9, 0)), (CopyCommandNibblePriorType::DistanceMnemonic, (256, 2, 0)), (CopyCommandNibblePriorType::DistanceLastNib, (256, 1, 0)), (CopyCommandNibblePriorType::DistanceMantissaNib, (256, 5, 0)),
     (CopyCommandNibblePriorType::CountSmall, (256, 16, 0)), (CopyCommandNibblePriorType::CountBegNib, (256, 1, 0)), (CopyCommandNibblePriorType::CountLastNib, (256, 1, 0)), (CopyCommandNibblePriorType::CountMantissaNib, (256, 5, 0))];
  5 DictCommandPriors [(DictCommandNibblePriorType::SizeBegNib, (256, 0, 0)), (DictCommandNibblePriorType::SizeLastNib, (256, 0, 0)), (DictCommandNibblePriorType::Index, (256, 5, 0)), (DictCommandNibblePriorType::Transform, (2, 16, 0))];
  6 BlockTypePriors [(BlockTypePriorType::Mnemonic, (3, 0, 0)), (BlockTypePriorType::FirstNibble, (3, 0, 0)), (BlockTypePriorType::SecondNibble, (3, 0, 0)), (BlockTypePriorType::StrideNibble, (1, 0, 0))];
  7 PredictionModePriors [(PredictionModePriorType::Only, (1, 0, 0)), (PredictionModePriorType::FirstNibble, (2, 0, 0)), (PredictionModePriorType::SecondNibble, (2, 0, 0)), (PredictionModePriorType::Mnemonic, (2, 0, 0)), (PredictionModePriorType::PriorMixingValue, (17, 0, 0)), (PredictionModePriorType::ContextMapSpeedPalette, (4, 0, 0))];
}
fn ext(x: u32) -> u32 { if x == 0 { 1 } else { x } }
fn idx<S: Src>(s: &mut S, d: D) -> D { (s.range_flat(0, d.0 - 1), s.range_flat(0, ext(d.1) - 1), s.range_flat(0, ext(d.2) - 1)) }
/// any two contexts of one table; lim is the table number plus one
pub fn r13_pair<S: Src>(s: &mut S, lim: u32) {
    let t = lim - 1;
    let (k, j) = (s.range_flat(0, kinds(t) - 1), s.range_flat(0, kinds(t) - 1));
    let (x, y) = (idx(s, dims(t, k)), idx(s, dims(t, j)));
    let n = total(t);
    let (a, m) = cell(t, k, x, cells(n));
    let (b, _m) = cell(t, j, y, m);
    assert!(a < n && b < n, "a context of table {} selects a cell outside the model array", t);
    assert!(a != b || (k == j && x == y), "two contexts of table {} share a cell", t);
}
/// complete enumeration
pub fn r13_all<S: Src>(_s: &mut S, _lim: u32) {
    // kinds without a declaration may land on the cell of the recorded finding, and on no other cell that is in use
    let (a, b, c, n) = undeclared();
    for x in [a, b].iter().cloned() {
        assert!(x < n, "an undeclared kind selects a cell outside the model array");
        for k in 0..kinds(7) { let d = dims(7, k); for i in 0..d.0 { let (o, _) = cell(7, k, (i, 0, 0), cells(n)); assert!(o != x || o == c, "an undeclared kind shares the cell of table 7 kind {} context {}", k, i); } }
    }
    for t in 0..NT {
        let n = total(t);
        let mut m = cells(n);
        let mut seen: Vec<Option<(u32, D)>> = vec![None; n];
        for k in 0..kinds(t) {
            let d = dims(t, k);
            for z in 0..ext(d.2) { for y in 0..ext(d.1) { for x in 0..d.0 {
                let (a, m2) = cell(t, k, (x, y, z), m); m = m2;
                assert!(a < n, "table {} kind {} context {:?} selects a cell outside the model array", t, k, (x, y, z));
                assert!(seen[a].is_none(), "table {}: kind {} context {:?} shares its cell with {:?}", t, k, (x, y, z), seen[a]);
                seen[a] = Some((k, (x, y, z)));
            } } }
        }
    }
}
/// cells of the two prediction-mode kinds that have no declaration of their own
fn undeclared() -> (usize, usize, usize, usize) {
    let n = <PredictionModePriors<V, VA> as PriorCollection<V, VA, _>>::NUM_ALL_PRIORS;
    let mut p = PredictionModePriors::<V, VA> { priors: cells(n) };
    let base = p.priors.0.as_ptr() as usize;
    let a = p.get(PredictionModePriorType::DynamicContextMixingSpeed, (0,)) as *mut V as usize - base;
    let b = p.get(PredictionModePriorType::PriorDepth, (0,)) as *mut V as usize - base;
    let c = p.get(PredictionModePriorType::ContextMapSpeedPalette, (0,)) as *mut V as usize - base;
    (a, b, c, n)
}
/// the recorded finding: both fall through to the last declared kind
pub fn r13_undeclared<S: Src>(_s: &mut S, _lim: u32) {
    let (a, b, c, _) = undeclared();
    assert!(a != b && a != c && b != c, "prediction-mode kinds DynamicContextMixingSpeed, PriorDepth and ContextMapSpeedPalette 0 share a cell");
}
const KEYS: &[&str] = &["model cell", "another table", "Index out of bounds", "Offset from the index", "linearized_index", "src/priors.rs", "index out of bounds: the len", "Index has", "more symbols", "unread"];
pub fn r13_session<S: Src>(s: &mut S, lim: u32) { focus(s, lim, crate::r12::r12_codec::<S>, KEYS) }
pub fn r13_fields<S: Src>(s: &mut S, lim: u32) { focus(s, lim, crate::r12::r12_fields::<S>, KEYS) }
