use crate::{common::*, src::*};
use divans::resizable_buffer::ResizableByteBuffer;
use divans::alloc_util::{RepurposingAlloc, ClearCacheOnAlloc, UninitializedOnAlloc};
use divans::slice_util::AllocatedMemoryPrefix;
use std::cell::RefCell;
use std::rc::Rc;
use std::collections::BTreeMap;
reg!("R14"; r14_grow, r14_recycle);
/// an allocator whose blocks carry an identity, so double use, leaks and double frees show
#[derive(Default)]
pub struct Log { pub live: BTreeMap<u64, usize>, pub next: u64, pub bad: Option<String> }
pub struct TA(pub Rc<RefCell<Log>>);
#[derive(Default)]
pub struct TM { pub id: u64, pub v: Vec<u8> }
impl SliceWrapper<u8> for TM { fn slice(&self) -> &[u8] { &self.v } }
impl SliceWrapperMut<u8> for TM { fn slice_mut(&mut self) -> &mut [u8] { &mut self.v } }
impl std::ops::Index<usize> for TM { type Output = u8; fn index(&self, i: usize) -> &u8 { &self.v[i] } }
impl std::ops::IndexMut<usize> for TM { fn index_mut(&mut self, i: usize) -> &mut u8 { &mut self.v[i] } }
impl Allocator<u8> for TA {
    type AllocatedMemory = TM;
    fn alloc_cell(&mut self, n: usize) -> TM {
        let mut l = self.0.borrow_mut();
        l.next += 1;
        let id = l.next;
        l.live.insert(id, n);
        TM { id, v: vec![0; n] }
    }
    fn free_cell(&mut self, m: TM) {
        if m.id == 0 { return }
        let mut l = self.0.borrow_mut();
        if l.live.remove(&m.id) != Some(m.v.len()) { l.bad = Some(format!("block {} returned twice or altered", m.id)); }
    }
}
pub fn r14_grow<S: Src>(s: &mut S, _lim: u32) {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut al = TA(log.clone());
    let mut b = ResizableByteBuffer::<u8, TA>::new();
    let mut model: Vec<u8> = vec![];
    let n = s.range(1, 14);
    let cap = if s.flip() { 300_000 } else { 70_000 };
    let mut k = s.u8();
    for _ in 0..n {
        let want = if s.flip() { None } else { Some(s.range(1, cap) as usize) };
        let c = {
            let sl = b.checkout_next_buffer(&mut al, want);
            assert!(sl.len() >= want.unwrap_or(1), "asked for {} free bytes, got {}", want.unwrap_or(1), sl.len());
            let c = if s.flip() { sl.len() } else { s.range(0, sl.len() as u32) as usize };
            for i in 0..c { k = k.wrapping_mul(5).wrapping_add(3); sl[i] = k; model.push(k); }
            c
        };
        b.commit_next_buffer(c);
        assert!(b.len() == model.len());
        assert!(b.is_empty() == model.is_empty());
        assert!(b.slice() == &model[..], "contents changed");
        assert!(log.borrow().live.len() <= 1, "buffer leaked while growing");
        assert!(log.borrow().bad.is_none());
        if model.len() > 3_000_000 { break }
    }
    b.free(&mut al);
    assert!(log.borrow().live.is_empty() && log.borrow().bad.is_none(), "buffer not returned");
}
pub fn r14_recycle<S: Src>(s: &mut S, _lim: u32) {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut ra = RepurposingAlloc::<u8, TA>::new(TA(log.clone()));
    let mut held: Vec<(AllocatedMemoryPrefix<u8, TA>, u8)> = vec![];
    let n = s.range(1, 60);
    let mut tag = 0u8;
    for _ in 0..n {
        match s.range_flat(0, 4) {
            0 | 1 => {
                let want = s.range(0, 400) as usize;
                let clear = s.flip();
                let mut c = if clear { ra.use_cached_allocation::<ClearCacheOnAlloc<u8>>().alloc_cell(want) }
                    else { ra.use_cached_allocation::<UninitializedOnAlloc>().alloc_cell(want) };
                assert!(c.slice().len() == want, "asked for {} got {}", want, c.slice().len());
                assert!(c.slice_mut().len() == want && c.len() == want);
                if clear { assert!(c.slice().iter().all(|b| *b == 0), "a cleared block holds old data"); }
                for (o, _) in held.iter() { assert!(c.0.id == 0 || o.0.id != c.0.id, "block handed out twice"); }
                tag = tag.wrapping_add(1);
                for b in c.slice_mut() { *b = tag }
                held.push((c, tag));
            }
            2 | 3 if !held.is_empty() => {
                let i = s.range_flat(0, held.len() as u32 - 1) as usize;
                let (c, t) = held.swap_remove(i);
                assert!(c.slice().iter().all(|b| *b == t), "held block overwritten");
                ra.use_cached_allocation::<UninitializedOnAlloc>().free_cell(c);
            }
            _ => if s.chance(4) {
                if s.flip() { ra.free_ref() } else { ra = RepurposingAlloc::reassemble(ra.disassemble()) }
            } else {
                let c = ra.alloc_cell(s.range(0, 99) as usize);
                for (o, _) in held.iter() { assert!(o.0.id != c.id, "block handed out twice"); }
                ra.free_cell(c);
            },
        }
        for (o, t) in held.iter() { assert!(o.slice().iter().all(|b| *b == *t), "held block overwritten"); }
        assert!(log.borrow().live.len() <= held.len() + 1, "blocks leak");
        assert!(log.borrow().bad.is_none(), "{:?}", log.borrow().bad);
    }
    for (c, _) in held { ra.use_cached_allocation::<UninitializedOnAlloc>().free_cell(c); }
    ra.free();
    assert!(log.borrow().live.is_empty() && log.borrow().bad.is_none(), "blocks lost: {:?}", log.borrow().live);
}
