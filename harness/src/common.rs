pub use alloc_no_stdlib::{Allocator, SliceWrapper, SliceWrapperMut};
pub type A = alloc_stdlib::StandardAlloc;
pub fn a() -> A { A::default() }
