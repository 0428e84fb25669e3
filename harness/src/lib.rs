//! Harness bodies. Each takes its inputs from a `Src`, runs the real divans code (through /verif/hooks for private
//! items) and asserts a property. lim == 0: native search (large sizes); lim > 0: the bound used under Kani.
#![allow(dead_code, unused_imports)]
extern crate alloc_no_stdlib;
pub mod src;
pub mod common;
use src::*;
pub struct Body { pub prop: &'static str, pub name: &'static str, pub f: fn(&mut N, u32) }
macro_rules! mods { ($($f:literal $m:ident),*) => { $(#[cfg(feature = $f)] pub mod $m;)* pub fn bodies() -> Vec<Body> { #[allow(unused_mut)] let mut v = vec![]; $(#[cfg(feature = $f)] $m::reg(&mut v);)* v } } }
#[macro_export]
macro_rules! reg { ($p:expr; $($n:ident),* $(,)?) => { pub fn reg(v: &mut Vec<crate::Body>) { $(v.push(crate::Body { prop: $p, name: stringify!($n), f: $n::<crate::src::N> });)* } } }
mods!("r01" r01, "r02" r02, "r03" r03, "r04" r04, "r06" r06, "r08" r08, "r09" r09, "r05" r05, "r14" r14, "r15" r15, "r20" r20, "r18" r18, "r12" r12, "r10" r10, "r11" r11, "r13" r13, "r16" r16, "r17" r17, "r07" r07);
#[cfg(kani)]
mod kproofs;
