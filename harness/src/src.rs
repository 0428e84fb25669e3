//! Source of the values a harness body quantifies over: symbolic (Kani), random (native search) or recorded (replay).
use std::panic::panic_any;
pub struct Rejected;
thread_local!(pub static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
/// runs a body shared with another property; a failure that does not mention any of `keys` is not this property's
#[cfg(not(kani))]
pub fn focus<S: Src>(s: &mut S, lim: u32, f: fn(&mut S, u32), keys: &[&str]) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(s, lim))) {
        let m = MSG.with(|m| m.borrow().clone());
        if !e.is::<Rejected>() && keys.iter().any(|k| m.contains(k)) { std::panic::resume_unwind(e) }
        panic_any(Rejected)
    }
}
#[cfg(kani)]
pub fn focus<S: Src>(s: &mut S, lim: u32, f: fn(&mut S, u32), _keys: &[&str]) { f(s, lim) }
pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn assume(&mut self, c: bool);
    /// a value in lo..=hi (random source: biased to the ends and to small values)
    fn range(&mut self, lo: u32, hi: u32) -> u32;
    fn flip(&mut self) -> bool { self.u8() & 1 == 1 }
    fn i16(&mut self) -> i16 { self.u16() as i16 }
    fn u16in(&mut self, lo: u16, hi: u16) -> u16 { self.range(lo as u32, hi as u32) as u16 }
    fn i16in(&mut self, lo: i16, hi: i16) -> i16 { self.range(lo as u32, hi as u32) as i16 }
    /// cheap yes/no used to choose rare paths; true about 1 in n for the random source
    fn chance(&mut self, n: u32) -> bool { self.range_flat(0, n - 1) == 0 }
    fn range_flat(&mut self, lo: u32, hi: u32) -> u32;
    fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(self.u8()); } v }
}

#[cfg(kani)]
pub struct K;
#[cfg(kani)]
impl Src for K {
    fn u8(&mut self) -> u8 { kani::any() }
    fn u16(&mut self) -> u16 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn u64(&mut self) -> u64 { kani::any() }
    fn assume(&mut self, c: bool) { kani::assume(c) }
    fn range(&mut self, lo: u32, hi: u32) -> u32 { let x: u32 = kani::any(); kani::assume(lo <= x && x <= hi); x }
    fn range_flat(&mut self, lo: u32, hi: u32) -> u32 { self.range(lo, hi) }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub enum Mode { Random(Rng), Replay(Vec<u64>, usize) }
pub struct N { pub mode: Mode }
impl N {
    fn draw(&mut self) -> Option<u64> {
        match self.mode { Mode::Random(_) => None, Mode::Replay(ref v, ref mut i) => {
            if *i >= v.len() { panic_any(Rejected) }
            let x = v[*i]; *i += 1; Some(x) } }
    }
    fn r(&mut self) -> u64 { match self.mode { Mode::Random(ref mut r) => r.next(), _ => 0 } }
}
fn biased(r: u64, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let x = r >> 8;
    match r & 7 { 0 => x % 5, 1 => m - x % 3, 2 => ((1u64 << (x % bits as u64)).wrapping_add((x >> 10) % 3).wrapping_sub(1)) & m, _ => x.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) & m }
}
impl Src for N {
    fn u8(&mut self) -> u8 { let v = match self.draw() { Some(v) => v, None => { let r = self.r(); biased(r, 8) } }; v as u8 }
    fn u16(&mut self) -> u16 { let v = match self.draw() { Some(v) => v, None => { let r = self.r(); biased(r, 16) } }; v as u16 }
    fn u32(&mut self) -> u32 { let v = match self.draw() { Some(v) => v, None => { let r = self.r(); biased(r, 32) } }; v as u32 }
    fn u64(&mut self) -> u64 { let v = match self.draw() { Some(v) => v, None => { let r = self.r(); biased(r, 64) } }; v }
    fn assume(&mut self, c: bool) { if !c { panic_any(Rejected) } }
    fn range(&mut self, lo: u32, hi: u32) -> u32 {
        let v = match self.draw() { Some(v) => v, None => {
            let r = self.r(); let span = hi as u64 - lo as u64 + 1; let x = r >> 8;
            (match r & 7 { 0 => hi as u64 - x % span.min(3), 1 | 2 => lo as u64 + x % span.min(4),
              3 => lo as u64 + (x % span).min(1u64 << (x >> 40) % 33), _ => lo as u64 + (x.wrapping_mul(0x9E3779B97F4A7C15) >> 20) % span }).min(hi as u64)
        } };
        let x = v as u32;
        self.assume(lo <= x && x <= hi); x
    }
    fn range_flat(&mut self, lo: u32, hi: u32) -> u32 {
        let v = match self.draw() { Some(v) => v, None => { let span = hi as u64 - lo as u64 + 1; lo as u64 + (self.r() >> 11) % span } };
        let x = v as u32;
        self.assume(lo <= x && x <= hi); x
    }
}
