use crate::{common::*, src::*};
use divans::verif_hooks::prob::*;
use divans::Speed;
reg!("R09"; r09_pair, r09_all);
fn one(x: i16) {
    let e = speed_to_u8(x);
    let y = u8_to_speed(e);
    assert!(y >= 0 && y <= x, "{} grows to {}", x, y);
    assert!((x as i32 - y as i32) * 8 < (x as i32).max(1), "{} loses too much: {}", x, y);
    assert!(speed_to_u8(y) == e, "{} is not stable", x);
    if x < 16 { assert!(y == x, "small speed {} not exact", x) }
    let b = x as i32;
    if b > 0 && b & (b - 1) == 0 { assert!(y == x, "power of two {} not exact", x) }
}
pub fn r09_pair<S: Src>(s: &mut S, _lim: u32) {
    let (i, l) = (s.i16in(0, 0x4000), s.i16in(0, 0x4000));
    one(i);
    one(l);
    let sp = Speed::new(i, l);
    let f = sp.to_f8_tuple();
    assert!(f == (speed_to_u8(i), speed_to_u8(l)));
    let t = Speed::from_f8_tuple(f);
    assert!(t.inc() == u8_to_speed(f.0) && t.lim() == u8_to_speed(f.1));
    assert!(t.to_f8_tuple() == f, "transmitted speed is not stable");
    // order preserving
    if i <= l { assert!(f.0 <= f.1) } else { assert!(f.0 >= f.1) }
}
/// complete enumeration
pub fn r09_all<S: Src>(_s: &mut S, _lim: u32) {
    let mut last = 0u8;
    for x in 0..=0x4000i16 { one(x); let e = speed_to_u8(x); assert!(e >= last); last = e; }
    for s in Speed::ENCODER_DEFAULT_PALETTE.iter() { assert!(Speed::from_f8_tuple(s.to_f8_tuple()) == *s, "default palette entry not representable"); }
}
