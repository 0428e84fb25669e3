//! Kani harnesses. Unwinding assertions stay on, so a harness that passes has covered every iteration of every loop.
use crate::src::K;
macro_rules! k { ($feat:literal; $($(#[$a:meta])* $n:ident = $f:path, $lim:expr, $unw:expr;)*) => { $( #[cfg(feature = $feat)] $(#[$a])* #[kani::proof] #[kani::unwind($unw)] fn $n() { $f(&mut K, $lim); } )* } }
k! { "r01"; k_r01_feed = crate::r01::r01_feed, 1, 26; }
k! { "r08"; k_r08_reject = crate::r08::r08_reject, 1, 18; }
k! { "r09"; k_r09_pair = crate::r09::r09_pair, 1, 2; }
k! { "r13"; k_r13_t0 = crate::r13::r13_pair, 1, 2; k_r13_t1 = crate::r13::r13_pair, 2, 2; k_r13_t2 = crate::r13::r13_pair, 3, 2; k_r13_t3 = crate::r13::r13_pair, 4, 2; k_r13_t4 = crate::r13::r13_pair, 5, 2; k_r13_t5 = crate::r13::r13_pair, 6, 2; k_r13_t6 = crate::r13::r13_pair, 7, 2; k_r13_t7 = crate::r13::r13_pair, 8, 2; }
