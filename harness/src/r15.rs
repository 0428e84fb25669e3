use crate::{common::*, src::*};
use divans::verif_hooks::r2c::RawToCmdState;
use divans::{Command, DivansOutputResult, DivansResult};
use crate::r20::{data, decompress, new_c};
use divans::Compressor;
reg!("R15"; r15_segment, r15_compressor);
/// the whole compressor with a window far smaller than the input and so little room for output that commands have to be kept from call to call
pub fn r15_compressor<S: Src>(s: &mut S, _lim: u32) {
    let mut o = divans::DivansCompressorOptions::default();
    o.window_size = Some(s.range(10, 15) as i32);
    let mut d = data(s, 40_000);
    let more = s.range(0, 60_000) as usize;
    let mut x = s.u64() | 1;
    for _ in 0..more { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); d.push((x >> 56) as u8) }
    let mut c = new_c(o);
    let mut comp = vec![]; let mut pos = 0; let mut idle = 0;
    let tight = s.range(1, 3000);
    let mut closing = false;
    loop {
        let mut b = vec![0u8; s.range(0, tight) as usize]; let mut w = 0; let mut i = 0;
        if closing {
            match c.flush(&mut b, &mut w) {
                DivansOutputResult::Success => { comp.extend_from_slice(&b[..w]); break }
                DivansOutputResult::NeedsMoreOutput => {}
                DivansOutputResult::Failure(e) => panic!("flush fails: {:?}", e),
            }
        } else {
            let n = if s.flip() { d.len() - pos } else { s.range(0, 9000) as usize }.min(d.len() - pos);
            match c.encode(&d[pos..pos + n], &mut i, &mut b, &mut w) {
                DivansResult::NeedsMoreInput => { assert!(i == n, "asks for input with {} bytes unread", n - i); closing = pos + i == d.len() }
                DivansResult::NeedsMoreOutput => {}
                DivansResult::Success => panic!("never done before flush"),
                DivansResult::Failure(e) => panic!("encode fails: {:?}", e),
            }
        }
        comp.extend_from_slice(&b[..w]); pos += i;
        if i == 0 && w == 0 && b.len() > 0 { idle += 1 } else { idle = 0 }
        assert!(idle < 64, "compressor makes no progress");
    }
    decompress(s, &comp, &d, 0);
}
pub fn r15_segment<S: Src>(s: &mut S, _lim: u32) {
    let mut m32 = a();
    let window = 1usize << s.range(4, 11);
    let mut rb = a();
    let ring = <A as Allocator<u8>>::alloc_cell(&mut rb, window);
    let mut st = RawToCmdState::new(&mut m32, ring);
    if s.flip() { st.raw_input_ir_mode(); }
    let total = s.range(0, 6 * window as u32) as usize;
    let k = s.u8();
    let data: Vec<u8> = (0..total).map(|i| (i as u8).wrapping_mul(7) ^ ((i >> 5) as u8).wrapping_add(k)).collect();
    let mut got: Vec<u8> = vec![];
    let mut pos = 0usize;
    let mut lcm = vec![0u8; 64 * 256 + 64];
    let mut pmb = vec![0u8; 40_000];
    let mut preds = 0;
    let mut idle = 0;
    let mut done = false;
    let slots_max = s.range(1, 4) as usize;
    while !done {
        let closing = pos == total && s.flip();
        let slots = if s.chance(4) { 0 } else { s.range(1, slots_max as u32) as usize };
        let mut cmds: Vec<Command<brotli::InputReference>> = (0..slots).map(|_| Command::default()).collect();
        let mut off = 0usize;
        let before = pos;
        let mut finished = false;
        if closing {
            match st.flush(&mut cmds, &mut off, &mut lcm, &mut pmb) {
                DivansOutputResult::Success => finished = true,
                DivansOutputResult::NeedsMoreOutput => assert!(off == slots),
                DivansOutputResult::Failure(e) => panic!("flush fails: {:?}", e),
            }
        } else {
            let n = if s.chance(3) { total - pos } else { s.range(0, 300) as usize }.min(total - pos);
            let mut io = 0usize;
            match st.stream(&data[pos..pos + n], &mut io, &mut cmds, &mut off, &mut lcm, &mut pmb) {
                DivansResult::NeedsMoreInput => assert!(io == n, "asks for input with {} bytes unread", n - io),
                DivansResult::NeedsMoreOutput => {}
                DivansResult::Success => panic!("never done before flush"),
                DivansResult::Failure(e) => panic!("stream fails: {:?}", e),
            }
            pos += io;
        }
        for c in &cmds[..off] {
            match c {
                Command::Literal(l) => {
                    assert!(!l.data.data.is_empty(), "empty literal");
                    got.extend_from_slice(l.data.data)
                }
                Command::PredictionMode(_) => { preds += 1; assert!(preds == 1 && got.is_empty(), "prediction mode not first") }
                _ => panic!("unexpected command"),
            }
        }
        assert!(got.len() <= pos && got[..] == data[..got.len()], "literals differ from the input after {} of {} bytes", got.len().min(pos), total);
        if slots > 0 && pos == before && off == 0 && !finished && pos < total { idle += 1 } else { idle = 0 }
        assert!(idle < 60, "no progress");
        if finished { assert!(got.len() == pos, "flush loses bytes"); done = pos == total; }
    }
    assert!(got == data, "bytes lost");
}
