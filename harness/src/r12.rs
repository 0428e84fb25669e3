//! One command at a time through the real codec with the arithmetic coder replaced by a recorder: the encoder side writes each nibble
//! and the table it was coded under, the decoder side replays them.
use crate::{common::*, src::*};
use crate::r05::{gen_cmd, Cmd, Sl};
use crate::r20::{predmode, speed};
use brotli::dictionary::kBrotliDictionarySizeBitsByLength;
use divans::verif_hooks::cmd::*;
use divans::{BlockSwitch, Command, CopyCommand, DictCommand, DivansOutputResult, DivansResult, FeatureFlagSliceType, LiteralBlockSwitch, LiteralCommand, Nop};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
reg!("R12"; r12_codec, r12_fields);
#[derive(Clone)]
pub struct Rec { pub nib: u8, pub tab: [i16; 18], pub at: usize }
pub struct Log { pub v: Vec<Rec> }
#[derive(Clone, Copy, PartialEq)]
pub enum Side { Enc, Dec }
/// stands in for the arithmetic coder on both sides
pub struct NibCoder { pub log: Rc<RefCell<Log>>, pub side: Side, pub pos: usize, pub rng: Cell<u64>, pub stop: u32, pub map: Option<HashMap<usize, usize>>, pub back: HashMap<usize, usize> }
impl NibCoder {
    pub fn new_pair(seed: u64, stop: u32, track: bool) -> (NibCoder, NibCoder) {
        let log = Rc::new(RefCell::new(Log { v: vec![] }));
        let mk = |side, s| NibCoder { log: log.clone(), side, pos: 0, rng: Cell::new(s), stop, map: if track { Some(HashMap::new()) } else { None }, back: HashMap::new() };
        (mk(Side::Enc, seed), mk(Side::Dec, seed ^ 0x1234567))
    }
    pub fn at_end(&self) -> bool { self.pos == self.log.borrow().v.len() }
}
impl ArithmeticEncoderOrDecoder for NibCoder {
    fn mov(&mut self) -> Self { NibCoder { log: self.log.clone(), side: self.side, pos: self.pos, rng: self.rng.clone(), stop: self.stop, map: self.map.clone(), back: self.back.clone() } }
    fn drain_or_fill_internal_buffer_unchecked(&mut self, _i: &mut ReadableBytes, _o: &mut WritableBytes) -> DivansResult {
        if self.side == Side::Enc { DivansResult::NeedsMoreOutput } else { DivansResult::NeedsMoreInput }
    }
    fn has_data_to_drain_or_fill(&self) -> bool {
        let mut r = Rng(self.rng.get());
        let x = r.next();
        self.rng.set(r.0);
        self.stop > 0 && (x >> 20) % self.stop as u64 == 0
    }
    fn get_or_put_bit_without_billing(&mut self, _bit: &mut bool, _p: u8) { unreachable!() }
    fn get_or_put_nibble_without_billing<C: CDF16>(&mut self, nibble: &mut u8, prob: &C) -> ProbRange {
        let mut tab = [0i16; 18];
        let mut end = 0i32;
        for i in 0..16u8 { 
            let r = prob.sym_to_start_and_freq(i).range;
            assert!(r.freq >= 1 && r.start as i32 >= end, "symbol {} has interval {}+{} after {}", i, r.start, r.freq, end);
            end = r.start as i32 + r.freq as i32;
            assert!(end <= 1 << 15, "symbol {} ends at {}", i, end);
            tab[i as usize] = r.start;
        }
        tab[16] = prob.sym_to_start_and_freq(15).range.freq;
        let at = prob as *const C as usize;
        let mut log = self.log.borrow_mut();
        if self.side == Side::Enc {
            assert!(*nibble < 16, "nibble {}", *nibble);
            log.v.push(Rec { nib: *nibble, tab, at });
        } else {
            assert!(self.pos < log.v.len(), "the decoder asks for more symbols than the encoder wrote");
            let r = &log.v[self.pos];
            assert!(r.tab == tab, "symbol {} is decoded under another table than it was encoded under", self.pos);
            if let Some(ref mut m) = self.map {
                let a = *m.entry(r.at).or_insert(at);
                assert!(a == at, "symbol {} is decoded with another model cell than it was encoded with", self.pos);
                let b = *self.back.entry(at).or_insert(r.at);
                assert!(b == r.at, "symbol {} is decoded with another model cell than it was encoded with", self.pos);
            }
            *nibble = r.nib;
            self.pos += 1;
        }
        prob.sym_to_start_and_freq(*nibble).range
    }
    fn close(&mut self) -> DivansResult { DivansResult::Success }
}
impl NewWithAllocator<A> for NibCoder {
    fn new(_m8: &mut A) -> Self { NibCoder::new_pair(0, 0, false).0 }
    fn free(&mut self, _m8: &mut A) {}
}
pub type Enc = DivansCodec<NibCoder, EncoderSpecialization, DemuxerAndRingBuffer<A, DevNull<A>>, Mux<A>, DefaultCDF16, A, A>;
pub type Dec = DivansCodec<NibCoder, DecoderSpecialization, DemuxerAndRingBuffer<A, DevNull<A>>, DevNull<A>, DefaultCDF16, A, A>;
pub struct One;
impl CommandArray for One {
    fn get_input_command(&self, _o: usize) -> Command<brotli::InputReference> { Command::nop() }
    fn len(&self) -> usize { 1 }
}
pub fn pair<S: Src>(s: &mut S, w: usize, stop: u32) -> (Enc, Dec) {
    let seed = s.u64();
    let (ce, cd) = NibCoder::new_pair(seed, stop, true);
    let (le, ld) = NibCoder::new_pair(seed ^ 77, stop, false);
    let mix = s.range_flat(0, 4) as u8;
    let depth = if s.flip() { None } else { Some(s.range_flat(0, 15) as u8) };
    let ad = if s.flip() { None } else { Some([speed(s), speed(s), speed(s), speed(s)]) };
    let cm = s.flip();
    let st = [StrideSelection::PriorDisabled, StrideSelection::Stride1, StrideSelection::Stride2, StrideSelection::Stride3, StrideSelection::Stride4,
        StrideSelection::Stride5, StrideSelection::Stride6, StrideSelection::Stride7, StrideSelection::Stride8, StrideSelection::UseBrotliRec][if s.flip() { 9 } else { s.range_flat(0, 9) as usize }];
    let e = Enc::new(a(), a(), ce, le, EncoderSpecialization::new(), DemuxerAndRingBuffer::default(), w, mix, depth, ad, cm, st, false);
    let d = Dec::new(a(), a(), cd, ld, DecoderSpecialization::new(), DemuxerAndRingBuffer::default(), w, 0, None, None, true, StrideSelection::UseBrotliRec, true);
    (e, d)
}
/// both sides remember the same things
pub fn same_state(e: &mut Enc, d: &mut Dec) {
    let (x, y) = (&e.cross_command_state.bk, &d.cross_command_state.bk);
    assert!(x.distance_lru == y.distance_lru, "recent distances {:?} and {:?}", x.distance_lru, y.distance_lru);
    assert!(x.btype_lru == y.btype_lru, "recent block types {:?} and {:?}", x.btype_lru, y.btype_lru);
    assert!(x.btype_max_seen == y.btype_max_seen);
    assert!(x.last_4_states == y.last_4_states, "command history {} and {}", x.last_4_states, y.last_4_states);
    assert!(x.last_llen == y.last_llen && x.last_clen == y.last_clen && x.last_dlen == y.last_dlen, "recent lengths differ");
    assert!(x.distance_context_map.slice() == y.distance_context_map.slice(), "distance context maps differ");
    let (p, q) = (e.cross_command_state.thread_ctx.lbk().unwrap(), d.cross_command_state.thread_ctx.lbk().unwrap());
    assert!(p.last_8_literals == q.last_8_literals, "last literals {:x} and {:x}", p.last_8_literals, q.last_8_literals);
    assert!(p.btype_last == q.btype_last && p.stride == q.stride, "literal block types differ");
    assert!(p.literal_context_map.slice() == q.literal_context_map.slice(), "literal context maps differ");
    assert!(p.mixing_mask[..] == q.mixing_mask[..], "mixing masks differ");
    assert!(p.literal_adaptation == q.literal_adaptation, "adaptation speeds differ");
    assert!(p.combine_literal_predictions == q.combine_literal_predictions && p.literal_prediction_mode == q.literal_prediction_mode);
    for i in 0..2 {
        let (a, b) = (p.model_weights[i].norm_weight(), q.model_weights[i].norm_weight());
        assert!(a == b, "mixing weights {} and {}", a, b);
        assert!(a as u16 <= 1 << 15, "mixing weight {}", a);
        assert!(p.model_weights[i].should_mix() == q.model_weights[i].should_mix());
    }
}
pub fn step<S: Src>(s: &mut S, e: &mut Enc, d: &mut Dec, cmd: &Cmd, out: &mut Vec<u8>, style: u32) {
    let one = [cmd.clone()];
    let (mut i, mut tries) = (0usize, 0u32);
    loop {
        let (mut z, mut o) = (0, 0);
        let r = e.encode_or_decode(&[], &mut z, &mut [], &mut o, &CommandSliceArray(&one[..]), &mut i);
        match r {
            DivansResult::NeedsMoreInput => { assert!(i == 1, "the encoder asks for input in the middle of a command"); break }
            DivansResult::NeedsMoreOutput => {}
            DivansResult::Failure(x) => panic!("encoding {:?} fails: {:?}", short(cmd), x),
            DivansResult::Success => panic!("the encoder ends in the middle of a command list"),
        }
        tries += 1; assert!(tries < 2_000_000, "the encoder makes no progress");
    }
    let (mut i, mut tries) = (0usize, 0u32);
    loop {
        let n = match style { 0 => 2000, 1 => s.range(0, 3), _ => s.range(0, 700) } as usize;
        let mut b = vec![0xa5u8; n]; let (mut z, mut o) = (0, 0);
        let r = d.encode_or_decode(&[], &mut z, &mut b, &mut o, &One, &mut i);
        out.extend_from_slice(&b[..o]);
        for x in &b[o..] { assert!(*x == 0xa5, "bytes past the reported output were touched"); }
        match r {
            DivansResult::NeedsMoreInput => if i == 1 { break },
            DivansResult::NeedsMoreOutput => {}
            DivansResult::Failure(x) => panic!("decoding {:?} fails: {:?}", short(cmd), x),
            DivansResult::Success => panic!("the decoder ends early"),
        }
        tries += 1; assert!(tries < 2_000_000, "the decoder makes no progress in {:?}", short(cmd));
    }
    assert!(d.get_coder(0).at_end(), "the decoder leaves command symbols of {:?} unread", short(cmd));
    assert!(d.get_coder(1).at_end(), "the decoder leaves literal symbols of {:?} unread", short(cmd));
    assert!(d.v_begin() && e.v_begin());
    match *cmd {
        Command::Copy(ref c) => { let x = d.v_copy(); assert!(x.distance == c.distance && x.num_bytes == c.num_bytes, "copy {:?} decodes to {:?}", c, x) }
        Command::Dict(ref c) => { let x = d.v_dict(); assert!(x.word_size == c.word_size && x.word_id == c.word_id && x.transform == c.transform, "dictionary {:?} decodes to {:?}", c, x) }
        Command::BlockSwitchCommand(b) => assert!(d.cross_command_state.bk.btype_lru[1][0] == b.block_type(), "command block type {} decodes to {}", b.block_type(), d.cross_command_state.bk.btype_lru[1][0]),
        Command::BlockSwitchDistance(b) => assert!(d.cross_command_state.bk.btype_lru[2][0] == b.block_type(), "distance block type {} decodes to {}", b.block_type(), d.cross_command_state.bk.btype_lru[2][0]),
        Command::BlockSwitchLiteral(b) => {
            assert!(d.cross_command_state.bk.btype_lru[0][0] == b.block_type(), "literal block type {} decodes to {}", b.block_type(), d.cross_command_state.bk.btype_lru[0][0]);
            let want = match e.cross_command_state.bk.desired_force_stride { StrideSelection::UseBrotliRec => b.stride(), x => x as u8 };
            let l = d.cross_command_state.thread_ctx.lbk().unwrap();
            assert!(l.btype_last == b.block_type() && l.stride == want, "literal block switch {:?} decodes to {} stride {}", b, l.btype_last, l.stride);
        }
        _ => {}
    }
    same_state(e, d);
}
pub fn short(c: &Cmd) -> String {
    match *c {
        Command::Copy(ref c) => format!("{:?}", c), Command::Dict(ref c) => format!("{:?}", c),
        Command::Literal(ref l) => format!("literal of {} bytes", l.data.0.len()),
        Command::BlockSwitchCommand(b) => format!("command block type {}", b.block_type()), Command::BlockSwitchDistance(b) => format!("distance block type {}", b.block_type()),
        Command::BlockSwitchLiteral(b) => format!("literal block type {} stride {}", b.block_type(), b.stride()), Command::PredictionMode(_) => "prediction mode".into(),
    }
}
pub fn gen_bs<S: Src>(s: &mut S, max: u32) -> Cmd {
    let t = s.range(0, max) as u8;
    match s.range_flat(0, 2) { 0 => Command::BlockSwitchCommand(BlockSwitch::new(t)), 1 => Command::BlockSwitchDistance(BlockSwitch::new(t)), _ => Command::BlockSwitchLiteral(LiteralBlockSwitch::new(t, s.range_flat(0, 8) as u8)) }
}
/// whole commands through both halves of the codec
pub fn r12_codec<S: Src>(s: &mut S, _lim: u32) {
    let w = s.range(10, 16) as usize;
    let stop = match s.range_flat(0, 3) { 0 => 0, 1 => 2, 2 => 5, _ => 50 };
    let (mut e, mut d) = pair(s, w, stop);
    let style = s.range_flat(0, 2);
    let mut hist = vec![]; let mut out = vec![];
    let n = s.range(1, 40);
    let cap = match s.range_flat(0, 15) { 0..=1 => 5000, 2 if stop == 0 || stop > 20 => 300_000, 3..=5 => 40, _ => 700 };
    let btmax = if s.flip() { 15 } else { 255 };
    let near = s.flip();
    let mut last: [u32; 4] = [4, 11, 15, 16];
    if s.flip() { let c = predmode(s); step(s, &mut e, &mut d, &c, &mut out, style); }
    for _ in 0..n {
        let c = if s.chance(5) { gen_bs(s, btmax) } else if s.chance(40) { predmode(s) } else if near && s.flip() {
            // distances near recent ones
            let dist = (last[s.range_flat(0, 3) as usize] as i64 + s.range_flat(0, 10) as i64 - 5).max(1).min((1i64 << w) - 16 - 1) as u32;
            let nb = s.range(1, 60);
            for _ in 0..nb { let b = if dist as usize <= hist.len() { hist[hist.len() - dist as usize] } else { 0 }; hist.push(b); }
            Command::Copy(CopyCommand { distance: dist, num_bytes: nb })
        } else { gen_cmd(s, &mut hist, (1 << w) - 16, cap) };
        if let Command::Literal(ref l) = c { if l.data.0.is_empty() { continue } }
        if let Command::Copy(ref c) = c { last = [c.distance, last[0], last[1], last[2]]; }
        step(s, &mut e, &mut d, &c, &mut out, style);
        assert!(out.len() <= hist.len() && out[..] == hist[..out.len()], "{:?} expands to other bytes ({} of {})", short(&c), out.len(), hist.len());
    }
    // what is still in the history window
    let mut b = vec![0u8; (1 << w) + 16]; let mut o = 0;
    let r = d.cross_command_state.thread_ctx.recoder().unwrap().flush(&mut b, &mut o);
    assert!(if let DivansOutputResult::Success = r { true } else { false });
    out.extend_from_slice(&b[..o]);
    assert!(out == hist, "the commands expand to other bytes ({} of {})", out.len(), hist.len());
}
/// single commands with any field values, straight through the field coders from any state of the memories
pub fn r12_fields<S: Src>(s: &mut S, _lim: u32) {
    let stop = match s.range_flat(0, 2) { 0 => 0, 1 => 2, _ => 9 };
    let (mut e, mut d) = pair(s, 10, stop);
    // any memory that a history could leave, the same on both sides
    let lru: [u32; 4] = [s.range(1, 0x7fff_ffe0), s.range(1, 0x7fff_ffe0), s.range(1, 100), s.range(1, 0x7fff_ffe0)];
    let bl = [[s.u8(), s.u8()], [s.u8(), s.u8()], [s.u8(), s.u8()]]; let bm = [s.u8(), s.u8(), s.u8()];
    let (lc, ld, ll) = (s.range_flat(0, 33) as u8, s.range_flat(0, 33) as u8, s.u32());
    if s.flip() {
        let b = &mut e.cross_command_state.bk; b.distance_lru = lru; b.btype_lru = bl; b.btype_max_seen = bm; b.last_clen = lc; b.last_dlen = ld; b.last_llen = ll;
        let b = &mut d.cross_command_state.bk; b.distance_lru = lru; b.btype_lru = bl; b.btype_max_seen = bm; b.last_clen = lc; b.last_dlen = ld; b.last_llen = ll;
    }
    let n = s.range(1, 6);
    for _ in 0..n {
        match s.range_flat(0, 3) {
            0 => {
                let near = e.cross_command_state.bk.distance_lru[s.range_flat(0, 3) as usize] as i64 + s.range_flat(0, 10) as i64 - 5;
                let dist = if s.flip() && near > 0 && near < 1 << 30 { near as u32 } else { s.range(1, (1 << 30) - 1) };
                let c = CopyCommand { distance: dist, num_bytes: if s.flip() { s.range(0, 600) } else { s.u32() } };
                let (mut x, mut y) = (CopyState::begin(), CopyState::begin());
                both(|| x.encode_or_decode(&mut e.cross_command_state, &c, &mut [], &mut 0), || y.encode_or_decode(&mut d.cross_command_state, &CopyCommand { distance: 1, num_bytes: 0 }, &mut [], &mut 0), &c);
                assert!(y.cc.distance == c.distance && y.cc.num_bytes == c.num_bytes, "copy {:?} decodes to {:?}", c, y.cc);
                e.cross_command_state.bk.obs_distance(&x.cc); d.cross_command_state.bk.obs_distance(&y.cc);
            }
            1 => {
                let ws = s.range_flat(4, 24);
                let c = DictCommand { word_size: ws as u8, transform: s.range_flat(0, 120) as u8, final_size: 0, empty: 0, word_id: s.range(0, (1 << kBrotliDictionarySizeBitsByLength[ws as usize]) - 1) };
                let (mut x, mut y) = (DictState::begin(), DictState::begin());
                both(|| x.encode_or_decode(&mut e.cross_command_state, &c, &mut [], &mut 0), || y.encode_or_decode(&mut d.cross_command_state, &DictCommand::nop(), &mut [], &mut 0), &c);
                assert!(y.dc.word_size == c.word_size && y.dc.word_id == c.word_id && y.dc.transform == c.transform, "dictionary {:?} decodes to {:?}", c, y.dc);
            }
            2 => {
                let k = s.range_flat(1, 2) as usize; let t = s.u8();
                let (mut x, mut y) = (BlockTypeState::begin(), BlockTypeState::begin());
                both(|| x.encode_or_decode(&mut e.cross_command_state, BlockSwitch::new(t), k, &mut [], &mut 0), || y.encode_or_decode(&mut d.cross_command_state, BlockSwitch::default(), k, &mut [], &mut 0), &t);
                assert!(y == BlockTypeState::FullyDecoded(t), "block type {} decodes to {:?}", t, y);
                if k == 1 { e.cross_command_state.bk.obs_btypec(t); d.cross_command_state.bk.obs_btypec(t) } else { e.cross_command_state.bk.obs_btyped(t); d.cross_command_state.bk.obs_btyped(t) }
            }
            _ => {
                let b = LiteralBlockSwitch::new(s.u8(), s.range_flat(0, 8) as u8);
                let (mut x, mut y) = (LiteralBlockTypeState::begin(), LiteralBlockTypeState::begin());
                both(|| x.encode_or_decode(&mut e.cross_command_state, b, &mut [], &mut 0), || y.encode_or_decode(&mut d.cross_command_state, LiteralBlockSwitch::default(), &mut [], &mut 0), &b.block_type());
                let want = match e.cross_command_state.bk.desired_force_stride { StrideSelection::UseBrotliRec => b.stride(), x => x as u8 };
                let ok = if let LiteralBlockTypeState::FullyDecoded(t, st) = y { t == b.block_type() && st == want } else { false };
                assert!(ok, "literal block switch {} stride {} decodes to something else", b.block_type(), want);
                e.cross_command_state.bk.obs_btypel(b); d.cross_command_state.bk.obs_btypel(b);
            }
        }
        assert!(d.get_coder(0).at_end(), "the decoder leaves symbols unread");
        same_state(&mut e, &mut d);
    }
}
fn both<T: std::fmt::Debug>(mut enc: impl FnMut() -> DivansResult, mut dec: impl FnMut() -> DivansResult, c: &T) {
    let mut k = 0;
    loop { match enc() { DivansResult::Success => break, DivansResult::NeedsMoreOutput => {} r => panic!("encoding {:?} gives {:?}", c, r) } k += 1; assert!(k < 10_000, "encoding {:?} makes no progress", c); }
    let mut k = 0;
    loop { match dec() { DivansResult::Success => break, DivansResult::NeedsMoreInput => {} r => panic!("decoding {:?} gives {:?}", c, r) } k += 1; assert!(k < 10_000, "decoding {:?} makes no progress", c); }
}
