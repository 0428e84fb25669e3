use crate::{common::*, src::*};
use divans::mux::Mux;
use divans::interface::{StreamDemuxer, StreamMuxer};
reg!("R04"; r04_mux);
pub fn payload(stream: usize, i: usize, k: u8) -> u8 { (i as u8).wrapping_mul(7).wrapping_add((i >> 8) as u8).wrapping_add(stream as u8 * 131).wrapping_add(k) }
pub fn r04_mux<S: Src>(s: &mut S, lim: u32) {
    let mut m = a();
    let mut mux = Mux::<A>::default();
    let mut dem = Mux::<A>::default();
    let k = s.u8();
    let mut sent = [0usize; 2];
    let mut got = [0usize; 2];
    let mut closed = false;
    let steps = s.range(1, 60);
    let big = s.chance(3);
    let mut wire: Vec<u8> = vec![];
    let mut wpos = 0usize;
    let skew = s.range_flat(0, 3);
    let cap: u32 = if big { 200_000 } else { 300 };
    let _ = lim;
    let mut step = 0;
    let mut idle = 0;
    loop {
        step += 1;
        let produce = step <= steps;
        if produce {
            // write to a stream through either interface
            let st = match skew { 0 => 0usize, 1 => 1, _ => s.range_flat(0, 1) as usize };
            let n = s.range(0, cap) as usize;
            if s.chance(3) {
                let mut wb = mux.write_buffer(&mut m);
                let w = &mut wb[st];
                let off = *w.write_offset;
                let room = w.data.len() - off;
                assert!(room >= 16, "writer offers no room");
                let n = n.min(room);
                for i in 0..n { w.data[off + i] = payload(st, sent[st] + i, k); }
                *w.write_offset += n;
                sent[st] += n;
            } else {
                let d: Vec<u8> = (0..n).map(|i| payload(st, sent[st] + i, k)).collect();
                let r = mux.write(st as u8, &d, &mut m);
                assert!(r == n);
                sent[st] += n;
            }
        }
        // move some bytes to the wire
        if !closed && (s.flip() || !produce) {
            let n = if s.chance(4) { s.range(0, 4) } else { s.range(0, cap.max(600)) } as usize;
            let mut o = vec![0u8; n];
            let w = if produce { mux.linearize(&mut o) } else { mux.flush(&mut o) };
            assert!(w <= n);
            wire.extend_from_slice(&o[..w]);
            if !produce && mux.wrote_eof() { closed = true; }
            if w == 0 { idle += 1 } else { idle = 0 }
            assert!(closed || produce || n < 4 || idle < 200, "close makes no progress");
        }
        // feed the demuxer
        if s.flip() || closed {
            let left = wire.len() - wpos;
            let n = if s.flip() { left } else { s.range(0, 20) as usize }.min(left);
            let u = dem.write_linear(&wire[wpos..wpos + n], &mut m);
            assert!(u == n, "demuxer took {} of {} bytes before the end", u, n);
            wpos += n;
        }
        for st in 0..2usize {
            if s.flip() || closed {
                let av = dem.data_ready(st as u8);
                if s.flip() {
                    let p = dem.peek(st as u8);
                    assert!(p.len() == av);
                    for (i, b) in p.iter().enumerate() { assert!(*b == payload(st, got[st] + i, k), "stream {} byte {} differs", st, got[st] + i); }
                    let c = if s.flip() { av } else { s.range(0, av as u32) as usize };
                    dem.consume(st as u8, c);
                    got[st] += c;
                } else {
                    let mut rb = dem.read_buffer();
                    let r = &mut rb[st];
                    let off = *r.read_offset;
                    assert!(r.data.len() - off == av);
                    let c = if s.flip() { av } else { s.range(0, av as u32) as usize };
                    for i in 0..c { assert!(r.data[off + i] == payload(st, got[st] + i, k), "stream {} byte {} differs", st, got[st] + i); }
                    *r.read_offset += c;
                    got[st] += c;
                }
                assert!(got[st] <= sent[st], "stream {} delivers bytes never written", st);
            }
        }
        if closed && wpos == wire.len() {
            assert!(dem.encountered_eof(), "end of stream lost");
            let all = (0..2).all(|st| got[st] + dem.data_ready(st as u8) == sent[st]);
            assert!(all, "bytes lost: sent {:?} got {:?}", sent, got);
            if dem.data_ready(0) == 0 && dem.data_ready(1) == 0 {
                assert!(dem.consumed_all_streams_until_eof());
                // bytes after the end marker belong to the container
                assert!(dem.write_linear(&[1, 2, 3, 4], &mut m) == 0, "demuxer reads past the end marker");
                assert!(mux.flush(&mut [0u8; 64]) == 0);
                return;
            } else { assert!(!dem.consumed_all_streams_until_eof()); }
        } else if !closed { assert!(!dem.encountered_eof(), "early end of stream"); }
        assert!(step < 200_000, "no progress");
    }
}
