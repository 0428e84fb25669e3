"""Text for DESIGN.md that is per property: how the family decides it here."""
PLAN = {
'R01': '''Two Verus units over `src/ans.rs`, `arithmetic_coder.rs` and the coder interface in `interface.rs`. *encoder*: the byte stack, `put_bit`, `put_nibble`, `put_start_freq`, `reverse_put_sym`, `flush_chunk`
(the pending symbols are replayed in reverse over two interleaved registers), `pop_data`, `close` and the drain entry points: the queue holds exactly `encoded(symbols)`, and draining hands it out in
order into any slice. *decoder*: every register state and every slice: `push_data` with its two slow paths and `num_push_bytes_avail` against one functional specification of a refill (a word's bytes
least significant first, from wherever the previous slice ended), `helper_advance_sym`, `get_bit`, `get_nibble` and the fill entry points. Theorems over these contracts: two pushes are one push of the
concatenation; the first 16 bytes of a chunk put the decoder in the state that simulates the encoder before its first symbol; a simulating decoder sees, at each symbol, an offset inside the interval
the encoder used, and keeps simulating; after the last symbol of a full chunk nothing is pending and it asks for exactly a fresh header; by induction all symbols come back. Named constants are evaluated
from the source. Assumed: the table contract of R02 (a lookup inside a symbol's range returns it) and buffers of the requested size. `k_r01_feed` (Kani) re-checks one refill call on the compiled
decoder; end-to-end sessions with arbitrary drain and feed splits are a bounded native search.''',
'R02': '''Verus over `frequentist_cdf.rs` and `interface.rs`: invariant "cumulative counts strictly increase, total in range" is established by construction and preserved by `blend`, `average` and
renormalisation for any symbol/speed/weight; `sym_to_start_and_freq` and `cdf_offset_to_sym_start_and_freq` have mutual-inverse contracts against one spec of the interval. Same for the binary model. No bound.''',
'R03': '''A nonlinear lemma over every numerator and every denominator, taking as its only assumption the table condition `lut[d] = (m, s)` with `2^s <= m*d < 2^s + 2^(s-k)`; the assumption is discharged by
enumerating the real tables on every run. Verus checks the real `fast_divide_*` bodies against integer division.''',
'R04': '''The wire format is an automaton over bytes, `run(d, w)`, with the two streams split off so far as part of its state. Reading: `deserialize` takes the demultiplexer from `d` to `run(d, the bytes it took)`, takes something
unless the next byte is malformed, and stops only at the end mark. Writing: ghost `d0` is what a reader of all bytes so far would be; each of `write`, `linearize`, `flush` keeps `good(d0)` (what is pending completes a run) and `tot(d0, s)`,
everything a reader has plus what waits, changes only by the data written. Theorems `t_writer_done`, `t_reader_reads`, `t_reader_takes`, `t_reader_done` put both ends together for any history, any slicing. Buffer growth and cursor
arithmetic (`prep_push_for_n_bytes`, 3 bytes of room for a header before the data) are part of it. `free`, `prealloc` (unused) and the arrays of views `read_buffer`/`write_buffer` are not under contract; the native search covers the views.''',
'R05': '''Every function of `cmd_to_raw` (flush, ring copies, literal, copy, dictionary, the driver loop) is under contract against the LZ77 expansion as a spec function on sequences; the theorem says any run of calls,
whatever the output slices, emits exactly the expansion, and that a malformed distance gives the error code without progress. No bound on window, list or slices; the brotli dictionary is assumed (its
tables enumerated natively).''',
'R06': '''`crc32c_update`, its 16-byte step and byte tail are under contract against the bit-by-bit CRC-32C spec (linearity over xor proved by induction, per-byte step by bit vectors); the theorem gives the split property. The
4096 table entries assumed are enumerated on every run.''',
'R07': '''Ghost logs again: `Codec.read()` is header + bytes taken by the demultiplexer + trailer bytes, and `wf` says the running checksum is the CRC-32C (the spec of R06, its proofs included in the unit) of all but the trailer. `decode_process_input`
keeps it for any split, `process_eof` succeeds only on `good()` (end mark, and checksum unless skipped) and gives BadChecksum only otherwise. Writing: `sess(w)` says the state after writing the bytes `w`; `write_header`, `encode_or_decode`, `flush` and
`internal_flush` (the whole shutdown state machine) each take `sess(w)` to `sess(w + bytes emitted)`, and the theorem `finished` reads off that a completed file is its body followed by the trailer of that body. The native search mutates trailers,
bodies and header bytes, in both modes and with any split.''',
'R08': '''Complete Kani harness: all 2^128 headers through the real `parse_header`; acceptance iff magic and window 10..=24 (10..=24 as the format states). Split over calls: bounded search on `decode`. The writer's header for
every window is enumerated.''',
'R09': '''Complete Kani harness over all pairs of speeds on the real functions (round trip, idempotence, monotonicity) and complete enumeration.''',
'R10': '''`compute_new_weight`, `Weights::update` and the normalisation are under contract: for any weights >= 1, any interval widths a valid table admits, the weights stay >= 1 and below their cap and the normalised weight in
0..=32768. The invariant holds initially, so for every history.''',
'R11': '''Both block-type coders, the distance short codes and each `obs_*` update are under contract against one nibble automaton used for both directions (see R12); theorems: same nibbles in, same value and same memories out.''',
'R12': '''The generic automaton argument (`verus/auto.py`): for a command kind a total function says which nibble comes next (slot and value) from the memories and the nibbles so far. The real `encode_or_decode` is one function for
both directions; its contract says that whatever the direction and wherever it is suspended, the nibbles coded so far are a live prefix, models touched are those of the automaton, and on success the run is final and the
command left behind is the command the nibbles denote. Encoder side additionally: the nibbles are those of the command given. The uniqueness theorem (`p_agree`): two complete runs over the same nibbles stop at the
same place with the same command and memories. Copies, dictionary words (index widths checked against the RFC 7932 table), literal lengths and block types; literal contents, prediction modes and whole commands are a bounded search through both halves of the real codec.''',
'R13': '''Two halves that meet at one table of extents. Complete Kani harness per model table on the real index computation (every pair of contexts inside the extents: in range, distinct) and complete enumeration. Verus: the R11/R12 units with
a precondition on every table lookup, so the copy, dictionary, literal-length and block-type coders are shown to ask only for contexts inside those extents, for any stream. Prediction modes, command kinds and payload nibbles are bounded.''',
'R14': '''Verus on every function of `resizable_buffer.rs`, `alloc_util.rs` and the prefix blocks of `slice_util.rs`. Memory blocks carry a ghost identity and the base allocator a ghost set of identities that are out; its `free_cell`
*requires* the block to be out, so a double free fails a precondition. Invariants: committed contents are `data[0..size]`; the blocks in use are those out minus the one cached. Growth, checkout (whose contract speaks about the final value of the
slice lent out), commit, free, and cached allocation/release preserve them; `t_write` proves write-then-read over the contracts. Native search with identity-carrying blocks supplies inputs.''',
'R15': '''Every command denotes bytes of the window. `stream` and `flush` of the assembler are verified against "commands emitted, then bytes held, are the bytes held before, then the bytes taken", for any position of the two window indices
(wrap included) and any room for commands. Around them, the compressor: freezing a command keeps its place in the window, thawing gives the same bytes back as long as the window has not moved, and `encode` / `flush` keep "taken by the codec + kept +
in the window == taken from the caller" over unbounded loops. The codec is an abstract consumer that may stop before or inside any literal (it then *requires* the same literal to be offered again).
The native search drives the assembler alone and the whole compressor with windows far smaller than the input and outputs of a few bytes.''',
'R16': '''Ghost logs on the codec (bytes consumed, bytes produced) and on the underlying stream (bytes delivered, errors raised). Representation invariant of the reader: consumed + staged == delivered; of the writer: written +
staged == produced. `read`, `write`, `flush` and their helpers are verified against them with unbounded loops, so short transfers, interruptions and errors at any point are covered. Errors are counted: raised == reported + held. End of
file only after the codec finished. The fault search drives the four public adapters over the real codecs.''',
'R17': '''A ghost ledger is threaded through every function that touches the caller's allocator (one extra parameter, added mechanically): which blocks of the caller's are out, with their size, the opaque pointer they were
requested with and the cells written; which blocks are Rust's; which states live where. Calling `free_func` *requires* the block to be out under that opaque pointer, dropping a box *requires* Rust to own it, reading a state *requires* its block
to be live, `Box::from_raw` *requires* every cell written. `alloc_cell`, `free_cell`, the cell's `Drop`, state creation and release, both `Drop`s of the states and the malloc/free helpers are verified against it for every combination of
present and absent functions. Whole sessions (who gives back which cells) are a bounded native search with a counting allocator that fills fresh blocks with junk, abandoned at random points.''',
'R18': '''Bounded: mutation and noise below valid headers, and damage just before the end of an entropy-coder chunk with the input cut at its edge, with debug assertions and overflow checks on, and a progress watchdog. The arithmetic and indexing safety of every function under contract in R01-R12 is discharged by
Verus in passing (no overflow, no out-of-bounds, no failed assertion for any state within the invariant), which is where the unbounded part of this property is.''',
'R19': '''Not applicable, see below.''',
'R20': '''Bounded: random data, options and splits through the real compressor and decompressor. The composition of the per-part theorems over the whole codec driver is not discharged.''',
}
def render(L, props, fixed, seeds):
    P = []
    for p in L:
        q = props.get(p['id'])
        P.append('### %s %s\n' % (p['id'], p['title']))
        P.append(PLAN[p['id']].strip() + '\n')
        if q:
            P.append('*Level:* `%s`. %s' % (q['level'], q['level_note']))
            P.append('*Assumed:* ' + '; '.join(q['trusted']) + '.\n')
    return '\n'.join(P), '\n'.join('* ' + f for f in fixed), seeds
