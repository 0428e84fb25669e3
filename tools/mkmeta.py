#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the property texts below and tools/props.py."""
import os, sys, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
L = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    L.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [dict(name=n, where=w) for n, w in mech],
                          'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': hook}})
H = 'cfg(divans_verif) include points (see MANIFEST hooks)'

prop('R01', 'The entropy coder reproduces every symbol it was given',
     'Whatever sequence of bits and nibbles is coded, each under any valid frequency table, decoding the produced bytes under the same tables returns exactly the same sequence. This holds however the produced bytes are drained and however they are fed back in.',
     ['inputs', 'histories'], 'all symbol sequences, all valid probability tables per symbol, all sequence lengths (including several chunks of the internal buffer), all drain and refill split points',
     'Unit tests code a handful of fixed sequences with uniform or one adaptive table; renormalisation boundaries and chunk flushes depend on the joint value of coder state and table.',
     ['src/ans.rs', 'src/interface.rs'],
     [('put_nibble / put_bit / get_nibble / get_bit', 'src/ans.rs'), ('flush_chunk: symbols are replayed in reverse', 'src/ans.rs'), ('two interleaved coder states', 'src/ans.rs')],
     [('coder register pair', 'the two interleaved range registers', 'src/ans.rs'), ('pending symbols', 'symbols since the last chunk flush', 'src/ans.rs')],
     ['bytes drained from the encoder', 'symbols returned by the decoder'], H)
prop('R02', 'Frequency tables always give every symbol a valid, matching interval',
     'After any history of adaptations and mixes, each symbol of a nibble or bit model owns a non-empty interval of the code space, the intervals do not overlap and lie inside the space, and looking up any code value inside a symbol\'s interval yields that symbol with the same interval. Encoder and decoder therefore agree on every interval.',
     ['histories', 'inputs'], 'all sequences of symbols and adaptation speeds (increment up to 8175, limit up to 0x4000), all mixes of reachable tables with any weight, all code values',
     'Tests blend short random histories at a few speeds; empty intervals or lookups off by one appear only for particular table shapes next to a renormalisation.',
     ['src/probability/frequentist_cdf.rs', 'src/probability/interface.rs'],
     [('FrequentistCDF16::blend / average', 'src/probability/frequentist_cdf.rs'), ('sym_to_start_and_freq / cdf_offset_to_sym_start_and_freq', 'src/probability/interface.rs')],
     [('cumulative table', 'monotone cumulative counts of the 16 symbols', 'src/probability/frequentist_cdf.rs')],
     ['interval returned for a symbol', 'symbol and interval returned for a code value'], H)
prop('R03', 'Division by multiplication is exact',
     'Dividing a numerator by a table total using the precomputed reciprocal gives the same quotient as integer division, for every numerator and every total the frequency models can reach.',
     ['inputs'], 'every 31-bit numerator, every denominator of the reciprocal tables',
     'The full product space is 2^47; tests sample a few numerators per denominator.',
     ['src/probability/numeric.rs', 'src/probability/div_lut.rs'],
     [('fast_divide_30bit_by_16bit and its siblings', 'src/probability/numeric.rs'), ('RECIPROCAL tables', 'src/probability/div_lut.rs')], [], ['quotients'], H)
prop('R04', 'Interleaving two byte streams into one file never mixes or loses bytes',
     'Whatever bytes are pushed on the two streams, and however pushes, flushes and partial drains interleave, splitting the combined output yields exactly the bytes pushed on each stream, in order, followed by end of file. The result does not depend on how the combined bytes are sliced when they are read or fed back.',
     ['inputs', 'histories'], 'all byte contents, all interleavings of pushes, serialisation and flushes, all output and input slice sizes including one byte',
     'Tests use one or two fixed interleavings; the header kind (fixed power of two or exact length), the buffer wrap and the split header bytes depend on the exact history.',
     ['src/mux.rs'], [('Mux::serialize / flush / deserialize', 'src/mux.rs'), ('get_code / prep_mux_for_serialization', 'src/mux.rs')],
     [('per-stream buffer with read and write cursors', 'bytes not yet sent or consumed', 'src/mux.rs'), ('bytes remaining in the current run', 'header state', 'src/mux.rs')],
     ['bytes written by serialize', 'bytes readable per stream after deserialize'])
prop('R05', 'Command interpretation is LZ77 expansion, whatever the output slices',
     'Interpreting any list of literal, copy and in-range dictionary commands emits exactly the bytes those commands denote over the history window, in order, for every copy distance smaller than the window. The result is independent of how small the output buffers given to each call are, and malformed copy distances are rejected with an error, not emitted as wrong bytes and not looped on.',
     ['inputs', 'histories'], 'all command lists, all window sizes, all sequences of output buffer sizes including zero and one',
     'Tests run one fixed command list with a few buffer sizes; window wrap, overlap and partial output interact.',
     ['src/cmd_to_raw/mod.rs'], [('encode_cmd, parse_copy, parse_literal, parse_dictionary', 'src/cmd_to_raw/mod.rs'), ('copy_to_ring_buffer, copy_decoded_from_ring_buffer, flush', 'src/cmd_to_raw/mod.rs')],
     [('ring buffer, decode and output index', 'history window and the part not yet emitted', 'src/cmd_to_raw/mod.rs')], ['bytes written to the output slices', 'result codes'], H)
prop('R06', 'The checksum is CRC-32C for every input and every split',
     'The running checksum of any byte string equals the standard CRC-32C (Castagnoli) of that string, and feeding the string in any number of pieces gives the same value as feeding it at once.',
     ['inputs', 'histories'], 'all byte strings, all initial values, all ways to cut a string into pieces',
     'Tests check a few known strings; the word-at-a-time, tail and table paths each have their own indices.',
     ['src/codec/crc32.rs', 'src/codec/crc32_table.rs'], [('crc32c_update and its slices', 'src/codec/crc32.rs'), ('CRC tables', 'src/codec/crc32_table.rs')], [], ['checksum value'], H)
prop('R07', 'A corrupted trailer is always reported; only the checksum is skippable',
     'Decompression succeeds only when the stream ends in the trailer that carries the checksum of the compressed bytes before it (header included) and the end marker. Any other checksum is reported as an error unless checksum verification was switched off, and a wrong end marker is reported in either mode, however the trailer bytes are split over calls.',
     ['inputs', 'configurations', 'histories'], 'all 2^64 trailers, all checksums, both settings of checksum skipping, all ways to split the trailer over calls',
     'Tests flip a few bytes of one file, fed in one piece.',
     ['src/codec/mod.rs', 'src/codec/decoder.rs', 'src/divans_decompressor.rs'], [('checksum state of the decoder', 'src/codec/mod.rs'), ('encoder trailer', 'src/codec/mod.rs')],
     [('running checksum', 'CRC of the compressed bytes consumed so far', 'src/codec/decoder.rs')], ['result code at end of stream'], H)
prop('R08', 'Only well-formed headers are accepted, however they arrive',
     'A decompressor accepts a 16-byte header exactly when it starts with the format\'s magic bytes and names a supported window size, and reports every other header as an error. Acceptance and the chosen window do not depend on how the header bytes are split over calls, and every header the compressor writes is accepted with the same window size.',
     ['inputs', 'histories', 'configurations'], 'all 2^128 headers, all splits over calls, all window sizes',
     'Tests feed valid headers in one piece.',
     ['src/divans_decompressor.rs', 'src/divans_compressor.rs', 'src/constants.rs'], [('HeaderParser::parse_header / decode', 'src/divans_decompressor.rs'), ('header writer', 'src/divans_compressor.rs')],
     [('header buffer and progress', 'bytes of the header seen so far', 'src/divans_decompressor.rs')], ['result code of decode', 'bytes consumed'], H)
prop('R09', 'Adaptation speeds survive the one-byte float form exactly',
     'Converting any adaptation speed to its byte form and back gives a value the byte form represents, converting again changes nothing, and larger speeds never become smaller ones. Encoder and decoder, which exchange only the byte form, therefore use identical speeds.',
     ['inputs'], 'all pairs of speeds up to 0x4000, all byte forms reachable from a speed',
     'Tests check the predefined speeds only.',
     ['src/probability/interface.rs'], [('speed_to_u8 / u8_to_speed', 'src/probability/interface.rs'), ('Speed::to_f8_tuple / from_f8_tuple', 'src/probability/interface.rs')], [], ['speeds after the conversion'], H)
prop('R10', 'Mixing weights stay in range and depend only on the decoded past',
     'The weight that blends two probability models always lies in its valid range, whatever sequence of symbols and predictions it has seen. The blended table is therefore always a valid table.',
     ['histories'], 'all sequences of weighted probabilities, learning rates and starting weights',
     'Tests update from a handful of values; saturation is reached only by long one-sided histories.',
     ['src/codec/weights.rs'], [('compute_new_weight / Weights::update', 'src/codec/weights.rs')], [('two model weights', 'log-ish weights and their normalised ratio', 'src/codec/weights.rs')], ['normalised weight'], H)
prop('R11', 'Short distance codes and block-type codes decode to what was encoded',
     'For every state of the recent-distance and recent-block-type memories, the short code chosen by the encoder decodes to the same distance or block type. After coding it both sides hold the same memories.',
     ['inputs', 'histories'], 'all distance memories, all distances, all block-type memories, all block types, after any history',
     'Tests run compressible files whose distances seldom hit the off-by-few codes.',
     ['src/codec/interface.rs', 'src/codec/copy.rs', 'src/codec/block_type.rs'], [('distance_mnemonic_code / get_distance_from_mnemonic_code', 'src/codec/interface.rs'), ('obs_distance / obs_btype', 'src/codec/interface.rs')],
     [('distance_lru', 'the four most recent distances', 'src/codec/interface.rs'), ('btype_lru', 'the two most recent block types per kind', 'src/codec/interface.rs')], ['decoded distance and memories'], H)
prop('R12', 'Every command field decodes to the value that was encoded',
     'Coding a command as nibbles and decoding those nibbles gives the same command: every copy length and distance, dictionary word and transform, literal length, block type, and block-switch stride, for any values the format can carry.',
     ['inputs', 'histories'], 'all field values the format admits, from any state of the recent-value memories',
     'Tests run files whose commands use small lengths; each magnitude class has its own nibble count.',
     ['src/codec/copy.rs', 'src/codec/dict.rs', 'src/codec/block_type.rs', 'src/codec/literal.rs', 'src/codec/mod.rs'],
     [('CopyState::encode_or_decode', 'src/codec/copy.rs'), ('DictState::encode_or_decode', 'src/codec/dict.rs'), ('BlockTypeState::encode_or_decode', 'src/codec/block_type.rs')], [], ['decoded command'], H)
prop('R13', 'Every model context addresses its own cell',
     'Each combination of context values that the format can produce selects a probability model inside the model array, and two different combinations of the same kind never share one by accident. Encoder and decoder select the same one.',
     ['inputs', 'configurations'], 'all combinations of context dimensions of every model table',
     'Tests reach a small part of the context space; an index past a dimension silently lands in a neighbour.',
     ['src/priors.rs', 'src/codec/priors.rs'], [('define_index / PriorCollection::get', 'src/priors.rs'), ('define_prior_struct declarations', 'src/codec/priors.rs')], [], ['model index chosen'], H)
prop('R14', 'Growable and recycling buffers never lose or leak bytes',
     'A growable buffer returns exactly the bytes written to it, in order, however reads, writes and growth interleave, and always offers at least the free space asked for. A recycled allocation is never handed out twice at once and never smaller than asked for.',
     ['histories'], 'all sequences of writes, reads and growth requests of any size',
     'Tests write a few fixed sizes.',
     ['src/resizable_buffer.rs', 'src/alloc_util.rs'], [('ResizableByteBuffer', 'src/resizable_buffer.rs'), ('RepurposingAlloc', 'src/alloc_util.rs')], [], ['bytes read back'], H)
prop('R15', 'Turning raw bytes into literal commands loses nothing',
     'However input bytes arrive and however few command slots each call offers, the literal commands produced denote exactly the input bytes in order. Nothing is lost or repeated when the internal window wraps.',
     ['inputs', 'histories'], 'all input byte strings, all splits over calls, all command buffer sizes, all window sizes',
     'Tests use windows larger than the input, so the wrap is never reached.',
     ['src/raw_to_cmd/mod.rs', 'src/divans_compressor.rs'], [('RawToCmdState::stream / flush', 'src/raw_to_cmd/mod.rs'), ('freeze_dry / thaw of held commands', 'src/divans_compressor.rs')],
     [('ring buffer with input and output index', 'bytes not yet turned into commands', 'src/raw_to_cmd/mod.rs')], ['literal commands produced'], H)
prop('R16', 'The stream adapters pass every byte through the codec exactly once',
     'Reading or writing through the stream adapters gives the same bytes as calling the codec directly, whatever buffer sizes are used and however short the underlying reads and writes are. Interrupted or failing I/O is reported to the caller and loses nothing already accepted.',
     ['inputs', 'histories', 'fault_sequences'], 'all payloads, all read and write sizes, all patterns of short reads, short writes, interruptions and errors of the underlying stream',
     'Tests use streams that never fail or stop short.',
     ['src/reader.rs', 'src/writer.rs'], [('GenReader::read', 'src/reader.rs'), ('GenWriter::write / flush / close', 'src/writer.rs')], [('internal staging buffer', 'bytes accepted and not yet passed on', 'src/reader.rs')], ['bytes seen by the caller and the underlying stream', 'I/O results'], H)
prop('R17', 'Custom allocators get back exactly what they gave',
     'Through the C interface, every block obtained from the caller\'s allocator is returned to it exactly once and nothing else is. The bytes of a fresh block are initialised before they are read.',
     ['histories'], 'all sequences of allocations and releases through the C interface allocators',
     'No test uses a custom allocator that counts.',
     ['src/ffi/alloc_util.rs', 'src/ffi/mod.rs'], [('SubclassableAllocator', 'src/ffi/alloc_util.rs')], [], ['calls to the user-supplied functions'], H)
prop('R18', 'Hostile input never crashes or hangs the decompressor',
     'For every byte string fed to the single-threaded decompressor in any pieces, each call returns a success, a need for more input or output, or an error. It never panics and never makes a caller loop without progress.',
     ['inputs', 'histories'], 'all byte strings, all splits over calls (single-threaded decompressor)',
     'Tests feed valid files and a few truncated ones.',
     ['src/divans_decompressor.rs', 'src/codec/mod.rs', 'src/mux.rs', 'src/cmd_to_raw/mod.rs'], [('DivansDecompressor::decode', 'src/divans_decompressor.rs')], [], ['result code', 'bytes consumed and produced'])
prop('R19', 'Multithreaded decoding gives the same bytes as single-threaded decoding',
     'For every file, decoding with worker threads produces the same bytes and the same result as decoding on one thread, under every thread schedule.',
     ['schedules', 'inputs'], 'all files, all schedules of the worker and main threads',
     'A test run sees one schedule.',
     ['src/parallel_decompressor.rs', 'src/threading.rs', 'src/codec/decoder.rs'], [('worker and main queues', 'src/threading.rs')], [], ['bytes produced'])
prop('R20', 'Decompressing what was compressed returns the original, however it is chunked',
     'For every input and every choice of compression options, feeding the compressor\'s output to the decompressor returns exactly the original bytes and then success. Neither side\'s result depends on how input and output are split over calls.',
     ['inputs', 'configurations', 'histories'], 'all inputs, all option settings, all input and output splits on both sides',
     'Tests cover a dozen files, each with one or two buffer sizes.',
     ['src/divans_compressor.rs', 'src/divans_decompressor.rs', 'src/codec/mod.rs'], [('DivansCompressor::encode / flush', 'src/divans_compressor.rs'), ('DivansDecompressor::decode', 'src/divans_decompressor.rs'), ('DivansCodec::encode_or_decode', 'src/codec/mod.rs')],
     [], ['bytes produced', 'result codes'])

NA = {
 'R19': 'Neither Verus on extracted functions nor Kani has a memory/thread model for the std::sync::Mutex and Condvar queues used here; schedule quantification is outside this family. Only one-schedule runs are made (as part of R20), and they are not claimed to decide it.',
}
NOTYET = 'No contract has been built for this one; see DESIGN.md.'
checks = []
na = []
for p in L:
    q = props.PROPS.get(p['id'])
    if not q:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], NOTYET)}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': q['technique'], 'level': q['level'], 'level_note': q['level_note']})
man = {'version': 1, 'setup_cmd': 'mkdir -p build evidence',
       'hooks': {'guard': 'cfg(divans_verif)', 'enable': "RUSTFLAGS='--cfg divans_verif' DIVANS_VERIF_HOOKS=<dir with the hook sources copied from /verif/hooks>",
                 'source_commits': ['ea81b3e']},
       'checks': checks, 'not_applicable': na,
       'notes': 'run.py rebuilds everything from /repo on each run; see DESIGN.md for the decision rules.'}
def put(f, t):
    f = os.path.join(V, f)
    if not os.path.exists(f) or open(f).read() != t: open(f, 'w').write(t)
put('properties.jsonl', ''.join(json.dumps(p) + '\n' for p in L))
put('MANIFEST.json', json.dumps(man, indent=1) + '\n')
import design
fixed = [l.strip()[7:] for l in open(os.path.join(V, 'known-findings.txt')) if l.startswith('fixed:')]
res = {}
sf = os.path.join(V, 'tools', 'seed_results.txt')
for l in open(sf) if os.path.exists(sf) else []:
    w = l.split(None, 2)
    if len(w) == 3: res[w[0]] = w[2].strip()
sd = ['| seed | property | needs | breaks | found by |', '|---|---|---|---|---|']
S = os.path.join(V, 'seeded')
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    sd.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], res.get(i, 'not measured')))
if os.path.isdir(S):
    a, b, c = design.render(L, props.PROPS, fixed, '\n'.join(sd))
    t = open(os.path.join(V, 'tools', 'design_template.md')).read()
    put('DESIGN.md', t.replace('%(PROPS)s', a).replace('%(FIXED)s', b).replace('%(SEEDS)s', c))
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in L: jsonschema.validate(p, s)
    print('valid:', len(L), 'properties,', len(checks), 'checks')
except ImportError: print('jsonschema not available (use python3-vt)')
