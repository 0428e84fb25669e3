"""Per-property configuration for run.py."""
T_VERUS = ['Verus 0.2026.09.13 and Z3 (soundness of the verifier)', 'extraction in tools/vextract.py (drops listed in extraction_drops)',
           'rustc: monomorphisation and code generation of the extracted functions']
T_KANI = ['Kani 0.68 / CBMC 6.11 (soundness of the translation)']
T_NAT = ['native search and replay use the debug profile with overflow checks and debug assertions on']
PROPS = {}
def P(id, **k):
    k['id'] = id; k.setdefault('technique', 'Verus contracts on functions extracted from /repo each run; native replay'); k.setdefault('feature', id.lower()); k.setdefault('level', 'proof'); PROPS[id] = k

P('R01', hooks=['ans'], sections=['ans', 'prob'], secs=60,
  kani=[('k_r01_feed', 'r01_feed', 1, 'complete: one refill call from any decoder register state, any slice of at most 17 bytes (a refill never takes more than 16)')],
  kani_fns=['src/ans.rs::ANSDecoder::push_data', 'src/ans.rs::ANSDecoder::num_push_bytes_avail'],
  trusted=T_VERUS + T_KANI + T_NAT + ['the allocator hands out buffers of the requested size', 'probability tables satisfy the contract proved under R02', 'the two halves of the stream interface (ReadableBytes, WritableBytes) are passed as slice and offset'],
  level_note='Encoder/decoder register algebra, chunk flush and symbol-order reversal are deductive obligations for all states and symbol sequences; refill is a complete bit-precise obligation; the end-to-end session (drain/fill splits over whole streams) is a bounded native search that also supplies replayable inputs.')
P('R02', hooks=[], sections=['prob'], secs=50, kani=[],
  trusted=T_VERUS + T_NAT + ['adaptation speed within 0..=8175 increment and 0..=0x4000 limit (larger increments: see known findings)'],
  level_note='Adaptation, mixing, interval computation and interval lookup of both frequency models are deductive obligations over any reachable table; native search supplies replayable inputs.')
P('R03', hooks=[], sections=['prob'], secs=20, kani=[], enumerations=['r03_tables'],
  trusted=T_VERUS + T_NAT + ['table entries satisfy the divisor condition: discharged by complete enumeration of the real tables in every run'],
  level_note='Division by multiplication is a nonlinear lemma over every numerator and divisor; the table condition it assumes is discharged by enumerating the whole real table on every run.')
P('R04', hooks=[], sections=[], secs=60, kani=[], trusted=T_VERUS + T_NAT + ['u64::leading_zeros gives the place of the top bit', 'the allocator hands out blocks of the size asked for', 'below 2^56 bytes pass through one multiplexer', 'data written straight into the buffers that write_buffer and read_buffer hand out (array of views, outside the dialect): native search'],
  level_note='Every function of the multiplexer that moves data (buffer growth, push, chunk headers, serialise, flush, close, deserialise, consume, edit) is under contract against a byte automaton of the wire format, for any data, any slices and any order of calls; theorems: the wire a finished writer leaves decodes to exactly what was written to each stream, and a reader fed it in any pieces gets on until it holds exactly that. Native search supplies replayable inputs.')
P('R06', hooks=['codec'], sections=['crc'], secs=20, kani=[], enumerations=['r06_table'], trusted=T_VERUS + T_NAT + ['table16 contract: discharged by complete enumeration of the real TABLE16 in every run', 'the SSE4.2 variant (feature simd, not compiled by default) is not covered'],
  level_note='crc32c_update (16-byte table step and byte tail) equals the bitwise CRC-32C for every buffer and initial value, and splits compose, as deductive obligations; the 4096 table entries the contract assumes are enumerated on every run; native search supplies replayable inputs.')
P('R07', hooks=[], sections=[], secs=45, kani=[], trusted=T_VERUS + T_NAT + ['crc tables: enumerated under R06', 'the demultiplexer takes nothing after its end mark (R04)', 'coding a command and draining the streams append to the output and do not touch the checksum (fields private to the functions under contract)',
  'the decoder reports success only through process_eof, and the header bytes are given to the checksum when decoding starts: bounded search'],
  level_note='On the reading side (decode_process_input, process_eof) and the writing side (write_header, encode_or_decode, flush, internal_flush, crc) every function that touches the checksum or the trailer is under contract: every byte read is either under the checksum or in the trailer, in order, for any split; success needs the end mark and, unless skipped, the checksum of all bytes before it; the bytes written end in the trailer of the bytes before, for any split. Native search over mutated trailers and bodies supplies replayable inputs.')
P('R08', hooks=['codec'], sections=['crc', 'header'], secs=20,
  kani=[('k_r08_reject', 'r08_reject', 1, 'complete: all 2^128 headers')],
  kani_fns=['src/divans_decompressor.rs::HeaderParser::parse_header', 'src/divans_decompressor.rs::HeaderParser::decode'],
  technique='Kani complete harness over every header; native replay', trusted=T_KANI + T_NAT, level_note='Header acceptance is decided for all 2^128 headers by a loop-free bit-precise harness on the real parser; splits over calls are a bounded native search.')
P('R09', hooks=[], sections=['prob'], secs=10,
  kani=[('k_r09_pair', 'r09_pair', 1, 'complete: all pairs of speeds 0..=0x4000')], enumerations=['r09_all'],
  kani_fns=['src/probability/interface.rs::speed_to_u8', 'src/probability/interface.rs::u8_to_speed', 'src/probability/interface.rs::Speed::to_f8_tuple', 'src/probability/interface.rs::Speed::from_f8_tuple'],
  technique='Kani complete harness and complete enumeration; native replay', trusted=T_KANI + T_NAT, level_note='All pairs of speeds decided bit-precisely on the real functions, and every speed enumerated natively.')
P('R05', hooks=[], sections=[], secs=45, kani=[], enumerations=['r05_dict'],
  trusted=T_VERUS + T_NAT + ['brotli crate: dictionary tables and TransformDictionaryWord (sizes and a sweep of lengths checked natively on every run)', 'ring buffer and command slices return the same memory on every call', 'window 64 bytes to 16 MiB, literals below 4 GiB, total output below 2^64'],
  level_note='Every function of the command interpreter is under contract (flush, ring copies, literal, copy, dictionary, encode_commands) for any window, command list and output slices; a theorem over the contracts says any run of calls emits exactly the LZ77 expansion; native search supplies replayable inputs.')
P('R14', hooks=[], sections=[], secs=40, kani=[], trusted=T_VERUS + T_NAT + ['the base allocator hands out blocks of the requested size that it has not already handed out', 'requests and contents below 2^62 bytes', 'element type taken as u8 (the code is generic and treats elements opaquely)'],
  level_note='Every function of the growable buffer and of the recycling allocator with its prefix blocks is under contract: contents are preserved by growth and extended exactly by what is committed, the space offered is at least what was asked for, blocks have identities and a block is in use by one holder, cached, or back with the base allocator, never two of them; a theorem over the contracts gives write-then-read. Native search supplies replayable inputs.')
P('R15', hooks=[], sections=['r2c'], secs=60, kani=[], trusted=T_VERUS + T_NAT + ['the codec takes commands in order and a prediction mode whole (it has fewer than 65536 symbols and nothing is pending before it)', 'brotli crate: thaw and freeze of a command map its slices one to one; sizes of the map buffers', 'pieces of input below 4 GiB', 'the allocator hands out blocks of the size asked for', 'calls after a reported failure are not covered'],
  level_note='RawToCmdState and the raw half of DivansCompressor (construction, encode, flush, and the freezing and thawing of commands the codec had no room for) are under contract: at every return, the bytes of the commands the codec has taken, then those of the kept commands, then those in the window, are the bytes taken from the caller; after a successful flush the codec has all of them. For any window, any pieces and any room. Native search supplies replayable inputs.')
P('R20', hooks=[], sections=[], secs=120, kani=[], level='other', technique='bounded native search (composition of the per-part contracts is not itself discharged)', trusted=T_NAT,
  level_note='Bounded: random data, options, command lists and splits, compressed and decompressed by the real code; the per-part contracts are discharged under R01..R15.')
P('R18', hooks=[], sections=[], secs=120, kani=[], level='other', technique='bounded native search (whole decompressor)', trusted=T_NAT, hang=40,
  level_note='Bounded: hostile streams built by mutation, by noise below a valid header and by damage at an entropy-coder chunk end, fed in random pieces to the single-threaded decompressor; debug assertions and overflow checks are on.')
P('R12', hooks=['codec_interface'], sections=['cmd'], secs=60, kani=[],
  trusted=T_VERUS + T_NAT + ['Coder: the arithmetic coder hands the decoder the nibble the encoder put (R01) and tables are selected by the recorded cell', 'Verus covers the copy, dictionary, literal-length and block-type coders; literal contents, prediction modes and the choice of the command kind are bounded', 'literal payload coder (encode_or_decode_content_bytes): assumed not to touch the command coder, the command memories or the length; external-literal-probability off', 'brotli crate: TransformDictionaryWord, dictionary size'],
  level_note='The copy, dictionary, literal-length and block-type (with stride) coders are under contracts that tie both directions to one nibble automaton for every command, memory state and suspension point, with a uniqueness theorem (both ends stop at the same nibble with the same command and models); literal contents and whole commands are a bounded native search through both halves of the real codec.')
P('R10', hooks=['weights', 'codec_interface'], sections=['cmd', 'prob', 'weights'], secs=40, kani=[], trusted=T_VERUS + T_NAT + ['reciprocal table of 8-bit divisors: enumerated under R03', 'the literal coder passes interval widths between 1 and 32767 (proved under R02)'],
  level_note='Every function of the weight update is under contract: for any weights, any interval widths and any history the weights stay at least 1 and the normalised weight stays within 0..=32768; that both sides hold the same weights is a bounded search over whole codec sessions.')
P('R11', hooks=['codec_interface'], sections=['cmd'], secs=50, kani=[], trusted=T_VERUS + T_NAT + ['Coder: the arithmetic coder hands the decoder the nibble the encoder put (R01)', 'recent distances below 2^31 - 16 (encoders never emit larger ones)', 'brotli crate: BlockSwitch and LiteralBlockSwitch accessors'],
  level_note='Both block-type coders, the distance short codes and every update of the distance and block-type memories are under contract, for all memories and values and any suspension points; theorems over the contracts give equal values and equal memories on both sides. Native searches through the real codec supply replayable inputs.')
P('R13', hooks=['codec_interface'], sections=['cmd', 'priors'], secs=40,
  kani=[('k_r13_t%d' % i, 'r13_pair', i + 1, 'complete: every pair of contexts of model table %d' % i) for i in range(8)], enumerations=['r13_all'],
  findings=[{'body': 'r13_undeclared', 'what': 'lim=0', 'text': 'prediction-mode kinds DynamicContextMixingSpeed and PriorDepth have no entry in the PredictionModePriors declaration, so both select the cell of ContextMapSpeedPalette 0 (src/codec/priors.rs)'}],
  kani_fns=['src/priors.rs::PriorCollection::get (8 model tables of src/codec/priors.rs)'],
  technique='Verus contracts on the field coders (every context inside its extents) and Kani complete harness on the real index computation with complete enumeration; native replay', trusted=T_VERUS + T_KANI + T_NAT + ['prediction-mode, command-kind and literal-payload contexts: bounded search with the index assertions on'],
  level_note='For each model table, a bit-precise complete harness over every pair of contexts the format can produce, and a complete native enumeration of the real index function; that the copy, dictionary, literal-length and block-type coders stay inside these extents for every command, memory and (hostile) stream is a precondition discharged at every lookup; prediction modes, command kinds and literal payload are a bounded search with the index assertions on.')

P('R16', hooks=[], sections=[], secs=60, kani=[], trusted=T_VERUS + T_NAT + ['the codec: consumes a prefix of its input, appends to its output, and asks for more input only when it has consumed all it was given', 'the underlying stream obeys the contract of std::io::Read and Write (any short transfer, interruption or error)', 'termination of the retry loops depends on the stream and is not proved'],
  level_note='Every function of both adapters (read, copy_to_front, write, write_pending, flush, new) is under contract, for any codec, buffer size and any behaviour of the underlying stream: bytes read = bytes given to the codec + bytes still staged, bytes produced = bytes delivered + bytes still staged, every error is reported exactly once and loses nothing, end of file is reported only after the codec has finished. A native fault search through the real codecs supplies replayable inputs.')
P('R17', hooks=[], sections=['ffi'], secs=90, kani=[], trusted=T_VERUS + T_NAT + ['the caller\'s functions: a non-null, fresh block of the size asked for; a byte count that fits a usize', 'free_ref of the compressor and decompressor hands back exactly the blocks they hold (searched natively over whole sessions)', 'raw pointers and boxes are handles into a ghost ledger of blocks; implicit drops of underscored bindings are made explicit', 'single-threaded sessions'],
  level_note='Every function that touches the caller\'s allocator is under contract over a ghost ledger of blocks: a cell is one fresh block of the right size with every element written, given back exactly once and never to Rust\'s own allocator; states are built, moved, dropped and released once and not read afterwards; the malloc/free helpers agree on whose block it is. That the compressor and decompressor give back all the cells they took is a bounded native search over whole sessions with a counting allocator.')
