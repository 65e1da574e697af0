#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
W='pkg/stream/writer/'; R='pkg/stream/reader/'; E='pkg/encode/'; D='pkg/decode/'; S='pkg/shared/'
p('C01','Encoding a list yields exactly the Stream VByte byte stream',
  'Encoding any list of 32-bit unsigned integers (including the empty list) to a stream yields one control byte per group of four integers (rounded up), followed by the integers\' data bytes in order, little endian, each integer in its minimal 1 to 4 bytes. Each control byte holds the zero-based byte lengths of its four integers in consecutive two-bit fields, first integer in the lowest bits, and fields of integers absent from a final partial group are zero. Nothing follows the last data byte, and the automatic, portable and accelerated entry points all return these same bytes.',
  ['inputs','configurations'],'every input list of every length, on machines with and without the vector extensions',
  'The tests draw six random lengths below 1e6 per run and compare implementations with each other or through a round trip; the group boundaries, the tail lengths and byte patterns that select each branch are sampled, not covered, and a fault shared by writer and reader cancels out.',
  [W+'writer.go',W+'writer_amd64.go',E+'encode.go',E+'encode_amd64.go',E+'encode_amd64.s',S+'tables.go'],
  [('bulk / pairwise / tail loops of the plain stream writers',W+'writer.go, '+W+'writer_amd64.go'),('4- and 8-integer encode kernels',E+'encode.go, '+E+'encode_amd64.s')],
  [('ctrlPos, dataPos, encoded','write positions in the control block, the data block and the input',W+'writer_amd64.go')],['returned stream'])
p('C02','Decoding a well-formed stream yields exactly its integers',
  'For every well-formed Stream VByte stream of n integers (whoever produced it, including integers stored in more bytes than they need, and with arbitrary values in unused control fields), decoding it with count n stores exactly the n encoded integers, in order, in the first n output elements, whatever follows the stream in the slice, whatever the output held before and however much longer than n it is. This holds for the automatic, portable and accelerated plain decoders alike.',
  ['inputs','configurations'],'every well-formed stream, every count >= 0, on machines with and without the vector extensions',
  'Tests decode streams made by this library from a few random lists; streams with non-minimal lengths, every residue of n modulo the 32/16/8/4 step sizes, and every control byte in every position are not reached.',
  [R+'reader.go',R+'reader_amd64.go',D+'decode.go',D+'decode_amd64.go',D+'decode_amd64.s',S+'tables.go'],
  [('bulk / pairwise / tail loops of the plain stream readers',R+'reader.go, '+R+'reader_amd64.go'),('4- and 8-integer decode kernels',D+'decode.go, '+D+'decode_amd64.s')],
  [('ctrlPos, dataPos, decoded','read positions in the control block, the data block and the output',R+'reader_amd64.go')],['output slice'])
p('C03','Any encoder followed by any matching decoder is the identity',
  'For every list of 32-bit unsigned integers, every starting value, and every pairing of an encoder entry point with a decoder entry point of the same kind (plain or differential; automatic, portable or accelerated), decoding the encoded stream with the list\'s length returns the list unchanged. Streams are interchangeable between machines with and without the vector extensions.',
  ['inputs','configurations'],'every list, every starting value, every encoder/decoder pairing',
  'Tests round-trip a few random lists through some pairings and only with starting value 0 and sorted lists in differential mode.',
  [W+'writer.go',W+'writer_amd64.go',R+'reader.go',R+'reader_amd64.go',E+'encode.go',D+'decode.go',S+'tables.go'],
  [('writer and reader loops','pkg/stream'),('encode and decode kernels and their lookup tables','pkg/encode, pkg/decode, pkg/shared')],None,['output of decode(encode(x))'])
p('C04','Differential encoding stores successive differences from the base value',
  'Differentially encoding any list of 32-bit unsigned integers with any starting value yields exactly the stream that plain encoding gives for the list of differences between each integer and its predecessor (the starting value for the first), taken modulo 2^32. This holds for sorted and unsorted lists of every length and for the automatic, portable and accelerated entry points, across all internal batch boundaries.',
  ['inputs','configurations'],'every list (any order, any length), every starting value',
  'The tests use sorted lists and starting value 0 only, so a wrong base for the first element, a wrong seam between batches that needs a particular length, or a failure on descending values is not reached.',
  [W+'writer.go',W+'writer_amd64.go',E+'encode.go',E+'encode_amd64.s'],
  [('prev hand-over between batches',W+'writer.go, '+W+'writer_amd64.go'),('differential encode kernels',E+'encode.go, '+E+'encode_amd64.s')],
  [('prev','last original integer of the previous batch',W+'writer_amd64.go')],['returned stream'])
p('C05','Differential decoding rebuilds running sums from the base value',
  'Decoding any well-formed stream of n differences with any starting value stores, for every i < n, the starting value plus the first i+1 differences, modulo 2^32, whatever follows the stream in the slice and however long the output is. This holds for the automatic, portable and accelerated entry points and across all internal batch boundaries.',
  ['inputs','configurations'],'every well-formed stream, every starting value, every count >= 0',
  'Tests use starting value 0 and differences of sorted lists, so wrap-around, non-zero bases and seams that only some lengths reach are not exercised.',
  [R+'reader.go',R+'reader_amd64.go',D+'decode.go',D+'decode_amd64.s'],
  [('prev hand-over between batches',R+'reader.go, '+R+'reader_amd64.go'),('differential decode kernels',D+'decode.go, '+D+'decode_amd64.s')],
  [('prev','last reconstructed integer of the previous batch',R+'reader_amd64.go')],['output slice'])
p('C06','Batch encoders (4 and 8 integers) emit the exact format and agree',
  'For every group of four or eight integers and (in the differential variants) every base value, the batch encoders write each integer\'s (or difference\'s) minimal little-endian bytes contiguously from the start of the output and return the control value whose two-bit fields, lowest first, are the zero-based byte lengths. The portable, accelerated and automatic variants return the same control value and the same encoded bytes.',
  ['inputs','configurations'],'all 2^256 groups of eight and all 2^128 groups of four, all base values',
  'Each test compares one random group per run, with base 0 and sorted input in differential mode: 65536 control values and every zero-byte pattern (e.g. 0x01000000) would have to be hit.',
  [E+'encode.go',E+'encode_amd64.go',E+'encode_amd64.s',S+'tables.go'],
  [('scalar length classification and byte stores',E+'encode.go'),('vector control-byte generation and shuffle',E+'encode_amd64.s')],None,['returned control value','output bytes'])
p('C07','Batch decoders (4 and 8 integers) invert the format and agree',
  'For every control value and every data bytes, the batch decoders write exactly four or eight integers: the little-endian values of the consecutive byte runs whose lengths the control value gives, or in the differential variants their running sums modulo 2^32 on top of the base value. The portable, accelerated and automatic variants produce the same integers.',
  ['inputs','configurations'],'all control values (256 or 65536), all data bytes, all base values',
  'Each test decodes one random group per run with base 0; most of the 65536 control values are never tried.',
  [D+'decode.go',D+'decode_amd64.go',D+'decode_amd64.s',S+'tables.go'],
  [('scalar byte assembly',D+'decode.go'),('vector shuffle and prefix sum',D+'decode_amd64.s')],None,['output integers'])
p('C08','Partial-group coders honour the count for 0 to 4 integers',
  'The partial-group encoders write exactly the first min(count,4) integers (or differences) in minimal little-endian bytes and return a control byte whose unused fields are zero (0 for count 0); the partial-group decoders store exactly min(count,4) integers (or running sums), read no byte beyond the last one encoded, and return the number of data bytes consumed. Neither looks at input elements nor writes output elements past min(count,4).',
  ['inputs'],'every count >= 0, every integer or data content, every base value',
  'Each test picks one random count from 1 to 4 with base 0 and never checks count 0, counts above 4, or buffers of exactly the needed size.',
  [E+'encode.go',D+'decode.go'],
  [('count clamp and per-integer loop',E+'encode.go PutUint32*Scalar, '+D+'decode.go GetUint32*Scalar')],None,['returned control byte / byte count','buffers'])
p('C09','Accelerated code never touches memory outside the slices it is given',
  'When the stream encoders and decoders run their accelerated path on an exact-length well-formed stream (nothing after the last data byte) and an output of exactly count integers, every vector load and store lies inside the input list, stream and output slices, for every length and every mix of integer sizes. Called directly, the accelerated 8-integer kernels stay within 8 integers and 32 data bytes.',
  ['inputs'],'every count, every assignment of byte lengths to integers, exact-size buffers',
  'An over-read lands in allocator slack and changes no result, so no test on heap slices can see it; only a buffer ending at an unmapped page would, for the particular lengths that trigger it.',
  [R+'reader_amd64.go',W+'writer_amd64.go',E+'encode_amd64.s',D+'decode_amd64.s'],
  [('limit of the 32-at-a-time and 8-at-a-time loops',R+'reader_amd64.go, '+W+'writer_amd64.go'),('16-byte unaligned loads and stores',E+'encode_amd64.s, '+D+'decode_amd64.s')],
  [('lowest32','bound of the bulk loop chosen so that 16-byte accesses stay in bounds',R+'reader_amd64.go')],['addresses accessed'])
p('C10','No panic and guaranteed termination on every legal input',
  'Encoding any list, and decoding any well-formed stream with its own count into an output of at least count elements, returns normally: no index or slice bound is exceeded, no explicit panic is reached, and every loop terminates, for every length including 0 through 3 and for exact-size buffers.',
  ['inputs','configurations'],'every list, every well-formed stream, exact-size buffers',
  'Boundary lengths are hit only by chance: lengths are drawn below 1e6, and buffers in the tests are usually larger than needed.',
  [W+'writer.go',W+'writer_amd64.go',R+'reader.go',R+'reader_amd64.go',E+'encode.go',D+'decode.go'],
  [('loop bounds and slice expressions','pkg/stream/writer, pkg/stream/reader'),('switch on byte length with a panicking default',D+'decode.go')],None,['panics','non-termination'])
p('C11','Inputs are never modified and outputs only where promised',
  'Encoding never modifies the caller\'s integer list, decoding never modifies the caller\'s stream or data bytes, and decoding count integers never writes an output element at index count or beyond. The same holds for the batch and partial-group functions with their four, eight or count integers.',
  ['inputs','configurations'],'every input and every output slice longer than needed',
  'Tests compare only the first count results against a separately kept copy and never look at sentinel elements behind the output or at the input after the call.',
  [W+'writer.go',W+'writer_amd64.go',R+'reader.go',R+'reader_amd64.go',E+'encode.go',D+'decode.go',E+'encode_amd64.s',D+'decode_amd64.s'],
  [('read-only use of input slices','pkg/encode, pkg/decode, pkg/stream'),('store widths of the vector kernels',D+'decode_amd64.s')],None,['input slices after the call','output slice beyond count'])
p('C12','Returned streams are fresh and no caller memory is retained',
  'Every stream returned by an encoder is newly allocated for that call: it shares no memory with the input, with earlier or later results, or with library state. After any call returns, the library keeps no reference to slices passed in or handed out.',
  ['histories','inputs'],'every sequence of calls',
  'Tests use each result before making the next call, so a reused or pooled buffer would pass.',
  [W+'writer.go',W+'writer_amd64.go',R+'reader.go',R+'reader_amd64.go',E+'encode.go',D+'decode.go'],
  [('per-call allocation of the stream',W+'writer.go, '+W+'writer_amd64.go')],None,['identity of returned memory over a history of calls'])
p('C13','Calls share no mutable state: safe to run concurrently, deterministic',
  'After package initialisation no library call reads or writes mutable package-level state: lookup tables and implementation choices are never written again, so any number of goroutines may encode and decode at once on disjoint outputs. Results depend only on the arguments, never on earlier calls, time, randomness or map order.',
  ['schedules','histories'],'every interleaving of calls from any number of goroutines, every call history',
  'All tests are sequential and none runs under the race detector.',
  [S+'tables.go',S+'gen.go',E+'encode.go',D+'decode.go',W+'writer.go',R+'reader.go'],
  [('package-level tables and dispatch variables written only during initialisation',S+'tables.go, '+E+'encode.go, '+D+'decode.go')],
  [('lookup tables','constant after init',S+'tables.go'),('getImpl, putImpl and delta variants','dispatch chosen once in init',D+'decode.go, '+E+'encode.go')],['data races','result stability'])
p('C14','The lookup tables equal their definition for every control byte',
  'For each of the 256 control bytes, the per-integer length table gives the four encoded lengths, the total-length table gives their sum, the compaction table lists exactly the significant byte positions of four little-endian integers in order followed by clear markers, and the expansion table sends each data byte to its place in its integer and clears every other byte. The size helpers agree with these tables for every 8-bit and 16-bit control value.',
  ['inputs'],'all 256 rows of each table, all 65536 two-byte control values',
  'No test looks at the tables; a wrong row is reached only if random data happens to produce its control byte in the affected position.',
  [S+'tables.go',S+'gen.go',S+'main/gentables.go'],
  [('generated tables',S+'tables.go'),('size helpers',S+'gen.go')],None,['table contents'])
p('C15','Vector instructions only run on CPUs that have them',
  'The automatic entry points execute vector instructions only if the running CPU reports every instruction-set extension those instructions need; otherwise they use the portable code. The reported mode is accelerated only in that case, and the choice is the same for the plain and differential variants.',
  ['configurations'],'every combination of CPU feature flags',
  'The tests run on one machine that has all extensions; the fallback branch and partial feature sets (AVX without AVX2) are never taken.',
  [E+'encode.go',E+'encode_amd64.go',E+'encode_amd64.s',D+'decode.go',D+'decode_amd64.go',D+'decode_amd64.s',W+'writer.go',R+'reader.go'],
  [('feature checks',E+'encode_amd64.go GetMode, '+D+'decode_amd64.go GetMode'),('dispatch',E+'encode.go init, '+D+'decode.go init, '+W+'writer.go, '+R+'reader.go')],None,['illegal instruction faults','selected implementation'])
p('C16','The library builds on every architecture with the same API',
  'On architectures other than amd64 every package compiles, exports the same functions with the same signatures as on amd64 (the assembly routines themselves, named ...FastAsm, exist on amd64 only), and the automatic entry points use the portable code and never reach an unavailable accelerated function. The portable code produces the same bytes and integers there, also where int is 32 bits wide (lists of up to 2^26 integers) and where memory is big endian.',
  ['configurations'],'every supported GOARCH',
  'The build and tests run on amd64 only, so the files for other architectures are never even compiled.',
  [D+'decode_base.go',E+'encode_base.go',R+'reader_base.go',W+'writer_base.go'],
  [('portable stand-ins behind build tags','pkg/*/*_base.go')],None,['compile result and exported API per GOARCH'])
p('C17','Assembly respects the Go calling convention and its declarations',
  'Every assembly routine reads and writes its arguments and results at the offsets and widths its Go declaration implies, has the declared argument frame size, writes its result on every path, and leaves the stack pointer, frame pointer and read-only tables untouched. Every pointer it dereferences comes from an argument slice or table, it stores nothing outside its output slice, and it performs no call.',
  ['inputs','configurations'],'every execution of every assembly routine',
  'A wrong offset or width that happens to read a zero upper half, or a clobbered register the current compiler does not use, passes all tests (vet is switched off in the test run).',
  [E+'encode_amd64.s',E+'encode_amd64.go',D+'decode_amd64.s',D+'decode_amd64.go'],
  [('TEXT frames and FP-relative operands',E+'encode_amd64.s, '+D+'decode_amd64.s')],None,['argument frame','memory'])
p('C18','Regenerating the generated code reproduces the committed code',
  'The table generator produces exactly the values of the committed lookup tables, and the assembly generators produce routines with the same signatures, constants and instructions (the same dataflow, up to register naming and the order of independent instructions) as the committed assembly. A later regeneration therefore never changes behaviour.',
  ['programs'],'every generated table row and every generated instruction',
  'The generators have no tests and are only compiled; nothing in the test run compares their output with the committed files.',
  [S+'main/gentables.go',E+'main/asm.go',D+'main/asm.go',S+'asm.go',S+'tables.go',E+'encode_amd64.s',D+'decode_amd64.s'],
  [('generators',S+'main/gentables.go, '+E+'main/asm.go, '+D+'main/asm.go')],None,['generator output versus committed files'])
p('C19','Utility generators and codecs keep their documented contracts',
  'The random integer utility picks a byte length of 1 to 4 and returns an integer whose minimal encoding has exactly that length, with every such integer possible; the difference utility stores each element minus its predecessor modulo 2^32; the baseline varint encoders and decoders are mutual inverses (plain and differential, any base) and return the number of bytes written or read.',
  ['inputs'],'every random draw, every list, every base value',
  'Tests round-trip eight sorted random integers with base 0; the boundary draws (for example 256 from the one-byte generator) have probability below one in a hundred and nothing checks them.',
  ['pkg/util/rand.go','pkg/util/util.go','pkg/util/varint.go'],
  [('range generators','pkg/util/rand.go'),('varint loops','pkg/util/varint.go'),('difference loop','pkg/util/util.go')],None,['returned values'])
p('C20','Updating the README benchmarks changes only the benchmark block',
  'Whatever text surrounds it, rewriting the benchmark section keeps every byte of the README before the section\'s opening fence and every byte from its own closing fence onward, and puts the filtered benchmark lines between them; if either fence is missing the file is left untouched.',
  ['inputs'],'every README content and every benchmark output',
  'The tool has no tests.',
  ['tools/parse_and_write_bench.go'],
  [('fence search and splice','tools/parse_and_write_bench.go')],None,['written file'])
p('C21','The performance mode reported is the one in force',
  'For each direction (encoding and decoding) the reported performance mode is the same at every call in a process, and it is Fast on every amd64 CPU that reports AVX and AVX2. Where it is Fast, the automatic 8-integer coders of that direction, plain and differential, hand every call to the accelerated routine, and the automatic stream calls of that direction, plain and differential, hand it most of the integers of any long list (256 integers or more). Where it is Normal, none of them runs an accelerated routine.',
  ['inputs','configurations'],'every outcome of the CPU feature tests, every list and stream, every sequence of calls',
  'The tests run on one CPU; a batch coder or stream call that silently falls back to portable code, or runs accelerated code while Normal is reported, returns the same bytes.',
  [E+'encode.go',E+'encode_amd64.go',D+'decode.go',D+'decode_amd64.go',W+'writer.go',R+'reader.go',S+'mode.go'],
  [('mode functions',E+'encode_amd64.go, '+D+'decode_amd64.go'),('implementation selection at initialisation',E+'encode.go, '+D+'decode.go'),('selection per stream call',W+'writer.go, '+R+'reader.go')],
  [('putImpl, putDeltaImpl, getImpl, getDeltaImpl','the batch coders selected at initialisation',E+'encode.go, '+D+'decode.go')],['reported mode, routine executed'])
p('C22','Decoding allocates nothing; encoding only the stream it returns',
  'On amd64 with the installed Go toolchain, the stream decoders that fill a caller-supplied output and the batch and partial-group coders (plain and differential, all variants) make no heap allocation on any call that returns. A stream encoder makes at most one heap allocation per call, the buffer of the stream it returns, and asks for at most 5n+64 bytes for n integers.',
  ['inputs','configurations'],'every count, every integer list, every valid stream, every variant the CPU selects',
  'Benchmarks report allocations for a few lengths and nobody asserts them; a temporary that escapes only for some tail lengths or some data costs a garbage collection in every hot loop and returns the same bytes.',
  [E+'encode.go',D+'decode.go',E+'encode_amd64.go',D+'decode_amd64.go',W+'writer.go',R+'reader.go'],
  [('stream encoder buffer',W+'writer.go'),('stream decoders',R+'reader.go'),('batch and partial coders',E+'encode.go, '+D+'decode.go')],
  [('stream','the buffer allocated by the stream encoder',W+'writer.go')],['heap allocation'])
p('C23','The work of a call is linear in the number of integers',
  'Encoding a list of n integers, or decoding a stream with count n, takes at most 64n+65536 elementary steps (loop iterations, calls, elements copied, cleared, appended or allocated), and each batch or partial-group coder at most 1024, on every amd64 CPU, whatever the values, and however much spare length or capacity the slices have beyond what the integers need. No pass over the list, the stream or the control bytes is repeated for each group or batch, and nothing that follows a stream in its buffer is visited.',
  ['inputs','configurations'],'every count, every list, every valid stream with any amount of data after it, any spare length and capacity',
  'Functional tests do not time anything and use short lists; an offset recomputed from the first control byte for every batch, or a copy of the rest of the buffer per call, returns the same bytes and makes large lists or many concatenated streams quadratic.',
  [W+'writer.go',W+'writer_amd64.go',R+'reader.go',R+'reader_amd64.go',E+'encode.go',D+'decode.go'],
  [('stream encoder loops',W+'writer.go, '+W+'writer_amd64.go'),('stream decoder loops',R+'reader.go, '+R+'reader_amd64.go'),('batch and partial coders',E+'encode.go, '+D+'decode.go')],
  [('dataPos, ctrlPos','running offsets of a stream call',R+'reader.go')],['number of steps'])
p('C24','Without its write flag the benchmark tool only prints the new README',
  'Run without -w, the benchmark README tool leaves the README as it is, on every path and also when an operation fails, and a run that succeeds prints to standard output exactly the README text that -w would have written: all text before the section\'s opening fence and from its own closing fence on unchanged, the filtered benchmark lines between them. Only -w, which is off by default, makes it rewrite the file.',
  ['inputs'],'every README content and every benchmark output, every failure of a file operation',
  'The tool has no tests; a preview that also truncates, or that differs from what is written, shows only when someone loses text.',
  ['tools/parse_and_write_bench.go'],
  [('choice of the output','tools/parse_and_write_bench.go')],None,['README, standard output'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sch)
print(len(P),'ok')
