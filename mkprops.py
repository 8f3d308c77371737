import json
props=[]
def P(id,title,st,over,text,why,files,mech,obs,state=None,hook=None):
    props.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),observe_at=obs,hook_needed=hook)))
out="standard output of the command"
P('P01','Every byte of every slice is dumped faithfully in the hexdump line format',
 'Each output line of the hexdump format is the absolute offset of the slice in at least 12 lowercase hexadecimal digits, the slice length in at least 4 digits (widened by two when it does not fit), and the bytes of the slice as two-digit lowercase hex columns padded to the column count, each field in the documented place, followed by the ASCII mosaic in which printable bytes stand for themselves and the others are a dot. Every slice, of any length and content and at any offset, gives exactly one such line, and the binary output format gives exactly its bytes.',
 ['inputs','configurations'],'every slice content, length, offset, column count and output format signature',
 'unit tests format a handful of fixed lengths and offsets; the field widths, the padding and the vectorised loops depend on the length and offset of every slice',
 ['src/text/formatter/mod.rs','src/text/formatter/hex.rs','src/text/formatter/dec.rs','src/text/mod.rs'],
 [('slice formatter','src/text/formatter/mod.rs TextFormatter::format_segments'),('hex field and body formatters','src/text/formatter/hex.rs'),('decimal fields','src/text/formatter/dec.rs')],
 [out])
P('P02','A dumped stream is restored byte for byte from its text',
 'Feeding the hexdump of any stream back with the hex input format restores exactly the bytes at their offsets, whatever the width of the slices the dump was cut into. Gaps between the records are filled with the filler byte and nothing else is added, lost or reordered.',
 ['inputs','configurations'],'every stream and every slice width, through both text input forms',
 'the round trip composes formatter, parser, buffering and gap filling; tests check each on fixed strings only',
 ['src/text/parser/mod.rs','src/text/formatter/mod.rs','src/byte/text.rs'],
 [('record parser','src/text/parser/mod.rs TextParser::read_line'),('text stream','src/byte/text.rs TextStream, GaplessTextStream'),('formatter','src/text/formatter/mod.rs')],
 ['bytes after restoring the dump of a stream'])
P('P03','Malformed text records are rejected, never silently misread',
 'A record with a non-hexadecimal character in its offset, length or array, or without its length field, makes the command fail with an error instead of being read as something else, wherever in the text the record and in the record the character is. It never crashes the command, and well-formed records are accepted in every spelling the documentation allows.',
 ['inputs'],'every text given as input, patch or guide',
 'the parsers process 16 or 32 characters at a time and whether a bad character is noticed depends on its position; tests place a few bad characters at fixed positions',
 ['src/text/parser/mod.rs','src/text/parser/naive.rs','src/text/parser/x86_64.rs','src/text/parser/aarch64.rs','src/byte/patch.rs','src/byte/text.rs'],
 [('record parser','src/text/parser/mod.rs'),('hex field parsers','src/text/parser/naive.rs, x86_64.rs'),('consumers of the records','src/byte/patch.rs, src/byte/text.rs, src/segment/guided.rs')],
 ['exit status and error message, and the absence of a panic'])
P('P04','Vectorised and scalar code paths give the same result',
 'For every input the result of formatting and parsing does not depend on whether the vectorised or the portable implementation of the routine is used. Both equal the plain per-byte definition of the format.',
 ['inputs','configurations'],'every operand of the formatting and parsing routines, on every build target',
 'the vectorised code is selected at build time, so a test run exercises one of the implementations only, on sampled operands',
 ['src/text/formatter/hex.rs','src/text/parser/naive.rs','src/text/parser/x86_64.rs','src/text/parser/mod.rs'],
 [('formatters','src/text/formatter/hex.rs'),('parsers','src/text/parser/naive.rs, x86_64.rs')],
 ['output of builds for different CPU features'])
P('P05','The output does not depend on how the input arrives in chunks',
 'For every command line and input, the output is a function of the content of the inputs only: it is the same however the operating system splits the input into reads, and wherever the internal buffer boundaries fall. In particular no byte or slice at a buffer boundary is lost, duplicated, split or reordered.',
 ['inputs','schedules','configurations'],'every split of every input into reads, for every pipeline',
 'tests use a few streams shorter or slightly longer than a block; the interactions between consumption, buffering and block boundaries are unbounded',
 ['src/streambuf.rs','src/byte/raw.rs','src/byte/cat.rs','src/byte/clip.rs','src/segment/stride.rs','src/drain/scatter.rs'],
 [('buffer','src/streambuf.rs StreamBuf'),('byte sources','src/byte/*.rs'),('slicers','src/segment/*.rs')],
 [out],[('pos, len, offset','window of the buffered stream','src/streambuf.rs')])
P('P06','--cat concatenates the inputs and pads the tail to the alignment',
 'With the cat N mode the stream is the concatenation of all the input files in the order given, followed by the least number of filler bytes that makes its length a multiple of N. Empty files contribute nothing and any number of files is accepted.',
 ['inputs','configurations'],'every number, length and content of files, every N and filler',
 'boundaries between files interact with buffer boundaries and request sizes of later stages',
 ['src/byte/cat.rs','src/byte/raw.rs','src/streambuf.rs','src/pipeline.rs'],
 [('concatenation','src/byte/cat.rs CatStream'),('alignment','src/streambuf.rs mark_eof, src/byte/raw.rs')],[out])
P('P07','--zip interleaves the inputs word by word up to the shortest one',
 'With the zip N mode the stream takes N bytes from each input file in turn, in the order given, until the shortest input ends; the last word of the shortest input is completed with filler bytes. Every word of the output comes from the position of the same word in its input.',
 ['inputs','configurations'],'every number, length and content of files, every N and filler',
 'the gather loops have special paths per word size and input count, and lengths decide which path is taken',
 ['src/byte/zip.rs','src/byte/raw.rs','src/pipeline.rs'],
 [('interleaving','src/byte/zip.rs ZipStream')],[out])
P('P08','--cut extracts exactly the union of the ranges',
 'The cut stage outputs exactly the bytes whose position lies in the union of the given ranges, in stream order and each once, where range ends relative to the end of the stream are resolved against its true length. Ranges that are empty, inverted or beyond the stream contribute nothing.',
 ['inputs','configurations'],'every stream and every list of ranges',
 'ranges anchored to the end need unknown look-ahead; overlaps, order of the ranges and block boundaries multiply the cases',
 ['src/byte/cut.rs','src/mapper.rs'],
 [('cutter','src/byte/cut.rs Cutter::accumulate, CutStream'),('range mapping','src/mapper.rs RangeMapper')],[out])
P('P09','--pad adds exactly the requested bytes before and after the stream',
 'The pad N,M stage outputs N filler bytes, the unchanged stream, and M filler bytes. The stages that follow see the padded stream as if it were a file of that content.',
 ['inputs','configurations'],'every stream, N, M, filler and following stages',
 'padding longer than a block and large requests of later stages are not covered by the tests',
 ['src/byte/clip.rs','src/byte/zero.rs','src/byte/cat.rs'],
 [('padding','src/byte/clip.rs ClipperParams, ClipStream'),('filler source','src/byte/zero.rs ZeroStream')],[out])
P('P10','A patch replaces exactly the recorded spans and nothing else',
 'Applying a patch replaces the bytes [offset, offset + length) of each record by its array, inserting or deleting bytes when the lengths differ, and leaves every other byte intact and in place. Records that stretch beyond the end of the stream replace what is there, records at the end are appended, and overlapping records are an error.',
 ['inputs','configurations'],'every stream and every sorted list of records',
 'records straddle buffer boundaries and change lengths at arbitrary positions',
 ['src/byte/patch.rs','src/text/parser/mod.rs'],
 [('patcher','src/byte/patch.rs PatchStream, PatchFeeder')],[out])
P('P11','Text inputs become the byte stream their records describe',
 'With a text input format the records of the text place their arrays at the recorded offsets and fill the gaps with the filler byte; with the offset-less form the arrays are concatenated in order. Records that overlap or go backwards are reported as an error. Records may be of any length and number.',
 ['inputs','configurations'],'every well-formed text with sorted records',
 'lines longer than a block, gaps longer than a block and their interplay with requests are not sampled',
 ['src/byte/text.rs','src/text/parser/mod.rs'],
 [('text streams','src/byte/text.rs'),('parser','src/text/parser/mod.rs')],[out])
P('P12','--width cuts constant-stride slices with the mapped margins',
 'With width N and the range expression s+S..e+E, slice k (k = 0, 1, ...) with kN inside the stream is [kN+S, kN+N+E) clipped to the stream, and empty ones are dropped; without an expression the slices tile the stream and the last one is clipped. Each slice appears once, in order, for streams of any length.',
 ['inputs','configurations'],'every stream length, width and range expression',
 'the slicer reuses precomputed slice tables with phases that depend on the consumed amounts',
 ['src/segment/stride.rs','src/pipeline.rs','src/mapper.rs'],
 [('stride slicer','src/segment/stride.rs ConstSlicerParams, ConstSegments')],[out])
P('P13','--find reports exactly the non-overlapping occurrences of the pattern',
 'The find slicer outputs exactly the leftmost non-overlapping occurrences of the byte array in the stream, in order, wherever the buffer boundaries fall.',
 ['inputs'],'every stream and pattern, including self-overlapping patterns',
 'occurrences that straddle buffer boundaries and self-overlapping patterns depend on scan positions',
 ['src/segment/exact.rs'],[('exact matcher','src/segment/exact.rs ExactMatchSlicer')],[out])
P('P14','--walk tiles the stream with the evaluated lengths',
 'The walk slicer repeatedly evaluates its expressions on the data at the current position and cuts slices of those lengths back to back until the end of the stream, where the last slice is clipped. A length that is not positive or a negative index is an error, and elements are read in little endian with sign extension.',
 ['inputs','configurations'],'every stream and list of expressions',
 'slice lengths come from the data itself, so positions and look-ahead are unbounded',
 ['src/segment/walk.rs','src/eval.rs'],[('walker','src/segment/walk.rs WalkSlicer, SpanFetcher')],[out])
P('P15','--slice outputs exactly the given ranges, sorted and unmerged',
 'The slice slicer outputs one slice per given range, clipped to the stream, dropping the empty ones, sorted by start and end; overlapping ranges stay separate. Ranges relative to the end are resolved against the true length of the stream.',
 ['inputs','configurations'],'every stream and every list of ranges',
 'end-anchored ranges need unknown look-ahead and interact with early termination and block boundaries',
 ['src/segment/range.rs','src/mapper.rs'],[('range slicer','src/segment/range.rs')],[out])
P('P16','--guide cuts exactly the slices of the guide records',
 'The guide slicer outputs the slices recorded in the guide file, clipped at the end of the stream, in the order of the file; records that begin beyond the stream are dropped. A guide that is not sorted is an error.',
 ['inputs'],'every stream and every guide text',
 'guides may overlap, nest, and stretch across any buffer boundary',
 ['src/segment/guided.rs','src/text/parser/mod.rs'],[('guided slicer','src/segment/guided.rs GuidedSlicer')],[out])
P('P17','--regex narrows every slice to the matches inside it',
 'The regex stage replaces each slice by the leftmost non-overlapping matches of the pattern within that slice alone, at their true positions in the stream, sorted by start and end. A match never spans two slices and no match is dropped or repeated.',
 ['inputs','configurations'],'every sequence of slices, overlapping or not, and every pattern',
 'overlapping slices and slices pending across buffers are processed incrementally',
 ['src/segment/regex.rs'],[('regex stage','src/segment/regex.rs RegexSlicer')],[out])
P('P18','--invert yields the gaps between the slices',
 'The invert stage outputs, for each maximal gap not covered by the slices, including the ones before the first and after the last slice (an empty slice of a guide splits the gap that it is in), the given ranges mapped from that gap, clipped to the stream, empty ones dropped, sorted by start and end.',
 ['inputs','configurations'],'every sequence of slices and every list of range expressions',
 'gaps are known only after arbitrarily later slices or the end of the stream',
 ['src/segment/bridge.rs','src/mapper.rs'],[('inverter','src/segment/bridge.rs BridgeStream')],[out])
P('P19','--extend maps every slice by the range expressions',
 'The extend stage outputs for each slice the given range expressions mapped from its start and end, clipped to the stream, empty ones dropped, sorted by start and end. The results of overlapping or reordered slices are all there exactly once.',
 ['inputs','configurations'],'every sequence of slices and every list of range expressions',
 'mapped slices move backwards and forwards across the consumed position and the buffered region',
 ['src/segment/extend.rs','src/mapper.rs'],[('extender','src/segment/extend.rs ExtendStream')],[out])
P('P20','--merge joins exactly the slices within the distance',
 'The merge N stage replaces every maximal run of slices in which each begins at most N bytes after the furthest end so far by the single slice from the first start to the furthest end, and keeps the order. No other slice is joined, lost or shortened.',
 ['inputs','configurations'],'every sequence of sorted slices and every distance',
 'runs span any number of buffers and nested slices make the furthest end differ from the last end',
 ['src/segment/merge.rs'],[('merger','src/segment/merge.rs MergeStream, SliceAccumulator')],[out])
P('P21','--lines keeps exactly the slices whose index is in the ranges',
 'The lines stage keeps a slice if and only if its index among the slices of the previous stage lies in the union of the given ranges, where ends relative to the last slice are resolved against their true number. The kept slices are unchanged and in order.',
 ['inputs','configurations'],'every sequence of slices and every list of ranges',
 'end-anchored ranges need look-ahead over slices, and early termination must not cut kept slices',
 ['src/segment/filter.rs','src/mapper.rs'],[('line filter','src/segment/filter.rs Cutter::accumulate, FilterStream')],[out])
P('P22','--output writes every slice to the file its name renders to, once',
 'With an output template each slice is formatted and written to the file its rendered name denotes: the first write of a run replaces the previous content of the file and later ones append in slice order. Every slice is written exactly once, and without a template all go to the standard output.',
 ['inputs','configurations','histories'],'every sequence of slices, template and previous content of the files',
 'slices held back across buffers must be written once with their own index and offset',
 ['src/drain/scatter.rs','src/template.rs'],[('drain','src/drain/scatter.rs ScatterDrain, ScatterContext')],['content of the output files','standard output'],
 [('src_consumed, offset, lines','position of the drain in the slices','src/drain/scatter.rs')])
P('P23','Filename templates render the values of their expressions',
 'A template renders to its literal text with each placeholder replaced by the value of its expression of the slice offset n and index l in the requested radix, zero-padded to the requested width. An unknown variable or a malformed placeholder is an error.',
 ['inputs','configurations'],'every template and every value of the variables',
 'tests render a few templates on a few values',
 ['src/template.rs','src/eval.rs'],[('templates','src/template.rs Template')],['names of the output files'])
P('P24','--patch-back yields the cached stream with the returned patch applied',
 'With patch-back the output is the stream after the byte-level stages with the records that the command returned applied to it as a patch, to the last byte, whichever slices were given to the command. The command receives exactly the slices in the patch format.',
 ['inputs','configurations','schedules'],'every stream, slicing and command that returns sorted records',
 'the stream is cached by one thread while another reads it, and slicers may stop before its end',
 ['src/drain/patch.rs','src/byte/tee.rs','src/byte/patch.rs'],[('drain','src/drain/patch.rs PatchDrain'),('cache','src/byte/tee.rs TeeStream, TeeStreamReader')],[out])
P('P25','Expressions evaluate to their C meaning in 64-bit signed integers',
 'A constant expression evaluates to the value that C gives it in 64-bit signed arithmetic, with the C precedence and associativity of + - * / % << >> < <= > >= & ^ | and the unary + - ~, the documented constant forms, and the SI and binary scale suffixes. Syntax errors, constants that do not fit and divisions by zero are reported as errors and never crash the command.',
 ['inputs'],'every expression whose intermediate values fit in 64 bits',
 'the set of expressions is unbounded; tests evaluate a few dozen',
 ['src/eval.rs'],[('tokenizer, RPN conversion and evaluation','src/eval.rs')],['values of the numeric options'])
P('P26','S..E ranges resolve to the documented positions',
 'In a range expression a constant k or s + k is k bytes after the start and e + k is k bytes after the end of the stream or slice, omitted ends default to s and e, and any arithmetic that reduces to such a form is accepted with the same meaning. Positions before the start or after the end are clipped.',
 ['inputs','configurations'],'every expression that reduces to an anchor plus a constant, and every stream or slice length',
 'the reduction rewrites symbolic expressions; tests have a fixed table of them',
 ['src/mapper.rs','src/eval.rs'],[('mappers','src/mapper.rs SegmentMapper, RangeMapper'),('symbolic reduction','src/eval.rs canonize_rpn')],['slices and bytes selected by range options'])
P('P27','--inplace replaces each file by its own output, or leaves it intact',
 'With inplace every named file, once even if named repeatedly, ends up holding exactly what the pipeline outputs for that file alone. If the pipeline fails on a file, that file still has its original content.',
 ['inputs','configurations','fault_sequences'],'every list of files and pipeline, including failing ones',
 'failures may occur at any point of a stream, after part of the output is written',
 ['src/main.rs','src/pipeline.rs'],[('in-place loop','src/main.rs main_impl'),('stream copy','src/main.rs consume_stream')],['content of the files'])
P('P28','Stages apply in the documented order and exclusive options are refused',
 'Whatever the order of the options on the command line, cut, pad and patch apply in this order to the bytes, then the slicer, then regex, invert, extend, merge and lines to the slices, and then the drain. Two modes, two slicers or two drains given together are an error.',
 ['configurations','inputs'],'every subset and order of options',
 'tests build a few pipelines; the number of combinations is exponential',
 ['src/pipeline.rs'],[('pipeline construction','src/pipeline.rs Pipeline::from_args, spawn_stream')],[out])
P('P29','Unchecked memory accesses stay inside initialised buffers',
 'No input makes the code that writes into or reads from buffers without bounds checks touch memory outside of the buffer, or hand out bytes that were never written. This includes the buffers being filled by sources, the gather loops and the formatters and parsers that process a fixed number of bytes at once.',
 ['inputs'],'every length, offset and content of the buffers given to the unchecked routines',
 'an out-of-bounds access is usually invisible in the output, so a passing test says nothing about it',
 ['src/filluninit.rs','src/byte/zip.rs','src/text/formatter/hex.rs','src/text/formatter/mod.rs','src/text/parser/x86_64.rs','src/text/parser/mod.rs'],
 [('uninitialised tail of a vector','src/filluninit.rs FillUninit'),('gather loops','src/byte/zip.rs'),('block formatters and parsers','src/text/formatter/hex.rs, src/text/parser/*.rs')],
 ['memory accesses of the unchecked routines'])
with open('/verif/properties.jsonl','w') as f:
    for p in props:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(props))
