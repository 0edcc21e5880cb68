"""Texts of the properties, as lists; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""
HOOKS = {
    "guard": "cfg(nd_verif), and cfg(nd_verif_sched) for the threads behind --patch-back",
    "enable": "RUSTFLAGS='--cfg nd_verif' ND_VERIF_HARNESS=/verif/harness/nd.rs ND_VERIF_BLOCK=<bytes> cargo build; for C27 also --cfg nd_verif_sched and harness/nd_sched.rs (lib/common.py:build)",
    "source_commits": ["1233a63", "9afdee0"],
}
NA = []
NOTES = ("Every check builds the real crate from /repo's working tree (twice: baseline x86-64 and x86-64-v3, i.e. the portable and the AVX2 code), "
         "with a small BLOCK_SIZE so that block boundaries fall inside enumerable inputs, runs every case of a finite space on it and compares it with a reference model. See DESIGN.md.")
TECH = "exhaustive bounded enumeration of (configuration, input, read schedule) executed on the real pipeline, against a whole-buffer reference model"
NOTE = ("Exhaustive within the bounds recorded in the evidence (no sampling); block sizes 256 and 1024 (thorough: also 2 MiB, the real one) instead of 2 MiB; "
        "both the portable and the AVX2 builds. Trusts the reference model in harness/spec.rs (written from README.md) and rustc.")

P = []
def p(id, title, statement, over, quant, tests, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, technique=TECH, note=NOTE)
    d.update(kw)
    P.append(d)

I, C, S = "inputs", "configurations", "schedules"
BLK = "The unit tests run random or a few fixed inputs through single nodes at one block size; they do not combine %s, and cannot cover every %s."

p("C01", "Hexdump records state offset, length, bytes and mosaic of each slice exactly",
  "In the text output, every slice becomes one line `offset length | array | mosaic` with its true offset and length (zero-padded lower-case hex, widened when needed), two hex digits per byte, the array and mosaic padded to the number of columns of --width, and a mosaic that shows printable ASCII as is and '.' for anything else. With -f b the bytes of the slices are put as they are.",
  [I, C], "every byte value in every column, every slice length and width, both the portable and the vectorised formatters",
  BLK % ("lengths with widths, formats and offsets", "length modulo the vector width"),
  ["src/text/formatter/mod.rs", "src/text/formatter/hex.rs", "src/drain/scatter.rs", "src/pipeline.rs"],
  [("vectorised hex and mosaic formatter with its portable twin", "src/text/formatter/hex.rs"), ("TextFormatter::format_segments", "src/text/formatter/mod.rs"), ("transparent mode of ScatterDrain", "src/drain/scatter.rs")])
p("C02", "Hexdump text read with --in-format gives back exactly the bytes it describes",
  "-F x places the array of every record at its offset, fills the uncovered bytes with --filler and ends at offset + length of the last record; -F nnx concatenates the arrays. Mosaics, padding, spelling of numbers, line lengths, a missing last newline and the way the text is split into reads make no difference, and overlapping or unsorted records are refused.",
  [I, S], "every sequence of records up to a bound, every array length around the vector widths, every split of the text into reads",
  BLK % ("record shapes with read boundaries", "position of a buffer boundary in a line"),
  ["src/byte/text.rs", "src/text/parser/mod.rs", "src/text/parser/x86_64.rs", "src/text/parser/naive.rs", "src/streambuf.rs"],
  [("TextParser::read_line with the margin of StreamBuf", "src/text/parser/mod.rs"), ("TextStream and GaplessTextStream", "src/byte/text.rs")])
p("C03", "--cat and --zip assemble the inputs byte-exactly with word alignment",
  "--cat N concatenates the inputs, each padded with --filler to a multiple of N bytes. --zip N takes N-byte words from the inputs in turn until the shortest one ends, after padding a partial last word. Neither depends on how the inputs deliver their bytes.",
  [I, C, S], "1 to 6 inputs of every small length and of lengths around the block size, every small word size, equal and different read sizes per input",
  BLK % ("input lengths, word sizes and read sizes", "combination of unequal inputs"),
  ["src/byte/cat.rs", "src/byte/zip.rs", "src/byte/raw.rs", "src/streambuf.rs"],
  [("ZipStream gather loops", "src/byte/zip.rs"), ("CatStream source rotation", "src/byte/cat.rs"), ("alignment in StreamBuf::mark_eof", "src/streambuf.rs")])
p("C04", "--cut leaves exactly the bytes in the union of its ranges, in order",
  "For any list of S..E ranges anchored at either end, in any order, overlapping, empty, inverted or beyond the stream, the output of --cut is the input restricted to the union of the ranges, with no byte duplicated, lost or reordered.",
  [I, C, S], "every list of up to 3 ranges with ends near both ends of the stream or near block boundaries, every small length",
  BLK % ("anchors, overlaps and stream lengths", "position of the end of the stream relative to a range and a block"),
  ["src/byte/cut.rs", "src/mapper.rs"],
  [("Cutter over sorted ranges with tail margin", "src/byte/cut.rs"), ("RangeMapper anchors", "src/mapper.rs")])
p("C05", "--pad surrounds the stream with exactly N and M filler bytes, after --cut",
  "--pad N,M puts N filler bytes before and M after the stream left by --cut, whatever their sizes, and --patch applies to the padded stream: stage 2 is cut, then pad, then patch.",
  [I, C, S], "all N, M up to 20 and around the block size, all fillers, all orders of cut x pad x patch",
  BLK % ("padding sizes with stream lengths", "value around the block size"),
  ["src/byte/clip.rs", "src/pipeline.rs"],
  [("ClipStream", "src/byte/clip.rs"), ("node order in Pipeline::from_args", "src/pipeline.rs")])
p("C06", "--patch replaces exactly [offset, offset+length) of the stream for each record",
  "Applying records with --patch gives the stream in which every [offset, offset + length) is replaced with the record's array, which may be shorter, longer or empty, and may append at the end of the stream. Everything outside the records is kept byte for byte, and records that overlap or are out of order are refused instead of being half applied.",
  [I, S], "every sequence of up to 3 records on short streams, records spanning block boundaries in every combination",
  BLK % ("insertions, deletions, skips and stream ends", "boundary between patch records and blocks"),
  ["src/byte/patch.rs", "src/text/parser/mod.rs"],
  [("PatchStream::fill_buf with skip over deleted bytes", "src/byte/patch.rs"), ("overlap test in PatchFeeder::feed", "src/byte/patch.rs")])
p("C07", "--width N[,S..E] yields one slice per N bytes mapped to S..E and clipped",
  "Slice k of --width N,S..E is S..E applied to [kN, (k+1)N), clipped to the stream, and dropped if nothing is left; without S..E the slices tile the stream with a short last one. Ranges that make every slice empty are refused.",
  [I, C, S], "every N up to 8 with every S..E in -9..9 on either anchor, every small length; widths around the block size",
  BLK % ("pitch, margins and stream ends", "residue of the stream length"),
  ["src/segment/stride.rs"],
  [("ConstSlicer phases and margins", "src/segment/stride.rs")])
p("C08", "--find slices out the leftmost non-overlapping occurrences of the pattern",
  "--find yields each occurrence of the byte array, scanning from the left and resuming after the end of the match, and nothing else. Where block or read boundaries fall makes no difference.",
  [I, S], "all words over {a, b} up to length 10 x all patterns up to length 4, patterns placed across block boundaries at every offset",
  BLK % ("self-overlapping patterns with block boundaries", "offset of a match relative to a boundary"),
  ["src/segment/exact.rs"],
  [("ExactMatchSlicer scan over overlapping blocks", "src/segment/exact.rs")])
p("C09", "--walk tiles the stream with chunks as long as the expressions say",
  "--walk evaluates its expressions with b/h/i/l arrays based at the head of the current group of chunks (little endian, signed, zero beyond the end), emits one chunk per expression in sequence and repeats until the end, clipping the last chunk to the stream. A non-positive length or a negative index aborts with an error and no chunk is skipped, duplicated or merged.",
  [I, S], "19 expressions and all tuples of a subset x all words over a 5-letter alphabet up to length 5, chunk lengths around the block size",
  BLK % ("element types, chunk lengths and block boundaries", "position of a header relative to a block"),
  ["src/segment/walk.rs", "src/eval.rs"],
  [("WalkSlicer feeds as many bytes as the chunks and elements need", "src/segment/walk.rs")])
p("C10", "--slice yields exactly its ranges, clipped, sorted and without duplicates",
  "--slice S..E[,...] yields each range clipped to the stream, in the order of (start, end), dropping empty ones and duplicates, however the ranges overlap and whichever end they are anchored to.",
  [I, C, S], "every list of up to 3 ranges with ends near both stream ends and block boundaries, every small length",
  BLK % ("anchors, overlaps and the end of the stream", "order in which anchored ranges become known"),
  ["src/segment/range.rs", "src/mapper.rs"],
  [("Cutter::accumulate", "src/segment/range.rs")])
p("C11", "--guide yields the [offset, offset+length) ranges of the guide file",
  "--guide yields one slice per record, clipped to the stream, sorted by (start, end); records that start at or after the end of the stream yield nothing, arrays and mosaics in the guide are ignored, and records not sorted by offset are refused.",
  [I, S], "every list of up to 2 records (3 nearly sorted) on streams of 0..7 bytes, and records around block boundaries",
  BLK % ("overlapping guide records with block boundaries", "record relative to the end of the stream"),
  ["src/segment/guided.rs", "src/text/parser/mod.rs"],
  [("GuidedSlicer holds records until their contents are ready", "src/segment/guided.rs")])
p("C12", "--regex leaves exactly the matches found in each slice, sorted",
  "--regex yields the non-empty matches of the pattern in each slice, each slice being searched as a whole and on its own, sorted by (start, end), with multiplicity; bytes outside the slice never take part in a match. Patterns that match the empty string are not specified.",
  [I, C, S], "18 patterns x all words over 4 letters up to length 6 x slicers with gaps, overlaps and nesting x block boundaries",
  BLK % ("overlapping slices with block boundaries", "slice that spans blocks"),
  ["src/segment/regex.rs", "src/segment/sorter.rs"],
  [("RegexSlicer", "src/segment/regex.rs")])
p("C13", "--invert yields S..E of exactly the gaps not covered by any slice",
  "--invert takes the maximal runs of bytes that no slice covers, including those before the first and after the last slice, maps each to every S..E, clips to the stream, drops empty ones and sorts them.",
  [I, C, S], "15 slicers x single ranges and pairs with offsets in -5..5 on either anchor x lengths; slicers dense in blocks",
  BLK % ("overlapping slices, mapped ranges and block boundaries", "gap that spans blocks"),
  ["src/segment/bridge.rs", "src/segment/sorter.rs", "src/mapper.rs"],
  [("BridgeStream", "src/segment/bridge.rs")])
p("C14", "--extend maps every slice to S..E, clipped and sorted",
  "--extend maps each slice to every S..E relative to its two ends, clips to the stream (never to a neighbouring slice or to the end of the last slice), drops empty ones, and outputs the results sorted by (start, end).",
  [I, C, S], "15 slicers x single ranges and pairs with offsets in -5..5 on either anchor x lengths; slicers dense in blocks",
  BLK % ("mapped ranges, slice order and block boundaries", "slice whose image crosses a block"),
  ["src/segment/extend.rs", "src/segment/sorter.rs", "src/segment/range.rs", "src/mapper.rs"],
  [("ExtendStream", "src/segment/extend.rs"), ("SegmentSorter", "src/segment/sorter.rs")])
p("C15", "--merge N joins exactly the slices at distance N or less, transitively",
  "--merge N replaces each maximal chain of slices, sorted by start, in which the next starts no further than N after the end of what is merged so far, with the one range that covers it; other slices are left as they are.",
  [I, C, S], "15 slicers x thresholds 0..6 and around the block size x lengths",
  BLK % ("slice patterns, thresholds and block boundaries", "gap relative to a block boundary"),
  ["src/segment/merge.rs"],
  [("MergeStream accumulator", "src/segment/merge.rs")])
p("C16", "--lines leaves exactly the slices whose index is in the union of the ranges",
  "--lines keeps the slices whose 0-origin index, in the sorted sequence, is in the union of the S..E ranges anchored at the first or last slice, each once and in order.",
  [I, C, S], "all lists of up to 3 ranges x slicers x numbers of slices, around block boundaries",
  BLK % ("index ranges anchored at the end with slices in flight", "number of slices per block"),
  ["src/segment/filter.rs", "src/mapper.rs"],
  [("FilterStream", "src/segment/filter.rs")])
p("C17", "--output sends every slice, in order, to the file named for it",
  "--output TEMPLATE renders a name per slice from its offset n and index l, clears the file before its first slice and appends the later ones, and sends slices whose name is empty or '-' to stdout. Every slice lands in exactly one place, files hold nothing else (no stale contents), and -f applies.",
  [I, C, S], "14 templates x 15 slicers x lengths x stale files, and streams of several blocks",
  BLK % ("templates with slices over several blocks", "history of writes to a file; the unit tests leave template rendering as TODO"),
  ["src/drain/scatter.rs", "src/template.rs"],
  [("ScatterDrain and ScatterContext", "src/drain/scatter.rs")], observe=["files", "stdout"])
p("C18", "--patch-back applies the command's output to the stream as a patch",
  "--patch-back gives CMD exactly the dump of the slices in the requested format and outputs the stream of stage 2 patched with what CMD prints, whole and unaltered elsewhere, no matter when or whether CMD reads its input, how early it answers or exits, or how much it prints, and even if the slices end before the stream does.",
  [I, C, S], "14 commands (streaming, reading all first, answering first, never reading, inserting, deleting) x slicers x stream lengths up to 130 blocks",
  "No existing test runs --patch-back; which thread gets ahead cannot be fixed by a test.",
  ["src/drain/patch.rs", "src/byte/tee.rs", "src/byte/patch.rs", "src/pipeline.rs"],
  [("TeeStream cache with a waiting reader", "src/byte/tee.rs"), ("feeder and receiver threads", "src/drain/patch.rs")])
p("C19", "Every combination of options runs the documented pipeline or is refused",
  "For every subset of the options, if it contains two options of an exclusive group nd refuses it, otherwise the output is what the documented stages give when applied in the documented order, regardless of the order of the arguments.",
  [C, I], "all 2^20 subsets of the options outside --patch-back with representative values, on short, empty and multi-block inputs",
  "The unit tests compose two or three nodes in a handful of combinations.",
  ["src/pipeline.rs"],
  [("Pipeline::from_args, Node::precedes, spawn_stream", "src/pipeline.rs")])
p("C20", "Output never depends on how reads are split or how the stream is consumed",
  "For any configuration and input, splitting the input into reads in any way, and requesting or consuming the output in any pattern, gives byte-identical output; after the end of the stream is reported its length never changes.",
  [S, I, C], "all 2^9 splits of a 10-byte input, all 4-read prefixes over 5 sizes on multi-block inputs, all 3-step consumer cycles over 4 actions x 3 request sizes, 21 configurations",
  "The unit tests draw random read lengths; they cannot cover every split or every consumer.",
  ["src/streambuf.rs", "src/byte/mod.rs", "src/segment/mod.rs"],
  [("StreamBuf fill/consume contract", "src/streambuf.rs"), ("SegmentStream contract (is_eof, bytes, count, max_consume)", "src/segment/mod.rs")])

FT = "exhaustive fault injection: every system call of a run x every fault of its kind (error, short transfer, kill before/amid/after), singly and in pairs, on the real program"
FN = ("An LD_PRELOAD shim (harness/shim.c) numbers the calls that the program makes on its files, pipes and standard streams and injects the faults; every event of every recorded history is a fault "
      "point, and each error is followed by every second fault. Small-block build of the program. Does not model power loss (what the kernel has, survives). What is right is the fault-free result of the program, which the other properties check.")
p("C25", "--inplace leaves each file wholly old or wholly new, whenever it is stopped",
  "With --inplace, at every moment and after a kill or a failing system call at any point, each named file holds all of its old or all of its new contents, and every other file, whatever its name, is as it was. Exit status 0 means that all hold the new contents, edited once even if named twice, with the permissions they had. After an error nothing is left behind, and what a killed run leaves does not disturb the next.",
  ["crash_points", "fault_sequences", I], "every crash point, torn write and failing call of in-place runs on one or two files, singly and in pairs, then a second run",
  "No unit test touches main.rs; a crash or an I/O error at a chosen call cannot be had from a test without an injector.",
  ["src/main.rs"],
  [("temporary file and rename in main_impl", "src/main.rs")], technique=FT, note=FN, observe=["files", "exit status"])
p("C26", "Exit status 0 means all output was delivered; every I/O failure is reported",
  "Whichever call on an input, patch, guide, pipe, output file or standard stream fails or transfers less than asked, nd either exits with 0 having produced exactly the right output and files, or exits with a nonzero status and a message, having written a prefix of the right output (stdin closed by a pager or reader early is not an error). Short reads and writes never matter. Unreadable or doubly used inputs and contradictory options are reported, with no output.",
  ["fault_sequences", I], "every call of 60 kinds of runs x errors and short transfers, singly and in pairs",
  "The unit tests use in-memory sources that never fail; nothing tests main.rs.",
  ["src/main.rs", "src/byte/raw.rs", "src/drain/scatter.rs", "src/drain/patch.rs", "src/streambuf.rs"],
  [("consume_stream, build_sources, exit status", "src/main.rs"), ("error propagation from RawStream through the pipeline", "src/byte/raw.rs"), ("output files", "src/drain/scatter.rs")],
  technique=FT, note=FN, observe=["stdout", "files", "exit status", "stderr"])

p("C27", "Under every scheduling of its threads and CMD, --patch-back ends with one result",
  "For every interleaving of the thread that slices, the thread that feeds CMD, the thread that reads its answers and CMD itself, for every capacity of the pipes and every moment at which CMD reads, writes, closes its ends or exits, and with wakeups out of nothing, nd ends (no deadlock, no lost wakeup) and the output is that of the patches CMD wrote.",
  [S], "all interleavings up to commutation for 800 cases, and all with at most 2 (thorough: 3) delays for 80 longer ones",
  "A unit test sees the few schedules that the kernel happens to choose; a lost wakeup or a deadlock on a full pipe needs a particular one.",
  ["src/byte/tee.rs", "src/drain/patch.rs", "src/byte/patch.rs"],
  [("TeeStream and TeeStreamReader: mutex, condition variable, shared buffer", "src/byte/tee.rs"), ("PatchDrain: child process, feeder and drain threads", "src/drain/patch.rs")],
  technique="stateless model checking of the real threads under a controlled scheduler, with dynamic partial-order reduction and sleep sets",
  note="std's Mutex, Condvar, thread and process are replaced by stand-ins under cfg(nd_verif_sched): they hand control to the scheduler at every operation. CMD is a small model of a shell (harness/sched.rs) with bounded pipes. The reduction is checked against the unreduced search on 120 cases at every run. 256-byte blocks.")
p("C21", "What nd dumps, nd reads back: a dump is a lossless record of the slices",
  "For every configuration of slices, each line of the dump parses as a record whose array is as long as it says; the dump of slices that tile a stream read with -F x is the stream, the dump of any slices read with -F nnx is their concatenation, and a dump used as --patch leaves its stream unchanged and used as --guide yields the same slices.",
  [I, C, S], "110 slicings x streams of 0..40 bytes and around the block boundaries x 3 byte patterns x read schedules; relations between runs of nd alone",
  BLK % ("writing with reading", "combination of line lengths and block boundaries"),
  ["src/text/formatter/mod.rs", "src/text/parser/mod.rs", "src/byte/text.rs", "src/byte/patch.rs", "src/segment/guided.rs"],
  [("formatter", "src/text/formatter/hex.rs"), ("parser", "src/text/parser/mod.rs")],
  technique="exhaustive bounded enumeration of (configuration, input, read schedule) executed on the real pipeline, checking relations between its runs")
p("C22", "The text parser accepts exactly the record grammar, the same on every CPU",
  "A line of a hexdump text, patch or guide is taken as `OFFSET LENGTH [| ARRAY [| anything]]`, with hex numbers of up to 15 digits, columns of two hex digits and blanks between them; any other line makes nd fail instead of yielding guessed bytes. The result and whether there is one never depend on the processor nd was built for, on the length of the line or on how the text is split into reads.",
  [I, S, C], "every text of up to 6 letters over 7; every record prefix with every tail over 6 letters; one edit at every position of lines of up to 194 columns; every byte value at landmark columns",
  "The unit tests feed well-formed lines and a few malformed ones to the parser of one CPU; nothing compares the two parsers.",
  ["src/text/parser/mod.rs", "src/text/parser/x86_64.rs", "src/text/parser/naive.rs", "src/byte/text.rs"],
  [("vectorised array parser with its portable twin", "src/text/parser/x86_64.rs"), ("TextParser::read_line", "src/text/parser/mod.rs")],
  technique="exhaustive bounded enumeration of texts executed on the real pipeline, against a grammar of lines, and outcome by outcome between the builds for two processors")
p("C23", "Expressions have one value, that of the documented grammar, or are refused",
  "Wherever nd takes an expression, the value is that of the documented operators with their precedence and associativity on 64-bit signed integers, constants being decimal, 0x, 0o or 0b with SI or binary prefixes and separators, and an S..E end is the exact offset from s or e that the expression comes to. Malformed expressions are refused with a message, never taken for another value.",
  [I, "programs"], "every sequence of up to 3 of 23 tokens and 5 of 9; every chain of 4 operands with every 3 operators, signs and parentheses; every word of up to 3 letters over 28 and 5 over 10 as a constant",
  "The unit tests evaluate a list of expressions; they cannot cover every pair of operators in every arrangement.",
  ["src/eval.rs", "src/mapper.rs", "src/params.rs"],
  [("tokenizer, sort_into_rpn, canonicaliser and eval_rpn", "src/eval.rs"), ("RangeMapper from expressions", "src/mapper.rs")],
  technique="exhaustive bounded enumeration of expressions (token sequences) executed on the real pipeline, against an independent evaluator")
p("C24", "--output renders every {EXPR:FORMAT} field exactly and refuses malformed ones",
  "The name rendered for a slice is the template with each {EXPR} replaced by the value of EXPR at the slice's offset n and index l, formatted as Rust formats an i64 with FORMAT (fill, sign, '#', zero padding, width, radix), everything else being taken literally. Malformed fields and formatters are refused before anything is written.",
  [I, C], "9 fills and alignments x sign x # x 0 x widths 0..12 and more x 6 types x 14 expressions x 3 slices; every arrangement of up to 4 fields and literals",
  "The unit tests leave template rendering as TODO; a handful of names cannot cover the formatters.",
  ["src/template.rs", "src/eval.rs", "src/drain/scatter.rs"],
  [("Template::from_str and render", "src/template.rs")], observe=["files"],
  technique="exhaustive bounded enumeration of templates executed on the real pipeline, against an independent formatter")
p("C28", "nd works on streams of any length: what it holds and reads ahead is bounded",
  "Unless a slice is as long as the stream or an end of a range of --cut, --slice or --lines is anchored to the end of the stream, the memory that nd holds doesn't grow with the lengths of the inputs and patches, the output for a byte is put out at most a bounded number of blocks after that byte is read, and nothing is read far beyond the last byte that a --cut, --slice or --lines of a finite span needs.",
  [I, C, S], "every pair of (11 fronts, 15 slicers, 11 chains of filters, 6 outputs) x 3 ways of reading x streams of up to 2048 (thorough: 8192) blocks; at every allocation and every read of an execution",
  "The unit tests look at the results of short streams only; a node that keeps what it has already passed on gives the same results.",
  ["src/streambuf.rs", "src/text/parser/mod.rs", "src/byte", "src/segment", "src/drain"],
  [("StreamBuf::consume unwinds the buffer", "src/streambuf.rs"), ("TextParser::fill_buf", "src/text/parser/mod.rs"), ("max_consume of every slicer and filter", "src/segment")],
  technique="exhaustive bounded enumeration of (configuration, input, read schedule) executed on the real pipeline, with a monitor at every allocation and read",
  note="The heap is observed by a counting global allocator in the harness. Bounded means: on a stream 8 times longer the peak is at most twice as high plus 16 blocks, and the lag is at most 16 blocks of input and 16 of output, with 256-byte blocks.")
p("C29", "Every spelling and place of an option value means the same, or is refused",
  "Numbers, ranges, arrays and format names given to an option mean the same in every base, case, prefix, separator, blank or equivalent expression, as --long=V, --long V, -sV, -s V, before or after the other options, and defaults fill what is left out. Malformed and out-of-range values are refused, never cut to something smaller.",
  [C, I], "up to 35 spellings of each of 11 values for every option that takes a number x 5 placements; every range spelling in every option; arrays of every length up to 64; malformed and out-of-range values of every option",
  "The unit tests parse a few values of a few options; nothing tests main.rs.",
  ["src/main.rs", "src/pipeline.rs", "src/params.rs", "src/eval.rs"],
  [("parse_usize, parse_const_slicer_params and the like", "src/params.rs"), ("command line definition", "src/main.rs")])

p("C30", "The same command gives the same bytes however it is written, fed or paged",
  "The output of the program as shipped depends only on the values of the options and the bytes of the inputs: not on the order or spelling of the options, nor on where the files stand among them, nor on whether an input, patch or guide is a file, a symbolic link, a FIFO, a pipe or a file on standard input (\"-\", /dev/stdin, or no name at all), nor on the pieces in which it arrives, nor on the block size nd works with. The pager is --pager, else PAGER, else less -S -F -X on a terminal, else none (a blank one is none); it gets exactly the output, and nd ends after it.",
  [C, I, S], "22 commands x every combination of spellings, every order and every place of the inputs, every kind of delivery, every way to cut up to 6 bytes into pieces; 7 sizes around multiples of 2 MiB; 9 x 9 pagers on a terminal and on a pipe",
  "Nothing tests main.rs or the command line, the unit tests are built with 145-byte blocks, and a terminal or a pager needs a process of its own.",
  ["src/main.rs", "src/pipeline.rs", "src/params.rs", "src/byte/raw.rs", "src/streambuf.rs"],
  [("Args, PipelineArgs, build_sources, build_drain", "src/main.rs"), ("Pipeline::from_args: the order of the operations", "src/pipeline.rs"), ("BLOCK_SIZE", "src/params.rs")],
  technique="exhaustive bounded enumeration of the configurations of whole processes (spelling, order, delivery, pieces, pager) of the program as shipped, against another build of the same tree",
  note="Runs the unmodified program with its 2 MiB blocks. What the plain form of a command must give comes from a build of the same tree with 1024-byte blocks, which C01-C29 hold to the reference model; an error common to both builds is theirs to find. Single runs per case: the kernel's scheduling of nd's threads is C27's.",
  observe=["stdout", "files", "exit status", "pager's arguments and input"])

p("C31", "Positions, lengths and counts past 2^16, 2^31 and 2^32 keep their full value",
  "Offsets, lengths, line numbers, numbers of records and pitches mean the same past 2^16, 2^24, 2^31 and 2^32 as below: every operation cuts, pads, patches, slices, finds, walks, merges and counts at the exact byte, and the text, the file names and the commands of --patch-back are told the full value.",
  [I, C], "19 families of operations x edges 2^16, 2^24, 2^31, 2^32 (thorough: also 2^33) x every pair of ends within 1 (thorough: 2) of the edge",
  "No unit test has a stream longer than a few megabytes; a value cut to 32 or 16 bits is right on all of them.",
  ["src/text/formatter/mod.rs", "src/text/parser/mod.rs", "src/drain/scatter.rs", "src/byte", "src/segment", "src/eval.rs"],
  [("format_hex_single, format_line_hhh", "src/text/formatter/mod.rs"), ("offsets carried by the drains", "src/drain/scatter.rs"), ("src_consumed and the like of every node", "src/segment/guided.rs")],
  technique="exhaustive bounded enumeration of (operation, edge, distance from the edge) executed as whole processes of the program as shipped on files with holes, against a model of streams as lists of pieces",
  note="Runs the unmodified program (optimized, with debug assertions) on streams of up to 4 GiB (thorough: 8 GiB) that are zeros but for islands of data around every edge. Slices longer than 16 MiB and --zip of single bytes past 2^31 are left out for their cost.",
  observe=["stdout", "files", "exit status"])

p("C32", "A number is honoured exactly or refused, however large; it never wraps",
  "Every number nd takes (in ranges, widths, pads, merges, walks, guides, templates), in every base and with every suffix, and every expression of them, means its mathematical value: ends far outside of the stream are clipped to it, spans longer than what is left stop at its end. What cannot be represented or held (64-bit overflow, division by zero, too much memory) ends in a message and a nonzero exit; nd never takes another number for it, prints anything wrong, hangs or dies by a signal on it, whether or not the build checks its arithmetic.",
  [I, C], "numbers around 2^31 .. 2^66, powers of ten and of two up to 2^256, every prefix, suffix and base around the limits (273 spellings; thorough: 765) x about 270 places for a number x the build with checks of arithmetic and the one without",
  "The unit tests take small numbers, with arithmetic checks on; the released build has none, and wraps in silence.",
  ["src/eval.rs", "src/mapper.rs", "src/segment", "src/byte", "src/streambuf.rs", "src/params.rs", "src/text/parser/mod.rs"],
  [("parse_val, apply_op, Rpn::evaluate", "src/eval.rs"), ("SegmentMapperAnchor::evaluate", "src/mapper.rs"), ("ConstSlicerParams::from_raw", "src/segment/stride.rs"), ("SpanFetcher, calc_next_chunk_len", "src/segment/walk.rs")],
  technique="exhaustive bounded enumeration of (place for a number, spelling, build) executed as whole processes of the program, against a model computed with unbounded integers",
  note="Runs the unmodified program on an 8-byte stream, optimized, once with checks of arithmetic and once as released. Numbers below 2^59 (less where several are added or multiplied, or where memory is asked for) must be honoured; larger ones may be refused. An allocation failure that aborts with a message counts as a refusal. Shifts by 64 or more and comparisons whose difference overflows are left unspecified.",
  observe=["stdout", "files", "exit status", "stderr not empty"])

p("C33", "nd touches no memory it doesn't own and gives no byte it never got",
  "Whatever the options, the inputs and the way they arrive, nd reads and writes only inside of its live buffers (no overflow past the reserved room, no use after a buffer has moved, no precondition of an unsafe operation broken), and what it prints or writes doesn't depend on what freshly allocated memory happens to hold.",
  [I, S], "the enumerations of 14 of the other properties (thorough: 25), and one of lengths that leave every possible room at the end of a buffer, on the SSE2 and the AVX2 code, 256-byte blocks (thorough: also 1024)",
  "Most of the code that moves bytes is unsafe, or writes whole vectors past what it means to fill; an access out of bounds mostly has no effect that a test could see.",
  ["src/filluninit.rs", "src/streambuf.rs", "src/byte/zip.rs", "src/text/formatter", "src/text/parser", "src/byte/zero.rs"],
  [("fill_uninit_with_ret", "src/filluninit.rs"), ("Zipper", "src/byte/zip.rs"), ("format_line_hhh, format_mosaic_avx2", "src/text/formatter"), ("parse_multi", "src/text/parser/x86_64.rs")],
  technique="exhaustive bounded enumeration of inputs, options and reads run in process under AddressSanitizer as the monitor of every access, and again on memory filled differently, the two traces of outcomes compared",
  note="The sanitizer sees accesses outside of heap, stack and global objects and to freed ones; reads inside of a buffer's room but past what was put there only count when the outcome changes with the fill. Built with the nightly toolchain. Wrong results that are the same in both runs are left to the other properties. 64-bit x86 only.",
  observe=["memory accesses", "stdout", "files"])
