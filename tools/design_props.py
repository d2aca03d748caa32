# per property: what is specified, how it is bound, what is left open
P = {
'A01': ("Region.tla (Blocks.tla)", "Blocks with offset, length, fill value; exact remaining count; every refusal decided by the rounded size.", "Up to 7 bytes of the store may be lost to alignment."),
'A02': ("BiStack.tla", "Two stacks of blocks in one store, marks per end, remaining count; resets give back exactly one end.", "Requests of size 0 unconstrained."),
'A03': ("ObjPool.tla", "Set of live cells, free count; conservation `free+live=total`; alloc from own memory and from a caller's buffer; foreign/unaligned/one-past-end frees must be refused without effect.", "-"),
'A04': ("MemPool.tla", "Live blocks with offsets and contents, largest possible free area; *completeness*: a request must succeed if a gap large enough (plus bookkeeping) exists; resize keeps the common prefix; giving all back restores the whole.", "Slack of 32 bytes per block for bookkeeping; interior pointers and double frees not given (outside the contract)."),
'C01': ("Array.tla, SeqOps.tla, Big.tla", "Sequence plus capacity; two arrays (copy/concatenate, self), item widths 1..300, lengths to 4096; adopted buffers. Very long contents (up to 140 000 items, as runs; length, check sums and items at chosen positions).", "`add` that exactly fills, resize at capacity 0, deletion of a range at 0 of an empty array: either outcome. Values in adopted buffers are compared modulo 256."),
'C02': ("ByteBuf.tla, Big.tla", "Byte sequence; all insert forms, ranges, copies, files (also unreadable ones, directories, and files of which only so many bytes can be written), self-append; long runs around powers of two; requests that fail. Very long contents (up to 140 000 items, as runs; length, check sums and items at chosen positions).", "Appending/copying an empty buffer may be refused."),
'C03': ("Deque.tla, Big.tla", "Sequence with stable handles; every traversal and link of every item observed in both directions; a handle gives its data exactly while its item is there; growth, reset, free-list reuse. Very long contents (up to 80 000 items, as runs; length, check sums and items at chosen positions).", "-"),
'C04': ("Map.tla, Big.tla", "Dictionary as a sequence of distinct keys; arbitrary seeds, colliding keys of equal hash modulo the buckets, zero-length and long keys; every known key looked up after every call. Very long contents (up to 17 000 keys, as runs; length, check sums and items at chosen positions).", "Rehash to a size below the length, 0 or beyond 10^6 may be refused."),
'C05': ("Map.tla, Big.tla", "Same specification; positions, idx_* operations, order under removal/rehash/growth; action property `Order`. Very long contents (up to 17 000 keys, as runs; length, check sums and items at chosen positions).", "as C04"),
'C06': ("Tree.tla, Big.tla", "Forest of ordered trees; values by whole contents; removal/insertion by reference, index, value; up to 700 children, depth 60. Very long contents (up to 70 000 items, as runs; length, check sums and items at chosen positions).", "-"),
'C07': ("Tuple.tla", "Layout function (offset, alignment, total size) for struct and packed; field contents independent; export/import.", "Offset of zero-sized fields not compared."),
'C08': ("Variant.tla", "Tag + bytes; two variants, isolation; sizes 0..5000.", "-"),
'C09': ("Links.tla", "Set of chains; uni-, bi-, tri- and quad-links through one specification; stale links of reused nodes; up to 300 nodes.", "-"),
'S01': ("Str.tla, TextOps.tla, Big.tla", "Character sequences; every edit, with itself as argument, ranges beyond the end, amounts 0/1/k/all; embedded growth around word and 255/256 boundaries; long texts (900). Very long contents (up to 140 000 items, as runs; length, check sums and items at chosen positions).", "Texts with NUL bytes out of domain; empty texts may be refused by add/copy; result flag of `replace` with amount 0."),
'S02': ("Str.tla, Big.tla", "Counting, locating, comparisons (antisymmetry is an invariant `Laws`), palindromes; state unchanged. Very long contents (up to 140 000 items, as runs; length, check sums and items at chosen positions).", "Offsets beyond the last occurrence, comparisons with text-less strings."),
'S03': ("Str.tla, Big.tla", "File reading over any previous contents (files of 0..20000 bytes, streams that cannot be read, directories), format/scan, copies independent. Very long contents (up to 140 000 items, as runs; length, check sums and items at chosen positions).", "-"),
'L01': ("Utf8.tla, LexBase.tla", "RFC 3629 encoder/decoder; exhaustive over 2-byte sequences (thorough: dense 3) and all boundary scalars; every rune predicate over whole ranges of runes (`runeclass`); long texts.", "-"),
'L02': ("LexText.tla", "End of every skippable construct, line counts, collected text; exhaustive over all texts of length ≤5 over 4 alphabets; newline normalisation.", "Backslash + other text in line comments; `/*/`; first character newline for block clear."),
'L03': ("LexText.tla", "Escape grammar of C and Go string/rune literals; exhaustive over texts ≤4 over 18 characters, random long ones.", "Go `\\x` with ≠2 digits, octal <3 digits in Go, octal beyond 0377, `\\u` below U+00A0, surrogates, NUL-producing escapes, cursor/buffer after errors."),
'L04': ("LexNum.tla", "Longest-prefix scanners for C and Go numbers as a grammar; invariant `Grammar` relates scanner and grammar; exhaustive over texts ≤3 (thorough 4) over ~40 characters plus generated near-grammar texts.", "Leading separators after C 0x/0b, missing digits after 0b/0, lone dot, `08.5`, suffixes on hex floats, digits a–e in hex exponents, C hex sign without exponent."),
'L05': ("LexConv.tla, Word.tla", "Value of numerals in 64-bit words (TLC integers are 32-bit: 64-bit words are modelled as two halves).", "Numerals beyond the base, overflow beyond 64 bits."),
'M01': ("Math.tla, MathVal.tla", "Recursive-descent *specification* of the documented grammar over exact dyadic rationals; callback protocol (asked once, whole name); exhaustive over token sequences ≤3 (thorough 4), ladders of operators, bracket depth, all separators.", "Results that are not exact dyadics below 10^9 with ≤20 binary digits, division by zero, malformed subexpressions' value; expressions >900 characters are only required not to crash."),
'D01': ("MsgSpan.tla", "Source lines; spans, merge; rendered diagnostic as a sequence of lines (gutter width, underline columns, labels, notes, colours).", "Exact spelling taken from the documented layout; empty source file may be refused."),
'D02': ("MsgSys.tla", "Message line format, which counter is incremented, two streams never mixed.", "NULL message type out of domain; counters are reported relative to the value they were taken over at (any start, incl. near 255, 65535, 2^31)."),
'G01': ("CfgText.tla, Cfg.tla, MathVal.tla", "Parser specification of the configuration language to a tree of typed values (incl. enum/iota scopes, math, includes, nested file names); exhaustive over token sequences (28k texts) plus batteries: words, markers, matrices, nesting, pairs of values, texts, includes, numbers.", "See section 4."),
'G02': ("Cfg.tla", "Path resolution, typed reads/writes with and without conversion, two configs; invariant `PathLaws`.", "Empty path components."),
'G03': ("Cfg.tla, CfgText.tla", "Render → parse of the specification and of the code must give the tree back; files over previous contents, files of which only so many bytes can be written (`buildlim`), files that cannot be opened.", "Trees containing generator markers or non-finite numbers."),
'P01': ("Plugin.tla", "Handles, paths, library versions and times; load/reload/changed/clear with callbacks recorded; real shared objects built by the driver's preparation, swapped, removed, broken; allocation and dlopen failures.", "Clearing a handle without library may call the callback; a failing reload may note the time."),
'P02': ("Walk.tla", "Directory tree as state (files, directories, links, hidden, unreadable, vanishing); exact set of reports, nothing leaked, always ends.", "What lies behind directory links (each path at most once), paths ≥4080 bytes, dangling links; with failing requests only a subset is required."),
'U01': ("IntHelp.tla, Word.tla", "Exact integer logarithms etc. on 64-bit words; exhaustive to 1100 and all 2^k±1, 10^k±1; the SDBM hash of texts and words exactly.", "Binary digits of 0, next power beyond the word, overflow of align."),
'U02': ("Buffers.tla", "Up to six parallel buffers (any one of which cannot be had), shifting, switch, duplication, printf buffers, file loads from any stream position.", "-"),
'R01': ("Random.tla, Word.tla", "MT19937 recurrence and tempering from any state (any word, any index), seeding by LCG; doubles by their exact numerator.", "-"),
'F01': ("all container and allocator specifications", "For every container, string and allocator: the k-th request of a call fails (every k up to the number the call makes); the call must report failure and the whole projected state stays what it was, blocks balance.", "On failure, room may already have grown."),
'F02': ("Own.tla", "15 kinds of objects (plugins too, an open library counting as a block), heap- and stack-made; built up, released, released again; live blocks 0 and pointer NULL after release; parents release children.", "Tree insert_node leaves the caller's reference; allocators' clear frees the buffer."),
}
