#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("A01", "Region allocator: blocks in bounds, disjoint, aligned, zeroed; exact exhaustion",
  "Every block a region allocator hands out lies wholly inside its backing memory, overlaps no block handed out earlier, is zero-filled and starts at the promised 8-byte alignment; contents written to one block are never changed by later allocations. A request is refused (null) exactly when it is for zero bytes or does not fit in what the allocator reports as remaining, and a refused request changes nothing. Reported remaining space falls by the size handed out, rounded up to the alignment, and never wraps.",
  ["inputs", "histories"], "all buffer sizes and all sequences of allocation requests, including sizes near the limits of the size type",
  "The tests make a handful of fixed-size requests that all fit; no test asks for zero, an exactly fitting, or an enormous size, nor checks overlap between every pair.",
  ["allocators/region/region.c", "harbol_common_includes.h"], [("bump pointer from the high end", "region.c harbol_region_alloc"), ("size rounding", "harbol_align_size")],
  ["return of each allocation", "harbol_region_remaining", "block contents"], [("offs", "bytes still free", "struct HarbolRegion")])
p("A02", "Two-ended stack: front and back blocks never collide; exhaustion exact",
  "Blocks taken from either end of a two-ended stack allocator lie inside the backing memory, are aligned, and never overlap any block taken from the same or the opposite end since the last reset of that end; live contents are never disturbed. A request is refused exactly when the rounded size does not fit between the two ends, and a refusal changes nothing. The reported margin equals the space between the ends, resetting an end gives back exactly its share, and resizing makes the whole new space available again, giving up every earlier block.",
  ["inputs", "histories"], "all sizes and all interleavings of front/back allocation, resets and resizes",
  "The tests allocate a few nodes from each end that always fit; none drives the two ends into each other or asks for more than the whole stack.",
  ["allocators/bistack/bistack.c"], [("front/back pointers", "bistack.c harbol_bistack_alloc_front/alloc_back"), ("margin", "harbol_bistack_get_margins/resize")],
  ["return of each call", "margin queries", "block contents"], [("front, back", "two bump pointers", "struct HarbolBistack")])
p("A03", "Object pool: a cell has one owner at a time, is reused after free",
  "An object pool never hands the same cell to two live owners: every live cell is in bounds, cell-aligned, distinct and zero-filled when handed out, and the count of free cells plus live cells is constant. A pool with a free cell never refuses and a pool without one always refuses; freed cells become available again in any order of frees. A pointer that is outside the pool or not at a cell boundary is rejected and changes nothing.",
  ["inputs", "histories"], "all pool sizes, object sizes and interleavings of allocate/free, including frees of pointers not owned by the pool",
  "The tests allocate a few objects, free them in one order and never exhaust the pool, free at its edges, or check distinctness of live cells after churn.",
  ["allocators/objpool/objpool.c"], [("index free list threaded through free cells", "objpool.c harbol_objpool_alloc/free"), ("ownership check", "harbol_objpool_free")],
  ["returns", "contents of live cells", "remaining-cell count"], [("freeblocks, next", "free-list", "struct HarbolObjPool")])
p("A04", "Memory pool: live blocks disjoint, in bounds, zeroed, preserved, reusable",
  "A variable-size memory pool never hands out memory overlapping a live block or lying outside its buffer, fresh blocks are zero-filled, and the contents of a live block survive every later allocate, resize and free until it is freed itself. Resizing a block preserves the common prefix of its contents; foreign or null pointers are rejected without effect. Freed memory is neither lost nor handed out twice: a free followed by a request of the same size succeeds, blocks freed in reverse order leave their whole space for one request, adjacent equal blocks freed inside the heap merge into one usable piece, and the reported remaining space accounts for every live block.",
  ["inputs", "histories"], "all buffer sizes and all interleavings of allocate, resize and free with mixed sizes",
  "The module's own test does not even pass at the pinned commit; it frees a few blocks in one fixed order and checks nothing about overlap after coalescing or bucket reuse.",
  ["allocators/mempool/mempool.c", "allocators/mempool/mempool.h"], [("bucketed and sorted free lists with coalescing", "mempool.c free-list helpers"), ("header word before every block", "harbol_mempool_alloc/free/realloc")],
  ["returns", "contents of live blocks"], [("buckets, large, stack", "free lists and the unallocated remainder", "struct HarbolMemPool")])

p("C01", "Array: behaves as a bounded sequence of fixed-size items",
  "An array is observably a sequence: reads by index, first-match search, counting, insertion, removal by index, by range and by value, reversal, fill, copy and concatenation give exactly the sequence result, and untouched items keep value and order. An operation that cannot apply (index past the end, no spare capacity, empty array, released array) reports failure and changes nothing. Growing, shrinking or resizing never changes the items that still fit, and length never exceeds capacity.",
  ["inputs", "histories"], "all item sizes, all operation sequences and all index/amount arguments including the extreme ones",
  "The tests run one short fixed sequence on a few floats and print the result; boundary indices, ranges reaching past the end, shrinking below the length and released arrays are never tried.",
  ["array/array.c", "harbol_common_includes.h"], [("length/capacity guards", "array.c each operation"), ("memmove-based shifting", "array_shift_up")],
  ["return values", "items by index", "length and capacity"], [("table,len,cap", "items", "struct HarbolArray")])
p("C02", "Byte buffer: an append-only byte string with exact contents",
  "A byte buffer holds exactly the concatenation, in order, of the bytes given to it: fixed-width numbers in native representation, text with its terminator, raw objects, zero runs, whole files and other buffers (itself included). Removing a range deletes exactly those bytes, copying makes the contents equal to the source, and writing to a file then reading it back reproduces the bytes. A refused operation reports failure and leaves the bytes unchanged.",
  ["inputs", "histories"], "all sequences of insertions, removals, copies and file transfers with any data and sizes, zero included",
  "The tests append a few values and print bytes; empty sources, zero-length inserts, self-append and removal edges are not exercised.",
  ["bytebuffer/bytebuffer.c", "harbol_common_includes.h"], [("grow then append", "bytebuffer.c HARBOL_BYTEBUFFER_INSERTION and _harbol_buffer_resize"), ("range removal", "array_shift_up")],
  ["return values", "buffer bytes and length"], [("table,len,cap", "bytes", "struct HarbolByteBuf")])
p("C03", "Deque: double-ended sequence with consistent traversal in both directions",
  "A deque is observably a double-ended sequence: items come out of either end in the order implied by the insertions, values are copies independent of the caller's memory, and the reported count is the number of items. Walking forward from the head and backward from the tail visits exactly the same items in opposite orders, handles give their item until it is removed and nothing afterwards, and growth never loses or reorders items. Popping or peeking an empty deque reports absence, and a reset deque is indistinguishable from a new one.",
  ["inputs", "histories"], "all interleavings of prepend/append/pop at both ends, resets and growth, with any item sizes",
  "The tests fill and drain in one order; draining to empty and refilling from the other end, growth with recycled nodes and reset-then-use are never combined.",
  ["deque/deque.c", "harbol_common_includes.h"], [("index-linked nodes with free list", "deque.c _harbol_deque_alloc_node/_free_node"), ("growth", "_harbol_deque_resize")],
  ["return values", "forward and backward walks", "count"], [("nexts, prevs, datum, head, tail, freed", "node arrays", "struct HarbolDeque")])
p("C04", "Map: every key is found exactly while present, whatever the hashing",
  "A map is observably a dictionary: after any history, looking up a key finds its latest value exactly when the key was inserted or set and not removed since, inserting an existing key is refused without effect, and setting replaces the value (or inserts). Results never depend on the hash seed, on collisions, on capacity or on rehashing. Searching by value finds the first entry whose value has exactly those bytes, and a failed operation changes nothing.",
  ["inputs", "histories", "configurations"], "all histories of insert/set/remove/lookup/rehash over colliding keys, every hash seed and every power-of-two initial size",
  "Tests insert a few distinct keys with a time-dependent seed, so collisions, wrap-around probing and removal from a probe chain happen only by luck.",
  ["map/map.c", "harbol_common_includes.h"], [("open addressing over an entry index", "map.c harbol_map_get_entry_index/_harbol_map_insert_entry"), ("hashing", "array_hash")],
  ["return values of lookups", "entries by index"], [("buckets, hashes, keys, datum", "index and entries", "struct HarbolMap")])
p("C05", "Map: entries keep insertion order and contiguous positions",
  "A map's entries occupy positions 0..n-1 in insertion order: setting an existing key keeps its position, removing an entry (by key or position) shifts later ones down by one and keeps their relative order, and growth or rehashing keeps positions. The position reported for a key, the value read at that position and the value read by key always agree. Positions at or beyond n are reported absent and cannot be written or removed.",
  ["inputs", "histories", "configurations"], "all histories mixing removal by key/position with lookups, growth and re-insertion, for every hash seed",
  "The tests never look up remaining keys by both key and position after a removal in the middle.",
  ["map/map.c"], [("parallel entry arrays shifted on removal", "map.c harbol_map_idx_rm"), ("bucket renumbering", "map.c harbol_map_idx_rm/rehash")],
  ["position of key", "value at position", "value by key"], [("keys, datum, keylens, datalens", "entries in order", "struct HarbolMap")])
p("C06", "Tree: ordered children; exact insertion, lookup, replacement, removal",
  "A tree node owns an ordered list of children: inserting appends, lookup by index returns that child, lookup and removal by value act on the first child whose stored bytes equal the whole given value, and removal by reference or index removes exactly that child's subtree while keeping the order of the rest. Stored values are private copies that read back unchanged until replaced, also when replaced by a larger or smaller value. Removing what is not there reports failure and changes nothing.",
  ["inputs", "histories"], "all tree shapes, value sizes and interleavings of insert, set, lookup and remove at any node",
  "The tests build one small tree with equal-size values and remove by one path only.",
  ["tree/tree.c"], [("child vector of owned nodes", "tree.c harbol_tree_insert_*/rm_*"), ("value copy", "harbol_tree_set")],
  ["child list of every node", "node values", "return values"], [("kids, data, len", "children and value", "struct HarbolTree")])
p("C07", "Tuple: struct or packed field layout, independent fields",
  "A tuple built from a list of field sizes lays the fields out in order without overlap, inside the tuple's memory, each at its natural alignment when unpacked and back to back when packed, and reports whether it is packed. Reading, writing or obtaining a field touches exactly that field's bytes; reported field sizes are the given ones and converting to a struct copies the whole layout. Fields that do not exist are reported absent and cannot be read or written.",
  ["inputs", "histories", "configurations"], "all lists of field sizes (natural scalar sizes), packed and unpacked, and all sequences of field reads and writes",
  "The tests build two fixed tuples and print them; other field orders, padding positions and the packed flag are unchecked.",
  ["tuple/tuple.c"], [("offset computation with padding", "tuple.c harbol_tuple_init"), ("encoded field descriptors", "tuple.c field getters")],
  ["field addresses, sizes, bytes", "packed flag", "struct copy"], [("fields, datum", "layout and storage", "struct HarbolTuple")])
p("C08", "Variant: stores a private copy of a value and its type tag",
  "A variant holds a private copy of the last value stored in it together with the type tag it was given; reading it back yields exactly those bytes, size and tag. Clearing or freeing empties it, and a value stored by one variant is never affected by changes to the source or to another variant.",
  ["inputs", "histories"], "all value sizes and sequences of make, set, get, clear",
  "The test stores a few scalars once; replacing by values of another size and use after clear are not exercised.",
  ["variant/variant.c"], [("copy on store", "variant.c harbol_variant_set/init")], ["value bytes, size, tag"], [("data,len,tag", "stored value", "struct HarbolVariant")])
p("C09", "Intrusive links: list operations keep the chain well formed",
  "Inserting a node at the head, tail or after another node of an intrusive singly or doubly linked list yields exactly the expected order, with the tail reference naming the last node and, for doubly linked lists, backward traversal the exact reverse of forward traversal. Removing a node from a doubly linked list unlinks only that node. No operation creates a cycle or drops another node.",
  ["inputs", "histories"], "all interleavings of head/tail/after insertion and removal over any number of nodes, nodes being reused after removal",
  "No test touches the linking helpers at all.",
  ["harbol_common_includes.h"], [("link helpers", "harbol_link_*, harbol_bilink_*")], ["forward and backward traversals", "head and tail references"], [("a,b", "next/prev", "struct HarbolLink/HarbolBiLink")])

p("S01", "String: editing operations produce exactly the edited text",
  "After any sequence of edits a string's text equals what the same edits do to an abstract character sequence: assignment, append, replacement of ranges, characters or substrings (all or the first k occurrences), removal of characters or whitespace, case change, reversal and formatted assignment or append. The reported length is always the number of characters before the terminator, the terminator is always present, and an edit that is refused leaves the text unchanged.",
  ["inputs", "histories"], "all texts, needles, replacements (longer, shorter, empty), positions and edit sequences",
  "The tests apply each edit once to one fixed text; needles at the edges, limits on the number of replacements, shrinking and growing replacements and repeated edits are not covered.",
  ["str/str.c", "str/str.h"], [("resize then memmove/memcpy", "str.c each edit"), ("length bookkeeping", "struct HarbolString.len")],
  ["text and length after each call", "return values"], [("cstr,len", "text", "struct HarbolString")])
p("S02", "String: searches and comparisons agree with the text",
  "Counting and locating occurrences of a character or substring, equality and ordering comparisons, emptiness and palindrome tests always agree with the abstract character sequence, and none of them changes it. Ordering comparisons of strings that hold text are antisymmetric and consistent with equality.",
  ["inputs", "histories"], "all texts and needles, overlapping and edge occurrences included",
  "Tests query one fixed text with one needle each.",
  ["str/str.c"], [("scan loops", "str.c count/offsets/cmp functions")], ["return values and offset lists"], [("cstr,len", "text", "struct HarbolString")])
p("S03", "String: file reading and scanning transfer text exactly",
  "Reading a file into a string, whatever the string held before, makes its text exactly the file's contents with the right length and a terminator; copying and duplicating between strings yields independent equal texts; formatted assignment and append yield exactly the formatted text of any length. Failure (a missing, empty, unreadable file or a directory, nothing to read) is reported and leaves the text unchanged.",
  ["inputs", "histories", "fault_sequences"], "all previous contents, file sizes and formatted lengths",
  "The tests read one file into a fresh string and format short texts.",
  ["str/str.c"], [("file reading", "str.c harbol_string_read_from_file"), ("two-pass formatting", "str.c harbol_string_format/add_format")],
  ["text, length, return value"], [("cstr,len", "text", "struct HarbolString")])

p("L01", "Lexer: UTF-8 encoding and decoding are exact inverses; malformed is rejected",
  "Encoding any Unicode scalar value produces its standard UTF-8 byte sequence and decoding that sequence yields the value and its byte length back. Malformed sequences (stray continuation bytes, bad lead bytes, truncated sequences) are never decoded as a scalar, and measuring text in runes never reads beyond the terminating zero. The predicates on characters and runes accept exactly the characters they name: digits of each base, whitespace, letters, and the code points C allows a universal character name to denote.",
  ["inputs"], "all scalar values and all byte strings up to the explored length over representative byte classes",
  "The tests decode one fixed string.",
  ["lex/lex.c"], [("rune conversion", "lex.c rune/utf8 functions")], ["decoded values, lengths"])
p("L02", "Lexer: skipping whitespace and comments stops exactly at the right place",
  "Skipping whitespace, delimited regions, quoted literals, single-line and multi-line comments leaves the cursor exactly where the construct ends, advances the line counter by exactly the line breaks passed, and reports an unterminated construct as a failure. The cursor never moves beyond the terminating zero and the collected text is exactly the text passed over.",
  ["inputs"], "all texts, including unterminated constructs, escapes before line breaks and escapes at the very end",
  "Tests lex a few well-formed snippets.",
  ["lex/lex.c"], [("cursor-advancing scanners", "lex.c skip_*/lex_*_comment")], ["cursor offset, line number, collected text, result"])
p("L03", "Lexer: string and rune literals decode to exactly the denoted bytes",
  "Lexing a C- or Go-style quoted literal yields its characters with every escape replaced by the code point it denotes (encoded as UTF-8), leaves the cursor just past the closing quote, and reports unterminated or malformed literals and escapes denoting no code point as errors. The cursor never passes the end of the text.",
  ["inputs"], "all literals over the escape alphabet up to the explored length, terminated or not",
  "Tests lex a few well-formed literals.",
  ["lex/lex.c"], [("escape decoding", "lex.c lex_*_escape_char and _lex_str")], ["decoded text, cursor, result"])
p("L04", "Lexer: number literals are delimited exactly by the C and Go grammars",
  "Lexing a C- or Go-style number literal consumes exactly the longest prefix the grammar allows, keeps the consumed text verbatim, classifies it as integer or floating, and reports the documented error, stopping at the offending character, for an invalid literal (bad digit, misplaced separator, missing digits, bad suffix). Identifiers are consumed exactly while identifier characters last.",
  ["inputs"], "all strings over the number alphabet up to the explored length, followed by anything",
  "Tests lex a dozen well-formed numbers.",
  ["lex/lex.c"], [("number state machines", "lex.c lex_c_style_*/lex_go_style_*")], ["lexeme, cursor, classification, error code"])
p("L05", "Lexer: integer conversion of lexed numbers is exact in every base",
  "Converting a decimal, octal, hexadecimal or binary literal (C or Go prefix style) yields exactly the denoted 64-bit integer, and converting an integer's digits in any base from 2 to 36 yields exactly its value, for every numeral in range.",
  ["inputs"], "all literals up to 64-bit range in every prefix style",
  "Tests convert a few constants.",
  ["lex/lex.c"], [("prefix detection and digit accumulation", "lex.c lex_*_string_to_int, convert_*")], ["converted value"])
p("M01", "Math parser: an expression evaluates according to the documented grammar",
  "Evaluating an expression gives exactly the value defined by the documented grammar: precedence, left associativity, unary signs (plus taking the absolute value), grouping by either bracket, and juxtaposed functions and variables as supplied by the caller, each asked for once, by its whole name, in order of appearance. Where a factor is called for and there is none (nothing there, a malformed number, an unknown name, an unclosed bracket) the value of that factor is the documented error value and never some number; an expression that is such a factor evaluates to it. The parser stops within the text, whatever the text, and evaluating twice gives the same result.",
  ["inputs"], "all expressions up to the explored size over numbers, variables, functions, operators and brackets, well-formed or not",
  "Tests evaluate a few fixed well-formed expressions.",
  ["math/math_parser.c"], [("recursive descent", "math_parser.c parse functions")], ["value or error", "variable callback arguments"])
p("D01", "Diagnostics: rendered source excerpts show the right lines and labels",
  "A source holds exactly the lines of its text; a rendered diagnostic names the right position and shows, for every label, the source line it spans with the marker under exactly the spanned columns, in the given order, with notes after them. Merging spans gives the smallest span containing both, and each reported message counts once toward its tally.",
  ["inputs", "histories"], "all source texts (with or without a final line break, blank lines) and all in-range spans and label sequences",
  "The test prints one diagnostic and checks nothing of it.",
  ["msg_span/msg_span.c", "msg_span/msg_span.h"], [("line table", "msg_span.c source construction"), ("rendering", "msg_span.c emit")], ["output text", "line lookup", "counts"])
p("D02", "Messages: each message is printed once in the documented form and counted once",
  "Writing a message prints one line with file, line, column when given, message type and the formatted text in the documented form, and increments exactly the supplied counter by one (or nothing if none is supplied). Successive messages never interleave or drop text of any length.",
  ["inputs", "histories"], "all combinations of present/absent location parts, message types and formatted texts",
  "The test prints a few messages for a human to read.",
  ["msg_sys/msg_sys.c"], [("formatting", "msg_sys.c harbol_write_msg")], ["output bytes", "counter"])

p("G01", "Config parser: text denotes exactly one tree of typed values",
  "Parsing a configuration text yields exactly the tree of keys and typed values (null, booleans, integers, floats, strings with escapes, colours, vectors, nested sections, generated enumeration and iota values, included files) that the text denotes, with keys in textual order, comments and whitespace having no effect. Duplicate or malformed entries never corrupt entries before them, and no text, however malformed, makes the parser crash, hang or read outside the text.",
  ["inputs"], "all configuration texts up to the explored size over the format's alphabet, well-formed and malformed",
  "Tests parse one or two fixed well-formed files.",
  ["cfg/cfg.c"], [("recursive-descent parser", "cfg.c harbol_cfg_parse_*")], ["resulting tree"], [("HarbolMap of HarbolVariant", "tree", "cfg.c")])
p("G02", "Config access: a dotted path reaches exactly the entry it names, with its type",
  "A dotted path (with escaped dots) reaches exactly the entry obtained by descending one section per component, and nothing else; a typed read yields the stored value exactly when the entry exists with that type and reports failure otherwise. Typed writes change exactly the addressed entry, convert its type only when asked to, and never disturb other entries.",
  ["inputs", "histories"], "all trees (repeated names at different depths, escaped dots) and all sequences of reads and writes along existing and missing paths",
  "Tests read a few distinct paths once and never reuse a name at two depths.",
  ["cfg/cfg.c"], [("path walk", "cfg.c _get_var and typed getters/setters")], ["read results", "tree after writes"])
p("G03", "Config round trip: writing a tree and parsing it again gives the same tree",
  "Rendering a configuration tree to text, or building a file from it, and parsing the result yields a tree with the same keys in the same order, the same types and the same values; building reports success only for a file that was opened and written completely.",
  ["inputs", "histories"], "all trees reachable by parsing or by typed writes",
  "Tests write a file out but never compare it after re-reading.",
  ["cfg/cfg.c"], [("renderer", "cfg.c harbol_cfg_to_str/build_file")], ["re-parsed tree"])

p("P01", "Plugin handles: callbacks, errors and change detection follow their history",
  "Loading a library opens it, notes its path and modification time and calls the load callback exactly once with the handle, the user's data and reloading false; a library that is missing or broken, or whose path cannot be looked up or stored, is refused with the matching error, no callback is called and nothing stays open or allocated. Reloading calls the unload callback once while the old code is still there, then opens the file as it is now and calls the load callback once; if the file is unusable the handle has no library but keeps its path and can be reloaded later. A change of the file after the code in use was read, even one made while it was being opened, is reported by exactly one change query. Objects are looked up in the library in use only, clearing calls the unload callback once, closes the library and empties the handle, and a successful call leaves no stale error.",
  ["histories", "fault_sequences", "schedules"], "all sequences of load, reload, change query, lookup and clear on several handles, with library files installed, broken, replaced, touched and removed at any point, also during a call, and allocation failure",
  "The test loads one healthy plugin once and prints.",
  ["plugins/plugins.c", "plugins/plugins.h"], [("handle", "plugins.c harbol_plugin_load/reload/changed/get_obj/clear")], ["callback log", "handle fields", "open libraries", "live heap blocks"])
p("P02", "Plugin directories: every matching file is reported once and the walk ends",
  "Walking a directory reports every file below it whose extension matches (the platform's library extension by default), except below hidden directories, exactly once with its full path, its name and the user's data, and nothing else. It ends and releases everything it opened whatever the tree contains: links leading nowhere or in circles, names and paths of any length, special files, deep nesting, files vanishing during the walk; a directory that cannot be opened is reported as failure.",
  ["inputs", "histories"], "all directory trees with links, hidden entries, special files and long paths; all extensions and starting directories",
  "No test walks a directory.",
  ["plugins/plugins.c", "plugins/tinydir.h"], [("directory walk", "plugins.c _dir_open"), ("entry classification", "tinydir.h tinydir_readfile")], ["reported paths", "open descriptors", "termination"])
p("U01", "Integer helpers: logarithms, digit counts, powers and alignment are exact",
  "For every unsigned word the integer logarithms (base 2, base 10 and any generated base), digit and character counts, next power of two, alignment, padding and bounds helpers return the mathematically exact result. The hash helpers compute the documented SDBM recurrence over every byte of the text, buffer, integer or floating value, from the given seed.",
  ["inputs", "configurations"], "all machine words (dense around every power) and all bases from 3 up",
  "No test exercises these helpers outside a few prints.",
  ["harbol_common_includes.h"], [("table-driven logarithm", "int_log10, int_log, make_int_log_tables"), ("bit tricks", "bitwise_ceil, harbol_align_size")], ["returned values"])
p("U02", "Raw buffer helpers: shifting, duplication, switching and file loading are exact",
  "Shifting one or several parallel buffers removes exactly the requested items from each, zero-fills what is vacated and reports a start outside the data as a failure without effect; duplicating data or formatting text yields an exact copy; string switching returns the first equal alternative; loading a file yields exactly its bytes and size.",
  ["inputs"], "all lengths, positions, amounts (the extreme ones included) and contents",
  "No test calls these helpers directly.",
  ["harbol_common_includes.h"], [("memmove shifting", "array_shift_up, multi_array_shift_up"), ("copy helpers", "dup_data, dup_cstr, sprintf_alloc, cstr_switch")], ["buffer bytes", "returned values"])
p("R01", "Random generator: the Mersenne Twister sequence for every seed",
  "For every seed the generator yields exactly the outputs of the MT19937 recurrence and tempering, 32 bits at a time, from the state its documented seeding (the linear congruence with multiplier 6069, modulo 2^32) produces, or from any words the caller stores as its state, across any number of state refills; an index beyond the state stands for a generator never seeded and means the default seed 4357; its floating outputs are that sequence divided by 2^32-1, within the closed unit interval. Two generators never influence each other, and a copied generator continues like the original.",
  ["inputs", "histories"], "all seeds and draw counts beyond several state refills",
  "No test exists for the generator.",
  ["mtwister/mtwister.h"], [("state refill and tempering", "mtwister.h")], ["drawn values"])
p("F01", "Allocation failure: reported, object unchanged and still usable",
  "When any single memory request inside an operation on a container, string, tuple, tree, variant or pool fails, the operation reports failure, the object still has exactly its previous contents and stays fully usable, and nothing is leaked or freed twice when it is later released.",
  ["fault_sequences", "histories"], "every allocation inside every operation failing in turn, after any history",
  "Tests never make an allocation fail.",
  ["harbol_common_includes.h", "array/array.c", "bytebuffer/bytebuffer.c", "deque/deque.c", "map/map.c", "tree/tree.c", "tuple/tuple.c", "variant/variant.c", "str/str.c", "allocators/bistack/bistack.c", "allocators/objpool/objpool.c", "allocators/mempool/mempool.c", "allocators/region/region.c"],
  [("null checks with roll-back", "each module"), ("multi-buffer reallocation", "harbol_multi_recalloc")], ["return value", "contents afterwards", "live heap blocks"])
p("F02", "Ownership: releasing returns every block exactly once",
  "Releasing an object returns every memory block obtained for it exactly once, whatever history preceded, and no operation leaks a block it replaces or leaves a file or a library open that it opened; an object that could not be made leaves nothing behind. A cleared object is empty, releasing it again is harmless, and pointer-taking releases null the caller's pointer.",
  ["histories"], "all operation histories followed by clear or free",
  "The memory checker only sees the few histories the test programs run.",
  ["array/array.c", "bytebuffer/bytebuffer.c", "deque/deque.c", "map/map.c", "tree/tree.c", "tuple/tuple.c", "variant/variant.c", "str/str.c", "cfg/cfg.c", "msg_span/msg_span.c", "plugins/plugins.c"],
  [("clear/free functions", "each module")], ["live heap blocks", "open files", "object state after release"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80 or print("LONG", x["id"], len(x["title"]))
