#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from config import CHECKS  # noqa: E402

H, I, F, C = "histories", "inputs", "fault_sequences", "configurations"
P = []


def p(cid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (cid, len(title))
    P.append(dict(id=cid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mech])))


# ------------------------------------------------------------------ data/buffer
p("C01", "A buffer behaves as a growable sequence of bytes",
  "Whatever sequence of appends, insertions (copying or raw), removals, clears, capacity changes, reservations, shrinks, swaps, in-place "
  "writes and acquisitions is applied to buffers, their size and every content byte equal those of a plain byte sequence treated the same "
  "way. Removal of more bytes than there are after the offset removes exactly up to the end, lowering the capacity below the size truncates "
  "to that capacity, and operations of zero bytes succeed and change nothing. Raw variants return a pointer to exactly the newly made room, "
  "and an acquired block holds exactly the content and its reported size and leaves the buffer empty.",
  [H, I], "all operation histories on two buffers, with block sizes from 0 to tens of kB, all offsets 0..size, any removal count up to SIZE_MAX",
  "test-buffer.c runs a dozen fixed calls on tiny contents; the interplay of growth, automatic shrinking on removal and memmove offsets depends on the history.",
  ["data/buffer.c", "data/buffer.h"], ["buffer_insert_raw", "buffer_insert", "buffer_remove", "buffer_realloc", "buffer_reserve", "buffer_shrink", "buffer_acquire", "buffer_swap"])
p("C02", "Buffer capacity: reservations honoured, growth amortised, memory given back",
  "After a successful reservation of n bytes, or setting a capacity of c bytes, inserting up to n bytes (up to c bytes in total) allocates "
  "nothing; n single-byte appends allocate only O(log n) times and memory held stays within a constant factor of the largest content. "
  "Shrinking leaves little slack, removing content from a buffer returns memory so that the held capacity stays within a constant factor of the remaining size, and a "
  "buffer emptied by removal holds no memory. A request whose total size cannot be represented fails and leaves the buffer unchanged.",
  [H, I], "all histories of appends, removals, reservations, capacity changes and shrinks, sizes to hundreds of kB, plus impossible sizes near SIZE_MAX",
  "The tests look at no capacity at all; amortisation and give-back are about the whole history and about sizes they never reach.",
  ["data/buffer.c"], ["buffer_good_alloc_size", "buffer_reserve", "buffer_shrink", "buffer_remove"])
p("C03", "A stack is last-in first-out for raw and typed items",
  "Popping or peeking n bytes, or an item of any of the provided types, returns exactly the bytes or value most recently pushed and not yet "
  "popped; peeking changes nothing and popping removes exactly those bytes. Size, emptiness, clear, swap, reservation and acquisition agree "
  "with the sequence of pushed bytes, for every value of every type.",
  [H, I], "all push/peek/pop histories mixing raw blocks and all nine types with arbitrary values on two stacks",
  "test-buffer.c pushes one value of a few types; mixed widths, extreme values and the shrink on pop need generated histories.",
  ["data/buffer.h", "data/buffer.c"], ["stack_push", "stack_peek", "stack_pop", "stack_pop_raw", "stack_push_int8..ptr"])
p("C04", "Each typed array behaves as a sequence of items of its type",
  "For every one of the nine item types, any history of insertions, appends, removals (single or n, raw or with value), reads and writes by "
  "index, size queries and acquisition gives the same items in the same order as a plain sequence of that type. Indexes and counts are in "
  "items of that very type, and every value of the type is stored and returned unchanged. Removing more items than there are removes up to "
  "the end, and adding a count of items whose size is not representable fails and changes nothing.",
  [H, I], "all histories for each of the nine array types, all indexes, item values over the full range of the type",
  "The tests use one or two of the nine copies of the code; a wrong width or type in any single one of about 150 wrappers passes them.",
  ["data/buffer.h"], ["array_*_insert", "array_*_insert_n_raw", "array_*_append", "array_*_remove_n", "array_*_acquire"])
p("C05", "A failed allocation leaves buffers, stacks and arrays unchanged",
  "When the memory allocator refuses a request at any point of any history, the operation which needed it reports failure and the size and content "
  "of the buffer, stack or array stay as they were before it; removals, shrinks and clears still take effect. No memory is lost, "
  "and the container keeps working once memory is available again.",
  [H, F], "all histories with one, several or all later allocations refused, at every position",
  "No test makes an allocation fail.", ["data/buffer.c", "data/buffer.h"], ["buffer_realloc", "buffer_remove", "buffer_insert_raw", "array_*_append"])
# ------------------------------------------------------------------ data/htable
p("C06", "A hash table is a map from keys to nodes",
  "After any history of insertions and removals, lookup of a key returns the very node inserted under that key, or NULL when there is none, and removal "
  "returns that node and takes it out, for any hash function including one with colliding or constant values. Inserting a key already present is refused and changes nothing, "
  "and the table is empty exactly when every inserted node was removed. Nodes inserted without the presence check are each found and removable, so that "
  "k such nodes with an equal key take exactly k removals.",
  [H, I], "all insert/remove/lookup histories over tables of up to thousands of nodes; any hash function, from uniform to constant",
  "test-htable.c inserts a few fixed keys with one hash; growth to further levels and their collisions depend on table size and hash values.",
  ["data/htable.c", "data/htable.h"], ["htable_insert", "htable_insert_unsafe", "htable_remove", "htable_lookup"])
p("C07", "Tearing a hash table down hands every node over once",
  "Cleaning a hash table calls the destructor exactly once for every node then in it and for no other node, even if the destructor frees or overwrites the node. It "
  "releases all internal memory and leaves an empty table which may be used again.",
  [H], "all histories preceding the clean-up, with and without destructor, followed by reuse and a second clean-up",
  "The tests clean up small tables that never grew a second level.", ["data/htable.c"], ["htable_fini"])
p("C08", "Hash table lookups stay cheap and memory proportional as it grows",
  "With a well-distributed hash, a lookup among n nodes calls the comparator on average only O(log n) times, and the table's internal memory "
  "stays proportional to the number of nodes plus a constant.",
  [H, I], "tables of up to tens of thousands of nodes in any insertion order, with removals, hits and misses, any seed of the hash",
  "Tests check results, never cost; a table that never uses further planes gives the same answers.", ["data/htable.c"], ["htable planes", "htable_insert_unsafe"])
p("C09", "A failed allocation leaves a hash table intact",
  "An insertion either succeeds fully or, when an allocation it needs is refused, reports failure and leaves the set of nodes, lookups and removals "
  "exactly as before. Afterwards the same insertion succeeds when memory is available, and nothing leaks or is released twice.",
  [H, F], "all insertion and removal histories with allocations refused at every position, single or lasting",
  "No test makes an allocation fail.", ["data/htable.c"], ["htable_insert_unsafe"])
# ------------------------------------------------------------------ data/rbtree
p("C10", "A red-black tree is an ordered map",
  "After any history of insertions and removals, lookup returns the very node inserted under an equal key or NULL, insertion of an equal "
  "key is refused and changes nothing, removal returns exactly the matching node and takes only it out, and walking from the first node yields exactly the remaining nodes in strictly ascending order, "
  "and from the last in descending order. Any comparator giving a consistent order by sign works, whatever magnitude it returns.",
  [H, I], "all insert/remove/lookup histories, ordered, random or clustered keys, up to thousands of nodes",
  "test-rbtree.c runs some fixed sequences; rebalancing cases in removal depend on the shape reached by the history.",
  ["data/rbtree.c", "data/rbtree.h"], ["rbtree_insert", "rbtree_remove", "rbtree_lookup", "rbtree fix-up after insert/remove"])
p("C11", "A red-black tree stays balanced",
  "After any history of insertions and removals the tree satisfies the red-black rules, so no lookup among n nodes compares more than 2*log2(n+1) "
  "keys and no insertion or removal more than twice that, plus a small constant.",
  [H, I], "all insertion and removal histories, sorted ones included, up to tens of thousands of nodes",
  "A tree out of balance still answers correctly; the tests verify the colouring only on their own fixed sequences.",
  ["data/rbtree.c"], ["rbtree_fix_after_insert", "rbtree_fix_after_remove", "rotations"])
p("C12", "Tree cursors move through the nodes in order",
  "From any position, moving a cursor to the next or previous node gives the true successor or predecessor, and at either end it gives NULL and leaves the "
  "cursor where it was; first, last and current agree. A lookup with a cursor positions it on the found node, and when nothing is found it returns NULL and the cursor designates no node.",
  [H, I], "all trees, all start positions and all walks of next/previous/first/last/lookup moves over them",
  "The tests iterate once forward and once backward over one tree.", ["data/rbtree.c"], ["rbtree_lookup_ex", "rbtree_head", "rbtree_tail", "rbtree_next", "rbtree_prev", "rbtree_current"])
p("C13", "Stepwise tree clean-up hands out every node exactly once",
  "Repeated clean-up steps return every node of the tree exactly once and then NULL, and a node is not touched any more after it was handed out, so it may be freed at once. The tree is then empty and usable again.",
  [H], "all trees reachable by insertion and removal, nodes freed as they are returned, reuse afterwards",
  "The tests clean one small tree.", ["data/rbtree.c"], ["rbtree_fini_step"])
# ------------------------------------------------------------------ data/list
p("C14", "A doubly linked list keeps its nodes in the order they were put",
  "After any history of appends, prepends, insertions before or after any node (or the end position) and removals of any node, head or tail, walking "
  "forward yields exactly the expected nodes in order and walking backward their reverse, both ending at the end position. Emptiness, head and tail agree, and the payload is recovered from a node.",
  [H], "all operation histories over two lists with nodes moving between them", "The tests check a few fixed sequences.",
  ["data/list.h"], ["list_insert_after", "list_insert_before", "list_append", "list_prepend", "list_remove", "list_remove_head", "list_remove_tail"])
p("C15", "A singly linked list keeps its nodes in the order they were put",
  "After any history of prepends, insertions after any node (or the end position, meaning the front) and removals of the head or of any node given its predecessor, walking the list yields exactly the expected "
  "nodes in order and ends at the end position. Emptiness and head agree, and the payload is recovered from a node.",
  [H], "all operation histories over two lists with nodes moving between them", "The tests check a few fixed sequences.",
  ["data/list.h"], ["slist_insert_after", "slist_prepend", "slist_remove", "slist_remove_head"])
p("C16", "A queue list keeps order and always knows its tail",
  "After any history of appends, prepends, insertions after any node and removals of the head or of any node given its predecessor, walking the list yields "
  "exactly the expected nodes in order and ends at the end position. Head, tail and emptiness always agree with that sequence, also after the last node was removed, and the payload is recovered from a node.",
  [H], "all operation histories over two lists with nodes moving between them", "The tests check a few fixed sequences; a stale tail shows only in the following append.",
  ["data/list.h"], ["qlist_append", "qlist_insert_after", "qlist_remove", "qlist_remove_head"])
# ------------------------------------------------------------------ data/value
V = ["data/value.c", "data/value.h"]
p("C17", "Scalar values return what they were given, converted as C would",
  "A null, boolean, integer or floating value reports its type and returns through its own getter exactly what it was initialised with. Through any other numeric "
  "getter it returns the value itself whenever the target type can represent it; an integer out of the target's range wraps as a C cast, floating results are the nearest, and a floating value is rounded to the nearest integer, halves away from zero.",
  [I], "all values of all eight scalar types through all getters, biased to limits, halves and neighbours of powers of two",
  "The tests try a handful of small numbers per type.", V, ["value_init_int32..double", "value_int32..double", "value_bool", "value_type"])
p("C18", "Type compatibility says exactly when a conversion loses nothing",
  "A value is compatible with its own type; a numeric value is compatible with an integer type exactly when it is a whole number within the range of that type, and with either floating type always. No other pair of types is "
  "compatible, and when a value is compatible with an integer type, that type's getter returns it exactly.",
  [I, C], "all values of all eleven types against all eleven types, biased to range limits and to fractions",
  "The tests try a few numbers around limits.", V, ["value_is_compatible"])
p("C19", "String values hold any bytes of any length, zero-terminated",
  "A string value created from any bytes of any length, zeros included, returns exactly those bytes, that length, and a zero terminator after them, from its own copy of the data. A NULL pointer gives the empty string whatever length is passed, "
  "and the plain-C variant equals the counted one with the length of the C string.",
  [I], "all lengths from 0 over every boundary of the representation to beyond 2^31, all byte contents", "The tests use a few short and medium strings; the representation changes with the length.",
  V, ["value_init_string_", "value_string", "value_string_length"])
p("C20", "Operations on a value of the wrong type fail cleanly",
  "Every getter or container operation applied to a value of a type it is not for returns its documented failure result (NULL, zero, -1 or an empty result) and changes nothing, neither the value nor its content. Getters of numbers give -1 (converted to their type) for all non-numeric types "
  "and none of them touches memory outside the value.",
  [I, C], "every operation against every value type, empty or populated", "The tests never call a container operation on another type.", V, ["value type checks at each entry point"])
p("C21", "An array value is a sequence of values",
  "Any history of appends, insertions, removals (single or range), cleans and nested content gives the same size and the same items in the same order as a plain sequence; a new item is null and marked new until initialised. "
  "Accesses, insertions and removals out of bounds fail and change nothing, and removing a range destroys exactly the items in it with all their content.",
  [H, I], "all histories on arrays of up to thousands of items, all indexes up to SIZE_MAX, nested containers", "The tests use arrays of a few items and mostly valid indexes.",
  V, ["value_array_append", "value_array_insert", "value_array_get", "value_array_remove_range", "value_array_clean"])
p("C22", "A dictionary value maps keys of any bytes to values",
  "After any history of adds, get-or-adds, removals and cleans, every key present returns its own value unchanged and every other key returns NULL, for keys of any bytes and length and for default or custom key order; the size equals the number of keys. "
  "Adding a present key fails and changes nothing, get-or-add returns the present value or a fresh null marked new, and removing an absent key fails.",
  [H, I, C], "all histories over dictionaries of up to thousands of keys, keys with zeros and shared prefixes, with and without custom comparator and order flag",
  "The tests use a few fixed C-string keys.", V, ["value_dict_add_", "value_dict_get_", "value_dict_get_or_add_", "value_dict_remove_", "value_dict_clean"])
p("C23", "Dictionary walks visit every item once, sorted or in insertion order",
  "A sorted walk visits each item exactly once in ascending key order with its own value and the caller's data, an ordered walk in the order the keys were added, and both stop at once when the callback returns non-zero and return that value. Key listings give the same sequences, "
  "truncated to the buffer's size without writing beyond it, and without the order flag the ordered variants refuse and give nothing. The default order compares bytes as unsigned and places a shorter key before its extensions.",
  [H, I, C], "all histories of adds and removals before a walk, both comparators, all flags, all buffer sizes and abort positions", "The tests walk one small dictionary.",
  V, ["value_dict_walk_sorted", "value_dict_walk_ordered", "value_dict_keys_sorted", "value_dict_keys_ordered", "value_dict_default_cmp"])
p("C24", "Dictionary operations stay logarithmic",
  "After any history of adds and removals, no lookup in a dictionary of n keys compares more than 2*log2(n+1) keys plus a small constant, and no add or removal more than twice that.",
  [H, I], "all insertion and removal histories, sorted ones included, up to tens of thousands of keys", "A degenerated tree still answers correctly, and the tests use a few keys.",
  V, ["value_dict_fix_after_insert", "value_dict_fix_after_remove"])
p("C25", "A path finds exactly the value its components lead to",
  "For every path of dictionary keys and bracketed indexes, lookup gives the very value reached by following the components one by one (the root for the empty path), and NULL as soon as one of them is absent, out of bounds or of the wrong container type. Negative indexes count from the end, a slash before a bracket is optional, and repeated slashes count as one. "
  "Lookup never changes anything.",
  [I], "all trees of nested arrays and dictionaries and all paths into them, valid or not, with indexes far out of range", "The tests resolve a few paths in one document.",
  V, ["value_path", "value_path_"])
p("C26", "Building a path creates exactly what is missing",
  "Building a path yields the value that a lookup of it would find, creating missing dictionary keys and, for [] only, a new last array item, and giving values still marked new the container type the next component needs; a created last value is null and marked new. "
  "Initialised values are never changed or replaced: when a component's container has another type or an index is out of bounds, NULL is returned, and at most the intermediate values created before stay.",
  [H, I], "all sequences of path builds over one growing document, mixed with initialisation of the results", "The tests build a few paths.",
  V, ["value_build_path"])
p("C27", "A value owns its content and releases all of it",
  "Finalising, cleaning or removing a value releases all memory of everything below it, exactly once and nothing else, and leaves a finalised value a plain null. What a value returns stays valid and unchanged until that container is modified, and a value keeps no reference to the caller's memory.",
  [H], "all histories building and tearing down nested arrays, dictionaries and strings", "The tests run without leak checking and free whole documents only.",
  V, ["value_fini", "value_array_clean", "value_dict_clean"])
p("C28", "A failed allocation leaves values intact",
  "When the allocator refuses a request at any point of any value operation, the operation reports failure and every existing item keeps its content, order and position, so that all lookups and walks give what they gave before (a failed path build may leave the intermediate values it created); removals and cleans still take effect. Nothing leaks, and the same operation succeeds once memory is available.",
  [H, F], "all operation histories with allocations refused at every position", "No test makes an allocation fail.",
  V, ["value_init_string_", "value_init_array", "value_init_dict_ex", "value_array_insert", "value_dict_get_or_add_", "value_build_path"])
# ------------------------------------------------------------------ encode
p("C29", "Base64 encoding is the standard one and fits its announced size",
  "For every blob and dialect, encoding writes exactly the RFC 4648 text with the dialect's two last digits and padding (none when padding is disabled), returns its length, zero-terminates it when there is room, and never writes outside the given buffer; the size announced for a NULL buffer suffices for text and terminator. "
  "A buffer too small for the text, or a blob whose text length is not representable, is an error. Decoding the text with the same dialect gives back the blob.",
  [I, C], "all blobs, all output buffer sizes, all dialects, sizes up to UINT_MAX", "The tests encode about ten strings with roomy buffers.", ["encode/base64.c", "encode/base64.h"], ["base64_encode", "base64_decode"])
p("C30", "Base64 decoding accepts exactly well-formed text",
  "Text made of digits of the dialect, with correct padding or none at all, decodes to the bytes it stands for, with their count returned; any text with a foreign character, a padding character elsewhere, an impossible length, unused bits that are not zero, or more bytes than the result can count is an error. "
  "Nothing is written outside the given buffer, a too small buffer is an error, and the size announced for a NULL buffer suffices.",
  [I, C], "all texts over all 256 characters, valid texts mutated at one position, texts up to 4 GB, all buffer sizes and dialects", "The tests decode about ten valid strings.", ["encode/base64.c"], ["base64_decode"])
p("C31", "Hex encoding is exact and fits its announced size",
  "For every blob, encoding writes two digits per byte, high nibble first, in the requested case, returns their count, zero-terminates when there is room, and never writes outside the buffer; the size announced for a NULL buffer is twice the blob plus one. A buffer too small for the digits, or an unrepresentable length, gives -1.",
  [I], "all blobs, buffer sizes and both cases, sizes up to UINT_MAX", "The tests encode a few strings.", ["encode/hex.c", "encode/hex.h"], ["hex_encode"])
p("C32", "Hex decoding accepts exactly an even count of hex digits",
  "An even number of hexadecimal digits in any mix of cases decodes to the bytes they stand for, with their count returned and nothing written beyond it; decoding any encoded blob gives it back. Any other character anywhere, an odd length, or a too small buffer gives -1, and the size announced for a NULL buffer is half the length.",
  [I], "all texts over all 256 characters, valid texts mutated at one position, all buffer sizes", "The tests decode a few strings.", ["encode/hex.c"], ["hex_decode"])
# ------------------------------------------------------------------ hash
p("C33", "crc32 is the standard CRC-32 for every length",
  "For any data of any length, also above 2 GB, the result equals the bitwise definition of the reflected CRC-32 (polynomial 0x04C11DB7, initial value and final xor all ones). It depends only on the bytes given, not on their address or surroundings, and reads none outside.",
  [I], "all byte blocks, all lengths around unrolling boundaries, all alignments, one length above 2^31", "The tests compute a few short strings.", ["hash/crc32.c", "hash/crc32.h"], ["crc32", "lookup table"])
p("C34", "fnv1a is the standard hash and can be chained",
  "For any data of any length the 32-bit and 64-bit results equal the FNV-1a definition started from the given state, so hashing pieces one after another equals hashing them at once. An empty block returns the state, and no byte outside the block is read.",
  [I, H], "all states, byte blocks, splits and alignments, one length above 2^31", "The tests use the published vectors from the base state.", ["hash/fnv1a.c", "hash/fnv1a.h"], ["fnv1a_32", "fnv1a_64"])
# ------------------------------------------------------------------ mem
p("C35", "A malloca block is usable in full and released correctly",
  "For every size and threshold the macro gives a block whose every byte is usable, not shared with any other live block, or NULL when the memory cannot be had or the size is impossible. Releasing frees heap blocks exactly once and stack blocks not at all, NULL included, for any argument expression without side effects; blocks of the threshold or more come from the heap and much smaller ones from the stack.",
  [I, F], "all sizes around all thresholds, several blocks live at once, expressions as arguments, allocations refused", "The tests try a few sizes with the default threshold.", ["mem/malloca.h"], ["MALLOCA_", "MALLOCA", "FREEA"])
p("C36", "Chunk allocations are disjoint, writable and live until the end",
  "Every successful chunk allocation gives a block of the requested size within memory of the allocator, disjoint from all others, whose content stays unchanged by later allocations. Finishing releases all memory and the allocator can then be used again; the default block size applies when zero is given, and static and dynamic initialisation behave alike.",
  [H, I], "all allocation histories with any sizes, from zero to several blocks, and any block size", "The tests allocate a few blocks of fixed size.", ["mem/memchunk.c", "mem/memchunk.h"], ["memchunk_alloc", "memchunk_fini", "memchunk_init"])
p("C37", "Chunk allocation batches small requests and survives failure",
  "Small requests share larger blocks, so the number of system allocations for requests much smaller than the block size is a small fraction of their number and held memory stays within a constant factor of the requested one. When an allocation is refused or a size impossible, NULL is returned, all earlier allocations stay intact, and allocating works again later.",
  [H, F], "all allocation histories with refusals at any position, sizes up to SIZE_MAX", "The tests look at no counts and make no allocation fail.", ["mem/memchunk.c"], ["memchunk_alloc"])
# ------------------------------------------------------------------ misc
p("C38", "Ordinary command line options are read as documented",
  "For every option table without compiler-like options and every argument vector, the callback gets exactly the documented sequence of (id, argument) pairs: long options with '=' arguments by exact name, short options with attached or following arguments, groups of short options, a lone dash and everything after '--' as plain arguments. "
  "The read stays within the given strings and vector.",
  [I, C], "all option tables and argument vectors, built from mutations of the option names", "The tests run about ten command lines over one table.", ["misc/cmdline.c", "misc/cmdline.h"], ["cmdline_read", "cmdline_handle_short_opt_group"])
p("C39", "Compiler-like options match by prefix and take an argument",
  "An option flagged compiler-like matches every token of which its name is the exact prefix, taking the rest of the token or else the following token as argument, with or without a leading dash in its name, before or after ordinary options as listed in the table. Its short name is ignored, also inside groups of short options, and all other options keep working as documented.",
  [I, C], "all option tables mixing both kinds and all argument vectors", "The tests have one table with a few such options.", ["misc/cmdline.c"], ["cmdline_read"])
p("C40", "Command line errors are reported and the callback can abort",
  "Unknown options, missing arguments and unexpected arguments are each reported under their special id together with the offending token or option name. A non-zero result of any callback, whatever its kind, stops the reading at once and is returned, with no further callback; otherwise zero is returned.",
  [I, H], "all option tables, argument vectors and abort positions and values", "The tests abort never and see a few errors.", ["misc/cmdline.c"], ["cmdline_read", "cmdline_handle_short_opt_group"])
p("C41", "The utility macros compute what they say for any operands",
  "Minimum, maximum (of two and three), clamp and absolute value give the mathematical result for all operands of all integer and floating types and any expression without side effects as argument (except the magnitude of the most negative value). Array size, member offset, enclosing structure and stringizing give the true values for any type, member and pointer expression.",
  [I], "all operand values over several types, compound expressions, nested macros", "The tests evaluate a few constants.", ["misc/defs.h"], ["MIN", "MAX", "MIN3", "MAX3", "CLAMP", "ABS", "SIZEOF_ARRAY", "OFFSETOF", "CONTAINEROF", "STRINGIZE"])
# ------------------------------------------------------------------ win32
p("C42", "A memory stream reads and seeks as a read-only file",
  "Any history of reads and seeks over a stream gives the same bytes, counts, positions and result codes as a reference file of the same bytes: a read returns the bytes from the position up to the end, and succeeds fully or reports a short count; a seek from start, current position or end lands there, also beyond the end, where a read finds the end of the file. A seek to before the start, to 4 GB or more, or with an unknown origin fails and leaves the position.",
  [H, I], "all data sizes, read sizes up to the 32-bit maximum, and 64-bit seek offsets", "The tests need Windows and read a few bytes.", ["win32/memstream.c", "win32/memstream.h"], ["memstream_Read", "memstream_Seek"])
p("C43", "A memory stream copies, clones, counts references and refuses writes",
  "Copying to another stream writes exactly the bytes from the position up to the count or the end, reports both counts, advances by that much and passes on the target's failure; a clone has the same data and position and moves independently. The object lives until its last reference is released and is then freed, it offers exactly the interfaces it implements, all modifying operations are refused, "
  "failure to allocate is reported with no object, and a stream over a resource covers exactly that resource or fails.",
  [H, F], "all histories over several streams and clones, targets that fail or write short, refused allocations", "The tests need Windows and cover none of this.", ["win32/memstream.c"], ["memstream_CopyTo", "memstream_Clone", "memstream_QueryInterface", "memstream_Release", "memstream_create", "memstream_create_from_resource"])

# ------------------------------------------------------------------ across the modules
p("C44", "Objects of the library are independent of each other",
  "The library keeps no state of its own outside of the objects of the caller: whatever a buffer, array, table, tree, list, value, chunk allocator, stream, encoder, "
  "hash or command line reader returns depends only on the operations on that object. So any number of objects can be used in turn, from inside of each other's "
  "callbacks, and, as long as each object is used by one thread at a time, by several threads at once, with the same results as when each is used alone.",
  [H, "schedules"], "all sets of 2 to 10 objects of any kind with any scripts of operations, all orders of their steps, nesting in callbacks, and runs in 2 to 4 threads",
  "Each test uses one object at a time in one thread.",
  ["data/rbtree.c", "data/buffer.c", "data/htable.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"],
  ["rbtree_insert", "rbtree_fini_step", "cmdline_read", "base64_encode", "memchunk_alloc", "value_dict_walk_sorted"])
p("C45", "Every module stands alone, in C and C++, whatever the compiler settings",
  "Each module consists of its own header and source and needs nothing but the C library: a project that copies just the modules it uses into one directory builds. "
  "The headers can be included first, repeatedly, in any order and together, from any number of C (C99 and later) and C++ (C++98 and later) sources of one program, which then compiles "
  "and links; and every module gives the same results whichever of C and C++ it is called from and whatever compiler (gcc, clang), language version, optimisation "
  "level, signedness of char, NDEBUG, _FORTIFY_SOURCE or similar option the sources and the module are compiled with. The macros of defs.h with constant arguments can be used "
  "wherever the language wants a constant (array sizes, case labels, bit-field widths, initializers, and the arithmetic ones in #if).",
  ["configurations", "programs", I], "all subsets of the modules, orders of inclusion, mixes of C and C++ sources, language versions and settings per source, with random scripts of calls on each module",
  "All tests are C, one module each, built with one compiler and one set of options.",
  ["data/buffer.h", "data/htable.h", "data/list.h", "data/rbtree.h", "data/value.h", "data/value.c", "encode/base64.h", "encode/hex.h", "hash/crc32.h", "hash/fnv1a.h", "mem/malloca.h",
   "mem/memchunk.h", "misc/cmdline.h", "misc/defs.h"],
  ["extern C blocks", "include guards", "BUFFER_INLINE__", "LIST_INLINE__", "casts in inline functions", "MALLOCA_"])

p("C46", "Values take memory in proportion to what they hold, and ask for it rarely",
  "Null, boolean and numeric values and strings of up to 12 bytes are kept in the value itself: making them allocates nothing and so cannot fail. Longer strings take one block of their length plus a small constant. "
  "An array takes memory proportional to the number of its items, after removals too, with a number of allocations logarithmic in the number of appended (or removed) items, and adding and removing a few items in turn does not allocate each time. "
  "A dictionary item takes a constant plus the length of its key, in at most two blocks; looking items up, refused additions and removals allocate nothing, and everything removed is given back at once.",
  [H, I], "all histories on trees of values, arrays up to millions of items, dictionaries up to 200,000 items", "The tests look at results, not at memory.",
  V, ["value_init_ex", "value_array_good_alloc_size", "value_array_insert", "value_array_remove_range", "value_dict_get_or_add_", "value_dict_remove_"])
p("C47", "Reading never writes",
  "Lookups, getters, peeks, walks, listings, cursor steps, size and type queries, and encoding, decoding, hashing, parsing or streaming a given input never write into the object or the input they read, not even temporarily or what was there already (a cursor belongs to the reader). "
  "So objects can be read while they are in read-only memory, the same readings give the same results each time, even with no memory to be had, and any number of threads may read one object at once.",
  [H, "schedules"], "all objects built by random histories, all scripts of reading operations, memory which faults on writes, 2 or 3 threads", "The tests read in one thread from writable memory.",
  ["data/buffer.h", "data/htable.c", "data/rbtree.c", "data/list.h", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "misc/cmdline.c", "win32/memstream.c"],
  ["htable_lookup", "rbtree_lookup", "rbtree_next", "value_path", "value_dict_get_", "value_dict_walk_sorted", "stack_peek", "base64_decode", "cmdline_read"])

p("C48", "Callbacks may use the object they are called for",
  "While a walk through a dictionary, a lookup or the reading of a command line calls the user back (visitor, comparator, hash function, option callback), the callback may itself look things up in the same object, walk it in turn, or read a command line; "
  "the visitor of a dictionary may give the value it was passed (or any other value of the dictionary) new content, in place or anything beneath it; a node handed out by a clean-up may at once be freed or put into another container. "
  "The outer and the inner operation both give exactly what they give when nothing is nested.",
  [H], "all dictionaries, tables, trees and command lines built at random; nesting up to three levels, at any call, with early ends of inner and outer operation", "The callbacks of the tests only look at their arguments.",
  ["data/value.c", "data/htable.c", "data/rbtree.c", "misc/cmdline.c"],
  ["value_dict_walk_sorted", "value_dict_walk_ordered", "value_dict_get_", "htable_lookup", "htable_fini", "rbtree_lookup", "rbtree_fini_step", "cmdline_read"])

p("C49", "Operations cost what their kind allows",
  "Work grows with size no faster than the kind of object promises. Adding or removing at the end of a buffer, stack, array or array value, any operation of a list given its nodes, an operation of a hash table with a good hash function, a chunk allocation, an operation of a stream, and any query of a size, type, flag, item by index or string "
  "costs the same (amortised) whatever the size of the object; an operation of a tree or dictionary, and a walk or listing ended after a few items, grows with the logarithm. "
  "Filling, walking and tearing down an object of n items, encoding, decoding, hashing, and reading a command line cost in proportion to n (times a logarithm for trees and dictionaries); going up and down around any size does not thrash.",
  [H], "34 scenarios over all modules, key orders, item kinds and settings, sizes from 250 to 80 000 (sizes around the growth thresholds preferred)", "The tests use small objects and do not measure.",
  ["data/buffer.c", "data/buffer.h", "data/list.h", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "mem/malloca.h", "misc/cmdline.c", "win32/memstream.c"],
  ["buffer_append", "buffer_remove", "qlist_remove", "htable_insert", "htable_fini", "rbtree_fini_step", "rbtree_next", "value_array_append", "value_array_get", "value_dict_size", "value_string_length", "value_fini", "memchunk_alloc", "cmdline_read"])

p("C50", "Arguments may be parts of the object itself",
  "The key or text given to an operation may lie in the object itself or in another object of the library: a dictionary looks up, adds to and removes from itself by its own keys and by text of its own string values, even if the operation destroys that very text; a string is made of the text of another value; "
  "a node of a table or tree is looked up and removed by itself; what one buffer holds is put into another. The outcome is the same as with a copy kept elsewhere, and the part is not used any more once it is gone.",
  [H], "all histories of dictionaries, tables, trees and buffers in which arguments are taken out of the objects", "The tests pass literals and separate keys.",
  ["data/value.c", "data/htable.c", "data/rbtree.c", "data/buffer.c"],
  ["value_dict_remove_", "value_dict_get_or_add_", "value_dict_add_", "value_path", "value_init_string_", "htable_remove", "rbtree_remove", "buffer_insert"])

p("C51", "Results depend on nothing but the arguments",
  "What an operation returns and does is settled by the state of its object and the content of its arguments alone. It does not matter what fresh memory or the stack happens to contain, at which addresses objects, nodes, blocks, keys, texts, data and option tables lie, or what lay there before, what errno was, "
  "which locale the C library is set to, what the process did earlier or does in between with other objects; uninitialised memory is never used for a decision. "
  "In turn the library leaves the process alone: it prints nothing, reads neither environment nor clock nor files, draws no random numbers, touches no process-wide settings and never ends the process.",
  [H], "all histories on objects of every kind of the library, each run again with 1-9 of these surroundings changed at random", "The tests run once, in one environment, each call with literals at an address of its own.",
  ["data/buffer.c", "data/list.h", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "mem/malloca.h", "misc/cmdline.c", "win32/memstream.c"],
  ["value_path_ex", "value_dict_walk_sorted", "rbtree_insert", "htable_insert", "buffer_insert", "cmdline_read", "crc32", "fnv1a_32", "base64_decode", "hex_decode", "memchunk_alloc", "memstream_create"])

p("C52", "The modules give the same answers on a 32-bit system",
  "Every module builds for a 32-bit system and gives there, for every history of operations, the same answers, the same content and the same refusals as on a 64-bit one: 64-bit hashes, checksums and integer values, "
  "list indexes in paths and stream offsets keep all their bits; announced sizes and item counts whose bytes do not fit into the narrower size type are refused instead of wrapping around; "
  "sizes of gigabytes which are granted are really there; nothing is written outside of the blocks allocated, none leaks. Only what follows from the size of a pointer (bytes of a stack of pointers, which sizes are beyond the address space) may differ.",
  [H, I], "all histories on objects of every module, numbers of the whole 64-bit range, indexes, counts and sizes up to the highest the size type can express", "The tests are built and run on the 64-bit system only.",
  ["data/buffer.c", "data/buffer.h", "data/list.h", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "mem/malloca.h", "misc/cmdline.c", "misc/defs.h", "win32/memstream.c"],
  ["buffer_reserve", "buffer_insert_raw", "value_path_ex", "value_int64", "value_uint64", "fnv1a_64", "memchunk_alloc", "memstream_Seek", "memstream_CopyTo", "htable_insert", "rbtree_insert"])

p("C53", "Operations need little stack, whatever the size of the object",
  "No operation takes stack in proportion to the number of items, the length of a text or the size of a block: filling, walking, tearing down, growing and shrinking any object, encoding, decoding, hashing, reading a command line and copying a stream "
  "get along with a few kilobytes of stack for any number of items, so that they may be used on big objects, in threads with small stacks and deep in the call stack; MALLOCA takes blocks from the threshold up from the heap. (Values nested in values may take stack by the depth of nesting.)",
  [H], "34 scenarios over all modules, key orders, item kinds and settings, sizes from 250 to 80 000 (sizes around the growth thresholds preferred)", "The tests use small objects and a big stack.",
  ["data/buffer.c", "data/buffer.h", "data/list.h", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c", "mem/memchunk.c", "mem/malloca.h", "misc/cmdline.c", "win32/memstream.c"],
  ["htable_fini", "rbtree_fini_step", "value_dict_clean", "value_array_clean", "value_dict_walk_ordered", "value_dict_keys_ordered", "memchunk_fini", "base64_decode", "cmdline_read", "memstream_CopyTo", "MALLOCA"])

p("C54", "An emptied object is as good as a new one",
  "However an object was filled and then emptied - cleared, cleaned, its content acquired or swapped away, its items removed one by one or by ranges in any order, drained step by step, or finished and initialized again - it is empty, holds (nearly) no memory any more, "
  "and from there on every history of operations gives exactly the results a new object of the same settings gives, with about as many allocations and as much memory. What a dictionary was told when it was created (comparator, keeping of the order) stays in force when its content is cleaned; "
  "nothing of the former content, of nodes handed back, or of earlier cursors comes back.",
  [H], "buffers, typed arrays, stacks, hash tables, trees, all lists, dictionaries of all six settings, array values and chunks; histories of 0-300 operations, emptied 1-4 times in up to five ways each", "The tests use each object once.",
  ["data/buffer.c", "data/buffer.h", "data/list.h", "data/htable.c", "data/rbtree.c", "data/value.c", "mem/memchunk.c"],
  ["buffer_clear", "buffer_acquire", "buffer_remove", "array_uint32_remove_n", "stack_clear", "htable_fini", "htable_remove", "rbtree_fini_step", "qlist_remove", "value_dict_clean", "value_array_clean", "value_array_remove_range", "value_fini", "memchunk_fini"])

ASSUME = "generated-input search: nothing outside the explored cases is shown; 64-bit Linux with glibc"


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P:
            s = x["statement"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        if x["id"] in CHECKS:
            c = CHECKS[x["id"]]
            stages = ", ".join(s["name"] for s in c.get("stages", [dict(name="generated programs", build="")]))
            checks.append(dict(property=x["id"], quick_cmd="python3 check.py " + x["id"],
                               thorough_cmd="env VERIF_TIER=thorough python3 check.py " + x["id"], evidence_file="evidence/%s.json" % x["id"],
                               technique=c.get("technique", "property-based testing with shrinking against a reference model, plus coverage-guided fuzzing"
                                               if any(s["build"] == "fuzz" for s in c.get("stages", [])) else
                                               "property-based testing with shrinking against a reference model"),
                               level=c.get("level", "exploration"),
                               level_note=c.get("note", ASSUME) + "; stages: " + stages))
        else:
            na.append(dict(property=x["id"], reason="no check built yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks)
    if na:
        m["not_applicable"] = na
    else:
        m["not_applicable"] = []
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(P), len(checks)))


if __name__ == "__main__":
    main()
