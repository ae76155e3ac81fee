#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None))
W = ["32", "40", "48", "56", "64"]
sais = ["src/sais%sbit.cpp" % w for w in W]
ind = ["src/induce%sbit.cpp" % w for w in W]
props = [
P("C01", "The transform equals the Burrows-Wheeler transform for every input",
  "For every byte string of length n >= 1 (any byte values, including 0 and 255, followed in memory by a zero byte), the in-memory transform returns exactly the Burrows-Wheeler transform of the string extended by a virtual end marker smaller than every byte. The result has n+1 entries; the reported rank is the position of the whole string among its n+1 sorted suffixes, and every other entry i is the byte preceding the i-th smallest suffix.",
  ["inputs"], "all byte strings of length >= 1 over the full alphabet, all repetition structures and lengths",
  "One test checks one 15-byte string; the guarantee ranges over all strings, and errors hide in block boundaries, hash collisions, recursion levels, equal substrings and extreme byte values that no sample covers.",
  ["src/flbwt.cpp", "src/hashtable.cpp", "src/packed_array.cpp", "src/queue.cpp"] + sais + ind,
  [("substring decomposition, naming, suffix sorting and induction pipeline", "src/flbwt.cpp bwt_is"), ("public entry point", "src/flbwt.cpp bwt_string")],
  [("result", "rank of the end marker and n+1 output bytes", "include/induce32bit.hpp BWT_result")],
  ["flbwt::bwt_string"]),
P("C02", "The output file holds the 8-byte big-endian rank, then the n BWT bytes",
  "For every readable input file of n >= 1 bytes the file transform creates an output of exactly n+8 bytes: the 64-bit rank of the whole string most significant byte first, then the n bytes of the transform in order with the end-marker entry left out, whatever the rank is (first, last or in between). The previous content of the output file does not survive and the input file is not modified.",
  ["inputs"], "all file contents and all ranks in 1..n, including ranks above 2^32",
  "No test calls the file interface at all; byte order of the header and the cut around the end-marker entry depend on the value of the rank, which only takes small values in any affordable test.",
  ["src/flbwt.cpp", "examples/bwt.cpp"],
  [("read whole file, transform, write header and body", "src/flbwt.cpp bwt_file")],
  [("B->last / B->BWT", "rank and n+1 transform bytes", "src/flbwt.cpp bwt_file")],
  ["contents of the output file"]),
P("C03", "Invalid arguments and I/O failures are reported by an exception",
  "A null or zero-length string, an input file that cannot be opened or is empty, a read that delivers fewer bytes than the file holds, an output file that cannot be opened and a write or close that fails each end in an exception derived from std::exception; the call never returns normally having produced no or a partial result. When the input cannot be opened or read, the output file is neither created nor changed.",
  ["inputs", "fault_sequences"], "all argument combinations and every choice of which file operation fails or falls short",
  "No test injects a failing or short file operation or passes invalid arguments; the guarantee is over every fault point.",
  ["src/flbwt.cpp"],
  [("argument validation", "src/flbwt.cpp bwt_string"), ("error checks around the file operations", "src/flbwt.cpp bwt_file")],
  (), ["exceptions leaving flbwt::bwt_file and flbwt::bwt_string", "existence and contents of the output file"]),
P("C04", "Input buffer is read-only and every resource is released exactly once",
  "The in-memory transform never changes the bytes of the caller's string, releases that buffer exactly once if and only if the caller asks for it, and returns one malloc'ed result holding one new[]-allocated array; every other allocation it makes is released exactly once with the matching deallocator. The file transform leaves nothing allocated and no file open, both when it returns and when it throws.",
  ["inputs", "fault_sequences"], "all inputs, both ownership modes, all normal and exceptional exits",
  "Tests do not track allocations; leaks, double releases and mismatched deallocators leave outputs unchanged and appear only on particular sizes (many queue blocks, many recursion levels) or error paths.",
  ["src/flbwt.cpp", "src/hashtable.cpp", "src/queue.cpp", "src/packed_array.cpp", "src/container.cpp"] + sais + ind,
  [("matching new/delete, malloc/free and fopen/fclose pairs", "src/flbwt.cpp"), ("block release", "src/queue.cpp Queue::dequeue, Queue::~Queue"), ("table release", "src/hashtable.cpp HashTable::~HashTable")],
  (), ["set of live allocations and open files after each call", "bytes of the input string"]),
P("C05", "No out-of-bounds access or undefined arithmetic for any input",
  "For every byte string of length n >= 1 whose n bytes are followed by one readable zero byte, the transform reads and writes only inside live memory it owns or inside those n+1 input bytes, performs no undefined shift, division or signed overflow, and terminates.",
  ["inputs"], "all inputs of every length, including one- and two-byte strings and strings without repeated or without any descending-then-ascending structure",
  "Tests run a handful of short strings without a sanitizer; buffer sizes depend on counts of substrings, name widths and recursion depth of the particular input.",
  ["src/flbwt.cpp", "src/hashtable.cpp", "src/packed_array.cpp", "src/queue.cpp"] + sais + ind,
  [("buffer sizing from counts", "src/flbwt.cpp extract_LMS_strings, sort_LMS_strings, bwt_is"), ("in-place working space of the suffix sorter", "src/sais32bit.cpp sais_32bit and its four siblings")],
  (), ["every memory access of the library"]),
P("C06", "A packed integer array behaves as an array of independent integers",
  "For every element width of 1 to 64 bits and every index below the length, reading an element returns the value (that fits the width) last stored there, and storing an element changes no other element and nothing outside the array. The packed reader used during suffix sorting returns the same values.",
  ["inputs", "histories"], "all widths, lengths, indices, values and sequences of stores and loads",
  "Tests use byte-multiple widths and a few indices; elements that straddle word boundaries at odd offsets and interference with neighbours are not sampled.",
  ["src/packed_array.cpp", "include/packed_array.hpp"] + sais,
  [("split and unsplit element store and load", "src/packed_array.cpp PackedArray::set_value, PackedArray::get_value"), ("packed reader", "src/sais32bit.cpp get2 and its four siblings")],
  [("arr", "packed words", "include/packed_array.hpp PackedArray")], ["PackedArray::get_value"]),
P("C07", "The block queue is an exact double-ended FIFO of any length",
  "After any sequence of insertions at the end, insertions at the front and removals from the front, the queue holds exactly the values a mathematical sequence would hold in that order; removal returns the first of them and the emptiness test is true exactly when none is left. This holds for any number of elements, across block boundaries and after the queue has drained and refilled, and operating on one queue changes no other.",
  ["histories", "inputs"], "all operation histories, all value widths used, any number of elements",
  "No test exercises the queue directly; block boundaries need more than 1024 elements and mixed front and back insertion histories.",
  ["src/queue.cpp", "include/queue.hpp"],
  [("block-linked storage with start and end offsets", "src/queue.cpp Queue::enqueue, Queue::enqueue_l, Queue::dequeue, Queue::is_empty")],
  [("sb, eb, s_ofs, e_ofs, n", "first and last block, offsets in them, element count", "include/queue.hpp Queue")], ["Queue::dequeue", "Queue::is_empty"]),
P("C08", "The substring table is an exact set of strings with retrievable names",
  "Over any history of insertions of strings of length at least 3, an insertion reports 'new' exactly when the same string was not inserted before, no earlier string is lost or altered, and looking up an inserted string returns the name last given to it; looking up any other string is reported as an error. This holds whatever the hash values are, including equal hashes, equal lengths and chains that span any number of storage blocks.",
  ["histories", "inputs"], "all histories of insertions, namings and lookups; all string contents, lengths and hash collisions",
  "The tests insert six short strings into one table; chains crossing block boundaries, colliding strings of equal length and long strings with multi-byte lengths are not sampled, and look-up is not tested.",
  ["src/hashtable.cpp", "include/hashtable.hpp"],
  [("chained records in one growing byte buffer", "src/hashtable.cpp HashTable::insert_string, HashTable::find_name"), ("record walk", "src/hashtable.cpp HashTable::string_info_length")],
  [("head, rest, buf, bufsize", "first record per hash, space left per hash, record storage", "include/hashtable.hpp HashTable")], ["return values of insert_string and find_name"]),
P("C09", "Decomposition finds every S* substring and exact character statistics",
  "For every string of length n >= 1 the decomposition counts, for every byte value, its occurrences, its L-type occurrences and the S* positions starting with it (the end marker counting once), the number of S* substrings and of distinct S* substrings, and the end of the leading non-S* part, all exactly as defined by comparing each suffix with its successor.",
  ["inputs"], "all strings of length >= 1",
  "Two tests check two strings; runs of equal bytes, monotone strings and strings at the type boundaries are not sampled.",
  ["src/flbwt.cpp", "src/container.cpp"],
  [("right-to-left type scan", "src/flbwt.cpp extract_LMS_strings")],
  [("M, NL, C, num_of_substrings, num_of_unique_substrings, head_string_end", "statistics of the decomposition", "include/container.hpp Container")], ["fields of the returned container"]),
P("C10", "Distinct S* substrings get names in exactly their sorting order",
  "Naming gives the distinct S* substrings the names 1, 2, ... in strictly increasing order of S* substring order (bytewise, and where one is a proper prefix of the other the longer one first), the end marker the name 0 and the leading part the largest name. Each name leads back to a stored copy of exactly the bytes of its substring, preceded by a byte greater than its first byte.",
  ["inputs"], "all sets of S* substrings that a string can produce",
  "No test calls the naming step; substrings that are prefixes of each other, bytes above 127 and names wider than one byte are not sampled.",
  ["src/flbwt.cpp", "src/hashtable.cpp"],
  [("collection, comparator, sort and naming", "src/flbwt.cpp sort_LMS_strings"), ("name codec", "src/hashtable.cpp HashTable::set_name, HashTable::get_name")],
  [("s[]", "stored substrings in name order", "src/flbwt.cpp sort_LMS_strings")], ["array returned by sort_LMS_strings", "HashTable::get_name"]),
P("C11", "The shortened string lists the substring names in text order",
  "The shortened string has one entry per S* substring in text order, each being the name of the substring that occurs there, framed by the largest name in front for the leading part and 0 at the end for the end marker; the entries are stored in a width that holds every name.",
  ["inputs"], "all strings of length >= 1",
  "No test calls this step; name widths only grow with the number of distinct substrings, beyond what a small test reaches.",
  ["src/flbwt.cpp", "src/packed_array.cpp"],
  [("second right-to-left scan with name look-up", "src/flbwt.cpp create_shortened_string")],
  [("T1", "packed names", "src/flbwt.cpp create_shortened_string")], ["PackedArray returned by create_shortened_string"]),
P("C12", "Suffix sorting returns the suffix array in all five integer widths",
  "For every packed string over an alphabet of k symbols, each of the five suffix sorters (32, 40, 48, 56 and 64 bit) fills its output with the permutation of all positions in which the suffixes are in strictly increasing lexicographic order (a proper prefix being smaller). The string is left unchanged, nothing outside the output is written, and all widths agree.",
  ["inputs"], "all strings, alphabets, packing widths and recursion depths",
  "No test calls any suffix sorter; wide variants are selected only for inputs of several gigabytes, and the recursion with in-place working space depends on the repetition structure.",
  sais,
  [("induced sorting with recursion on names", "src/sais32bit.cpp sais_32bit, induce_SA, get_counts, get_buckets and the same in the four siblings")],
  [("SA", "suffix array and working space", "src/sais32bit.cpp sais_32bit")], ["SA after the call"]),
P("C13", "BWT induction turns sorted S* suffixes into the BWT in all five widths",
  "Given the substrings' stored copies, the statistics of the string and the positions of the S* suffixes in sorted order, each of the five induction routines produces the complete Burrows-Wheeler transform and the rank of the whole string, writing each of the n+1 output entries inside the output array.",
  ["inputs"], "all strings, all integer widths, all queue lengths",
  "Only one short string reaches one of the five routines; the four wider routines never run in a test.",
  ind + ["src/queue.cpp"],
  [("two induction passes over per-character queues", "src/induce32bit.cpp induce_bwt_32bit and the four siblings")],
  [("M2, M3, C2", "bucket cursors", "include/container.hpp Container")], ["returned BWT_result"]),
P("C14", "Split-width integers store and load exactly in every stream layout",
  "For each split layout (32+8, 32+16 and 32+16+8 bits) storing any signed value that fits the layout (40, 48 or 56 bits) at an index and loading that index returns the value, negative values and complements included, and no other index and no neighbouring memory changes.",
  ["inputs", "histories"], "all values representable in the layout, all indices",
  "Tests cover seven values in the 40-bit layout and none in the 48- and 56-bit layouts.",
  ["include/sais40bit.hpp", "include/sais48bit.hpp", "include/sais56bit.hpp"],
  [("split store and load", "include/sais40bit.hpp set_40bit_value, get_40bit_value and siblings")],
  (), ["get_40bit_value, get_48bit_value, get_56bit_value"]),
P("C15", "Chosen bit widths always suffice for the values stored in them",
  "For every input, the integer width selected for the suffix array, for queue entries, for names in the shortened string and for stored name bytes is large enough for every value that is stored in it, so no stored value is ever truncated; the width computation itself returns the exact bit length of every positive 64-bit number.",
  ["inputs"], "all input sizes up to the documented limit of 2^58 bits and all 64-bit numbers",
  "Width boundaries such as 2^8 names, 2^16 names or 2^31 offsets need inputs from kilobytes to gigabytes; the tests check two numbers.",
  ["include/utility.hpp", "src/flbwt.cpp", "src/hashtable.cpp"],
  [("bit length", "include/utility.hpp position_of_msb"), ("width selection", "src/flbwt.cpp bwt_is, sort_LMS_strings, create_shortened_string"), ("name bytes", "src/hashtable.cpp HashTable::HashTable")],
  [("bwp_width, sa_max_value, NAME_BYTES", "selected widths", "include/container.hpp, include/hashtable.hpp")], ["widths passed to PackedArray, Queue and the suffix sorters"]),
P("C16", "Record headers in the substring table decode to what was encoded",
  "For every positive 64-bit length the stored length header uses the minimal number of bytes and decodes to the same length, and equals what the size calculation announces; a stored block link decodes to the same 64-bit position and reads as the reserved length 2; a stored name decodes to the same name whenever it fits the name width. Writing any of these fields changes only the bytes of that field.",
  ["inputs"], "all lengths 1..2^64-1, all 64-bit positions, all names of up to 8 bytes",
  "Tests check a few constants; lengths with zero bytes inside or at the end, and lengths needing each of 1 to 8 header bytes, are not covered. ",
  ["src/hashtable.cpp"],
  [("length, link and name codecs", "src/hashtable.cpp HashTable::set_length, get_length, calculate_lenlen, set_pointer, get_pointer, set_name, get_name")],
  (), ["return values of the decoding functions", "bytes around the encoded field"]),
]
with open("/verif/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
