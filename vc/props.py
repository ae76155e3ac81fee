"""Per property: the functions under contract, what the contracts decide, what is left to the bounded search."""
PROPS = {}
def P(id, fns=(), libs=(), level="exploration", decides="", rest="", by=None):
    """by: functions whose contract is used here and discharged by the check of another property"""
    PROPS[id] = {"fns": list(fns), "libs": list(libs), "level": level, "decides": decides, "rest": rest, "by": by or {}}
for i in range(1, 17): P("C%02d" % i)

W = ("32", "40", "48", "56", "64")
P("C14", ["set_%sbit_value" % w for w in W[1:4]] + ["get_%sbit_value" % w for w in W[1:4]], ["bits", "split"], "proof",
  "store/load round trip of every representable value, frame of every other index and of all other memory, absence of undefined arithmetic, in the three split layouts", "")
P("C06", ["PackedArray::" + f for f in ("ctor", "dtor", "get_length", "get_integer_bits", "get_raw_arr_pointer", "set_value", "get_value")] + ["sais%sbit__get2" % w for w in W], ["packed"], "proof",
  "stored value is read back, no other element and no other memory changes, for every width 1..64 and every index; the five packed readers return the same value", "")
P("C16", ["HashTable::" + f for f in "set_length get_length calculate_lenlen set_pointer get_pointer set_name get_name string_info_length get_first_character_pointer get_lenlen".split()], ["bytes", "rec"], "proof",
  "every length, link and name written is read back, in the stated number of big-endian bytes, no other byte changes, for every 64-bit value and every record position", "")
P("C07", ["Queue::" + f for f in "ctor dtor enqueue enqueue_l dequeue is_empty".split()], ["queue"], "proof",
  "each operation acts on the abstract sequence held by the queue exactly as on a mathematical one, from every reachable state and for any number of elements and blocks; the queue invariant (block chain, offsets, ownership of every allocated object) is kept; nothing outside the queue changes; the destructor releases exactly the queue's objects", "")
P("C08", ["HashTable::" + f for f in "ctor dtor hash_function insert_string find_name set_name get_name".split()] + ["position_of_msb"], ["table", "width"], "proof",
  "the table's records form an abstract set of distinct strings with names: every insertion adds exactly the inserted string and reports new exactly when it was absent, keeping every record and name, whatever the hash values and however many blocks a chain spans; a look-up returns the string's name or reports an error; naming one string changes no other", "")
P("C02", ["bwt_file", "bwt_string"], ["bwt"], "proof",
  "for every file content, every outcome of every stream call and every rank, a normal return means the output file holds exactly the 8 big-endian rank bytes followed by the transform without the marker entry, all other files unchanged; for files of less than 2^52 bytes, and by the contract of the in-memory transform bwt_is (discharged in the check of C01)",
  "", by={"bwt_is": "C01"})
P("C03", ["bwt_file", "bwt_string"], ["bwt"], "proof",
  "whatever each fopen, fseek, ftell, fread, fwrite and fclose returns, the call either completes the whole job or ends in a std::exception, and no file changes unless the whole input has been delivered; null and empty strings are refused with a std::exception and no effect",
  "", by={"bwt_is": "C01"})
PIPE = ["bwt_is", "bwt_string", "extract_LMS_strings", "sort_LMS_strings", "create_shortened_string"]
P("C04", ["bwt_file", "bwt_is", "bwt_string", "Queue::ctor", "Queue::dtor", "Queue::dequeue", "HashTable::ctor", "HashTable::dtor", "PackedArray::ctor", "PackedArray::dtor", "Container::ctor", "Container::dtor"], ["bwt", "queue", "table", "cont"], "proof",
  "bwt_file leaves the heap and the open files exactly as it found them on every return and every exception; bwt_is releases everything it allocates except the result and its array, with the matching deallocator, leaves every older object as it was and releases the caller's string exactly if asked to; queue, table, packed array and container release exactly what they own",
  "")
P("C01", PIPE, ["compose", "sbridge"], "proof",
  "the whole path from the text to the result, for every text of length 1 to 2^52: decomposition, naming, shortened string, its suffix array from the five suffix sorters, the order of the S* suffixes from it, the positions of their stored copies in every width, the induction of all other suffixes in every width; every function on the path is under contract and checked in the same run", "")
P("C05", PIPE, ["compose", "sbridge"], "proof",
  "every memory access of every function on the path is inside live memory, no undefined arithmetic, every loop and every recursion ends", "")
P("C09", ["extract_LMS_strings"], ["decomp"], "proof",
  "for every text of any length below 2^52 and any byte values: every character count (M, NL, C), the number of substrings and of distinct substrings, the head end and the stored set equal those defined by the suffix order of the text; the text is not changed", "")
P("C11", ["create_shortened_string"], ["short"], "proof",
  "entry k of the shortened string is the name of the k-th stored substring occurrence of the text, the head string first and the end marker last, every name fits the chosen width; nothing else changes", "")
P("C10", ["sort_LMS_strings"], ["naming"], "proof",
  "for every text of any length below 2^52 whose substrings the table holds: the list names exactly the distinct S* substrings, 1, 2, ... in strictly increasing S* order (a total order proved from the comparison function), each name stored with the copy of its string and behind a greater byte; the leading part has the largest name, the end marker 0; the lowest and highest record, the pointer width and the largest position are those of the list",
  "that std::sort meets its contract (assumed: a permutation ordered by the given comparison, which is proved a strict weak order)")
P("C13", ["induce_bwt_%sbit" % w for w in W], ["induce", "iheap", "iglue"], "proof",
  "for every text of any length below 2^52 and every width: from the S* suffixes in order and the positions of their stored copies, each of the five induction routines returns the last characters of all suffixes in order and the rank of the text itself; the induction's queues, fronts, ends and pending entries are tied to the suffix order by loop invariants over both passes, all memory is accounted for", "")
P("C15", ["position_of_msb", "HashTable::ctor", "HashTable::set_name", "PackedArray::set_value", "create_shortened_string", "sort_LMS_strings", "bwt_is"], ["width"], "proof",
  "position_of_msb is the bit length; the name field holds every name (n/2+1 fits in NAME_BYTES bytes); the shortened string's element width holds every name; the pointer width and the largest position chosen by sort_LMS_strings hold every position; bwt_is picks a sorter and an induction width with bits to spare for every value the contracts of the induction demand, in all five branches, and every name or value stored through set_name and set_value meets its 'fits' precondition at each call; every number the suffix sorters store in their arrays and buckets is read back unchanged",
  "", by={"HashTable::insert_string": "C08"})

P("C12", ["sais_%sbit" % w for w in W] + ["sais%sbit__%s" % (w, f) for f in ("get_counts", "get_buckets", "induce_SA") for w in W], ["sheap", "spass", "splace", "sord", "sname", "ssort", "sws"], "proof",
  "for every text over every alphabet 1 <= k <= n + 1, any spare room fs and any character size, in all five widths: the sorter fills its output with the suffix array, changes no other memory, releases every object it allocates and ends. By contracts on get_counts, get_buckets, induce_SA (both in-place passes) and on the recursive top level (placing, compacting, naming, reducing, recursing, mapping back, final induction)", "")
