#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line; kept as Python for readability)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": observe, "hook_needed": hook}})

prop("C01", "The transform of every text is its Burrows-Wheeler Transform",
 "For every text of n >= 1 arbitrary bytes (0 and 255 included) held in memory with a zero byte after it, the in-memory transform terminates and returns n+1 rows and a row number. Append to the text an end marker smaller than every byte and sort all n+1 suffixes: the returned row number is the rank of the whole text, and every other row holds exactly the byte that precedes that row's suffix.",
 ["inputs"], "every byte string of length >= 1: every alphabet, length, repetitiveness and order of bytes",
 "One 15-byte text is transformed by the tests; nothing reaches a second block of a queue or bucket, a recursive suffix sort, zero or 255 bytes, texts of one or two bytes, or substrings longer than 255 bytes.",
 ["src/flbwt.cpp", "src/induce32bit.cpp", "src/sais32bit.cpp", "src/hashtable.cpp", "src/queue.cpp", "src/packed_array.cpp", "include/flbwt.hpp"],
 [("bwt_is: decompose, name, shorten, suffix-sort, induce", "src/flbwt.cpp"), ("induce_bwt_32bit: L and S passes over the bucket queues", "src/induce32bit.cpp")],
 ["flbwt::bwt_string return value (last, BWT[0..n])"],
 [("BWT_result", "row of the whole text and the n+1 rows", "include/induce32bit.hpp")])

prop("C02", "A transformed file is header plus transform and decodes to the input",
 "For every readable non-empty input file of n bytes, a successful file transform leaves an output file of exactly n+8 bytes: the row number of the whole text as a 64-bit big-endian integer, then the n bytes of the transform with the end marker's row left out. Decoding that output by standard inversion gives back the input byte for byte. This holds whatever the output path held before, including when it is the input file itself.",
 ["inputs", "histories"], "every file content and length, every row number (every byte of the header), every earlier content of the output path",
 "No test calls the file transform.",
 ["src/flbwt.cpp", "examples/bwt.cpp", "include/flbwt.hpp"],
 [("bwt_file: big-endian header, rows before and after the end marker's row", "src/flbwt.cpp"), ("output opened for truncation only after the input was read", "src/flbwt.cpp")],
 ["bytes of the output file after flbwt::bwt_file"], (),
 "FLBWT_VERIF_HOOKS: set the row number of the result before it is written, so that all eight header bytes are exercised")

prop("C03", "All index widths agree, and the width chosen always fits",
 "The result of a transform does not depend on which of the five suffix-array integer widths (32, 40, 48, 56 or 64 bits) carries it out. The width chosen for a text is the narrowest of the five whose signed range holds every value that has to be stored, so that no value is truncated and no memory is wasted.",
 ["inputs", "configurations"], "every text under each of the five widths, and every magnitude of the largest stored value around each width boundary",
 "Only the 32-bit path is ever taken by the tests; the wider ones need inputs of more than 2 GB.",
 ["src/flbwt.cpp", "src/sais40bit.cpp", "src/sais48bit.cpp", "src/sais56bit.cpp", "src/sais64bit.cpp", "src/induce40bit.cpp", "src/induce48bit.cpp", "src/induce56bit.cpp", "src/induce64bit.cpp", "include/utility.hpp"],
 [("bwt_is: selection by the bits of the largest value, and one copy of sort + induce per width", "src/flbwt.cpp")],
 ["flbwt::bwt_string result under a forced width", "the width chosen for a given largest value"],
 [("sa_max_value", "largest value the suffix array will hold", "include/container.hpp")],
 "FLBWT_VERIF_HOOKS: replace the largest value and report the width taken")

prop("C04", "Suffix sorting returns the true suffix order at every width",
 "For every sequence of m >= 1 names that ends in a unique smallest name, given in packed cells of any width that holds the names and is narrower than the sorter's own integers, each of the five suffix sorters terminates and returns the permutation of 0..m-1 that lists the suffixes in increasing lexicographic order. The input sequence is left unchanged, and nothing outside the m result entries and the declared free space is written.",
 ["inputs", "configurations"], "every name sequence (every alphabet size relative to the length, every recursion depth), every cell width, each of the five integer widths",
 "No test calls a suffix sorter; the single end-to-end test sorts four names without recursion.",
 ["src/sais32bit.cpp", "src/sais40bit.cpp", "src/sais48bit.cpp", "src/sais56bit.cpp", "src/sais64bit.cpp"],
 [("three-stage SA-IS with complement marks and in-place recursion", "src/sais32bit.cpp"), ("counters and buckets placed in free space or allocated", "src/sais32bit.cpp")],
 ["result array of flbwt::sais_{32,40,48,56,64}bit"],
 [("SA, C, B, RA", "result, counters, buckets and reduced text sharing one array", "src/sais32bit.cpp")])

prop("C05", "Decomposition finds exactly the S* substrings of the text",
 "For every text of n >= 1 bytes with a zero byte after it, the decomposition reports: the number of S* positions (suffixes that are smaller than the next suffix and whose predecessor is larger, the end marker not counted), how many of their substrings differ, where the head of the text ends, and per byte value the number of occurrences, of L-type positions and of S* positions. All of them equal the definition applied to the text, and every S* substring, and no other string, is stored in the dictionary.",
 ["inputs"], "every byte string of length >= 1",
 "Two texts are decomposed by the tests and two or three counters compared; none of the per-byte counts is looked at.",
 ["src/flbwt.cpp", "src/container.cpp", "include/container.hpp"],
 [("right-to-left scan with the type of the previous position", "src/flbwt.cpp (extract_LMS_strings)")],
 ["fields of flbwt::Container after flbwt::extract_LMS_strings", "strings held by the dictionary"],
 [("M, NL, C", "occurrences, L-type positions, S* positions per byte value", "include/container.hpp"), ("num_of_substrings, num_of_unique_substrings, head_string_end", "size of the decomposition", "include/container.hpp")])

prop("C06", "Names and the shortened text preserve the order of S* suffixes",
 "After naming, the sorted list holds each distinct S* substring once, and its names 1..u are increasing in S* order (compared character by character, a longer substring before its own proper prefix). The shortened text is the head's name u+1, then the names of the S* substrings in text order, then 0; comparing its suffixes gives the same order as comparing the corresponding suffixes of the original text.",
 ["inputs"], "every byte string of length >= 1: every set of substrings, including prefixes of one another and substrings ending at the end of the text",
 "No test calls the naming or the shortening.",
 ["src/flbwt.cpp", "src/hashtable.cpp"],
 [("sort by S* order and naming", "src/flbwt.cpp (sort_LMS_strings)"), ("second scan looking names up", "src/flbwt.cpp (create_shortened_string)")],
 ["list returned by flbwt::sort_LMS_strings, names in the dictionary", "values of the packed array returned by flbwt::create_shortened_string"],
 [("S", "records of head, sorted substrings and end", "src/flbwt.cpp"), ("T1", "shortened text", "src/flbwt.cpp")])

prop("C07", "Inducing from the sorted S* suffixes yields the transform at every width",
 "Given the decomposition of any text and, for each S* suffix in increasing order, the stored position at which the preceding substring ends, each of the five inducing routines terminates and produces the transform of the text: the row of the whole text and the preceding byte in every other row. The values passed and those in its queues never exceed the widths computed for them.",
 ["inputs", "configurations"], "every byte string of length >= 1 and each of the five integer widths",
 "Only the 32-bit routine runs in the tests, on one text that never fills a queue block.",
 ["src/induce32bit.cpp", "src/induce40bit.cpp", "src/induce48bit.cpp", "src/induce56bit.cpp", "src/induce64bit.cpp"],
 [("L pass left to right, S pass right to left, deferred rows kept on a stack inside the S bucket", "src/induce32bit.cpp")],
 ["result of flbwt::induce_bwt_{32,40,48,56,64}bit"],
 [("Q[3][258]", "queues of positions per class and byte value", "src/induce32bit.cpp"), ("M2, M3, C2", "write positions in the buckets", "include/container.hpp")])

prop("C08", "The substring dictionary is an exact set of strings with names",
 "For every sequence of insertions of strings of length >= 3 into a table of any size, an insertion reports new exactly when that string was not inserted before. Every inserted string stays findable, and looking it up returns the name last given to it, however many strings share its hash value and however often the storage grew; looking up a string that was never inserted raises an error.",
 ["histories", "inputs"], "every sequence of insert, name and lookup calls; every table size, string length and collision pattern; every earlier content of the memory it allocates",
 "Six insertions of 3- and 4-byte strings are tested, lookup never (its test is commented out); no chain of more than two blocks, no string of more than 255 bytes.",
 ["src/hashtable.cpp", "include/hashtable.hpp"],
 [("per-bucket blocks of records, linked by pointer records when full", "src/hashtable.cpp (insert_string)"), ("comparison by length and content", "src/hashtable.cpp (insert_string, find_name)")],
 ["return values of insert_string, find_name, get_name", "exception of find_name"],
 [("head, rest, buf", "first record, free space and storage of the buckets", "include/hashtable.hpp")])

prop("C09", "Record fields read back what was written, at every magnitude",
 "A record's length (1 to 2^64-1), link (any 64-bit value) and name (any value that fits the table's name bytes) read back exactly as written, whatever the memory held before. The number of length bytes is the smallest that holds the length; the bytes are big-endian; the characters, the other fields and the neighbouring records are never changed by writing one field, and a record's total size is the sum of its parts.",
 ["inputs", "histories"], "every length, link and name value, every earlier content of the record's memory, every order of writes",
 "The tests write five values, and one of them (a length with trailing zero bytes) failed or passed depending on what the heap held.",
 ["src/hashtable.cpp", "include/hashtable.hpp"],
 [("length bytes counted and written most significant first", "src/hashtable.cpp (set_length, get_length, calculate_lenlen)"), ("link and name fields", "src/hashtable.cpp (set_pointer, get_pointer, set_name, get_name, string_info_length, get_first_character_pointer)")],
 ["bytes of the record and return values of the field accessors"], ())

prop("C10", "A packed array is an array of w-bit integers",
 "For every cell width w from 1 to 64, every length and every sequence of stores of values below 2^w, reading a cell returns the value last stored there and no other cell ever changes. Cell i occupies bits i*w to (i+1)*w-1 of the raw words, most significant bit first, which is the layout the suffix sorters read.",
 ["inputs", "histories"], "every width 1..64, every cell alignment, every sequence of stores, every earlier content of the memory",
 "Eight widths (multiples of 8) and at most six stores each are tested, mostly of cells that do not straddle words.",
 ["src/packed_array.cpp", "include/packed_array.hpp", "src/sais32bit.cpp"],
 [("masking and splitting over two 64-bit words", "src/packed_array.cpp (set_value, get_value)")],
 ["get_value, get_length, get_integer_bits, raw words"],
 [("arr", "packed words", "include/packed_array.hpp")])

prop("C11", "A queue delivers exactly what was put in, in order, from both ends",
 "For every sequence of insertions at the back, insertions at the front and removals from the front (never from an empty queue), each removal returns the value that is at the front of the ideal double-ended sequence, and the queue reports empty exactly when that sequence is empty. This holds for every element width and for any number of elements, across all block boundaries.",
 ["histories"], "every sequence of enqueue, enqueue at front, dequeue and emptiness queries; every element width 1..63",
 "There is no queue test; the end-to-end test never has more than a few elements in a queue whose blocks hold 1024.",
 ["src/queue.cpp", "include/queue.hpp"],
 [("doubly linked blocks of 1024 packed cells with start and end offsets", "src/queue.cpp")],
 ["dequeue return values, is_empty"],
 [("sb, eb, s_ofs, e_ofs, n", "first and last block, offsets, element count", "include/queue.hpp")])

prop("C12", "Split integers and bit lengths are exact over their whole range",
 "A signed integer stored in a 40-, 48- or 56-bit split cell reads back unchanged for every value of that width's two's-complement range, complements included, and a store changes no other cell. The bit-length function returns, for every positive 64-bit integer, the number of bits needed to write it.",
 ["inputs", "histories"], "every value of the 40-, 48- and 56-bit signed ranges, every index and order of stores; every positive 64-bit integer",
 "Seven pairs of values are tested for 40 bits, none for 48 and 56; two values for the bit length.",
 ["include/sais40bit.hpp", "include/sais48bit.hpp", "include/sais56bit.hpp", "include/utility.hpp"],
 [("sign carried by the top cell, lower cells unsigned", "include/sais56bit.hpp"), ("count of leading zeros", "include/utility.hpp")],
 ["get_{40,48,56}bit_value after set_{40,48,56}bit_value, position_of_msb"], ())

prop("C13", "Invalid requests are rejected with an error and change nothing",
 "A transform of a null text or of length 0, of a missing, unreadable, empty or unseekable input file or one too large for memory, or to an output path that cannot be opened, throws a standard exception: invalid-argument for null or empty texts and for files that cannot be opened. It never crashes or hangs, and when the input is at fault the output path is neither created nor altered. A rejected text stays the caller's: it is not released, even if it was to be handed over. The input file is never changed by a request, rejected or not, unless it is also the output.",
 ["inputs", "configurations", "histories"], "every kind of invalid argument and file-system state of both paths, alone and combined, at any point of a session of requests",
 "No test makes an invalid request.",
 ["src/flbwt.cpp"],
 [("argument checks and exceptions", "src/flbwt.cpp (bwt_string, bwt_file)"), ("input fully read before the output is opened", "src/flbwt.cpp (bwt_file)")],
 ["exception type, file system after flbwt::bwt_file / flbwt::bwt_string"], ())

prop("C14", "Success is reported only if the complete output was written",
 "If any read of the input delivers less than the file's size, or any write, flush or close of the output fails or is cut short at any byte, the file transform throws an exception. It returns normally only if the output holds the complete transform of the complete input.",
 ["fault_sequences", "crash_points", "inputs"], "every read, write, flush and close operation of a transform as the point of failure, every byte offset at which the output device fills up",
 "No test injects an I/O fault.",
 ["src/flbwt.cpp"],
 [("results of ftell, fread, fwrite and fclose checked", "src/flbwt.cpp (bwt_file)")],
 ["exception or return of flbwt::bwt_file, bytes of the output file"], ())

prop("C15", "The caller's text is never modified and is released only on request",
 "A transform never changes a byte of the text it is given, terminator included, and reads nothing outside its n+1 bytes. If the caller keeps the text it is still allocated and intact afterwards; if the caller hands it over and the transform returns it is released exactly once, before the suffix array is built, and never touched again. The result is the same either way.",
 ["inputs", "histories"], "every text, both ownership modes, any sequence of transforms of the same text",
 "One test passes a literal that is kept; handing over is never tested, nor is the text compared afterwards.",
 ["src/flbwt.cpp"],
 [("text released after shortening if handed over", "src/flbwt.cpp (bwt_is)")],
 ["text bytes after flbwt::bwt_string, allocation events"], (),
 "none: allocation functions are interposed in the harness")

prop("C16", "A transform's result depends on its text alone",
 "Whatever transforms ran before in the process, whatever the allocated memory happened to contain, and whatever transforms of other texts run at the same time in other threads, a transform of a given text returns the same result (the unused row of the end marker aside) and the same output file. No writable data is shared between transforms.",
 ["schedules", "histories", "inputs"], "every sequence and every concurrent interleaving of transforms, every content of freshly allocated memory",
 "Tests run single calls in fresh processes, one at a time, with whatever the heap holds.",
 ["src/flbwt.cpp", "src/hashtable.cpp", "src/packed_array.cpp", "src/queue.cpp", "src/container.cpp"],
 [("all state is local to the call", "src/flbwt.cpp"), ("storage is written before it is read", "src/hashtable.cpp")],
 ["results of flbwt::bwt_string under different heap contents, histories and threads"], ())

prop("C17", "Everything a transform acquires is released exactly once on every path",
 "When a transform returns, or throws for any reason other than memory running out during the transform itself, every memory block it allocated, other than the result handed to the caller, has been released exactly once with the matching operation, nothing it did not own has been released, and every file it opened is closed. Releasing the returned result then leaves nothing behind.",
 ["histories", "inputs", "fault_sequences"], "every text, width, ownership mode, invalid request and I/O fault",
 "Tests do not look at allocations, and run no failing path.",
 ["src/flbwt.cpp", "src/induce32bit.cpp", "src/induce40bit.cpp", "src/induce48bit.cpp", "src/induce56bit.cpp", "src/induce64bit.cpp", "src/queue.cpp", "src/hashtable.cpp", "src/container.cpp", "src/sais32bit.cpp"],
 [("explicit releases at the end of each stage", "src/flbwt.cpp (bwt_is)"), ("queues deleted after their pass, empty blocks freed on removal", "src/induce32bit.cpp, src/queue.cpp"), ("destructors", "src/container.cpp, src/hashtable.cpp, src/queue.cpp, src/packed_array.cpp")],
 ["allocation and release events, open descriptors around flbwt::bwt_string and flbwt::bwt_file"], ())

prop("C18", "The command-line tool transforms the named file or fails visibly",
 "Called with exactly two arguments, the tool writes to the second path the same bytes as the library's file transform of the first and exits with status 0; if the transform fails it exits with a non-zero status and leaves the files as the library leaves them. Called with any other number of arguments it prints how to use it, exits with a non-zero status and touches no file.",
 ["inputs", "configurations", "fault_sequences"], "every argument count and every state of the named files",
 "No test runs the tool.",
 ["examples/bwt.cpp", "src/flbwt.cpp"],
 [("argument count check, exceptions left to terminate", "examples/bwt.cpp")],
 ["exit status, standard output, files"], ())

prop("C19", "A transform never holds more memory than the succinct structures need",
 "At every moment a transform of a text of n bytes holds, beside the text, no more than: the dictionary of the distinct S* substrings; then the packed shortened text; then the integers of the suffix sort, at the chosen width, for the S* suffixes only; and when the rows are acquired, just the dictionary, the n+1 rows and queues with packed entries, of which there are never more than there are S* suffixes and an end marker. What a stage no longer needs is released before the next one acquires its own, and at the end only the result is held.",
 ["inputs", "configurations"], "every text, each of the five widths, both ownership modes and the file transform",
 "Tests measure no memory, and their texts are smaller than one block of a queue.",
 ["src/flbwt.cpp", "src/induce32bit.cpp", "src/induce40bit.cpp", "src/induce48bit.cpp", "src/induce56bit.cpp", "src/induce64bit.cpp", "src/queue.cpp", "src/hashtable.cpp", "src/packed_array.cpp"],
 [("text, names and buckets released as soon as they were used", "src/flbwt.cpp (bwt_is)"), ("suffix array released before the rows are acquired", "src/induce32bit.cpp"), ("blocks of queues released as they are emptied", "src/queue.cpp"), ("cells as wide as the largest value", "src/packed_array.cpp")],
 ["bytes allocated and not released, at each allocation of flbwt::bwt_string and of the stages"],
 [("Q[3][258]", "queues of packed entries in blocks", "src/induce32bit.cpp"), ("T1", "packed shortened text", "src/flbwt.cpp")],
 "FLBWT_VERIF_HOOKS: report the moment at which the width is chosen; the allocation functions are interposed in the harness")

prop("C20", "Suffix sorting and inducing do work proportional to the input",
 "The number of memory accesses each of the five suffix sorters and each of the five inducing routines makes is at most a constant times the length of what it is given, whatever its repetitions, its alphabet and its depth of recursion. The same holds for decomposition, naming, shortening and the whole transform when the distinct S* substrings are few compared with the heads of the dictionary.",
 ["inputs", "configurations"], "every text and name sequence, each of the five widths, any amount of free space",
 "No test measures work, and no text of the tests is longer than a line.",
 ["src/sais32bit.cpp", "src/sais40bit.cpp", "src/sais48bit.cpp", "src/sais56bit.cpp", "src/sais64bit.cpp", "src/induce32bit.cpp", "src/induce40bit.cpp", "src/induce48bit.cpp", "src/induce56bit.cpp", "src/induce64bit.cpp", "src/queue.cpp", "src/flbwt.cpp"],
 [("SA-IS: two induced passes, halving recursion", "src/sais32bit.cpp"), ("each entry read, its predecessor appended: queues with constant-time ends", "src/queue.cpp")],
 ["number of memory accesses of flbwt::sais_*bit, flbwt::bwt_string and its stages"], (),
 "none: the library is compiled with its memory accesses turned into calls")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
