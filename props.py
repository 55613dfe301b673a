# ---- concurrency -------------------------------------------------------------------------------------------
p("C01", "Mutexes exclude, and the recursive mutex nests",
  "For every interleaving of threads that lock a mutex or recursive mutex (directly, through scoped_lock or through synchronized), at most one thread is inside the protected region and everything a thread did inside it is visible to the next holder. A recursive mutex may be locked again by its holder and becomes available to others exactly when the holder has unlocked as many times as it locked; an unlock by a thread that does not hold it is refused and changes nothing. A scoped lock releases exactly once what it acquired, on every way out of its scope.",
  "schedules histories", "all thread interleavings and all nesting/unlock histories of any number of threads and mutexes",
  "There is no unit test of the mutexes at all (only an include/instantiation test); exclusion and visibility quantify over schedules.",
  "src/concurrent/mutex.h src/concurrent/mutex.cpp src/concurrent/mutex_impl.h src/concurrent/lock.h",
  [("holder/count bookkeeping around a pthread mutex", "src/concurrent/mutex.cpp"), ("RAII scoped_lock", "src/concurrent/lock.h")])
p("C02", "Condition wait releases, wakes on notify and reacquires; timeouts are honest",
  "Waiting on a condition with a held mutex releases the mutex for the duration of the wait (for a recursive mutex at every nesting depth) and on return the caller holds it again at the same depth. A notify issued under the mutex after the waiter began waiting wakes at least one waiter and notify_all wakes all of them; a timed wait returns false no earlier than its timeout when nobody notifies, and true when it was notified; a wait by a thread that does not hold the mutex returns without blocking.",
  "schedules histories", "all interleavings of waiters and notifiers, all recursion depths, all timeouts",
  "No test touches condition directly; lost wake-ups and missing reacquisition depend on the schedule.",
  "src/concurrent/condition.h src/concurrent/condition.cpp src/concurrent/mutex_impl.h src/concurrent/internal.cpp",
  [("pthread_cond_(timed)wait with holder/count save and restore", "src/concurrent/condition.cpp")])
p("C03", "Reader/writer lock: writers exclude all; timed and try locks tell the truth",
  "For every interleaving, a writer holding the lock excludes all other readers and writers while any number of readers may hold it together. A lock call returns true exactly when the lock was acquired: an attempt with zero or negative timeout never blocks, a timed attempt fails only if the lock could not be had and not before its timeout, and a failed attempt leaves the lock state unchanged. The scoped and locker forms (rlock, wlock, scoped_rlock, scoped_wlock, with and without timeout) release exactly what they acquired and report whether they acquired it.",
  "schedules histories", "all interleavings of readers and writers and all mixes of blocking, timed and try attempts",
  "No test exists for rw_mutex; result truthfulness needs contended histories.",
  "src/concurrent/rwmutex.h src/concurrent/rwmutex.cpp src/concurrent/lock.h",
  [("pthread_rwlock with try/timed variants", "src/concurrent/rwmutex.cpp"), ("scoped_rwlock ownership transfer", "src/concurrent/rwmutex.h")])
p("C04", "The bounded producer/consumer buffer is a linearizable FIFO queue",
  "Under any number of concurrent producers and consumers every element pushed successfully is popped at most once, never invented, and in queue order, and the buffer never holds more than its capacity. A blocked push or pop completes once space or an element is available; a timed operation returns true exactly when it took effect, and false only after its timeout elapsed with the operation impossible, leaving the buffer unchanged. size, empty and clear act atomically with respect to these operations, and clear releases blocked producers.",
  "schedules histories", "all interleavings of push/pop/timed push/timed pop/clear/size/empty by any number of threads, any capacity",
  "The 15 pcbuf tests use one producer and one consumer with fixed sleeps; linearizability, conservation and absence of lost wake-ups quantify over schedules.",
  "src/concurrent/pcbuf.h src/concurrent/condition.cpp src/concurrent/mutex.cpp",
  [("monitor with a single condition and notify_all", "src/concurrent/pcbuf.h")])
p("C05", "Multiplexed channels deliver every write once, in one order, to every duplicate",
  "Every value written to any channel of a duplicated group is delivered exactly once to each channel that was in the group at the time, and all channels observe writes in the same order; a channel created by dup sees only writes made after it was created. A read blocks while the channel is empty and completes once there is an element; unget puts a value at the head of that one channel only; destroying one channel does not disturb the others.",
  "schedules histories", "all interleavings of write/read/unget/dup/destroy by any number of threads over any channel group",
  "chan has no behavioural test; exactly-once broadcast and the common order quantify over schedules.",
  "src/concurrent/chan.h",
  [("shared link set of channels guarded by a mutex; per-channel deque and condition", "src/concurrent/chan.h")])
p("C06", "A synchronized variable is a linearizable one-place buffer",
  "Concurrent put, take, read, try_put, try_take, swap and empty on one variable behave as if executed one at a time on a cell that is either empty or holds one value: a put succeeds only into an empty cell, a value is taken by at most one taker, read does not remove, swap replaces a value atomically and returns the old one. Blocked operations complete once the cell reaches the state they need; try operations never block and report whether they took effect.",
  "schedules histories", "all interleavings of the seven operations by any number of threads",
  "mvar has no behavioural test; linearizability and lost wake-ups quantify over schedules.",
  "src/concurrent/mvar.h", [("monitor over a shared_ptr cell", "src/concurrent/mvar.h")])
p("C07", "A quantity semaphore never hands out more than it has",
  "At every moment the sum of quantities acquired and not yet released never exceeds the initial quantity plus what was signalled: wait(q) takes exactly q units and only when q are available, and signal(q) returns exactly q. A waiter whose quantity is available eventually proceeds, and lock/unlock are wait(1)/signal(1).",
  "schedules histories", "all interleavings of wait(q)/signal(q)/lock/unlock, any quantities",
  "qsem has no behavioural test, and over-issue only shows with quantities above one under contention.",
  "src/concurrent/qsem.h", [("monitor over a counter", "src/concurrent/qsem.h")])
p("C08", "A thread runs its function exactly once, and join waits for it",
  "A constructed thread does not run until start; a successful start runs the given function exactly once in a new thread with a distinct id, and join returns true only after the function finished with its effects visible; join fails when the thread was never started, was already joined or was detached. Destroying or detaching a running thread lets it finish undisturbed, resources are released in every case, and a sleep that reports success paused the caller for no less than the requested time.",
  "schedules histories", "all lifecycles (start/join/detach/destroy in any order) and all interleavings with the running function",
  "thread has no behavioural test.",
  "src/concurrent/thread.h src/concurrent/thread.cpp",
  [("shared state between handle and pthread trampoline", "src/concurrent/thread.cpp")])
p("C09", "Independent objects can be used from different threads without races",
  "Threads that use the library on objects they do not share (digests, encoders, parsers, JSON values, archives, string conversions, containers, random generators, clocks, URIs, CGI programs, locks and queues of their own), or that only read objects nobody changes any more (search dictionaries, configurations, JSON trees, shared pointers to one object), produce the same results as when each runs alone, also when their first use of a part of the library coincides, and no execution contains a data race inside the library.",
  "schedules", "all interleavings of threads that share no library object, and of threads that share one through the synchronisation primitives",
  "The tests are single threaded except rpc; a race in hidden static state is invisible without a race detector.",
  "src/data/digest/md5.cpp src/data/string/ustring.cpp src/text/json/parser.cpp src/network/uri.cpp src/math/random/mersenne_twister.cpp src/system/time_util.cpp src/concurrent/mutex.cpp src/lang/shared_ptr.h",
  [("no mutable static state; immutable tables", "src/data/digest/md5.cpp, src/data/encoding/base64.cpp, src/data/string/ustring.cpp")])
# ---- data --------------------------------------------------------------------------------------------------
p("C10", "Binary archives give back what was stored, in a fixed portable format",
  "For every value of a serializable type (integers of all widths, float, double, bool, strings with any bytes, pair, vector, deque, list, set, map, unordered_map, unordered_set, built-in arrays, user types that list their members, nested arbitrarily) writing it to a binary archive and reading it back yields an equal value, consumes exactly the bytes written and leaves any following values and text in the stream readable, also through large buffers and through archives embedded in a longer stream. The bytes are a fixed encoding: little-endian fixed-width integers and floats, 32-bit element counts followed by the elements in iteration order.",
  "inputs", "all values and nestings of serializable types, all sequences of values in one archive",
  "The serialization tests round-trip a few dozen small values of each kind and do not check the byte format.",
  "src/data/serialization/base.h src/data/serialization/iostream.h src/data/serialization/string.h src/data/serialization/vector.h src/data/serialization/map.h src/data/serialization/set.h src/data/serialization/list.h src/data/serialization/deque.h src/data/serialization/pair.h src/data/serialization/array.h src/data/serialization/unordered_map.h src/data/serialization/unordered_set.h src/system/endian_util.h",
  [("length-prefixed container serialization", "src/data/serialization/*.h"), ("little-endian primitive I/O", "src/data/serialization/iostream.h")])
p("C11", "Reading a truncated or corrupt archive fails cleanly",
  "Deserializing any byte sequence that is a proper prefix of a valid archive, or a corrupted one, terminates, touches only memory the library owns, allocates no more than in proportion to the input, and leaves the archive in a failed state whenever bytes were missing; it never loops without consuming input. An interning table whose archive holds impossible or repeated ids is refused with an exception and left as it was.",
  "inputs fault_sequences", "all truncation points and all byte corruptions of archives of all supported types",
  "No test feeds a truncated or corrupt archive.",
  "src/data/serialization/iostream.h src/data/serialization/vector.h src/data/serialization/string.h src/data/serialization/map.h src/data/intern.h",
  [("stream state checks and bounded element loops", "src/data/serialization/*.h")])
p("C12", "Bit-level codes decode to exactly what was encoded",
  "For every sequence of values and every mix of codes (byte, fixed-width word of up to 32 bits, gamma and delta of values from 1, rice of any parameter up to 31, and the prefix code), the decoder applied to the encoder's output returns the same sequence, independent of how the codes are aligned against byte and word boundaries, whether the bytes are handed over in memory, through a stream or through a file, and also after seeking to the position of any code. An encoder is empty and reusable after it was flushed.",
  "inputs histories", "all values in each code's domain, all mixtures and alignments of codes in one bit stream",
  "code_test encodes homogeneous streams of one code; mixtures and alignments are not reached.",
  "src/data/code/code.h src/data/code/code.cpp",
  [("bit cursor shared by all codes", "src/data/code/code.cpp")])
p("C13", "Base64 is RFC 4648 and lossless",
  "For every byte string, encoding yields the RFC 4648 base64 text and decoding that text yields the original bytes; decoding a string with a character outside the alphabet or an impossible length is rejected with an exception and never reads or writes out of bounds.",
  "inputs", "all byte strings of all lengths, all malformed texts",
  "Tests use a handful of ASCII strings.",
  "src/data/encoding/base64.h src/data/encoding/base64.cpp", [("encode/decode tables", "src/data/encoding/base64.cpp")])
p("C14", "The MD5 digest is MD5, however the data is supplied",
  "For every byte string of every length the digest equals RFC 1321 MD5 whether the data is given as a string, an iterator range or a stream; the printed form is its 32 lower-case hex digits whatever the formatting state of the stream, and digests are ordered strictly and totally with equivalence meaning equality.",
  "inputs", "all byte strings, in particular all lengths around block and padding boundaries, and all three ways to supply them",
  "Tests check seven RFC vectors below 81 bytes.",
  "src/data/digest/md5.h src/data/digest/md5.cpp", [("block loop and padding", "src/data/digest/md5.cpp, src/data/digest/md5.h")])
p("C15", "The LRU map holds the most recently used entries and no others",
  "After any history of set, get, has, touch, remove, clear and operator[] the map contains exactly the most recently used keys up to its capacity, each with the value it was inserted with or assigned through operator[]: setting a key that is present changes nothing, inserting a new key into a full map evicts exactly the least recently used one, get, touch and operator[] make a key the most recently used, has does not, and getting a missing key throws and changes nothing.",
  "histories", "all histories of set/get/has/touch/remove/clear/operator[] over any capacity and key type",
  "lru_test runs short fixed histories.",
  "src/data/lru.h", [("list + hash map of iterators", "src/data/lru.h")])
p("C16", "Interning is a stable bijection between keys and dense ids",
  "After any history of insertions, lookups, clears, swaps and archive round trips, ids are exactly 0..n-1 in order of first insertion, equal keys always get the same id and different keys different ids, key-to-id and id-to-key are inverse, and looking up an absent key without permission to add reports absence and changes nothing. Restoring from an archive reproduces the same mapping.",
  "histories inputs", "all histories over all key sets, including keys shared with other containers",
  "intern_test uses a few fixed keys.",
  "src/data/intern.h", [("hash map plus id table", "src/data/intern.h")])
p("C17", "String search finds every occurrence and nothing else",
  "For every set of patterns and every text, Aho-Corasick search reports exactly the occurrences a naive scan finds, each with its pattern and position, and Knuth-Morris-Pratt search reports the first occurrence at or after the start, for overlapping, nested, periodic and non-occurring patterns alike.",
  "inputs", "all pattern sets (no empty pattern, no embedded NUL, distinct) and all texts",
  "Tests use four dictionaries and short texts; failure-link errors need particular overlaps.",
  "src/data/string/aho_corasick.h src/data/string/aho_corasick.cpp src/data/string/kmp.h",
  [("failure links and output links", "src/data/string/aho_corasick.cpp"), ("next table", "src/data/string/kmp.h")])
p("C18", "Sequence algorithms return true optima",
  "Edit distance, longest common subsequence and longest (strictly) increasing subsequence return the value a textbook dynamic program computes, for every pair of inputs of every element type, and obey the metric laws (symmetry, identity, triangle inequality) where they apply.",
  "inputs", "all pairs of strings over any alphabet",
  "algorithm_test checks a few literal pairs.",
  "src/data/string/algorithm.h", [("dynamic programs", "src/data/string/algorithm.h")])
p("C19", "UTF-8 conversion is exact and malformed text is never misread",
  "Every string of Unicode scalar values survives conversion to UTF-8 and back; decoding accepts exactly well-formed UTF-8 and rejects every overlong, truncated, surrogate or out-of-range sequence without reading past the end, and the checking function agrees with it. Sanitizing drops exactly the malformed sequences, the control characters below U+0020 and the noncharacters U+FFFE and U+FFFF and keeps everything else. The width conversions (half-width kana with their voicing marks to full width, full-width and basic Latin) change only the characters they are documented to change and are idempotent.",
  "inputs", "all code points, all byte strings",
  "Tests check selected sequences.",
  "src/data/string/ustring.h src/data/string/ustring.cpp", [("decoder/encoder, conversion tables", "src/data/string/ustring.h, src/data/string/ustring.cpp")])
p("C20", "String utilities split, join, strip and replace without losing text",
  "Splitting a string and joining the pieces with the same separator gives the original back; strip removes exactly the leading and trailing ASCII white space and nothing else; prefix/suffix tests and replacement agree with their definition for every input, narrow or wide, including empty strings, separators at the ends and overlapping matches.",
  "inputs", "all strings, separators and patterns",
  "utility_test samples fixed strings.",
  "src/data/string/utility.h", [("split/strip/replace functions", "src/data/string/utility.h")])
p("C21", "A sparse matrix always equals the dense matrix it stands for",
  "After any history of appending rows to a matrix file, closing, reopening and transposing it, the number of rows and every row and cell read back, in every form the reader offers, equal those of the dense matrix that underwent the same history; transposing twice is the identity whatever the amount of free memory the system reports, and reading rows in any order and repeatedly gives the same result.",
  "histories inputs", "all histories over matrices of any shape and density, and all thread-free I/O round trips",
  "sparse_matrix_test uses one small matrix per case.",
  "src/data/sparse_matrix/sparse_matrix.h src/data/sparse_matrix/sparse_matrix.cpp", [("row-compressed storage", "src/data/sparse_matrix/sparse_matrix.cpp")])
p("C22", "Prefix-sum trees and configuration files answer what was stored",
  "A Fenwick tree answers every prefix and range query with the true sum after any history of point updates. A configuration file answers every lookup with the value written in the file for that section and key (last definition wins), reports absent sections and keys as absent or empty, ignores comments and blank lines, and gives the same answers from a file and from a stream.",
  "histories inputs", "all update/query histories; all well-formed configuration texts",
  "Neither has a behavioural test.",
  "src/data/fenwick_tree.h src/data/config_file.h src/data/config_file.cpp",
  [("binary indexed tree", "src/data/fenwick_tree.h"), ("section/key map", "src/data/config_file.cpp")])
p("C23", "Owning value types never leak, double-free or alias by surprise",
  "For every history of construction, copy, assignment, self-assignment, swap, reset and destruction, optional, any, shared_ptr, weak_ptr and scoped_ptr construct and destroy each contained object exactly once, also when a contained object's copy throws, an assigned-from copy is independent where value semantics are promised, a shared object lives exactly as long as its last owner in whatever threads the owners are, an expired weak pointer never yields the object, and asking for a value that is absent or of another type is reported rather than invented. A singleton is constructed exactly once even if its first uses coincide.",
  "histories", "all operation histories over the owning types, with payloads whose copies may throw",
  "Tests cover a few histories each and cannot see leaks or double destruction.",
  "src/data/optional.h src/lang/any.h src/lang/shared_ptr.h src/lang/weak_ptr.h src/lang/scoped_ptr.h src/lang/function.h src/lang/enable_shared_from_this.h src/lang/singleton.h",
  [("placement construction/destruction, cloned holders, reference counts", "src/data/optional.h, src/lang/any.h, src/lang/shared_ptr.h")])
# ---- text --------------------------------------------------------------------------------------------------
p("C24", "CSV rows parse to exactly the fields that were written",
  "For every table of fields (any length, any bytes except NUL, quoted where needed, LF or CRLF line ends, with or without a final line end) the parser yields exactly the rows and fields that were written, the same through the string, iterator-pair and stream constructors and through next() and the iterator interface. On any other input it terminates and stays within the given range and its own buffers.",
  "inputs", "all tables and quotings, all field sizes around the internal buffer's growth, all malformed inputs",
  "csv_test checks six short inputs.",
  "src/text/csv.h src/text/csv.cpp", [("single-pass state machine with a growing buffer", "src/text/csv.h")])
p("C25", "JSON printed by the library parses back to an equal value",
  "For every JSON value (nested objects and arrays, all integers, finite doubles, booleans, null, strings of any valid UTF-8 including control characters and NUL) printing it compactly or pretty, with or without Unicode escaping, yields RFC 4627 JSON that parses back to an equal value with equal structure, floats to twelve significant digits (a float without fraction may come back as an integer); successive values on one stream are read one after another.",
  "inputs", "all JSON values up to the recursion the stack allows, both printers, both escape modes",
  "json_test prints and parses small hand-written values.",
  "src/text/json/base.h src/text/json/parser.cpp src/text/json/parser.h",
  [("print/pretty virtuals and string escaping", "src/text/json/base.h"), ("recursive-descent parser", "src/text/json/parser.cpp")])
p("C26", "The JSON parser accepts JSON, rejects the rest and never crashes",
  "Every RFC 4627 document is accepted with the value the grammar gives it (escapes, surrogate pairs, numbers, white space, nesting of at least 1000 levels), and every input that is not such a document is rejected (parse_error, end_of_data when there is nothing to read, invalid_argument for malformed UTF-8), as are numbers that do not fit, without hanging, exhausting the stack, reading past the input or corrupting memory; leading zeros and the white space of C are tolerated. A parse leaves the next value on the stream readable, and the event-callback interface reports the same structure as the parsed value.",
  "inputs", "all byte strings: valid documents, mutations, truncations and garbage, at every chunking of the input",
  "json_test lists a few dozen accepted and rejected literals.",
  "src/text/json/parser.cpp src/text/json/parser.h", [("recursive-descent parser with one-character lookahead", "src/text/json/parser.cpp")])
p("C27", "Conversion between JSON and C++ types is lossless or refused",
  "For every value of a convertible type (bool, int, long, long long, float, double, string, vector, map and unordered_map with string keys, optional, nested user types with named members) converting to JSON and back yields an equal value with every member under its own name, through json_cast, from_json and via_json alike; a JSON value of the wrong type or shape, an integer that does not fit its target and an unsigned integer that does not fit JSON are refused with bad_cast, a missing optional is absent, and the forms with a default keep the default for what is missing.",
  "inputs", "all values of all nestings of convertible types, all type mismatches at every position",
  "json_test converts fixed small values.",
  "src/text/json/cast.h src/text/json/serialization.h", [("from_json/to_json overloads and json archives", "src/text/json/cast.h, src/text/json/serialization.h")])
p("C28", "JSON value handles keep object, array and sharing semantics",
  "For every history of building and editing values through json handles (member and element access, add, merge, clone, assignment, iteration, size, count, comparison), the contents equal those of a model tree in which copies of a handle share one value, clone shares nothing and merge copies shallowly; operations on the wrong kind of value throw bad_cast and change nothing.",
  "histories", "all edit histories over shared and cloned JSON trees",
  "json_test exercises each operation once or twice.",
  "src/text/json/base.h", [("shared handles over a value hierarchy", "src/text/json/base.h")])
p("C29", "Generated XHTML is well formed and escapes every text and attribute",
  "For every tree of elements, attributes and texts built with the XHTML classes or the CGI builder, the output parses as well-formed markup to the same tree: every text and attribute value comes back byte for byte after unescaping (an attribute with an empty value may appear as its bare name), no data can open a tag, close an attribute or start an entity, and unescaped primitives appear verbatim where inserted.",
  "inputs", "all element trees with arbitrary text and attribute data",
  "There is no test of the XHTML classes beyond inclusion.",
  "src/text/xhtml.h src/text/xhtml.cpp src/network/cgi/xhtml_builder.cpp src/network/cgi/inserter.cpp src/network/cgi/xhtml_cgi.cpp src/network/cgi/tags.h",
  [("escaping on output", "src/text/xhtml.cpp"), ("builder stack", "src/network/cgi/xhtml_builder.cpp")])
# ---- math / system -----------------------------------------------------------------------------------------
p("C30", "The random generator is MT19937 and every derived draw stays in range",
  "For every seed the generator's output stream equals the reference MT19937, and the same seed always reproduces the same stream, also after copying the generator. Every bounded integer draw lies in its documented half-open interval, doubles lie in [0,1) with 53-bit resolution and scaled ones in their interval up to rounding, Gaussian draws are the Box-Muller values of the stream, and samples with and without replacement have the requested number of elements from the given population, distinct where they have to be; impossible requests are refused.",
  "inputs configurations", "all seeds, all bounds, streams long enough to pass several state refills",
  "random_test checks one seed and loose statistics.",
  "src/math/random.h src/math/random/mersenne_twister.h src/math/random/mersenne_twister.cpp",
  [("state refill and tempering", "src/math/random/mersenne_twister.cpp"), ("range reduction", "src/math/random.h")])
p("C31", "FFT computes the discrete Fourier transform and its inverse undoes it",
  "For every power-of-two length and every finite data vector the transform equals the discrete Fourier sum (positive exponent) within rounding error and the inverse, divided by the length, restores the data; the two-dimensional forms equal the row-and-column transform for every power-of-two shape, for vectors, plain arrays and other random-access ranges of float or double, without touching elements outside the range; other lengths and shapes are rejected with length_error and leave the data unchanged.",
  "inputs", "all lengths 2^k and shapes, all data, all non-power-of-two sizes",
  "fft_test checks small sizes.",
  "src/math/fft.h", [("in-place butterfly", "src/math/fft.h")])
p("C32", "Rational and vector arithmetic are exact and consistent",
  "Rational numbers are always in lowest terms with positive denominator, and sums, differences, products, quotients, in-place forms and equality equal exact rational arithmetic whenever the operands, results and least common denominators fit. Vectors of two to ten components add, scale, compare and multiply component by component, and inner, outer and cross products, norms and in-place forms agree with their definitions and with each other, also when operand and target are the same object.",
  "inputs", "all operand values and signs that fit, including aliasing operands",
  "ratio_test and vector_test check a few values.",
  "src/math/ratio.h src/math/vector.h", [("normalisation by gcd", "src/math/ratio.h"), ("component-wise operators", "src/math/vector.h")])
p("C33", "Clock and calendar times convert and subtract consistently",
  "Sums and differences of clock times and seconds are normalised (microseconds in [0,1000000)) and denote the instant that arithmetic gives, for negative amounts and carries alike; comparison orders the instants and conversion to floating seconds keeps them. Conversion from clock time to calendar time and back is the identity for every instant, calendar fields are those of the local time zone, and a calendar time built from the components of an existing local time denotes an instant with those components.",
  "inputs configurations", "all instants and durations, in the time zones of the host",
  "time_util_test samples a few dates (and its calendar tests fail here).",
  "src/system/time_util.h src/system/time_util.cpp src/concurrent/internal.cpp", [("normalisation and mktime/localtime conversion", "src/system/time_util.h, src/system/time_util.cpp")])
p("C34", "A mapped file shows the file's bytes; file and byte-order helpers are faithful",
  "A successfully opened memory map has the file's size and exposes exactly its bytes, bytes written through it appear in the file, closing it (explicitly, by reopening, moving, swap or destruction) releases mapping and descriptor exactly once, and a failed open (missing or empty file, failing system call) leaks nothing and leaves the object as it was. Byte-order conversions are involutions that reverse or keep the bytes as the host requires for every integral and floating value; file helpers report existence and size truthfully, and temporary files and descriptor streams carry bytes unchanged and are removed or closed.",
  "inputs histories fault_sequences", "all file contents and sizes, all open/close/swap/move histories, failing opens, all values",
  "mmapper_test maps one small file.",
  "src/system/mmapper.h src/system/mmapper.cpp src/system/endian_util.h src/system/endian_util.cpp src/system/file.h src/system/file.cpp src/system/syscall.h src/system/syscall.cpp",
  [("open/mmap/munmap with one owner", "src/system/mmapper.cpp"), ("byte reversal", "src/system/endian_util.h")])
# ---- network -----------------------------------------------------------------------------------------------
p("C35", "URIs are split and percent-encoded as RFC 3986 says",
  "Parsing any RFC 3986 URI or relative reference yields exactly its scheme, user information, host, port, path, query and fragment, and any other text yields an empty URI without reading outside the string; printing a parsed URI that has a scheme and an authority or absolute path, and parsing that again, gives the same components. Percent-encoding any byte string yields only unreserved characters, '+' and %XX escapes, and decoding gives the bytes back.",
  "inputs", "all URIs and references of the RFC grammar, all byte strings",
  "uri_test parses a dozen URIs.",
  "src/network/uri.h src/network/uri.cpp src/network/cgi/util.cpp", [("recursive-descent RFC 3986 grammar", "src/network/uri.cpp")])
p("C36", "A stream socket carries bytes intact despite partial transfers and faults",
  "Whatever the sizes of writes and reads, the chunking of the transport, interrupted or short transfers, the bytes read are exactly the bytes written in order, a read returns fewer bytes than asked only at end of stream or time-out, line reads return each line once without its LF or CRLF up to the given limit, and an error or disconnect is reported and never turned into data; bytes buffered on one connection never appear on the next one of the same object. Timeouts end a blocked read or write in bounded time; every descriptor is closed exactly once.",
  "inputs histories fault_sequences", "all write/read/getline/flush histories and all fault sequences (short transfers, EINTR, disconnects, timeouts) of the system calls",
  "No test uses stream_socket directly; fault sequences cannot be produced by the tests.",
  "src/network/socket.h src/network/socket.cpp", [("buffered read/write with retry loops", "src/network/socket.cpp")])
p("C37", "socketstream is a faithful iostream over the connection",
  "Formatted and unformatted reads, line reads, peeks and writes through a socketstream deliver the peer's bytes unchanged (all 256 byte values, any buffer alignment, interrupted and short transfers) and send exactly what was written once flushed or closed; end of stream and errors set the stream state, a stream without a connection fails, and a reconnected stream delivers nothing of its earlier connection.",
  "inputs histories fault_sequences", "all read/write histories over all byte contents and transfer chunkings",
  "No test drives socketstream apart from RPC.",
  "src/network/iostream.h src/network/socket.cpp", [("basic_socketstreambuf underflow/overflow/sync", "src/network/iostream.h")])
p("C38", "HTTP messages keep their head and body across the wire",
  "A request or response sent over a connection is received with the same method, target, version, status, reason, header fields (names compared case-insensitively, order and spelling kept, lines shorter than 4096 bytes) and body bytes, whether the body is delimited by Content-Length, chunked transfer coding or connection close, and whatever the transport's chunking; the body stream ends exactly at the body's end so that a following message on the connection can be read, and nothing is added to the head that was received. A body written after a message without one was sent is streamed to the peer, and a length the program sets itself is sent as set. Malformed heads are refused with an exception or read as some head, a line that reaches the limit is refused and never read as something else, a malformed chunk size or a chunk that does not end where it says ends the body, a message that ends after its first line is refused and any other truncated message yields a prefix of its body; nothing hangs or touches foreign memory.",
  "inputs histories fault_sequences", "all messages, header maps, body contents and framings, all transport chunkings and truncations",
  "There is no HTTP test at all.",
  "src/network/http/base.h src/network/http/base.cpp src/network/http/stream.h",
  [("header parser", "src/network/http/base.cpp"), ("length- and chunk-delimited stream buffers", "src/network/http/base.cpp")])
p("C39", "An RPC call returns the server function's result for that call, or throws",
  "Each call through a client (a client is used by one thread at a time) runs the named function on the server at most once with exactly the argument values passed, and returns exactly its result to the caller that made it, for any number of concurrent clients and server threads; a call that returns normally ran exactly once. An unknown method, a version mismatch, an unreachable server, a dropped connection or a function that threw anything ends the call with an rpc_error, a request that breaks off is not run, and the server goes on serving other calls. Stopping a server releases every thread that waits for it once no function runs in it any more, and a stopped server can be started again.",
  "schedules histories fault_sequences", "all interleavings of concurrent clients, all argument values, all connection losses and server-side exceptions",
  "rpc_test makes sequential calls with fixed values on an undisturbed loopback.",
  "src/network/rpc.h src/network/rpc/base.h src/network/rpc/base.cpp src/network/rpc/caller.h src/network/rpc/invoker.h src/network/rpc/reflect.h src/network/rpc/exception.h",
  [("call frame: name, version, arguments, reply code", "src/network/rpc/caller.h, src/network/rpc/invoker.h"), ("thread-per-connection accept loop", "src/network/rpc/base.cpp")])
p("C40", "The caching resolver answers like the plain one, bounded in size and age",
  "A caching resolver always answers with the addresses its underlying lookup returned for that host and port: an entry is served from the cache while it is within its lifetime since its last use and has not been evicted, entries unused for longer than that, deleted and cleared entries are looked up again, the number of entries never exceeds the maximum (0 caches nothing) and the least recently used one is evicted, to the second. It can be shared by threads without races or crashes. Connecting by name tries the addresses the resolver gives in their order.",
  "histories schedules", "all histories of resolve/delete/clear over time, all interleavings of threads sharing a resolver",
  "No test uses a resolver beyond localhost.",
  "src/network/dns.h src/network/dns.cpp", [("map plus access-time order under a lock", "src/network/dns.cpp")])
p("C41", "CGI parameters and uploads reach the program exactly as sent",
  "For every set of parameters sent in a query string, an urlencoded body or a multipart body (quoted or bare boundary, nested parts, any contents), the program sees every name with exactly the value sent after decoding, in the order sent where a name is repeated, every upload with its name and bytes, and the environment as given; the response carries the headers, status and body it produced, and the body's bytes beyond the announced length are not consumed. A request that is longer than the limit, shorter than announced or multipart without a boundary is refused without running the program, a multipart body that breaks off yields only its complete parts, and malformed requests neither hang or exhaust the parser nor touch memory it does not own; nothing of one request is visible to the next.",
  "inputs fault_sequences", "all parameter names and values, all multipart bodies and boundaries, all malformed requests",
  "There is no CGI test at all.",
  "src/network/cgi/base.h src/network/cgi/base.cpp src/network/cgi/cgi.cpp src/network/cgi/util.cpp",
  [("query, urlencoded and multipart parsers", "src/network/cgi/base.cpp")])
p("C42", "The embedded HTTP server answers every request, each with its own response",
  "Under any number of concurrent and successive connections, well-formed requests (GET, or POST with Content-Length) to the embedded server are each answered exactly once on their own connection with the status, headers and body their own handler instance produced for that request's path, query, header fields, body and peer address; each handler instance runs one request at a time. Malformed requests, handlers that throw anything and clients that stall, break off or disconnect affect only their own connection.",
  "schedules inputs fault_sequences", "all interleavings of connections over all thread counts; well-formed, malformed and aborted requests",
  "There is no server test at all.",
  "src/network/cgi/server.h src/network/cgi/server.cpp src/network/cgi/base.cpp",
  [("one cloned handler per thread, accept loop", "src/network/cgi/server.cpp")])
p("C43", "IPv4 addresses keep their four octets",
  "For every address, construction from octets, printing, parsing of dotted text and ordering agree: printing then parsing gives the same address, comparison is a strict total order by octets, the named constants are the standard addresses, and exactly the texts of four decimal octets of one to three digits up to 255 are parsed, everything else giving the address none.",
  "inputs", "all addresses",
  "ipv4_test samples a few addresses.",
  "src/network/ipv4.h src/network/ipv4.cpp", [("four-octet value", "src/network/ipv4.h")])
# ---- databases, MessagePack-RPC, FastCGI --------------------------------------------------------------------------------------
p("C50", "Database statements bind and fetch values unchanged",
  "Through the MySQL and PostgreSQL connectors, a value bound to a statement, with the typed interface of one to ten values or as a vector, is the value stored, and a row fetched holds the values stored: NULL, booleans, integers of every width and sign up to 64 bits, floating-point numbers bit for bit, strings of any length (binary ones for MySQL, without NUL for PostgreSQL) and timestamps from 1970 to 9999 to the microsecond. A value that does not fit the type asked for, a row of another width and a wrong number of parameters raise database_error and are never converted silently (NULL is fetched as the empty string and as no other value). Every '?' outside quotes, and no other, is a parameter; a statement executes its own text whatever other statements were prepared; connection parameters reach the client library unchanged whatever characters they contain; every handle of the client library is released exactly once, and nothing is written to the program's own output.",
  "inputs histories", "all values, column types and statement histories", "There is no database test.",
  "src/database/statement.h src/database/type.h src/database/mysql/statement.cpp src/database/mysql/value.cpp src/database/postgresql/statement.cpp src/database/postgresql/value.cpp src/database/postgresql/result.cpp src/database/postgresql/connection.cpp", [("typed binders", "src/database/statement.h"), ("MySQL values", "src/database/mysql/value.cpp"), ("PostgreSQL values", "src/database/postgresql/value.cpp")])
p("C51", "MessagePack-RPC calls run at most once and return their own result or an error",
  "Whatever clients, interleavings and connection failures there are, a MessagePack-RPC call runs its function at most once, with exactly the arguments passed, and returns the result of that run or ends with an rpc_error that says why: an unknown method with its name, arguments of other types, the message of whatever the function threw, or a time-out that is never raised early; a reply that comes late or to another call is never taken for this one's. Arguments a peer leaves out are never indeterminate. Whatever bytes a peer sends, and wherever it hangs up or stops reading, the server and other connections go on unharmed, a request that is incomplete is never run, and nothing follows a message that was cut in half. A stopped server runs no function and answers nobody.",
  "schedules inputs fault_sequences", "all interleavings of clients, server threads, faults and time-outs; all argument values and all bytes from a peer",
  "mprpc_test is not built here, and makes single calls.",
  "src/network/mprpc/rpc_client.h src/network/mprpc/rpc_client.cpp src/network/mprpc/rpc_server.h src/network/mprpc/rpc_server.cpp src/network/mprpc/rpc_stream.cpp src/network/mprpc/object_stream.cpp src/network/mprpc/argument.h src/network/mprpc/invoker.h src/network/mprpc/caller.h src/network/mprpc/socket.cpp",
  [("message ids and replies", "src/network/mprpc/rpc_stream.cpp"), ("dispatch", "src/network/mprpc/rpc_server.cpp"), ("arguments", "src/network/mprpc/argument.h")])
p("C52", "A program runs unchanged as FastCGI",
  "For every sequence of FastCGI requests, one per connection, a CGI program under run_fcgi is run once per request, sees exactly the parameters and the body bytes of that request however the records are split, and its output and error streams reach the front end byte for byte as that request's response; a request whose program throws ends without taking the server or later requests with it.",
  "inputs histories", "all requests, record splittings and request histories", "No test runs it.",
  "src/network/cgi/fcgi.cpp src/network/cgi/base.cpp", [("FCGX stream adapters", "src/network/cgi/fcgi.cpp")])
p("C53", "Database transactions are all or nothing",
  "For both connectors, whatever client call fails and whenever the session is lost: when a transaction block (or begin_transaction ... commit) ends without an exception reaching the caller, every row its successful statements stored is visible and was committed in one transaction, also when the block is left by return; when it ends with an exception, none is, and an exception of the block's own passes unchanged. Nothing of a transaction is ever executed outside it on a new connection, a connection destroyed in the middle of one rolls it back, statements outside transactions take effect at once or raise database_error and have none, a reachable server is used again after any failure, every error is a database_error, and every handle and session of the client library is released exactly once.",
  "histories fault_sequences", "all histories of calls and all points of failure", "There is no database test.",
  "src/database/util.h src/database/mysql/connection.cpp src/database/postgresql/connection.cpp", [("transaction block", "src/database/util.h"), ("MySQL session", "src/database/mysql/connection.cpp"), ("PostgreSQL session", "src/database/postgresql/connection.cpp")])
