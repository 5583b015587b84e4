I={}
I['C01']="""Message -> digest is a function of length and contents. Padding and block logic depend on the length modulo the block and on whether it
is long, so every length over many blocks is enumerated with several contents; digests depend on the contents through fixed circuits, covered by every value of every byte at the
lengths where a block ends. The pointer/length and C-string forms run on the same data. Oracle: `ref::digest`. Tests have a few vectors; they miss the lengths block-9..block-1 where padding was wrong."""
I['C02']="""A context is explored as a graph: a node is (bytes fed, context bytes), an edge an update of every size 0..2*block+6. Each distinct state is digested on a copy and must give the digest of the prefix;
each is also re-initialised. All ways to cut a message into pieces are paths of this graph, which is why merging equal states is exact: equal bytes of a plain-data context have equal futures."""
I['C03']="""For one-shot output every bit length is enumerated; for piecewise output the squeezing context is explored as a state graph with every piece size. Bytes after the last one are guarded."""
I['C04']="""Lengths at each width boundary of the counters (2^29 bytes = 2^32 bits, 2^31, 2^32), by each way of delivery. A 4 GiB message is a 1 MiB window mapped 4,096 times; the library build is optimised because 70 GB are hashed. The
run of lengths right after a boundary is done on copies of one context, so that padding at every residue is seen after 2^29 and 2^32 bytes."""
I['C05']="""The stream is a cookie stream: the harness answers each read of stdio with every pattern of short reads, in every buffering mode and from several start offsets, with temporary files and pushed-back and already buffered bytes as well."""
I['C06']="""Every tuple of pieces over a small alphabet of piece kinds (null, empty, sizes at block edges) is passed in a real variadic call; fixed lists of up to 600 pieces are calls generated by macros."""
I['C07']="""Key preparation depends on the key length relative to the block, the rest on the message length; both are enumerated completely around their boundaries, through the per-algorithm function and `pgfe_hmac`."""
I['C08']="""Every sequence of calls over {init, set_key, update, digest} with sizes at the boundaries; the model holds the last key and the concatenated updates; the digest is taken on a copy of the context in every state in which the model defines it."""
I['C09']="""Every sequence of calls on one object over all overloads, direct and through both base classes, with a model that concatenates; every requested bit length as the last step."""
I['C10']="""Every constructor form by every update sequence by several earlier contents of the object's memory."""
I['C11']="""A codec works on units of 1, 3 or 5 bytes; every string of up to 3 bytes, and at every position of longer strings every pair of values of two neighbouring bytes, covers each unit's circuit and its tail completely; lengths cover buffering."""
I['C12']="""Each string is encoded by the model, respelt in each way the property allows, and decoded by the function and by objects through every overload."""
I['C13']="""The decoder looks at one character at a time, so texts over character classes (smallest, largest, middle letter, padding, noise below and above 0x80, letters of other alphabets) up to 7 characters reach each of its states; every arbitrary character then stands at every place of valid texts. Output buffers have exactly the documented room, under AddressSanitizer."""
I['C14']="""Every sequence of calls on one object, with lengths around the sizes of its cache, through all overloads; each answer must be a fresh object's."""
I['C15']="""Stateless model checking (section 1) of groups of calls on one shared object: every schedule, every access checked for a race, every result compared with the single-threaded one."""
I['C16']="""The same for threads that share nothing: every pair of the programs that use every public operation, on first use and later. Hidden shared state (static buffers, lazily built tables, non-reentrant libc functions) shows as a race or as a wrong result."""
I['C17']="""Interleavings of the steps of two (three) programs on one thread, with a bound on the number of switches; all interleavings for two instances of one program. Finds shared state that needs no thread."""
I['C18']="""Secret lengths, counters at every bit position, digit counts and every truncation offset; codes that are rare (many leading zeros, extreme values) come from a search of 6*10^9 counters, whose results are stored in `harness/otpcodes.hpp` and re-derived by the reference at run time."""
I['C19']="""Every sequence of calls over 19 operations in lockstep with a model (secret, counter); each answer is read directly, as a string, and through the base class."""
I['C20']="""The harness is the clock. For each interval, start and digit count the clock takes every value around the boundaries of periods near, and far from, the start. The process's time zone is part of the
environment: the clock also moves around the changes of eight zones (daylight saving time, odd offsets, an invalid name)."""
I['C21']="""Every history of clock moves (also inside a call), settings, secrets and queries; the model is RFC 6238 of the clock and settings of that moment. One object also lives through
changes of the process's time zone."""
I['C22']="""Keys of every length and content families, blocks with every single bit and byte value; words chosen so that each round function sees each S-box index; decryption must invert."""
I['C23']="""Every length through the functions and eight overloads with exactly sized outputs; every short sequence of calls on one object; the model is ECB with zero padding."""
I['C24']="""Texts over classes (digits, letters of both cases, x, X, h, space, noise above 0x80) up to 6 characters, every arbitrary pair, and every character at every place of longer texts: parse, clean (both forms), length, from_hex_string must agree with one model."""
I['C25']="""Every string of up to 6 bytes over {0, 1, 'a', 255}: trimming depends only on which bytes are zero; every constructor, helper and conversion; histories of trims and copies."""
I['C26']="""The tables are finite, so they are checked completely; the accepted names are checked against every string of up to 2 (3) characters and everything one edit away from a name."""
I['C27']="""Differential: every overload and pair of overloads with the same bytes, on the object and through each base class, in four builds, because the order in which arguments are evaluated differs between compilers."""
I['C28']="""The finite set of builds (2 compilers x 6 settings: four levels with assertions, -Os without, and unsigned plain char) is enumerated completely; in each the programs and families must give the reference's output. A build that fails is a violation of this property (elsewhere it is an error of the check)."""
I['C29']="""Everything the library can see without having written it (stack, heap, object and context storage, output buffers) is filled with each of 37 patterns, among them 32- and 64-bit words with small values; the results must not change."""
I['C30']="""For each program the allocations made inside the library are numbered, then each in turn is made to fail (alone, with all later ones, and with the call repeated afterwards); afterwards results must be right and nothing may be leaked or locked."""
I['C31']="""Exactly sized buffers: once with AddressSanitizer, once with pages nobody may touch on either side and inputs in read-only memory, which also catches writes to const inputs and accesses from libc functions."""
I['C32']="""Every life of an object (create, use, reset, copy, move, destroy) up to a length, with all allocations counted; every operation on data of many megabytes with a 1 MiB stack."""
I['C33']="""The interrupt model checker (section 1). The program is executed once to number its points and record what it accesses; then again for each point that can matter, with the other program run to its end
inside it. Both results are compared with the reference. Static or thread-local scratch memory, which neither threads (C16) nor alternation between calls (C17) can tell from a local variable when it is thread-local, fails here."""
I['C34']="""A child process is prepared for each phase and unit (a static object built before main takes the case from the environment): there the unit runs under every combination of the settings, its results are compared with the
reference, and the state of the process (settings, signal mask and handlers, environment, directory, masks, open files, random numbers, timers, limits, stream formats, output) with what it was. The state space is the product of the settings and the phases, and is enumerated completely."""
I['C35']="""Operation sequences as in the other history checks, but of whole groups, and with the lifetimes explored: an argument is freed (AddressSanitizer sees later reads) or its place gets other contents and the next argument; each result is kept and looked at after every later
operation, or overwritten, or destroyed. Finds kept references, results that share storage, early release, and caches keyed by address."""
I['C36']="""The checks of single functions rely on copying contexts; here it is the subject. The model is copied along with the bytes. A context that holds its own address, or state kept elsewhere under its address, differs in at least one of the ten ways."""
I['C37']="""The transitions are `#include` lines: every header alone, every ordered pair, every triple of C headers, and complete programs from every starting point in both directions, under each compiler, standard and setting. Each state is examined through the
compiler (all names used, sizes and constants compared with the harness's own) and, for whole programs, by linking with the library and running: every result must be what the same text gives in the harness. It is the only check that calls the library from C."""
