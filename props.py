"""What each property's check runs: harness, library build, level, and bounds. Read by check.py and tools/manifest.py."""

VARIANTS = {
    "asan": {"cc": "clang", "cxx": "clang++", "flags": "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer"},
    "o2": {"cc": "clang", "cxx": "clang++", "flags": "-O2"},
    "fast": {"cc": "gcc", "cxx": "g++", "flags": "-O3 -fwrapv -fno-tree-vectorize -funroll-all-loops -fpeel-loops "
             "--param max-completely-peel-times=100 --param max-completely-peeled-insns=4000"},
    "zero": {"cc": "clang", "cxx": "clang++", "flags": "-O2 -ftrivial-auto-var-init=zero"},
    "pattern": {"cc": "clang", "cxx": "clang++", "flags": "-O2 -ftrivial-auto-var-init=pattern"},
    "gcc": {"cc": "gcc", "cxx": "g++", "flags": "-O2"},
}
for _v in VARIANTS.values():
    _v["flags"] += " -DNDEBUG"  # as the library is shipped; C28 has builds of both kinds
for _cc, _cxx in (("gcc", "g++"), ("clang", "clang++")):
    for _o in "0123":
        VARIANTS["%s-O%s" % (_cc, _o)] = {"cc": _cc, "cxx": _cxx, "flags": "-O" + _o, "plain": True}
    for _n, _f in (("Os", "-Os -DNDEBUG"), ("uchar", "-O2 -funsigned-char -DNDEBUG")):
        VARIANTS["%s-%s" % (_cc, _n)] = {"cc": _cc, "cxx": _cxx, "flags": _f, "plain": True}

# Instrumented for threads, but linked with harness/tsrt.cpp instead of the ThreadSanitizer runtime.
WRAPPED = ("memcpy memmove memset mempcpy memcmp bcmp memchr strlen strnlen strcpy stpcpy strncpy strcat strncat strcmp strncmp strchr strrchr strstr vsnprintf snprintf vsprintf sprintf fread malloc free calloc realloc aligned_alloc posix_memalign strdup strtok gmtime localtime asctime ctime strerror rand srand random srandom drand48 lrand48 setenv putenv tzset mblen l64a ecvt").split()
VARIANTS["threads"] = {"cc": "clang", "cxx": "clang++", "flags": "-O1 -g1 -fsanitize=thread -DNDEBUG", "cxxflags": "-D_GLIBCXX_EXTERN_TEMPLATE=0", "hflags": "-DTSRT",
                       "rtflags": "-O2", "static": True, "linkflags": "-fno-sanitize=thread -rdynamic " + " ".join("-Wl,--wrap=" + w for w in WRAPPED)}
VARIANTS["irq"] = {"cc": "clang", "cxx": "clang++", "flags": "-O1 -g1 -fsanitize=thread -DNDEBUG", "cxxflags": "-D_GLIBCXX_EXTERN_TEMPLATE=0", "hflags": "-DTSRT",
                   "rtflags": "-O2", "static": True, "linkflags": "-fno-sanitize=thread " + " ".join("-Wl,--wrap=" + w for w in ("pthread_mutex_lock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_once", "free", "fread", "vsnprintf", "snprintf", "sprintf", "strcpy", "strncpy", "strcat", "gmtime", "localtime"))}

REFS = ("The reference models (harness/ref) are the standards written again from their definitions (round constants computed from "
        "primes, sines and LFSRs, Blowfish tables from the digits of pi); each run compares them with Python's hashlib, hmac and base64.")
BOUND = "Exhaustive inside the stated bounds only; behaviour outside them is not explored."
SAN = "The library is built from the current tree with clang's AddressSanitizer, so a stray access in an explored case is a failure too."


THREADS = ["Threads run one at a time and switch only at synchronisation operations (locks, conditions, onces, static initialisation, atomics); between these every access inside the library is checked by "
           "happens-before, so a race that would need another switch is reported all the same. Starting and unlocking are not branched on, as they commute.",
           "Sequential consistency: behaviours that only weakly ordered atomics could show are not explored. Code inside libc and the compiled part of libstdc++ is not instrumented; memory functions are, and "
           "functions known to keep hidden state count as writes to it."]


def ex(jobs, rule, bounds, extra=(), note="", tech=None, **kw):
    return dict(level="exploration", jobs=jobs, rule=rule, bounds=bounds, assumptions=[BOUND, REFS, *extra],
                technique=tech or "bounded exhaustive enumeration of executions of the real code against a reference model", note=note, **kw)


def mc(jobs, bounds, extra=(), note="", tech=None, **kw):
    return dict(level="model_checking", jobs=jobs, bounds=bounds, assumptions=[BOUND, REFS, *extra],
                technique=tech or "explicit-state exploration of every call sequence on the real code in lockstep with a model", note=note, **kw)


def job(src, variant="asan", **kw):
    return dict(src=src, variant=variant, **kw)


PROPS = {
    "C01": ex([job("c01.cpp", part=1), job("c01.cpp", "fast", part=2)],
              "A case is an algorithm, a length and a content family; it is non-trivial when its digest differs from all others counted (distinct digests).",
              {"quick": "every length 0..1300 x 5 content patterns, 0..1300 as a C string, every value of every byte of messages of block-9 and block bytes, all-b messages, "
                        "every alignment 1..15, 2^k-2..2^k+2 for k=11..20, every residue of the length modulo the block at 2^11..2^19 and selected ones to 2^24, for each of 12 algorithms",
               "thorough": "lengths 0..8300 x 8 patterns, every value of every byte for 8 lengths around a block, powers of two to 2^24"}, [SAN]),
    "C02": mc([job("c02.cpp")],
              {"quick": "state graph of a context: nodes (bytes fed, context bytes), every update size 0..2*block+6 at every prefix, 4 memory prefills (0xA5 and ramp in full, two shallower); "
                        "every distinct state digested on a copy and compared; init on every state; every constant piece size 1..2*block+1 and around 1024..65536 over long messages",
               "thorough": "prefixes to 3*block+6 with two message patterns, piece sizes to 5*block"}, [SAN, "The context is plain data (a C struct), so a byte copy is a snapshot of it."]),
    "C03": mc([job("c03.cpp", part=1), job("c03.cpp", "o2", part=2, hang=200)],
              {"quick": "every bit length 0..3 blocks (all residues for small outputs), powers of two to 2^17 bytes, every message length 0..700; state graph of piecewise squeezing "
                        "to 2*block+4 bytes with pieces of every size; one output longer than 2^32 bits per algorithm",
               "thorough": "bit lengths to 6 blocks, messages to 4200 bytes, squeezing to 4*block+4, outputs to 2^33 bits"}, [SAN]),
    "C04": ex([job("c04.cpp", "fast", hang=200)],
              "A case is an algorithm, a total length past a width boundary (2^29 bytes = 2^32 bits, 2^31, 2^32) and a delivery (one update, a buffered prefix first, small updates, one-shot, "
              "HMAC); distinct digests are counted.",
              {"quick": "all 16 algorithms at 2^32+77 bytes after 5 buffered bytes, and at 2^29+1 in updates of 65521; selected algorithms at 2^29, 2^29-1 and 2^31+9 and one-shot; every length in a run past 2^29 and past 2^32 (copies of one context carried on by each count of bytes)",
               "thorough": "all 16 algorithms x {2^29-1, 2^29, 2^29+1, 2^31+9, 2^32, 2^32+77} x every delivery"},
              ["Expected digests are stored in data/long_digests.txt, computed by tools/gen_long.py with hashlib (RawSHAKE: the reference model).",
               "The message is a repeating window mapped many times, so the data is periodic with a period coprime to the block sizes."]),
    "C05": ex([job("c05.cpp", part=1), job("c05.cpp", "fast", part=2, hang=200)],
              "A case is an algorithm, a file size, a pattern of short reads returned to stdio, a buffering mode and a start offset; distinct digests are counted.",
              {"quick": "every size 0..2100; 7 read patterns x 3 buffering modes x 4 offsets at 1024k-2..1024k+2 for k<=5; sizes to 1 MiB; a file of 2^32+77 bytes (MD5, RawSHAKE128)", "thorough": "every size 0..8400 under every pattern and mode; k<=9; 2^32+77 bytes, every algorithm"},
              [SAN, "Streams are fopencookie streams whose read function decides how many bytes each read returns, and temporary files."]),
    "C06": ex([job("c06.cpp", part=1), job("c06.cpp", "fast", part=2, hang=200)],
              "A case is an algorithm and a tuple of pieces (null, empty, or a size around a block); distinct digests are counted.",
              {"quick": "every tuple of up to 2 pieces over 12 kinds, of 3 over 8, of 4 over 6; lists of 5..8 pieces with one odd piece at each place; 12 kinds of long lists of 9..600 pieces; pieces to 2^20 and one piece longer than 2^32 bytes", "thorough": "every tuple of up to 3 over 12 and of 4 over 8"}, [SAN]),
    "C07": ex([job("c07.cpp", part=1), job("c07.cpp", "fast", part=2, hang=200)],
              "A case is an algorithm, key length, message length and content pattern; distinct MACs are counted.",
              {"quick": "every key length 0..3*block+10 x 5 message lengths x 4 patterns; every message length 0..3*block+10 x 6 key lengths x 3; powers of two to 2^17; keys and messages longer than 2^29 and 2^32 bytes", "thorough": "every pair of key and message lengths 0..2*block+10; powers to 2^20"}, [SAN]),
    "C08": mc([job("c08.cpp")],
              {"quick": "every sequence of 3 calls over init, set_key (8 lengths), update (6 lengths), digest, re-init on a digested context; 3 memory prefills; the digest is taken on a copy in every state where the model defines it",
               "thorough": "sequences of 5 calls"}, [SAN, "A digest is taken at most once per init/set_key."]),
    "C09": mc([job("c09.cpp", part=1), job("c09.cpp", "fast", part=2, shards=2, hang=200)],
              {"quick": "every sequence of 4 calls over every update overload, reset and get_digest(bits), 16 algorithms, 4 memory prefills (others to depth 3); every requested bit length 0..560 (fixed) and 0..4400 (SHAKE), and lengths near 2^32, 2^35 and 2^64; every message length through every overload; 2^32+77 bytes by each overload",
               "thorough": "sequences of 5 calls"}, [SAN]),
    "C10": mc([job("c10.cpp")],
              {"quick": "4 constructor forms x 7 key lengths x 5 memory prefills x every sequence of 3 updates over all overloads; every key length 0..3*block+2; every length through every key form and overload, long ones to 2^20", "thorough": "sequences of 4 updates"}, [SAN]),
    "C11": ex([job("c11.cpp", part=1), job("c11.cpp", "o2", part=2, hang=400)],
              "A case is an encoding and a family of byte strings; every string is one execution; distinct encoded texts are counted (up to a cap).",
              {"quick": "every byte string of up to 3 bytes; every pair of values of neighbouring bytes for lengths 4..11 over 3 backgrounds; every pair of places with boundary values to length 21; every length 0..420 x 7 patterns, to 10^6; functions and objects at data and text lengths around 2^11..2^24; 2^31+1 bytes for two encodings",
               "thorough": "neighbour pairs to length 16, boundary pairs to 40, lengths to 1500, 2^32+7 bytes for all five"}, [SAN]),
    "C12": ex([job("c12.cpp", part=1), job("c12.cpp", "o2", part=2, hang=400)],
              "A case is an encoding and a family of byte strings; each string is encoded, respelt (no padding, other case, alternating case, other alphabet) and decoded; distinct decoded strings are counted.",
              {"quick": "every byte string of up to 2 bytes and a quarter of those of 3; neighbour pairs to length 11; boundary pairs to 18; every length 0..420 x 7 patterns; functions and objects around 2^11..2^24; 2^31+1 bytes", "thorough": "every string of up to 3 bytes; to lengths 16, 40 and 1500; 2^32+7 bytes"}, [SAN]),
    "C13": ex([job("c13.cpp")],
              "A case is an encoding and a family of texts; every text is decoded once into an exactly sized buffer; distinct decoded strings are counted.",
              {"quick": "every text of up to 7 characters over 10-11 character classes, every text of up to 2 arbitrary characters, every foreign character at every place of texts to 26 characters and of 9 longer lengths; every length 0..700 and around powers of two to 2^18 in 9 noisy forms", "thorough": "texts of 8-9 classes, 3 arbitrary characters, to 130 characters"}, [SAN]),
    "C14": mc([job("c14.cpp", part=1), job("c14.cpp", "o2", part=2, shards=2, hang=200)],
              {"quick": "calls with texts of 2^32 characters and decoded data of 3.6*10^9 bytes; every sequence of 4 encode/decode calls over lengths around the buffer sizes, every pair of lengths 0..170, and same-length inputs that differ in one byte, for five encodings and all overloads", "thorough": "sequences of 5; pairs to 400"}, [SAN]),
    "C18": ex([job("c18.cpp", part=1), job("c18.cpp", "fast", part=2, shards=2, hang=200)],
              "A case is a hash with a secret length, a counter family (every power of two and its neighbours) or a range of counters, and every digit count; distinct codes are counted.",
              {"quick": "every secret length 0..2*block+3 x 2 patterns x counters 2^k-1, 2^k, 2^k+1; counters 0..4000; digits 1..10; every truncation offset is reached; secrets to 2^20 bytes and of 2^31 and 2^32 bytes; counters whose codes begin with 1 to 8 zeros or lie at the ends of the 31-bit range", "thorough": "5 patterns; counters to 40000"},
              [SAN, "With MD5, where the window can leave the digest, only determinism, range and the digest-only source are required."]),
    "C19": mc([job("c19.cpp", part=1), job("c19.cpp", "fast", part=2, shards=2, hang=200)],
              {"quick": "5 ways to build the object x 12 hashes x 4 memory prefills x every sequence of up to 3 (SHA-1: 4) of 19 calls, directly and through the base class; every secret length 0..2*block+10 and long ones through every constructor and setter; every ordered pair of 200 counters over all 64 bits; secrets that differ in one byte, in turn; secrets of 2^31 and 2^32 bytes; rare codes; default arguments", "thorough": "sequences of up to 4 (SHA-1: 5)"}, [SAN]),
    "C20": ex([job("c20.cpp")],
              "A case is a hash, interval, start time and digit count; the clock takes every value around every nearby interval boundary; distinct codes are counted.",
              {"quick": "12 hashes x 13 intervals (1 s to 2^31-1) x start times x clock values around boundaries and around 2^31, 2^32 and 2^40 s; rare codes; 8 time zones and the hours around their changes", "thorough": "every digit count everywhere"},
              [SAN, "time, clock_gettime, gettimeofday and timespec_get are answered by the harness."]),
    "C21": mc([job("c21.cpp")],
              {"quick": "5 ways to build the object x 12 hashes x every history of 2-3 (SHA-1: 5) clock moves, settings, calls and accessors, including a clock that ticks inside a call; every secret length 0..2*block+10 and long ones through every constructor and setter; 10 intervals to 2^31-1 x 7 starts x clock values to 2^32 intervals between 1970 and 2255, and pairs of such points on one object; rare codes; default arguments; every pair of 8 time zones and the hours around their changes", "thorough": "histories of 3-4 (SHA-1: 6)"},
              [SAN, "The harness owns the clock."]),
    "C22": ex([job("c22.cpp")],
              "A case is a key length and family; each block is enciphered, compared and deciphered; distinct cipher blocks are counted.",
              {"quick": "every key length 1..56 x 8 patterns, keys differing in one byte value or bit, every single-bit and byte-valued block, re-keying between all pairs of lengths, chosen words led into every round", "thorough": "40 patterns; every byte value at every place of every key length"}, [SAN]),
    "C23": mc([job("c23.cpp", part=1), job("c23.cpp", "fast", part=2, hang=400)],
              {"quick": "every length 0..140 x 3 patterns through the functions and 8 overloads; 4 key forms x every key length 1..56 x 2 memory prefills; every sequence of 3 calls on one object; lengths to 10^6; 2^32+5 bytes through both functions, 2^29+1 through the object", "thorough": "lengths 0..600 x 6; sequences of 4"}, [SAN]),
    "C24": ex([job("c24.cpp", part=1), job("c24.cpp", "fast", part=2, hang=400)],
              "A case is a family of texts or byte strings; every one is parsed, cleaned, measured and converted; distinct byte results are counted.",
              {"quick": "every byte string of up to 2 bytes, every length to 300, every text of up to 6 characters over 10 classes, every text of up to 2 arbitrary characters; every length 0..700 and around powers of two to 2^19 in 9 noisy forms; texts of 2^32+7 digits; hex of 2^30+1 bytes", "thorough": "7 classes deep, 3 arbitrary characters"},
              [SAN, "For a text whose second character is x but whose first is a digit other than 0, either reading is accepted as long as all functions agree."]),
    "C25": mc([job("c25.cpp", part=1), job("c25.cpp", "o2", part=2, shards=2, hang=200)],
              {"quick": "every byte string of up to 6 bytes over {0, 1, 'a', 255} through every constructor, helper, conversion and trim; runs of zeros around sizes to 2^20; every sequence of 4 trims, copies and appends; 2^32+5 bytes and zeros", "thorough": "strings of 8, sequences of 6"}, [SAN]),
    "C26": ex([job("c26.cpp")],
              "A case is one algorithm's registry entry, the strings one edit or case mixture away from its names, or the short strings with one first character; distinct rejected strings are counted.",
              {"quick": "all 16 entries and 32 names in 4 forms, every string one edit or case mixture away from a name, every string of up to 2 characters and a seventh of those of 3", "thorough": "every printable string of 3 characters"}, [SAN]),
    "C17": mc([job("c17.cpp")],
              {"quick": "programs that together use every public operation (145); every pair of them, interleaved step by step with up to 2 switches (4 for programs of one kind, all interleavings for two "
                        "instances of one program with different and with equal data); three instances with up to 3 switches", "thorough": "up to 6 switches for every pair, 8 for programs of one kind; triples with up to 5"}, [SAN]),
    "C28": ex([job("c28.cpp", "%s-%s" % (c, o), shards=4) for o in ("O3", "O2", "O1", "O0", "Os", "uchar") for c in ("gcc", "clang")],
              "A case is one build (compiler, level) and one program over the public operations or one length of a family; distinct outputs are counted.",
              {"quick": "gcc and clang at -O0, -O1, -O2 and -O3 with assertions, at -Os without, and at -O2 without assertions and with unsigned plain char, each with its own build of the library and the harness: 145 programs x 4 data sets and every length 0..300 of 14 families (SHAKE and encoder bit lengths to 2400, files to 900); programs and lengths to 72 with buffers at every offset 1..15 from an aligned address",
               "thorough": "12 data sets, lengths to 1400; offsets to 300"}, ["The library is built with the project's own settings and only the level added, so a source that does not compile or link is reported as a violation."], build_is_property=True),
    "C29": ex([job("c29.cpp", "o2"), job("c29.cpp", "clang-O0"), job("c29.cpp", "gcc"), job("c29.cpp", "zero"), job("c29.cpp", "pattern")],
              "A case is one build and one program over the public operations or one length of a family, run under several fillings of stack, heap, object storage and output buffers; distinct results are counted.",
              {"quick": "145 programs x 3 data sets under 37 fillings x 2 stack fillings, and every length 0..150 of 14 families under 4 (every tenth length under all), in 5 builds (clang -O0, -O2, -O2 with automatic variables zero or patterned, gcc -O2)",
               "thorough": "6 data sets, every length 0..700 under all 37 fillings"},
              ["The stack below a call is overwritten (24 KiB) right before every library call; blocks from malloc are filled by glibc's perturb option, those from new by the harness."]),
    "C30": ex([job("c30.cpp", hang=120)],
              "A case is one program or one length of a family (or a chain of base-codec, sequence or encoder calls); every allocation made inside the library is failed in turn in 3 modes; distinct results are counted and so are the failures injected.",
              {"quick": "145 programs x 3 data sets and lengths to 130 of 14 families; base codecs: 5 encodings x 5 earlier sizes x failing sizes 1..130 x 11 later sizes; encoders: 16 algorithms x 6 x 5 digest lengths x 3 continuations; OTP objects: 12 hashes x 8 ways to set the secret", "thorough": "8 data sets, every length to 520; failing sizes to 500"}, [SAN, "Allocation failures are injected at operator new (the library's C part allocates nothing)."],
              tech="exhaustive enumeration of every allocation-failure point of every explored call history on the real code"),
    "C31": ex([job("c31.cpp"), job("c31.cpp", "o2", flags="-DOPS_GUARD")],
              "A case is one program over the public operations or one length of a family with buffers of exactly the documented size; distinct results are counted.",
              {"quick": "145 programs x 5 data sets and every length 0..420 of 14 families, 2^k-1..2^k+1 to 2^16, in two builds: AddressSanitizer with exact heap blocks; plain, inputs in read-only memory and each buffer next to an inaccessible page (after it, then before it)",
               "thorough": "12 data sets, lengths to 2300, powers of two to 2^20"}),
    "C32": mc([job("c32.cpp", part=1), job("c32.cpp", "o2", part=2, hang=300)],
              {"quick": "every life of up to 4 (one algorithm: 5) operations (create, use, reset, copy, move, destroy and so on) of each class, allocations counted at the end; 145 programs x 3 data sets and every length 0..200 of 14 families; each operation on 8 MiB (one on 24 MiB) with a 1 MiB stack", "thorough": "lives of 6 operations; 6 data sets, lengths to 700; every large operation on every algorithm, 24 MiB"}, [SAN]),
    "C15": mc([job("c15.cpp", "threads", extra=["tsrt.cpp"], hang=120)],
              {"quick": "groups of calls (13 kinds: encode and decode of sizes below, at and above the buffer sizes, all overloads, odd text) on one object of each of 5 codecs: every pair from 2 threads, before and after earlier use; "
                        "2 calls against 1, 2 against 2 and 1 against 1 against 1 over 6 kinds; up to 6 calls from 3 threads: all schedules of each, no preemption bound",
               "thorough": "more earlier uses, every 2 against 2, 2 against 1 against 1"}, THREADS,
              tech="stateless model checking of the real code: exhaustive exploration of all thread schedules under a controlling scheduler, with a vector-clock race check on every access"),
    "C16": mc([job("c16.cpp", "threads", extra=["tsrt.cpp"], hang=120)],
              {"quick": "145 programs that together use every public operation: every pair in two threads on first use (equal programs also after earlier use and with equal data), 3 threads for equal and neighbouring programs; "
                        "pairs of lengths to 5000 of 14 families: all schedules of each, no preemption bound", "thorough": "every pair also after earlier use; every length to 300 with its neighbour"}, THREADS,
              tech="stateless model checking of the real code: exhaustive exploration of all thread schedules under a controlling scheduler, with a vector-clock race check on every access"),
    "C33": mc([job("c33.cpp", "irq", extra=["irq.cpp"], hang=120)],
              {"quick": "145 programs that together use every public operation: every ordered pair, the second run inside the first (equal programs also with equal data, data that differs in one byte, and begun before the first); "
                        "7 lengths of 14 families with a shorter and a longer one inside; interrupted at every function entry and exit (unequal programs: the first 60) and before every access to memory that both "
                        "sides access; programs and lengths of up to 1500 points at every single point", "thorough": "every entry and exit for every pair, every length 0..200, every single point up to 60000"},
              ["An interrupt runs the other program to its end, on the same thread, with what it accesses recorded; points between two accesses that do not touch the same memory are equivalent (partial-order reduction). "
               "The shorter programs are explored without this reduction too.",
               "No interrupt inside libc or libstdc++'s compiled part, nor while a function-local static is being initialised."],
              tech="exhaustive enumeration, with partial-order reduction, of the points at which one call can interrupt another on the real code"),
    "C34": mc([job("c34.cpp"), job("c34.cpp", "gcc")],
              {"quick": "15 phases, each in a process of its own (in main, before main, static and thread-local destructors, exit, quick_exit and thread-key handlers, threads, a forked child, a signal handler, unwinding, a catch block, "
                        "without standard streams, directory, environment and descriptors) x 145 programs and 4-6 lengths of 15 families x settings: 6 floating-point states x 5 C locales x 2 C++ locales x 4 values of errno, in full product in main "
                        "(programs also before main, at the end and in threads), each setting on its own elsewhere; every errno 1..140; 2 builds",
               "thorough": "the full product in every phase, 4 data sets, 20 lengths"},
              [SAN, "The Turkish and German locales are compiled from the system's own sources into a scratch directory at the start of each run (the evidence says how many processes had them)."],
              tech="exhaustive enumeration of the product of process states and phases, the real code run in each"),
    "C35": mc([job("c35.cpp", part=1), job("c35.cpp", "gcc", part=2, shards=24)],
              {"quick": "47 groups (hashing with each of 16 algorithms: context, object and functions; HMAC with each of 12; HOTP and TOTP with each of 12; 5 codecs; Blowfish; SequentialData and helpers), 16-20 operations each, the objects made anew "
                        "and used through every overload: every sequence of 3 operations under AddressSanitizer and of 4 without, x arguments freed after the call, or overwritten and their place used again for the next, x results kept, overwritten "
                        "at once or destroyed at once; every pair of groups (17 stand for the others): every operation of one, then of the other, then the first again; all earlier results looked at after every operation and after the objects are gone",
               "thorough": "4 and 5 operations, every pair of groups"},
              [SAN, "A pointer from get_digest is followed until the object's next get_digest or its end, which is as long as the object owns it."],
              tech="exhaustive enumeration of operation sequences and of the lifetimes of arguments and results, on the real code in lockstep with a model"),
    "C36": mc([job("c36.cpp"), job("c36.cpp", "gcc")],
              {"quick": "16 hash, 12 HMAC and the Blowfish context types: scripts of two or three updates (lengths around blocks, up to 2 blocks + 2; SHAKE also in the middle of its output; HMAC with 6 key lengths; Blowfish with every key length) x "
                        "every point of the script x 10 ways to copy (moved, copied with either side going on first, saved and put back, put over a used one, swapped, back and forth, in turn, at two ages, original started anew); "
                        "every C++ class: every kind of copy, move, assignment, swap and growing vector it allows, after 0-3 uses; 2 builds",
               "thorough": "every first length up to 4 blocks + 2 (HMAC: 2 blocks + 2), 0-8 uses"},
              [SAN], tech="exhaustive enumeration of the points and ways to copy a context, on the real code in lockstep with a model"),
    "C37": ex([job("c37.cpp", "gcc", hang=200)],
              "A case is a sequence of headers with a compiler, standard and settings: the program is compiled, and whole programs linked and run; distinct programs and outputs are counted.",
              {"quick": "35 headers: each alone and twice with gcc and clang in 4 C standards (17 C headers) and 4 C++ standards; every ordered pair with gcc C99, clang C2x and g++ C++17, the C headers' also with clang++ C++17; every ordered triple of C headers; "
                        "each header under 12 settings of the consumer (NDEBUG, feature macros, optimisation, FORTIFY, unsigned char, hidden visibility, other headers before it, inside extern \"C\"); "
                        "whole programs of 2 (C++: 3, one in C) files with all headers from every starting point, forwards in one file and backwards in another, under every setting, linked with the library, and their constants, sizes and results compared",
               "thorough": "every pair with every compiler and standard, triples in 2 standards, programs from every starting point with every compiler, standard and setting"},
              ["Compilers: gcc 13 and clang 18 on this machine. What a program should print is what the same text prints in the harness; that the values are right is for the other properties."], build_is_property=True,
              tech="exhaustive enumeration of include sequences, languages, compilers and settings, each a real program compiled, linked and run"),
    "C27": ex([job("c27.cpp"), job("c27.cpp", "gcc"), job("c27.cpp", "gcc-O0"), job("c27.cpp", "clang-O0")],
              "A case is a class, algorithm, length and content family (no zeros, embedded zeros, zeros at the ends, all zeros, all 255, high bytes, hex-like); every overload and pair of overloads is run on the object and "
              "through each base class; distinct results are counted.",
              {"quick": "HashEncoder and HMACEncoder to 300 and 200 bytes, codecs to 420, OTP secrets to 140, Blowfish keys 1..56 and data to 26, SequentialData and utilities to 700; clang with AddressSanitizer, clang -O0, gcc -O0 and -O2",
               "thorough": "every length to 620, 420, 1300, 300, 70 and 3000"}, [SAN]),
}

# What a caller who works with one buffer sees: the address and length of an argument stay, its contents change.
_PLACE = {
    "C01": "messages in one buffer, every byte changed in turn between two digests, every length to block+20",
    "C03": "messages in one buffer, every byte changed in turn",
    "C05": "one FILE whose contents are replaced between calls, 17 sizes; starts after 9 offsets of files to 1 MiB have been read",
    "C06": "every list of 2 to 4 subranges of one buffer (cut at single bytes and around block boundaries): repeated, overlapping, adjoining and null pieces",
    "C07": "key and message as any two subranges of one buffer; one key and one message buffer, every byte changed in turn",
    "C08": "one context with one key and one data buffer, every byte changed in turn, key lengths to two blocks",
    "C09": "strings and SequentialData are one object whose contents are replaced",
    "C10": "one key place and one data place, every byte changed in turn between two objects",
    "C14": "strings and SequentialData are one object whose contents are replaced",
    "C18": "one secret buffer of 1..70 bytes, every byte changed in turn",
    "C20": "one secret buffer of 1..70 bytes, every byte changed in turn",
    "C22": "one key buffer and schedule for every key length, a bit of every byte changed in turn, another schedule kept beside it",
    "C23": "one input, output, string and SequentialData of 1..66 bytes, every byte changed in turn",
    "C24": "one buffer of 1..66 bytes, changed in one place between the calls of every function",
    "C25": "one object of 0..100 bytes, every byte changed in place between two conversions",
    "C26": "every pair of names looked up in turn from one place",
}
_OFFSET = {p: "buffers at every offset 1..15 from an aligned address, " + t for p, t in {
    "C01": "lengths to 2 blocks+10", "C03": "lengths to a block+10", "C07": "key and message lengths to 2 blocks+3", "C08": "key lengths to 2 blocks+3",
    "C09": "lengths to 40", "C10": "lengths to 40", "C11": "lengths to 70", "C12": "lengths to 70", "C13": "lengths to 70", "C14": "lengths to 40",
    "C18": "secrets to 70", "C19": "secrets to 70", "C22": "key lengths 1..56", "C23": "lengths to 70", "C24": "lengths to 70", "C25": "lengths to 70"}.items()}
_LONG = {
    "C01": "132000 digests in one process", "C02": "66000 updates of one byte, of nothing, and uses of one context", "C03": "66000 requests of one byte from one context",
    "C05": "66000 digests of one FILE", "C07": "132000 MACs in one process", "C08": "66000 updates, keys, and uses of one context",
    "C09": "66000 updates and uses of one object; a long call, 2 to 1024 short ones, then one of each of 10 lengths, with and without resets", "C10": "66000 updates of one object; objects moved between two updates, into a new one and over one of every algorithm; a long call, 2 to 1024 short ones, then one of each of 10 lengths",
    "C14": "66000 encodes, decodes, and 132000 of both in turn on one object; a long call, 2 to 1024 short ones, then one of each of 11 lengths", "C18": "132000 codes in one process", "C19": "66000 codes of consecutive counters, codes of one counter, and secrets of one object; a long secret, 2 to 1024 short ones, then one of each of 10 lengths",
    "C21": "66000 codes of one object, the clock a second on or a setting changed before each", "C22": "66000 keys and 2^22 blocks of one schedule",
    "C23": "132000 calls of one object and one context; copies and assignments of objects, 41 lengths x 12 keys; a long call, 2 to 1024 short ones, then one of each of 10 lengths", "C25": "66000 conversions of one object, and 66000 bytes appended one at a time",
    "C26": "every name with zero bytes around it",
}
for _p, _t in _PLACE.items():
    PROPS[_p]["bounds"]["quick"] += "; " + _t
    PROPS[_p]["bounds"]["thorough"] += "; the same, to greater lengths"
for _d in (_OFFSET, _LONG):
    for _p, _t in _d.items():
        PROPS[_p]["bounds"]["quick"] += "; " + _t
for _p in _LONG:
    PROPS[_p]["bounds"]["thorough"] += "; histories of 2^18 to 2^24 calls"
