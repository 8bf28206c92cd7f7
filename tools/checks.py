# What each check builds and runs.  variant: how the library is built; harness: what explores it.
ASAN = "-fsanitize=address -fno-omit-frame-pointer"
GENERIC = ["-DCMAKE_SYSTEM_NAME=Linux", "-DCMAKE_SYSTEM_PROCESSOR=generic"]
VARIANTS = {
    # the build users get: assembly, full tables, unrolled digests, 64-bit words, assertions on
    "ship": dict(),
    # portable C, everything instrumented for out-of-bounds accesses
    "asan": dict(common=ASAN, cmake=GENERIC, link="-fsanitize=address -static-libasan", mem=0),
    "portable": dict(cmake=GENERIC),
    "w32": dict(common="-DBN_WORD_BYTE=4"),
    "w32asan": dict(common="-DBN_WORD_BYTE=4 " + ASAN, cmake=GENERIC, link="-fsanitize=address -static-libasan", mem=0),
    "mintab": dict(lib="-DRACRYPT_AES_MIN_TABLE -DRACRYPT_PRIME_MIN_TABLE", cmake=GENERIC),
    "ndebug": dict(lib="-DNDEBUG"),
    "ndebugasan": dict(lib="-DNDEBUG", common=ASAN, cmake=GENERIC, link="-fsanitize=address -static-libasan", mem=0),
    "ndebugw32": dict(lib="-DNDEBUG", common="-DBN_WORD_BYTE=4"),
    "ndebugw32asan": dict(lib="-DNDEBUG", common="-DBN_WORD_BYTE=4 " + ASAN, cmake=GENERIC, link="-fsanitize=address -static-libasan", mem=0),
    # every memory access of the library calls out (the runtime is the harness's own)
    "traced": dict(lib="-fsanitize=thread -fno-builtin", cmake=GENERIC),
    "tracedasm": dict(lib="-fsanitize=thread -fno-builtin"),
    # other compilers and optimization levels of the portable code
    "gccO0": dict(common="-DVH_O0", cmake=GENERIC + ["-DCMAKE_BUILD_TYPE=Debug"]),
    "gccO3": dict(lib="-O3", cmake=GENERIC + ["-DCMAKE_BUILD_TYPE=Debug"]),
    "clang": dict(cmake=GENERIC + ["-DCMAKE_C_COMPILER=clang"]),
    "w32portable": dict(common="-DBN_WORD_BYTE=4", lib="-DRACRYPT_AES_MIN_TABLE -DRACRYPT_PRIME_MIN_TABLE", cmake=GENERIC),
    "noint128": dict(common="-U__SIZEOF_INT128__"),
    "rolled": dict(lib="-include @V@/harness/rolled.h -I@R@/src/include", cmake=GENERIC),
}
# the ARMv8 build (32-bit words, AES and SHA instructions), its machine code translated to C and run here
A64CC = "@V@/tools/a64/cc"
A64 = dict(common="-DBN_WORD_BYTE=4", cc=A64CC, extra=["src/digest/sha2_arm64.c"], extraflags="-DRACRYPT_USE_ASM_SHA256",
           cmake=["-DCMAKE_SYSTEM_NAME=Linux", "-DCMAKE_SYSTEM_PROCESSOR=arm64", "-DCMAKE_C_COMPILER=" + A64CC, "-DCMAKE_C_COMPILER_WORKS=1", "-DCMAKE_C_COMPILER_ID=Clang", "-DCMAKE_C_COMPILER_FORCED=1"])
VARIANTS["arm64"] = A64
VARIANTS["arm64soft"] = dict(A64, env=dict(A64_ISAR0="0"))     # a processor without the instructions
# a big-endian build (WORDS_BIGENDIAN), the same way
VARIANTS["big"] = dict(common="-DBN_WORD_BYTE=4 -DVH_BE", env=dict(A64_BE="1"), cmake=["-DCMAKE_SYSTEM_NAME=Linux", "-DCMAKE_SYSTEM_PROCESSOR=generic"] + A64["cmake"][2:])
# the 64-bit Windows build: Visual C++'s branches of the C sources and the ml64 sources, rewritten for the assembler here
MSCC = "@V@/tools/masm/cc"
VARIANTS["win64"] = dict(cmake=["-DCMAKE_C_COMPILER=" + MSCC, "-DCMAKE_C_COMPILER_WORKS=1", "-DCMAKE_C_COMPILER_ID=GNU", "-DCMAKE_C_COMPILER_FORCED=1"])
# options of racrypt.h
VARIANTS["times"] = dict(lib="-DHAVE_TIMES")
VARIANTS["verifykey"] = dict(lib="-DRACRYPT_RSA_VERIFY_KEY")
VARIANTS["uchar"] = dict(common="-funsigned-char")
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
ENVWRAP = ["-Wl," + ",".join("--wrap=" + f for f in "open open64 openat __open_2 read __read_chk close clock_gettime times time getrandom getentropy fopen fopen64".split())]
HARNESS = {
    "cipher": dict(src=["vh.cpp", "alloc.cpp", "h_cipher.cpp"], link=WRAP + ["-lcrypto"]),
    "bn": dict(src=["vh.cpp", "alloc.cpp", "h_bn.cpp"], link=WRAP + ["-lgmp"]),
    "bnrel": dict(src=["vh.cpp", "alloc.cpp", "h_bn.cpp"], link=WRAP + ["-lgmp"], cflags=["-DNDEBUG_LIB"]),
    "prime": dict(src=["vh.cpp", "alloc.cpp", "env.cpp", "h_prime.cpp"], link=WRAP + ENVWRAP + ["-Wl,--wrap=BnGenRandom,--wrap=BnGetRandomRSA,--wrap=RaRandomBytes", "-lgmp"]),
    "primerel": dict(src=["vh.cpp", "alloc.cpp", "env.cpp", "h_prime.cpp"], link=WRAP + ENVWRAP + ["-Wl,--wrap=BnGenRandom,--wrap=BnGetRandomRSA,--wrap=RaRandomBytes", "-lgmp"], cflags=["-DNDEBUG_LIB"]),
    "rsa": dict(src=["vh.cpp", "alloc.cpp", "env.cpp", "h_rsa.cpp"], link=WRAP + ENVWRAP + ["-Wl,--wrap=RaGenPrimeNumberEx", "-lgmp"]),
    "rand": dict(src=["vh.cpp", "alloc.cpp", "env.cpp", "h_rand.cpp"], link=WRAP + ENVWRAP + ["-lcrypto"]),
    "oom": dict(src=["vh.cpp", "alloc.cpp", "env.cpp", "h_oom.cpp"], link=WRAP + ENVWRAP + ["-lcrypto", "-lgmp"]),
    "cfg": dict(src=["vh.cpp", "alloc.cpp", "env.cpp", "h_cfg.cpp"], link=WRAP + ENVWRAP + ["-lcrypto", "-lgmp"]),
    "conc": dict(src=["vh.cpp", "noalloc.cpp", "h_conc.cpp"], link=["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free memcpy memset memmove memcmp rand srand random srandom pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_once call_once mtx_lock mtx_unlock mtx_trylock sched_yield open open64 read close getrandom clock_gettime time".split()), "-lcrypto", "-lgmp"]),
    "wipe": dict(src=["vh.cpp", "alloc.cpp", "env.cpp", "h_wipe.cpp"], link=WRAP + ENVWRAP + ["-lcrypto", "-lgmp"]),
    "own": dict(src=["vh.cpp", "alloc.cpp", "env.cpp", "h_own.cpp"], link=WRAP + ENVWRAP + ["-lcrypto", "-lgmp"]),
    "digest": dict(src=["vh.cpp", "alloc.cpp", "h_digest.cpp"], link=WRAP + ["-lcrypto"]),
}


def J(variant, harness, *args, **kw):
    return dict(variant=variant, harness=harness, args=list(args), **kw)


T = True
CPU0 = ["--cpu", "0"]      # CPUID answers: no AES, no SHA extensions
EX = "exploration"
MC = "model_checking"
FE = "fault_enumeration"
CIPH_ASSUME = ["OpenSSL's block transforms are the standard", "bounds as listed per space"]
CHECKS = {
    "P01": dict(level=EX, technique="exhaustive bounded input exploration of the real code (every CPU answer and build variant) against a reference",
                jobs=[J("ship", "cipher"), J("ship", "cipher", *CPU0), J("mintab", "cipher"), J("asan", "cipher"), J("arm64", "cipher"), J("arm64soft", "cipher", thorough=True)],
                rule="every case is a distinct (key, block, placement) by construction of the enumeration; each evaluation is one library call compared with the reference, non-trivial when it transforms at least one block",
                assumptions=CIPH_ASSUME),
    "P02": dict(level=EX, technique="exhaustive bounded input exploration of the real code against a reference",
                jobs=[J("ship", "cipher"), J("asan", "cipher")],
                rule="every case is a distinct (key, block, placement) by construction; each evaluation is one library call compared with the reference", assumptions=CIPH_ASSUME),
    "P03": dict(level=EX, technique="exhaustive bounded input exploration of the real code against a reference",
                jobs=[J("ship", "cipher"), J("asan", "cipher")],
                rule="every case is a distinct (key, block, placement) by construction; each evaluation is one library call compared with the reference", assumptions=CIPH_ASSUME),
    "P04": dict(level=EX, technique="exhaustive bounded input exploration of the real code against a reference",
                jobs=[J("ship", "cipher"), J("asan", "cipher")],
                rule="every case is a distinct (key, key length, block, placement) by construction; each evaluation is one library call compared with the reference", assumptions=CIPH_ASSUME),
    "P05": dict(level=EX, technique="exhaustive exploration of call sequences and keys on the real code against a reference keystream",
                jobs=[J("ship", "cipher"), J("asan", "cipher")],
                rule="distinct (key) or (call sequence) per case by construction; non-trivial when bytes are processed", assumptions=["OpenSSL's RC4 is the standard"]),
    "P06": dict(level=MC, technique="explicit-state exploration of all operation sequences; every model trace executed on the real code",
                jobs=[J("ship", "cipher"), J("asan", "cipher"), J("arm64", "cipher")],
                rule="distinct operation sequence per case; non-trivial when data is processed", assumptions=CIPH_ASSUME),
    "P07": dict(level=MC, technique="explicit-state exploration of all call sequences; every model trace executed on the real code",
                jobs=[J("ship", "cipher"), J("asan", "cipher"), J("arm64", "cipher")],
                rule="distinct operation sequence per case; non-trivial when data is processed", assumptions=CIPH_ASSUME),
    "P08": dict(level=MC, technique="explicit-state exploration of finish operations over all lengths, splits and padding contents; every model trace executed on the real code",
                jobs=[J("ship", "cipher"), J("asan", "cipher"), J("arm64", "cipher", thorough=True)],
                rule="distinct (length, split, padding, contents) per case; non-trivial when data is processed", assumptions=CIPH_ASSUME),
    "P09": dict(level=MC, technique="explicit-state exploration of all operation sequences over two contexts; every model trace executed on the real code",
                jobs=[J("ship", "cipher"), J("asan", "cipher"), J("ship", "digest"), J("asan", "digest"), J("arm64", "cipher"), J("arm64", "digest")],
                rule="distinct operation sequence over two contexts per case; non-trivial when data is processed", assumptions=CIPH_ASSUME),
    "P10": dict(level=MC, technique="stateless model checking of the real code: all memory accesses of two threads are observed, dependent accesses found for every pair of programs, and all interleavings of dependent accesses run under a controlled scheduler up to a preemption bound (pairs without dependent accesses have a single equivalence class)",
                jobs=[J("traced", "conc"), J("tracedasm", "conc")],
                rule="distinct (pair of programs, schedule) per evaluation; each evaluation runs both threads to the end in a fresh process and compares their results with those computed alone", assumptions=["accesses made inside inline assembly are not observed, only their results", "interleavings are sequentially consistent", "two threads; a shared byte between any two of the programs shows for some pair"]),
    "P11": dict(level=EX, technique="exhaustive bounded input exploration of the real code (every CPU answer and build variant) against a reference",
                jobs=[J("ship", "digest"), J("ship", "digest", *CPU0), J("rolled", "digest"), J("asan", "digest", "--exclude", "sha_long,sha_bigcall"), J("arm64", "digest", "--exclude", "sha_long,sha_bigcall"), J("arm64soft", "digest", thorough=True)],
                rule="distinct message (or counter state and tail) per case by construction; every evaluation compares one digest with the reference",
                assumptions=["OpenSSL's SHA-1/SHA-2 compression functions are the standard's"]),
    "P12": dict(level=EX, technique="exhaustive bounded input exploration of the real code against a reference",
                jobs=[J("ship", "digest"), J("rolled", "digest"), J("asan", "digest", "--exclude", "md_long,md_bigcall"), J("arm64", "digest", thorough=True)],
                rule="distinct message (or counter state and tail) per case by construction; every evaluation compares one digest with the reference",
                assumptions=["OpenSSL's MD4/MD5 and the harness's MD2 and HAS-160 (checked on published vectors) are the standard's"]),
    "P13": dict(level=MC, technique="explicit-state exploration of all update sequences; every model trace executed on the real code",
                jobs=[J("ship", "digest"), J("asan", "digest"), J("arm64", "digest")],
                rule="distinct update sequence per case; non-trivial when the message is not empty", assumptions=["references as in P11/P12"]),
    "P14": dict(level=EX, compare=True, technique="exhaustive exploration of one corpus of operations on every build of the real code, each case's observations compared between the builds",
                jobs=[J("ship", "cfg"), J("ship", "cfg", *CPU0), J("portable", "cfg"), J("mintab", "cfg"), J("rolled", "cfg"), J("w32", "cfg"), J("noint128", "cfg"), J("ndebug", "cfg"), J("w32portable", "cfg", thorough=True), J("gccO0", "cfg", thorough=True), J("gccO3", "cfg", thorough=True), J("clang", "cfg", thorough=True), J("ndebugw32", "cfg", thorough=True), J("arm64", "cfg"), J("arm64soft", "cfg", thorough=True)],
                rule="distinct operands per case by construction; every observation of every case is compared with the first build's", assumptions=["a 64-bit hash of a case's observations differs when the observations differ"]),
    "P15": dict(level=MC, technique="exhaustive exploration of operand pairs and of all operation sequences on the real code against an integer reference", jobs=[J("ship", "bn"), J("w32", "bn"), J("asan", "bn"), J("w32asan", "bn", thorough=True), J("noint128", "bn", thorough=True)], rule="distinct operands (or operation sequence) per case by construction; every evaluation compares one result with GMP", assumptions=["GMP is exact"]),
    "P16": dict(level=EX, technique="exhaustive bounded operand exploration of the real code (every word size and multiplication primitive) against an integer reference", jobs=[J("ship", "bn"), J("w32", "bn"), J("noint128", "bn"), J("asan", "bn", "--only", "mul2,sqr3,sqr4,sqr2,mul_small,sqr5,sqr_long"), J("w32asan", "bn", thorough=True), J("asan", "bn", thorough=True)], rule="distinct operands per case by construction; every evaluation compares one result with GMP", assumptions=["GMP is exact"]),
    "P17": dict(level=EX, technique="exhaustive bounded operand exploration of the real code (every word size and division primitive) against an integer reference", jobs=[J("ship", "bn"), J("w32", "bn"), J("noint128", "bn"), J("ndebug", "bnrel", "--only", "div_zero"), J("ndebugw32", "bnrel", "--only", "div_zero"), J("asan", "bn", "--only", "div2,div_small"), J("w32asan", "bn", "--only", "div2,div_small"), J("w32asan", "bn", thorough=True), J("asan", "bn", thorough=True)], rule="distinct operands per case by construction; every evaluation compares one result with GMP", assumptions=["GMP is exact"]),
    "P18": dict(level=EX, technique="exhaustive bounded operand exploration of the real code against an integer reference", jobs=[J("ship", "bn"), J("w32", "bn"), J("noint128", "bn"), J("asan", "bn"), J("w32asan", "bn", thorough=True)], rule="distinct operands per case by construction; every evaluation compares one result with GMP", assumptions=["GMP is exact"]),
    "P19": dict(level=EX, technique="exhaustive bounded operand and distance exploration of the real code against an integer reference", jobs=[J("ship", "bn"), J("w32", "bn"), J("asan", "bn"), J("w32asan", "bn", thorough=True)], rule="distinct (number, distance, capacity) per evaluation by construction", assumptions=["GMP is exact"]),
    "P20": dict(level=EX, technique="exhaustive bounded exploration of byte strings, numbers and buffer sizes on the real code against an integer reference", jobs=[J("ship", "bn"), J("w32", "bn"), J("asan", "bn"), J("w32asan", "bn", thorough=True)], rule="distinct (bytes or number, buffer size) per evaluation by construction", assumptions=["GMP is exact"]),
    "P21": dict(level=EX, technique="exhaustive exploration of operands x destination capacities on instrumented release builds of the real code against an integer reference", jobs=[J("ndebugasan", "bnrel"), J("ndebugw32asan", "bnrel"), J("ndebug", "bnrel", thorough=True)], rule="distinct (operation, operands, capacity) per evaluation by construction", assumptions=["GMP is exact", "AddressSanitizer sees every access of the portable code to memory outside a heap block"]),
    "P22": dict(level=EX, technique="exhaustive bounded operand exploration of the real code against an integer reference", jobs=[J("ship", "bn"), J("w32", "bn"), J("asan", "bn", "--exclude", "gcd_far"), J("asan", "bn", "--only", "gcd_far", thorough=True), J("noint128", "bn", thorough=True), J("w32asan", "bn", thorough=True)], rule="distinct pair per case by construction", assumptions=["GMP is exact"]),
    "P23": dict(level=EX, technique="exhaustive exploration of moduli, bases, exponents and exponentiation sequences on the real code against an integer reference", jobs=[J("ship", "bn"), J("w32", "bn"), J("noint128", "bn"), J("asan", "bn", "--only", "exp_small,exp_sequence,exp_even,exp_window"), J("w32asan", "bn", "--only", "exp_small,exp_sequence,exp_even"), J("asan", "bn", thorough=True)], rule="distinct (modulus, base, exponent) per evaluation by construction", assumptions=["GMP is exact"]),
    "P24": dict(level=EX, technique="exhaustive exploration of numbers and of the bases the generator answers, on the real code, against a primality oracle", jobs=[J("ship", "prime"), J("w32", "prime"), J("asan", "prime", "--exclude", "is_all_bases,is_mersenne,is_large,is_proth,is_proth_composite"), J("mintab", "prime", thorough=True), J("noint128", "prime", thorough=True), J("w32asan", "prime", thorough=True)], rule="distinct (number, bases) per evaluation by construction", assumptions=["GMP's primality test with 25 rounds is right for the numbers enumerated", "composites are judged by enumerated bases, and by 64 fixed generator seeds where the bases cannot be enumerated"]),
    "P25": dict(level=EX, technique="exhaustive exploration of sizes, generator seeds, first candidates and stop points on the real code against a primality oracle", jobs=[J("ship", "prime"), J("w32", "prime"), J("mintab", "prime"), J("asan", "prime", "--only", "gen_top,gen_no_such_size,gen_stop,gen_sizes"), J("ndebugasan", "primerel", "--only", "gen_no_room"), J("w32asan", "prime", thorough=True)], rule="distinct (size, seed or candidate, stop point) per evaluation by construction", assumptions=["GMP's primality test with 25 rounds is right for the numbers generated"]),
    "P36": dict(level=EX, technique="exhaustive exploration of sizes, generator seeds and delivered bytes on the real code", jobs=[J("ship", "prime"), J("w32", "prime"), J("asan", "prime"), J("ndebugasan", "primerel", "--only", "rand_no_room"), J("ndebugw32asan", "primerel", "--only", "rand_no_room"), J("w32asan", "prime", thorough=True)], rule="distinct (maker, size, seed or delivered bytes) per evaluation by construction", assumptions=["over 40 or more seeds every bit of a fair generator takes both values"]),
    "P26": dict(level=EX, technique="exhaustive exploration of the answers of the prime search (sequences of primes, failures) and of system entropy on the real code", jobs=[J("ship", "rsa"), J("w32", "rsa"), J("asan", "rsa", "--exclude", "gen_sizes_large"), J("w32asan", "rsa", thorough=True)], rule="distinct (size, sequence of primes found or entropy) per case by construction; non-trivial when a key is returned", assumptions=["GMP is exact"]),
    "P27": dict(level=EX, technique="exhaustive exploration of keys, messages, signatures and operation sequences on the real code against exact powers", jobs=[J("ship", "rsa"), J("w32", "rsa"), J("asan", "rsa", "--exclude", "ops_all_messages,ops_sequences"), J("noint128", "rsa", thorough=True)], rule="distinct (key, operation, message, signature) per evaluation by construction", assumptions=["GMP is exact"]),
    "P28": dict(level=EX, technique="exhaustive exploration of key tuples on the real code against the standard's consistency conditions", jobs=[J("ship", "rsa"), J("w32", "rsa"), J("asan", "rsa", "--only", "vk_equal_primes,vk_bits,vk_composite,vk_public"), J("asan", "rsa", thorough=True)], rule="distinct key tuple per evaluation by construction; non-trivial when the key is consistent", assumptions=["GMP's primality test with 25 rounds is right for the numbers enumerated"]),
    "P29": dict(level=EX, technique="exhaustive exploration of keys, number lengths and buffer sizes on the real code against independently made DER", jobs=[J("ship", "rsa"), J("w32", "rsa"), J("asan", "rsa")], rule="distinct (key, buffer size) per evaluation by construction", assumptions=[]),
    "P30": dict(level=EX, technique="exhaustive exploration of byte strings (all short ones, all one-byte and structural two-byte edits of valid keys) on guarded and instrumented real code", jobs=[J("ship", "rsa"), J("asan", "rsa", "--exclude", "imp_three"), J("w32", "rsa", thorough=True), J("ndebugasan", "rsa", thorough=True)], rule="distinct byte string and importer per evaluation by construction (edits of different keys may coincide); non-trivial when a key is returned", assumptions=["AddressSanitizer sees every access of the portable code outside a heap block; guard pages see every access beyond the data"]),
    "P31": dict(level=EX, technique="exhaustive exploration of the encodings of a structure and of its damages on the real code against an independent encoder", jobs=[J("ship", "rsa"), J("asan", "rsa", "--exclude", "ber_all_headers"), J("w32", "rsa", thorough=True)], rule="distinct encoding per evaluation by construction", assumptions=[]),
    "P32": dict(level=MC, technique="explicit-state exploration of all request sequences (and of two generators interleaved); every model trace executed on the real code", jobs=[J("ship", "rand"), J("ship", "rand", *CPU0), J("asan", "rand"), J("rolled", "rand", thorough=True), J("arm64", "rand")], rule="distinct (algorithm, seed, request sequence) per case by construction; non-trivial when bytes are delivered", assumptions=["OpenSSL's SHA-1, SHA-2 and MD5 are the standard's"]),
    "P33": dict(level=EX, technique="exhaustive exploration of generator words and limits on the real code", jobs=[J("ship", "rand"), J("asan", "rand", thorough=True)], rule="distinct (generator word or seed, limits) per evaluation by construction", assumptions=["planted words reach the generator only while its buffer is the public struct RaRandom; otherwise seeds alone are enumerated"]),
    "P34": dict(level=FE, technique="fault enumeration: every enumerated answer of the operating system to opening, reading and the clock, and every leftover memory pattern, on the real code", jobs=[J("ship", "rand"), J("asan", "rand")], rule="distinct (algorithm, system answers, entropy) per case by construction", assumptions=["the virtual entropy device answers as the kernel may"]),
    "P37": dict(level=EX, technique="exhaustive exploration of objects, uses and sizes on the real code, every released block inspected", jobs=[J("ship", "wipe"), J("w32", "wipe"), J("gccO3", "wipe"), J("clang", "wipe"), J("portable", "wipe", thorough=True), J("gccO0", "wipe", thorough=True)], rule="distinct (object, use) per evaluation by construction; each evaluation destroys one object and inspects every byte released", assumptions=["copies on the stack and in temporary numbers of finished operations are not inspected"]),
    "P38": dict(level=EX, technique="exhaustive exploration of operations and operands on the real code, inputs in read-only pages that are unmapped after each call", jobs=[J("ship", "own"), J("w32", "own"), J("portable", "own", thorough=True), J("noint128", "own", thorough=True)], rule="distinct (operation, inputs, placement) per evaluation by construction", assumptions=["a write to an input traps through the page protection"]),
    "P35": dict(level=FE, technique="fault enumeration: the failure of every single allocation, of every pair of near allocations, and of all from each one on, in every operation that allocates, on the real code", jobs=[J("ship", "oom"), J("w32", "oom"), J("asan", "oom", "--exclude", "prime_generation,gcd,rsa_verify_key"), J("asan", "oom", thorough=True)], rule="distinct (operation, set of failing allocations) per evaluation by construction", assumptions=[]),
}
# further builds, explored by the thorough commands
for _p, _v, _h, _a in [("P01", "big", "cipher", []), ("P02", "big", "cipher", []), ("P03", "big", "cipher", []), ("P04", "big", "cipher", []), ("P05", "big", "cipher", []), ("P06", "big", "cipher", []), ("P07", "big", "cipher", []), ("P08", "big", "cipher", []), ("P11", "big", "digest", ["--exclude", "sha_long,sha_bigcall"]), ("P12", "big", "digest", ["--exclude", "md_long,md_bigcall"]), ("P13", "big", "digest", []),
                       ("P01", "win64", "cipher", []), ("P06", "win64", "cipher", []), ("P07", "win64", "cipher", []), ("P09", "win64", "cipher", []), ("P09", "win64", "digest", []),
                       ("P11", "win64", "digest", []), ("P13", "win64", "digest", []), ("P14", "win64", "cfg", []), ("P14", "uchar", "cfg", []), ("P16", "win64", "bn", []),
                       ("P17", "win64", "bn", []), ("P18", "win64", "bn", []), ("P23", "win64", "bn", []), ("P24", "win64", "prime", []), ("P32", "win64", "rand", []), ("P34", "win64", "rand", []),
                       ("P34", "times", "rand", []), ("P28", "verifykey", "rsa", ["--exclude", "vk_public"]), ("P30", "verifykey", "rsa", []), ("P35", "verifykey", "oom", ["--exclude", "prime_generation,gcd,rsa_verify_key"])]:
    CHECKS[_p]["jobs"].append(J(_v, _h, *_a, thorough=True))
