#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are hard to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
C = "src/cipher/"; D = "src/digest/"; M = "src/com/"; K = "src/pk/"

p("P01", "AES block transform is FIPS-197 for every key size, key and block",
  "For AES-128, AES-192 and AES-256, encrypting one block under any key yields exactly the FIPS-197 ciphertext, and decrypting a block yields exactly the inverse. This holds whichever implementation (portable, small-table or CPU-accelerated) the build and the processor select, and for any alignment of key, input and output buffers, including output written over the input.",
  ["inputs", "configurations"], "all keys x blocks x key sizes x directions x implementations x buffer alignments",
  "The tests check a single AES-128 vector per mode plus self-consistent round trips on random data, so an error in the 192/256 key schedule, in one table entry or in one build variant goes unseen.",
  [C+"aes.c", C+"aes_x86.c", C+"aes_x86_64.asm", C+"aes_x86.asm"],
  [("key expansion", C+"aes.c RaAesSetKey"), ("round functions and tables", C+"aes.c"), ("AES-NI path with CPU detection", C+"aes_x86.c")])
p("P02", "DES and two/three-key Triple DES match FIPS-46-3 for every key and block",
  "DES under any 8-byte key, and Triple DES (encrypt-decrypt-encrypt) under any 16- or 24-byte key, map every block to exactly the standard's ciphertext, and decryption is the exact inverse. The parity bit of each key byte has no influence, and Triple DES with equal sub-keys equals single DES.",
  ["inputs"], "all keys (including weak and parity-varied ones) x blocks x key types x directions",
  "One DES vector per mode and random self round trips; Triple DES is never compared with any known answer.",
  [C+"des.c"], [("key schedule", C+"des.c"), ("EDE composition", C+"des.c")])
p("P03", "SEED and ARIA block transforms match their published standards",
  "SEED (128-bit key) and ARIA (128-, 192- and 256-bit keys) map every block under every key to exactly the ciphertext of RFC 4269 and RFC 5794, and decryption is the exact inverse.",
  ["inputs"], "all keys x blocks x key sizes x directions",
  "One vector per mode for SEED and ARIA-128 only; ARIA-192/256 and all other keys are only round-tripped, which a wrong table entry used by both directions survives.",
  [C+"seed.c", C+"aria.c"], [("SEED rounds and G-function tables", C+"seed.c"), ("ARIA substitution/diffusion and key expansion", C+"aria.c")])
p("P04", "Blowfish matches its standard for every key length from 1 to 72 bytes",
  "Blowfish with any key of 1 to 72 bytes maps every block to exactly the reference ciphertext and back. Key bytes beyond the 72nd have no influence.",
  ["inputs"], "all key lengths x key contents x blocks x directions",
  "The tests use one vector and one fixed key length; the cyclic key mixing for lengths that do not divide 72 is never exercised.",
  [C+"blowfish.c"], [("cyclic key mixing and subkey generation", C+"blowfish.c RaBlowfishInit"), ("16-round Feistel", C+"blowfish.c")])
p("P05", "RC4 output is the RC4 keystream for any key length and any call split",
  "For every key of 1 to 256 bytes, encrypting or decrypting a message through any sequence of calls produces the message XORed with the RC4 keystream of that key from its first byte on, each call reporting the number of bytes written. The result does not depend on how the message is cut into calls nor on whether input and output are the same buffer.",
  ["inputs", "histories"], "all key lengths x keys x message lengths x call sequences x in-place or not",
  "One key, one message and one random round trip; position wrap-around across calls and long or short keys are untested.",
  [C+"rc4.c"], [("key scheduling", C+"rc4.c RaRc4Init"), ("stream position carried between calls", C+"rc4.c _RaRc4")],
  [("x,y,S", "stream state carried from call to call", "src/include/racrypt_cipher.h struct RaRc4Ctx")])
p("P06", "ECB, CBC, CFB and OFB chain blocks exactly as the standard modes define",
  "For every cipher, multi-block encryption and decryption in each mode equals the standard definition of that mode (full-block feedback for CFB and OFB) starting from the IV last set, or from an all-zero IV if none was set. Reading the IV at a block boundary and setting it on another context with the same key resumes the stream exactly where it was; setting an IV discards any buffered partial block. Output written over the input equals output written elsewhere.",
  ["inputs", "histories"], "all ciphers x modes x directions x sequences of set-IV / get-IV / process calls",
  "The tests compare one fixed message per mode; no test reads an IV, resumes a stream, or relies on the zero-IV default.",
  [C+"block_cipher.c"], [("mode switch per block", C+"block_cipher.c RaBlockCipherEncryptBlock/DecryptBlock"), ("IV set/get", C+"block_cipher.c RaBlockCipherSetIV/GetIV")],
  [("iv", "feedback register", "src/include/racrypt_cipher.h struct RaBlockCipher")])
p("P07", "Block cipher streaming is independent of how the data is cut into calls",
  "Feeding a message to a cipher context through any sequence of calls (including empty ones) produces the same concatenated output as feeding it at once, and each call returns exactly the whole blocks completed so far, holding back less than one block. A streaming call never writes output beyond the returned length, and writing the output over the input is allowed while no partial block is pending.",
  ["inputs", "histories"], "all ciphers x modes x directions x call sequences with chunk lengths around the block boundaries",
  "Tests process aligned messages in one or two fixed cuts; the partial-block buffer has many states that no test visits.",
  [C+"block_cipher.c"], [("partial-block buffering", C+"block_cipher.c RaBlockCipherEncrypt/Decrypt")],
  [("buffer, bufferFilled", "bytes held back until a block is complete", "src/include/racrypt_cipher.h struct RaBlockCipher")])
p("P08", "Padding round-trips every message length; malformed padding is left alone",
  "For any message, finishing with PKCS7 padding adds between 1 and one block of bytes and decrypt-finishing (in a call that passes at least the last ciphertext byte) returns exactly the message; zero padding adds zeros only up to the next block boundary; no padding emits only whole blocks and discards the rest. Finishing, in either direction, leaves nothing of an incomplete block behind for later calls. Decrypt-finishing data whose last bytes are not valid PKCS7 padding returns all decrypted bytes, and never reads or writes outside the data passed in.",
  ["inputs", "histories"], "all message lengths x padding types x ciphers x modes x splits between update and final x all final-block contents by padding value",
  "Tests finish a handful of fixed lengths; invalid padding bytes, the empty message and pending data at the final call are never tried.",
  [C+"block_cipher.c"], [("padding and unpadding", C+"block_cipher.c RaBlockCipherEncryptFinal/DecryptFinal")])
p("P09", "Contexts can be reused after finishing and never influence one another",
  "A cipher, digest or stream context behaves after re-initialisation, and a cipher context after finishing and setting the IV again, exactly like a fresh one with the same key. Using one context, between any two calls on another, never changes the other's results.",
  ["histories"], "all sequences of operations over two contexts of the same or different algorithm, with re-initialisation and reuse",
  "Each test creates one context, uses it once and destroys it; interleaved use of two contexts and re-initialisation of a used one are never exercised.",
  [C+"block_cipher.c", C+"aes.c", C+"blowfish.c", C+"rc4.c", D+"sha2.c", D+"md5.c", M+"random.c"],
  [("all state lives in the caller's context", "src/include/racrypt_cipher.h, src/include/racrypt_digest.h"), ("initialisers reset every field", "Ra*Init functions")])
p("P10", "Distinct contexts can be used from different threads at the same time",
  "Operations of two threads that work on different contexts, numbers or keys never interfere: in every interleaving each thread obtains the result it obtains alone. This includes the first use of any facility that prepares tables or detects processor features.",
  ["schedules"], "all interleavings of two threads each running one operation sequence on its own objects, for every pair of operations",
  "The tests are single threaded; a shared scratch buffer or a racy lazy initialisation would pass all of them.",
  ["src/cipher/", "src/digest/", "src/com/", "src/pk/"], [("no mutable shared state", "whole library: static data is const or per context")])
p("P11", "SHA-1 and SHA-2 digests are correct for every message and length",
  "SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256 return the FIPS-180-4 digest of any message, of any length including those whose bit count exceeds 32 bits, through the one-shot and the incremental interface. Every output has exactly the digest's length and nothing beyond it is written.",
  ["inputs", "configurations"], "all message lengths (every residue modulo the block size, block and counter boundaries) x contents x algorithms x implementations",
  "Two short messages per algorithm; padding boundaries (55/56/63/64, 111/112/127/128 bytes) and long messages are not covered.",
  [D+"sha1.c", D+"sha2.c", D+"sha1_x86.c", D+"sha2_x86.c"], [("padding and length encoding", D+"sha1.c RaSha1Final, "+D+"sha2.c"), ("compression functions (portable and CPU-accelerated)", D+"sha1.c, sha2.c, *_x86*")])
p("P12", "MD2, MD4, MD5 and HAS-160 digests are correct for every message and length",
  "MD2, MD4, MD5 and HAS-160 return the digest defined by RFC 1319, RFC 1320, RFC 1321 and TTAS.KO-12.0011 of any message of any length, through the one-shot and the incremental interface.",
  ["inputs"], "all message lengths (every residue modulo the block size, block and counter boundaries) x contents x algorithms",
  "Two short messages per algorithm.",
  [D+"md2.c", D+"md4.c", D+"md5.c", D+"has160.c"], [("padding, checksum and length encoding", "Ra*Final"), ("compression functions", D+"md2.c, md4.c, md5.c, has160.c")])
p("P13", "Incremental hashing is independent of how the message is cut into updates",
  "For every digest, any sequence of updates (including empty ones and unaligned buffers) whose concatenation is a message yields the digest of that message.",
  ["inputs", "histories"], "all digests x update sequences with chunk lengths around the block boundaries x buffer alignments",
  "Tests hash each message with one update; the partially filled buffer has 64 or 128 states of which tests visit a few.",
  [D+"md2.c", D+"md4.c", D+"md5.c", D+"has160.c", D+"sha1.c", D+"sha2.c"], [("partial-block buffering", "Ra*Update")],
  [("buffer, totalLen", "bytes held back and message length so far", "src/include/racrypt_digest.h")])
p("P14", "All build configurations and word sizes compute the same results",
  "For the same inputs, builds with and without CPU acceleration, with small or full tables, with rolled or unrolled digests, with 32- or 64-bit big-number words, and with or without a native 128-bit integer type produce byte-identical results from every cipher, digest, big-number arithmetic, primality, key and seeded byte-generator operation (random numbers and primes drawn from a generator are not compared: how many bytes they draw is a matter of the build).",
  ["configurations", "inputs"], "all supported compile-time configurations x a common corpus of operations",
  "Only one configuration is ever built and tested.",
  ["src/include/racrypt.h", "src/include/racrypt_bn.h", M+"bignumber.c", C+"aes.c", M+"prime.c", D+"sha1.c", D+"sha2.c"],
  [("preprocessor variants of the same operation", "src/include/racrypt.h, "+M+"bignumber.c")])
p("P15", "Big-number addition, subtraction, comparison and assignment are exact",
  "For signed integers of any length, adding, subtracting, comparing, copying and assigning numbers give the exact integer result, with the destination allowed to be one of the operands. Results are canonical: equal values compare equal however they were computed, and zero compares as zero with no sign.",
  ["inputs"], "all pairs of signed numbers over boundary word patterns x lengths x operand aliasing x exact or spare capacity",
  "Tests add a few positive numbers; mixed signs, carries over word boundaries, zero results and aliasing are not covered.",
  [M+"bignumber.c"], [("carry/borrow propagation", M+"bignumber.c _BnAdd/_BnSub"), ("sign handling", M+"bignumber.c BnAdd/BnSub/BnCmp")],
  [("length, sign, data", "canonical sign-magnitude number", "src/include/racrypt_bn.h struct RaBigNumber")])
p("P16", "Big-number multiplication, squaring and doubling are exact",
  "For signed integers of any length, products, squares and doubles are the exact integers, whenever the destination has room for the result. The operands are left unchanged.",
  ["inputs"], "all pairs of signed numbers over boundary word patterns x lengths up to several words x exact or spare capacity",
  "Tests multiply a few fixed values; column carries of all-ones words and differing operand lengths are not covered.",
  [M+"bignumber.c"], [("column-wise products with carry", M+"bignumber.c BnMul/BnSqr/BnDouble")])
p("P17", "Big-number division and modulo satisfy the division law",
  "For every dividend and non-zero divisor, division returns the floor quotient and the remainder with dividend = quotient x divisor + remainder, the remainder being smaller in magnitude than the divisor and carrying its sign; modulo returns the remainder of truncated division, carrying the dividend's sign. A zero divisor is never silently accepted.",
  ["inputs"], "all pairs of signed numbers over boundary word patterns x lengths, including quotient-digit correction cases",
  "Tests divide a few numbers; the rare quotient-estimate corrections occur for about one in 2^63 random operands.",
  [M+"bignumber.c"], [("long division with quotient estimate correction", M+"bignumber.c BnDiv/BnMod")])
p("P18", "Big-number operations with a single machine word are exact",
  "Adding, subtracting, multiplying, dividing, reducing and comparing a signed number of any length with a signed or unsigned machine word gives the exact integer result, division truncating toward zero and returning the remainder of the magnitudes.",
  ["inputs"], "all numbers over boundary word patterns x signs x boundary words",
  "Tests use small positive values; equal operands, sign changes across zero and the most negative word are not covered.",
  [M+"bignumber.c"], [("word-sized variants", M+"bignumber.c BnAddInt..BnModUInt, BnCmpInt/BnCmpUInt")])
p("P19", "Shifts and bit lengths are exact for every distance",
  "Shifting left multiplies by the power of two, shifting right divides the magnitude by it discarding the shifted-out bits, and the bit length is the position of the highest set bit of the magnitude (one for zero), for every number and every distance including multiples of the word size and distances beyond the number's length.",
  ["inputs"], "all numbers over boundary word patterns x every shift distance up to several words",
  "Tests shift by a few fixed distances.",
  [M+"bignumber.c"], [("word and bit shifting", M+"bignumber.c BnShiftL/BnShiftR/BnGetBitLength")])
p("P20", "Byte-string conversions of numbers are exact and inverse to each other",
  "Reading big-endian bytes as a signed (two's complement) or unsigned number gives the exact value for every byte string, leading zeros or sign bytes included; writing a number gives its shortest big-endian form, or a zero-padded form of the requested length. A value that does not fit its destination is rejected with an error and nothing is written outside the buffer.",
  ["inputs"], "all byte strings up to a length, boundary byte patterns beyond, all buffer sizes",
  "Tests convert a few fixed constants; negative encodings, leading 00/FF runs and short buffers are not covered.",
  [M+"bignumber.c"], [("byte packing", M+"bignumber.c BnSetByteArray/BnSetUByteArray/BnToByteArray/BnToFixedByteArray")])
p("P21", "A number that does not fit is reported, never written out of bounds",
  "In a release build (assertions off) every big-number operation whose result does not fit the destination's capacity returns an error without touching memory outside any number. When the capacity suffices for the result and the operation's documented working space, the operation succeeds.",
  ["inputs", "fault_sequences"], "all operations x operand lengths x destination capacities from one word up",
  "Tests always use destinations with ample capacity and only build with assertions on.",
  [M+"bignumber.c", M+"gcd.c", M+"montexpmod.c"], [("capacity checks before each write", M+"bignumber.c")])
p("P22", "GCD, extended GCD and modular inverse are exact",
  "For positive m and n the greatest common divisor is exact, and the extended form returns coefficients with a*m + b*n = gcd(m, n); in its unsigned form a lies between 0 and n with a*m congruent to the gcd modulo n, and b between 0 and m likewise, giving each argument's modular inverse when the two are coprime. A single result may be stored in place of an operand.",
  ["inputs"], "all pairs of small numbers, and pairs over boundary word patterns and consecutive-quotient (Fibonacci-like) shapes",
  "Tests compute one or two gcds.",
  [M+"gcd.c"], [("Euclid loop with coefficient tracking", M+"gcd.c GetGCD/GetGCDEx")])
p("P23", "Modular exponentiation is exact for every odd modulus",
  "For every odd modulus greater than 1 and all non-negative base and exponent, modular exponentiation returns base^exponent mod modulus, fully reduced, including zero exponents, bases at or above the modulus, repeated use of the same prepared modulus, and a result stored in place of an operand. An even modulus is rejected with an error.",
  ["inputs", "histories"], "all small odd moduli x bases x exponents, and boundary word patterns over several words; sequences of exponentiations on one prepared modulus",
  "Tests exponentiate a few random values checked against the library's own other routines.",
  [M+"montexpmod.c"], [("Montgomery reduction with final subtraction", M+"montexpmod.c"), ("exponent scanning", M+"montexpmod.c RaMontExpMod")])
p("P24", "Primality verdicts: primes always accepted, composites practically never",
  "The primality test accepts every prime, and rejects every negative number, 0, 1 and composite (up to the stated error probability of its random bases for large composites); it always terminates, whatever number it is given.",
  ["inputs"], "all integers below a bound, strong pseudoprimes and Carmichael numbers, neighbourhoods of word boundaries and of table limits, large known primes and products x enumerated generator seeds",
  "Tests call it on numbers the generator itself produced.",
  [M+"prime.c"], [("small-prime sieve and Miller-Rabin", M+"prime.c")])
p("P25", "Prime generation returns a prime of exactly the requested size",
  "Generating a prime of a requested bit size with any generator seed returns success only with a number that is prime and has exactly that bit length, for every supported size; if it cannot or is told to stop by the progress callback, it reports an error.",
  ["inputs", "fault_sequences"], "all sizes from the smallest up x enumerated generator seeds x the step at which the callback asks to stop",
  "Tests generate one size with fresh randomness and never stop it.",
  [M+"prime.c", M+"bignumber.c"], [("candidate generation and increment with size check", M+"prime.c"), ("progress callback", M+"prime.c RaGenPrimeNumberEx")])
p("P26", "Generated RSA keys are valid whatever primes the generator finds",
  "A successful RSA key generation returns a key whose modulus is the product of two different primes with exactly the requested bit length, and whose public and private exponents are inverse to each other, so that decryption undoes encryption; when the primes drawn cannot give such a key, generation retries or fails.",
  ["inputs", "fault_sequences"], "all sequences of primes the prime source can return (enumerated, including equal ones and ones congruent to 1 modulo the public exponent) x key sizes",
  "Tests generate one key from fresh randomness; unlucky primes occur about once in 2^16 keys.",
  [K+"rsa.c"], [("key generation loop", K+"rsa.c RaRsaCreateKeyPair")])
p("P27", "RSA operations invert each other and verification accepts only the signature",
  "For every valid key and every message below the modulus, decrypting the encryption returns the message, and verifying its signature succeeds. Verification fails for every other message or signature value, and messages, ciphertexts or signatures that are negative or not below the modulus are rejected with an error.",
  ["inputs"], "all messages for small keys; boundary messages (0, 1, n-1, multiples of a prime factor, word boundaries) for larger keys; all single-bit alterations of signatures",
  "Tests sign and verify one message; no test offers a wrong signature or an out-of-range value.",
  [K+"rsa.c"], [("encrypt/decrypt/sign/verify", K+"rsa.c")])
p("P28", "Key verification accepts exactly the consistent RSA private keys",
  "Checking a private key succeeds for every key whose parts are consistent (modulus the product of two different primes, public and private exponent below the modulus and inverse to each other modulo each prime less one, CRT values matching them) and fails for every other key, in particular if any single part of a good key is altered to an inconsistent value.",
  ["inputs"], "all keys over small and larger primes x every component x alterations of its value",
  "Tests only verify one good key.",
  [K+"rsa.c"], [("component checks", K+"rsa.c RaRsaVerifyKey")])
p("P29", "Exported keys import to the same key and the buffer protocol is honoured",
  "Exporting a public or private key and importing the result gives a key with identical behaviour and an identical export. Asking with no buffer reports the exact length needed, any shorter buffer is refused with an error and not overrun, and any sufficient buffer receives exactly that many bytes of standard DER.",
  ["inputs", "histories"], "all keys whose integers have boundary shapes (top bit set, odd word counts, small exponents) x buffer sizes x export/import sequences",
  "Tests export and import one or two fixed keys of ordinary shape with a large buffer.",
  [K+"rsa.c", K+"asn1.c"], [("DER writer", K+"rsa.c RaRsa*ToByteArray"), ("DER reader", K+"rsa.c, "+K+"asn1.c")])
p("P30", "Importing arbitrary bytes never crashes, overreads, leaks or hangs",
  "Importing any byte string as a key returns success or an error code without reading outside the bytes given, aborting, leaking memory or running on; on an error no key is returned. A key that is returned can be used, checked, exported and destroyed safely.",
  ["inputs"], "all short byte strings; all truncations, single-byte substitutions and length-field alterations of valid keys in every format; nesting up to and beyond the supported depth",
  "Tests only import well-formed keys.",
  [K+"asn1.c", K+"rsa.c"], [("bounds checks in the BER walker", K+"asn1.c"), ("structure checks", K+"rsa.c")])
p("P31", "Key import reads every valid encoding of a key and rejects damaged structure",
  "PKCS#1 and PKCS#8/X.509 wrapped public and private keys are recognised, and all BER encodings of the same structure (short, long-form, redundant or indefinite lengths, redundant leading zeros) import to the same key. Structures with the wrong algorithm identifier, missing elements, key integers or octet/bit string containers with another tag, zero or negative key integers, an even modulus, lengths exceeding the data (in surplus elements too), or an end-of-content marker inside a structure of given length are rejected.",
  ["inputs"], "all combinations of length forms per element x formats; all element deletions, retypings and identifier alterations",
  "Tests import one or two keys in the canonical encoding.",
  [K+"asn1.c", K+"rsa.c"], [("length forms and nesting stack", K+"asn1.c"), ("format recognition", K+"rsa.c RaRsaCreateKeyPub/Priv/FromByteArray")])
p("P32", "A seeded generator's stream depends only on algorithm, seed and position",
  "Two generators created with the same algorithm and seed bytes deliver the same byte stream, however the bytes are requested (any mix of request sizes) and whatever else runs in between; every byte of the seed and the choice of algorithm influence it. Successive blocks form the library's hash chain: each block is the digest of everything absorbed so far, namely the seed and each earlier block, each followed by a four-byte big-endian block counter.",
  ["inputs", "histories"], "all algorithms x seeds x request-size sequences x positions over many blocks",
  "Tests use unseeded generators and discard the values.",
  [M+"random.c"], [("block refill and offset bookkeeping", M+"random.c RaRandomBytes/RaRandomUpdate")],
  [("buffer, buffer_offset, count", "current block, position in it, block counter", "src/include/racrypt_random.h struct RaRandom")])
p("P33", "Random reals and integers stay inside their documented ranges",
  "Random reals are strictly between 0 and 1 whatever bytes the generator delivers; random integers lie within the inclusive bounds for every pair of bounds with min not above max, both bounds of narrow ranges can occur, and the full 32-bit range does not degenerate to one value.",
  ["inputs"], "all boundary values of the generator's output word x all boundary pairs of limits",
  "Tests never call these functions; extreme outputs occur once in 2^32 calls.",
  [M+"random.c"], [("rejection and scaling", M+"random.c RaRandom/RaRandomInt")])
p("P34", "An unseeded generator's stream is keyed by operating-system entropy",
  "A generator created without a seed takes its stream from fresh operating-system entropy whenever that is available, whatever descriptor number or timing the system returns: different entropy gives different streams and every entropy byte matters. When none is available, a generator that is created all the same differs from those created at other times. It leaves no file descriptor open, on success or failure, and does not depend on leftover memory contents.",
  ["inputs", "fault_sequences"], "all environment answers: descriptor numbers from 0 up, open failure, read error, short reads, entropy contents, clock values",
  "Tests run in one ordinary environment.",
  [M+"random.c"], [("seeding from the system source", M+"random.c RaRandomGetRandomSeedBytes")])
p("P35", "Running out of memory is reported cleanly at every allocation point",
  "If any single memory allocation fails during any operation that allocates, the operation returns an error (never success with a wrong result), crashes nowhere, leaks nothing, does not hand out a partial object, and succeeds when repeated with memory available.",
  ["fault_sequences"], "for every public operation that allocates: failure of the k-th allocation, for every k, and of all allocations from the k-th on",
  "No test makes an allocation fail.",
  [M+"bignumber.c", M+"gcd.c", M+"montexpmod.c", M+"prime.c", M+"random.c", K+"rsa.c", K+"asn1.c", C+"aes.c", D+"sha2.c"],
  [("error paths releasing partial work", "EXIT labels and NULL checks across the library")])
p("P36", "Random number makers respect the requested size and parity",
  "A random number of n bits is non-negative and below 2^n for every n, with every bit position able to be 0 or 1; the odd variant is odd; the RSA variant is odd with exactly n bits; random byte strings fill exactly the bytes asked for. Each succeeds or reports an error for every size, whatever bytes the generator delivers.",
  ["inputs"], "all sizes from 1 bit over several words x generator outputs of boundary patterns x capacities",
  "Tests draw a few sizes and look at nothing.",
  [M+"bignumber.c"], [("masking of the top word", M+"bignumber.c BnGenRandom/BnGetRandomOdd/BnGetRandomRSA")])
p("P37", "Destroying an object overwrites its memory before releasing it",
  "Destroying a cipher, digest, RC4, random generator, prepared modulus or RSA key object, or clearing a number when freeing it, overwrites every byte of the memory it held before returning that memory to the allocator, in every build (whatever the compiler optimizes away) and whatever the object was used for. A private key import that fails leaves none of the parts already read in released memory.",
  ["inputs", "configurations"], "all kinds of objects x sizes x uses before destruction x compilers and optimization levels",
  "Tests destroy objects and look at nothing; the released memory cannot be seen from outside.",
  [C, D, M+"random.c", M+"bignumber.c", M+"montexpmod.c", K+"rsa.c", "src/include/racrypt_com.h"], [("clearing before free", "Ra*Destroy, BnClearFree, RaRsaDestroyKeyPair")])
p("P38", "Inputs are only read, and not needed after the call returns",
  "Keys, IVs, messages, seeds, encodings and the numbers an operation takes as operands (not as its result) are never written, not even for a moment, so they may lie in read-only memory or be used by several threads at once. Nothing made from them refers to them afterwards: contexts, keys, prepared moduli, clones and results keep working when the caller overwrites or releases the inputs after the call.",
  ["inputs", "histories"], "all operations x operands x placements and alignments",
  "Tests pass writable buffers that stay alive, so a write that is undone or a kept pointer has no effect in them.",
  [C, D, M+"bignumber.c", M+"gcd.c", M+"montexpmod.c", M+"prime.c", M+"random.c", K+"rsa.c", K+"asn1.c"], [("inputs", "Ra*Init, Ra*SetIV, Ra*Update, Bn*, Ra*Create")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
