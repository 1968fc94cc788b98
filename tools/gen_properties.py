#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
INC = "src/include/sse/crypto/"
prop("C01", "Authenticated encryption round-trips every message in a stable format",
 "For every key and every non-empty message, decrypting a ciphertext with the same key returns exactly the original message, whichever of the string and fixed-size-array interfaces produced or consumes it, and the ciphertext is always exactly 32 bytes longer than the message. "
 "The format is fixed (16-byte nonce, ChaCha20-Poly1305 body under a key derived by keyed, salted and personalised BLAKE2b, 16-byte tag), so ciphertexts written by any build of the library can be read by any other implementation of that format and conversely.",
 ["inputs"], "all 32-byte keys, all message contents and lengths >= 1, all nonces the generator can return, both interfaces in every combination",
 "The tests encrypt a handful of fixed or random strings and compare one round-trip; they never fix the wire format, so an encrypt/decrypt pair that drifts together, or an error tied to one length or nonce, passes.",
 ["src/cipher.cpp", INC+"cipher.hpp"],
 [("per-message key derivation and AEAD call", "src/cipher.cpp Cipher::encrypt/decrypt"), ("length arithmetic", INC+"cipher.hpp ciphertext_length/plaintext_length")],
 observe=["Cipher::encrypt / Cipher::decrypt results"])
prop("C02", "Tampered or foreign ciphertexts are rejected and release no plaintext",
 "For every key and every byte string that is not a ciphertext produced under that key (any bit flip in nonce, body or tag, truncation, extension, splice of two ciphertexts, other key, arbitrary bytes), decryption throws and the caller's output object holds either its previous value or only zero bytes, never recovered plaintext. "
 "After a rejection the same object still encrypts and decrypts correctly.",
 ["inputs", "histories"], "all ciphertexts derivable from valid ones by any mutation, all bit positions, all lengths including those below the minimum, any number of rejections interleaved with valid operations",
 "The tests flip one random byte in one ciphertext and expect an exception; they do not cover every position and length, splicing, or what the output buffer holds after the failure.",
 ["src/cipher.cpp", INC+"cipher.hpp"],
 [("Poly1305 tag verification and output wiping", "src/cipher.cpp Cipher::decrypt"), ("minimum length checks", "src/cipher.cpp Cipher::decrypt(string)")],
 observe=["exception type and output buffer of Cipher::decrypt"])
prop("C03", "Every value documented as random is fresh, full-width and independent",
 "Every key created without explicit content, every encryption nonce and wrapping IV, every random string or array, every sampled trapdoor-permutation element and generated key pair, and every random permutation key is drawn afresh: across any history no value repeats, every byte position takes many values, and two objects created alike never produce the same pseudo-random output. "
 "This holds in every build configuration, with memory locking enabled or disabled.",
 ["histories", "configurations"], "all sequences of creations and encryptions, all requested lengths, both memory-lock settings",
 "A unit test sees one run and one configuration; a constant, short, biased or reused random value still passes every functional test.",
 ["src/random.cpp", INC+"random.hpp", INC+"key.hpp", "src/cipher.cpp", INC+"wrapper.hpp", "src/prp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp"],
 [("single entry point to the system RNG", "src/random.cpp random_bytes"), ("random key constructor", INC+"key.hpp Key()"), ("nonce / IV draws", "src/cipher.cpp, "+INC+"wrapper.hpp"), ("rejection of out-of-range samples", "src/tdp_impl/tdp_impl_mbedtls.cpp sample")],
 observe=["nonces at the head of ciphertexts, wrapped blobs, outputs of default-keyed objects, samples"])
prop("C04", "Hashing is BLAKE2b-512 on every input through every overload",
 "For every byte string of any length, hashing returns its BLAKE2b-512 digest; the variants with an output length return exactly the requested prefix of that digest and reject lengths above 64, and all overloads (raw buffer, string in/out, returned string) agree. "
 "The SHA-512 building block likewise equals SHA-512 for every input, and hashing never reads or writes outside the buffers it was given, including when output and input are the same buffer.",
 ["inputs"], "all inputs, lengths from 0 through many blocks (block and length-encoding boundaries), all output lengths, all overloads",
 "The tests compare a few published vectors; digests are wrong only for particular lengths, prefixes or overloads when the block, padding or truncation logic is off.",
 ["src/hash.cpp", "src/hash/blake2b.cpp", "src/hash/sha512.cpp", INC+"hash.hpp"],
 [("hash front end and truncation", "src/hash.cpp"), ("primitive bindings", "src/hash/blake2b.cpp, src/hash/sha512.cpp")],
 observe=["Hash::hash outputs"])
prop("C05", "The MAC equals RFC 2104 HMAC for every key size, message and length",
 "For every key length from 16 bytes up to the hash block size, every message and every requested output length up to the digest size, the MAC equals the corresponding prefix of RFC 2104 HMAC over the chosen hash; larger output lengths and null buffers are rejected with an argument error and the object keeps working. "
 "Moving a MAC object transfers the key unchanged.",
 ["inputs"], "all keys of all supported sizes, all messages and lengths, all output lengths, both hash functions",
 "The tests use the RFC 4231 vectors (a few keys, short messages); truncation, long messages, block-size keys and post-error use are sampled by none.",
 [INC+"hmac.hpp", "src/hmac.cpp"],
 [("inner and outer hashing with padded key", INC+"hmac.hpp HMac::hmac")],
 observe=["HMac::hmac outputs"])
prop("C06", "The PRF is a fixed deterministic function of key and input at every width",
 "For every key, input and output width, the pseudo-random function returns the same value on every call and through every overload: the truncated HMAC-BLAKE2b of the input for widths up to 64 bytes, and the concatenation of HMACs of the input extended by a distinct block counter for larger widths, so that no block of a wide output repeats. "
 "Deriving a key yields a key whose content is exactly that value, and distinct inputs or keys give unrelated outputs.",
 ["inputs"], "all keys and inputs (including empty ones and ones differing only by trailing bytes), output widths from 1 byte to the 65535-byte maximum, all overloads",
 "The tests check a few widths against themselves; they pin no reference output, and no width above 2000 bytes, so a wrong counter, truncation or key schedule goes unseen.",
 [INC+"prf.hpp", INC+"hmac.hpp", "src/prf.cpp"],
 [("counter-mode expansion and truncation", INC+"prf.hpp Prf::prf"), ("key derivation", INC+"prf.hpp Prf::derive_key")],
 observe=["Prf::prf outputs; derived keys observed through the objects built from them"])
prop("C07", "Every PRG interface returns the same slice of one key-determined stream",
 "For every seed key, offset and length, the pseudo-random generator returns bytes [offset, offset+length) of the ChaCha20 keystream of that key with a zero nonce, identically through the object and one-shot interfaces, raw-buffer, string and array outputs, and any split of a range into pieces concatenates to the whole. "
 "The i-th derived key of size K is exactly the slice [iK, (i+1)K) whether derived singly, in a batch, or from a consumed seed; one-shot interfaces leave the consumed seed empty.",
 ["inputs"], "all seeds, offsets (block-aligned or not, small or beyond 2^32 bytes), lengths, key sizes, counts, and interfaces",
 "The tests compare overloads at a few small offsets; alignment, block-boundary and large-offset cases number in the thousands and the stream itself is never compared to a reference.",
 ["src/prg.cpp", INC+"prg.hpp"],
 [("block and sub-block offset arithmetic", "src/prg.cpp prg_derivation"), ("key slicing", INC+"prg.hpp derive_key / derive_keys")],
 observe=["Prg::derive outputs, derived keys through objects built from them"])
prop("C08", "The PRP is a length-preserving permutation, inverted exactly, stable per key",
 "For every key and every input of one byte or more, encryption yields an output of the same length, decryption with the same key returns the input, and decryption followed by encryption does too, so that distinct inputs of a length never collide. "
 "The mapping is AEZ with a zero nonce for that key on every length and is the same through the string, buffer, 32-bit and 64-bit interfaces, before and after moving the object or interleaving other operations.",
 ["inputs", "histories"], "all 48-byte keys, all inputs of all lengths (tiny, odd-nibble-free, 16..31, 32 and up with every residue), all interfaces, any interleaving of encrypt and decrypt",
 "The tests round-trip a few random strings and integers; a cipher wrong for one length residue, lossy on tiny domains, or different across interfaces passes them.",
 ["src/prp.cpp", "src/aez/aez.c", "src/aez/aez.h", INC+"prp.hpp"],
 [("AEZ tiny and core enciphering", "src/aez/aez.c aez_encrypt / aez_decrypt"), ("interface marshalling", "src/prp.cpp")],
 state=[("expanded AEZ context", "I, J, L multiples derived from the 48-byte key", "src/aez/aez.c aez_setup")],
 observe=["Prp::encrypt / decrypt results"])
prop("C09", "The set hash depends only on the multiset and is a group homomorphism",
 "For every sequence of element insertions, element removals, set additions and set removals, the resulting digest depends only on the net multiplicity of each element, not on order or grouping: removing what was added restores the previous digest, hashing a list equals inserting its elements, and the empty set has the fixed neutral digest. "
 "Equality and inequality agree with the digest bytes, a digest exported and re-imported behaves as the original (invalid encodings are refused), and states with different net multiplicities never compare equal.",
 ["histories", "inputs"], "all finite sequences of the operations over arbitrary byte-string elements, including aliasing, copies, assignments and export/import at any point",
 "The tests run a few short add/remove sequences; the law is over all interleavings and over byte strings with embedded zeros, empties and repeats.",
 ["src/set_hash.cpp", INC+"set_hash.hpp"],
 [("element to curve point mapping", "src/set_hash.cpp gen_curve_point"), ("group addition and subtraction", "src/set_hash.cpp add_/remove_")],
 state=[("set hash state", "compressed Edwards point equal to the sum of element points", INC+"set_hash.hpp")],
 observe=["SetHash::data, ==, !="])
prop("C10", "Range-constrained PRF values are one fixed function of key, height and leaf",
 "For every key, tree height from 2 to 64 and leaf below 2^(height-1), evaluating one leaf gives the value defined by the binary derivation tree of the pseudo-random generator, and evaluating a range calls back exactly once per leaf, in increasing order, with the right index and that same value. "
 "Different leaves of a tree never share a value.",
 ["inputs"], "all keys, heights 2..64, leaves and ranges (tree edges, powers of two, subtree boundaries, single leaves), several output widths",
 "The tests compare the implementation with itself on small trees with fixed keys; heights near 64 and a reference value are never checked.",
 [INC+"rcprf.hpp", "src/rcprf.cpp", INC+"prg.hpp"],
 [("path derivation", INC+"rcprf.hpp derive_leaf"), ("range recursion", INC+"rcprf.hpp derive_leaf_range")],
 observe=["RCPrf::eval, RCPrf::eval_range callbacks"])
prop("C11", "A constrained PRF agrees with its parent on its range and holds nothing more",
 "For every chain of successive constraints, the constrained object reports exactly the requested range, agrees with the original PRF on every leaf of it (single and range evaluation), and never evaluates or further constrains outside it. "
 "Its key material is exactly the covering subtrees: the pieces it is made of are disjoint, consecutive, lie inside the range and reveal the derivation key of no node with a leaf outside it.",
 ["inputs", "histories"], "all trees of height 2..64, all chains of nested sub-ranges, all leaves, including after wrapping and moving",
 "The tests enumerate trees of depth 5 and 7 under one zero key; deep trees, long chains, serialised constrained keys and what key material they contain are not examined.",
 [INC+"rcprf.hpp"],
 [("subtree cover", INC+"rcprf.hpp generate_constrained_subkeys_from_node"), ("re-constraining elements", INC+"rcprf.hpp ConstrainedRCPrf::generate_constrained_subkeys")],
 state=[("elements", "sorted list of inner/leaf subtree keys covering the range", INC+"rcprf.hpp ConstrainedRCPrf")],
 observe=["ConstrainedRCPrf::eval / eval_range / constrain, public generate_constrained_subkeys, wrapped representation"])
prop("C12", "Out-of-domain requests to range-constrained PRFs are always refused",
 "For every tree and constrained object, a leaf or range outside the supported leaves, an inverted range, a constraint to the full range, an invalid height (below 2 or above 64), or an inconsistent collection of pieces is refused with the documented exception, with no callback made, no value returned and no crash. "
 "The object afterwards gives the same answers as before.",
 ["inputs", "histories"], "all heights, all 64-bit leaves and range endpoints, all subsets/permutations of pieces",
 "The tests try one or two values past the end at one depth; the boundary moves with the height and wraps at 64-bit extremes.",
 [INC+"rcprf.hpp"],
 [("bounds checks", INC+"rcprf.hpp RCPrf::eval/eval_range/constrain, ConstrainedRCPrf::*"), ("constructor validation", INC+"rcprf.hpp ConstrainedRCPrfElement, ConstrainedRCPrf")],
 observe=["exceptions and callbacks"])
prop("C13", "Wrapped objects unwrap to objects that behave identically",
 "For every wrappable object (cipher, PRF of any width, PRG, PRP, range-constrained PRF, constrained PRF of any shape including an empty one, trapdoor inverse) in any reachable state, unwrapping its wrapped form under the same wrapping key returns an object indistinguishable in behaviour from the original, which is itself unaffected. "
 "The wrapped form is IV, encrypted serialisation and tag as documented, exactly 28 bytes longer than the serialisation, and is wiped on successful unwrapping.",
 ["inputs", "histories"], "all wrapping keys, all object classes, widths, shapes and states, repeated wrap/unwrap cycles",
 "The tests wrap one object of each class; shapes (tree heights, ranges, widths) and generations of re-wrapping are unbounded and the format is not pinned.",
 [INC+"wrapper.hpp", "src/wrapper.cpp", "src/cipher.cpp", "src/prg.cpp", "src/prp.cpp", INC+"prf.hpp", INC+"rcprf.hpp", "src/tdp.cpp"],
 [("wrap / unwrap", INC+"wrapper.hpp"), ("serialisers", "serialize/deserialize of each class")],
 observe=["outputs of the unwrapped object vs the original; bytes of the blob"])
prop("C14", "Forged, altered or mistyped wrapped objects never unwrap",
 "Unwrapping succeeds only for a blob produced under the same key for exactly the requested class and parameters: any modification, truncation, extension or splice, another wrapping key, another class, or another width is refused with an exception. "
 "A refusal leaves the caller's blob unmodified and the wrapper able to unwrap the genuine blob.",
 ["inputs", "histories"], "all blobs of all classes, all mutations and bit positions, all ordered pairs of distinct (class, width) types, all lengths",
 "The tests try one bad tag; the product of classes, widths, object shapes and mutation positions is never explored.",
 [INC+"wrapper.hpp"],
 [("synthetic tag over IV, type, public context and serialisation", INC+"wrapper.hpp Wrapper::wrap / unwrap"), ("class identifiers", INC+"wrapper.hpp TypeByte specialisations")],
 observe=["exceptions of Wrapper::unwrap, state of the blob"])
prop("C15", "Trapdoor permutation evaluation and inversion are exact RSA at every order",
 "For every valid 2048-bit key and every element, evaluation is the public RSA exponentiation, inversion its inverse, iterated inversion of order k equals k inversions (order 0 is the identity), and pool evaluation of order k equals k evaluations for every order up to the pool size. "
 "String and array interfaces agree and every result is exactly 256 bytes.",
 ["inputs"], "all 2048-bit keys (including odd public exponents), all elements below the modulus (0, 1, N-1, multiples of a factor, leading zeros), all orders, all pool sizes from 1",
 "The tests use fresh random keys and elements, orders up to a few dozen, and compare the code with itself; special elements, pool size 1 and order boundaries are unreached.",
 ["src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", "src/mbedtls/rsa.c", "src/mbedtls/bignum.c", INC+"tdp.hpp"],
 [("RSA public / private operations with CRT and blinding", "src/mbedtls/rsa.c"), ("iterated inversion", "src/tdp_impl/tdp_impl_mbedtls.cpp invert_mult"), ("pool of precomputed exponents", "src/tdp_impl/tdp_impl_mbedtls.cpp TdpMultPoolImpl_mbedTLS")],
 observe=["Tdp / TdpInverse / TdpMultPool results"])
prop("C16", "Trapdoor keys export, import, copy and generate consistently",
 "Exporting a public or private key and importing it (any number of times), copying, assigning and moving give objects that compute the same function and export the same key; the public object, the private object and the pool of one key agree everywhere. "
 "Generating an element from a key and seed is deterministic, the same on every object of the key and through every overload, and equals the 264-byte PRF output of the seed reduced modulo the modulus; samples and generated elements are always 256-byte values below the modulus.",
 ["inputs", "histories"], "all keys, all histories of copy/assign/export/import over the three object kinds, all seeds",
 "The tests copy and re-import one key once; the relation is over all histories and no independent computation of generated elements exists.",
 ["src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", "src/mbedtls/rsa_io.c", "src/mbedtls/pkparse.c", INC+"tdp.hpp"],
 [("PEM writing", "src/mbedtls/rsa_io.c"), ("PEM/DER parsing", "src/mbedtls/pkparse.c"), ("copy/assign", "src/tdp.cpp, src/tdp_impl/tdp_impl_mbedtls.cpp")],
 observe=["exported PEM strings, evaluation results"])
prop("C17", "Key import accepts only well-formed consistent keys and never misbehaves",
 "For every byte string offered as a public or private key, import either throws or yields an object whose operations are mutually consistent (evaluation inverts inversion) on 2048-bit elements; truncated, bit-flipped, re-encoded, wrong-size or inconsistent keys, and private keys whose factors are not primes, are never accepted as a working key that computes wrong results (a modulus counts as 2048-bit when it fits 256 bytes exactly). "
 "No input causes a crash, out-of-bounds access, unbounded memory use or non-termination.",
 ["inputs"], "all byte strings: arbitrary text, mutated PEM, mutated DER, keys of other sizes, keys with inconsistent components",
 "The tests offer one blank string; parsers fail on structured inputs that only search produces.",
 ["src/mbedtls/pkparse.c", "src/mbedtls/pem.c", "src/mbedtls/base64.c", "src/mbedtls/asn1parse.c", "src/mbedtls/rsa.c", "src/tdp_impl/tdp_impl_mbedtls.cpp"],
 [("layered parsers with length checks", "src/mbedtls/*parse.c, pem.c"), ("key validation", "src/mbedtls/rsa.c mbedtls_rsa_check_pubkey/privkey")],
 observe=["constructors of Tdp, TdpInverse, TdpMultPool under sanitizers"])
prop("C18", "Key material stays protected, single-owner and erased for its whole life",
 "Whatever the sequence of constructions, moves, operations (successful or throwing) and destructions, between calls every live key's memory is inaccessible (with locking enabled), every secure allocation has exactly one owner and is released exactly once, and nothing is leaked. "
 "Key bytes handed in by the caller are zeroed once the key owns them, ordinary memory that the library releases (heap blocks, and, AEZ computations aside, the stack of a finished call) holds no copy of key bytes (nor of the private numbers or PEM text of an RSA key that is imported, exported, used or wrapped), a moved-from or erased key refuses use, and a moved key keeps its exact content.",
 ["histories", "fault_sequences"], "all histories of key and key-holding object operations, including operations that throw",
 "A functional test cannot see page protections or leaked secure memory, and the interesting states follow from exceptions part-way through an operation.",
 [INC+"key.hpp", INC+"prg.hpp", "src/prp.cpp", "src/prg.cpp", INC+"hmac.hpp", INC+"wrapper.hpp", "src/cipher.cpp", "src/tdp.cpp", "src/mbedtls/pem.c", "src/mbedtls/bignum.c"],
 [("lock / unlock around every use", INC+"key.hpp Key::lock/unlock"), ("move-only ownership", INC+"key.hpp")],
 state=[("locked flag", "whether the key page is no-access", INC+"key.hpp")],
 observe=["secure allocator and memory-protection calls (interposed at link time)", "caller buffers"])
prop("C19", "Misuse is rejected with an exception and leaves objects and outputs intact",
 "Every call with arguments that the interface documents as invalid (null buffers, empty messages, wrong element sizes, invalid orders, emptied keys, oversized lengths, zero pool) throws the documented exception in all builds instead of crashing, corrupting memory or returning a value (Prp's raw-pointer calls document no null check and are outside). "
 "The rejected call leaves string and raw output arguments unchanged and every object involved behaves afterwards exactly as an object that never saw it.",
 ["histories", "inputs"], "all histories mixing valid and invalid calls on every class, in debug and release builds",
 "The tests check that one bad call throws; they never use the object afterwards nor combine errors, and run only in the assertion-enabled build.",
 ["src/cipher.cpp", "src/hash.cpp", "src/prg.cpp", "src/prp.cpp", "src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", INC+"hmac.hpp", INC+"prf.hpp", INC+"key.hpp"],
 [("argument validation", "each public entry point")],
 observe=["exception type, outputs, later results"])
prop("C20", "Big-integer arithmetic is exact for all operands and aliasings",
 "For all integers up to the supported size and both signs, addition, subtraction, multiplication, division with remainder, modular reduction, exponentiation, inversion, greatest common divisor, shifts, comparison, bit access and import/export return the mathematically exact result (or the documented error for division by zero, negative modulus, non-invertible input or short buffer), including when the result object is also an operand (for reduction, modular exponentiation and inversion: the operand that is reduced, raised or inverted) and when operands carry leading zero limbs. Numbers have been given a value (not merely initialised). "
 "Primality testing accepts every prime and rejects composites.",
 ["inputs"], "all operand values, sizes from zero to thousands of bits, signs, carry-chain patterns, aliasings and output buffer sizes",
 "The tests use a fixed table of vectors; carry and quotient-correction errors occur for rare limb patterns only.",
 ["src/mbedtls/bignum.c", "src/mbedtls/bignum.h", "src/mbedtls/bn_mul.h"],
 [("limb arithmetic", "src/mbedtls/bignum.c")],
 observe=["mbedtls_mpi_* results vs an independent big-integer library"])
prop("C21", "Base64, PEM, DER and RSA-key codecs invert exactly and reject malformed text",
 "Decoding what was encoded returns the original bytes for every input and reports sizes exactly, an output buffer that is too small is refused without being overrun, and any text that is not a valid encoding (base64 with foreign characters, misplaced spaces or padding, or an incomplete last group; PEM without matching header, header line end or footer; DER whose tag or length does not fit) is refused without leaking memory. Non-empty contents, non-negative integers. "
 "RSA keys written as PEM or DER and parsed back are numerically identical.",
 ["inputs"], "all byte strings and lengths, all line structures, all buffer sizes, mutated encodings, RSA keys of several sizes",
 "The tests use fixed vectors and one key; padding, line-length and buffer-size boundaries form a large product space.",
 ["src/mbedtls/base64.c", "src/mbedtls/pem.c", "src/mbedtls/asn1parse.c", "src/mbedtls/asn1write.c", "src/mbedtls/rsa_io.c", "src/mbedtls/pkparse.c"],
 [("codecs", "src/mbedtls/base64.c, pem.c, asn1*.c, rsa_io.c")],
 observe=["codec results vs independent codecs"])
prop("C22", "Byte-string search returns the first occurrence and reads nothing outside",
 "For all haystacks and needles with explicit lengths (any bytes, embedded zeros, periodic patterns), the search returns the address of the first occurrence, or nothing when there is none or the needle is longer than the haystack (an empty needle is found at the start), and never reads outside the two buffers.",
 ["inputs"], "all haystacks and needles, lengths 0..thousands, small and large alphabets, near-miss periodic patterns",
 "The tests try a few strings; a scan that restarts after a partial match is wrong only for self-overlapping patterns.",
 ["src/utils.cpp", INC+"utils.hpp"],
 [("restarting scan", "src/utils.cpp strstrn_uint8")],
 observe=["strstrn_uint8 result"])
prop("C23", "Outputs do not depend on build configuration or compiler",
 "For every program using the library, every deterministic output, every exception raised and every accepted or rejected input is the same whether memory locking is on or off, assertions are on or off, at any optimisation level, with either compiler (gcc, clang) and whether big-integer code uses inline assembly or portable C; data written by one build is read by another.",
 ["configurations", "histories"], "all call sequences over all classes with deterministic inputs, across the build configurations",
 "The test-suite is built once, in one configuration; behaviour that hides in an assertion or a configuration branch is invisible to it.",
 ["src/CMakeLists.txt", INC+"key.hpp", INC+"rcprf.hpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", "src/aez/aez.c", "src/mbedtls/bn_mul.h"],
 [("conditional compilation", "ENABLE_MEMORY_LOCK, NDEBUG, inline-assembly multiplication")],
 observe=["transcripts of call sequences in several builds"])
prop("C24", "Puncturable encryption decrypts exactly the unpunctured tags",
 "For every master key and every sequence of encryptions and incremental punctures: the key made of initial_keyshare(d) and inc_puncture(1, t1) ... inc_puncture(d, td) decrypts every ciphertext on a tag outside {t1 .. td} to its message, and answers false, leaving the output alone, for every tag inside. A ciphertext on a punctured tag is not opened by leaving that tag's share out, by renaming the share or the ciphertext, by the initial share alone, or by the shares of another master key. Key shares are a fixed function of master key, number and tag (any number, asked for in any order, by any object made from the same key), no two shares of a key share their randomness, and encryptions are randomised; extract_tag returns the tag of a share or ciphertext; the reserved tag is refused with invalid_argument by encrypt and inc_puncture. The underlying scheme (Gmppke) agrees: public-key and secret-key encryption are interchangeable, puncturing a private key in place and rebuilding it from incremental shares allow the same ciphertexts, and shares, ciphertexts and group elements survive their serialisation; the wrapped scalars and group elements obey the arithmetic of their groups. A thread that has not initialised RELIC gets a runtime_error.",
 ["histories", "inputs"], "all puncture and encryption histories, master keys, tags, messages, share numbers; all scalars modulo the group order",
 "The tests puncture a few tags with one key, and cannot be built where RELIC is missing, as here.",
 ["src/puncturable_enc.cpp", "src/ppke/GMPpke.cpp", "src/ppke/GMPpke.hpp", "src/ppke/util.hpp", "src/ppke/relic_wrapper/relic_api.cpp", INC+"puncturable_enc.hpp"],
 [("Green-Miers puncturable encryption", "src/ppke/GMPpke.cpp"), ("incremental shares", "src/puncturable_enc.cpp")],
 observe=["PuncturableEncryption", "PuncturableDecryption", "extract_tag", "Gmppke", "PairingGroup"])
prop("C25", "Independent objects used from several threads behave as if used alone",
 "When several threads each use their own objects (with any mix of operations, including creating keys, random values and key pairs), every deterministic result equals the single-threaded one, random values never repeat across threads, and no data race occurs inside the library.",
 ["schedules", "histories"], "all interleavings of threads working on disjoint objects",
 "The test-suite is single-threaded.",
 ["src/random.cpp", "src/utils.cpp", INC+"key.hpp", "src/mbedtls/bignum.c", "src/mbedtls/rsa.c", "src/aez/aez.c"],
 [("absence of shared mutable state", "whole library")],
 observe=["results per thread; race detector"])
prop("C26", "Exhausted memory yields an error, never a wrong result or leaked secret",
 "If any single memory allocation (ordinary or secure) or memory-protection change fails during an operation, that operation either still returns the correct result or reports failure by an exception or error code; it never crashes, returns a wrong value, or leaves key memory accessible or leaked. "
 "Once memory is available again the same objects give correct results.",
 ["fault_sequences", "inputs"], "every operation of every class, every allocation point within it",
 "No test injects allocation failures.",
 [INC+"key.hpp", INC+"prg.hpp", INC+"wrapper.hpp", "src/mbedtls/bignum.c", "src/mbedtls/rsa.c", "src/mbedtls/rsa_io.c", "src/mbedtls/pkparse.c", "src/tdp_impl/tdp_impl_mbedtls.cpp"],
 [("allocation checks and clean-up paths", "whole library")],
 observe=["result, exception, secure-memory census after the call"])
prop("C27", "Re-initialisation, cleanup and a CPU without AES change no other result",
 "Initialising the library again, or cleaning it up and initialising it again, at any point of a program changes no result of any live or later object, repeats no random value and keeps no memory. "
 "While the CPU reports no AES instructions at initialisation, Prp::is_available() is false and every construction, encryption, decryption, wrapping and unwrapping of a Prp, through every overload, throws std::runtime_error without writing to its output, leaking or exposing a key, while every other class works; a Prp that outlives that state gives the same permutation as before.",
 ["histories", "inputs"], "all programs over the library's classes with initialisations and cleanups between any two calls, all histories of Prp operations over both states of the CPU",
 "The tests initialise once, on one CPU that has AES: the refusing branches are never taken and no object lives across an initialisation.",
 ["src/utils.cpp", "src/prp.cpp", INC+"prp.hpp"],
 [("availability check at every entry", "src/prp.cpp Prp::*"), ("computed at initialisation", "src/utils.cpp init_crypto_lib, src/prp.cpp Prp::compute_is_available")],
 state=[("is_available__", "whether the CPU has AES instructions", "src/prp.cpp")],
 observe=["results of the calls", "libsodium's CPU feature queries (interposed at link time)", "memory census"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
