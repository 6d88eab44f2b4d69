#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so it stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Honest decapsulation always recovers the encapsulated shared secret",
  "For every parameter set and implementation, if a key pair was produced by key generation and a ciphertext by encapsulation to its public key, decapsulation with the secret key returns success and exactly the shared secret encapsulation returned. This holds for every choice of coins and stays true at the largest noise the samplers can produce whenever the accumulated decryption noise is below the decoding threshold.",
  ["inputs"], "for all 64-byte key-generation coins, all 32-byte encapsulation coins, all matrix/noise values the XOF and PRF could return, all three parameter sets, both implementations",
  "test_kyber draws 1000 random keys and test_vectors 10000 pseudo-random ones; noise near its maximum, boundary coefficients and structured messages occur with negligible probability",
  ["ref/kem.c","ref/indcpa.c","avx2/indcpa.c","ref/poly.c","avx2/poly.c","avx2/ntt.S","avx2/invntt.S"],
  [("re-encryption check and key selection","ref/kem.c crypto_kem_dec"),("noise bound eta1/eta2 versus q/4 decoding threshold","ref/params.h, ref/poly.c poly_tomsg")],
  observe=["keypair_derand, enc_derand, dec of libpqcrystals_kyber{512,768,1024}_{ref,avx2}.so"])
p("C02", "Any altered ciphertext is implicitly rejected with the key-dependent value",
  "Decapsulating any ciphertext other than the one encapsulation would produce for the decrypted message returns success and exactly SHAKE256(z || ciphertext) truncated to 32 bytes, z being the secret key's last 32 bytes. In particular no modification of an honest ciphertext, however small or structured, and no choice of positions whose differences cancel, yields the honest shared secret, and altering z changes only rejected results.",
  ["inputs"], "for all byte strings of ciphertext length (all single-bit, single-byte, paired and structured modifications of honest ciphertexts), all secret keys, parameter sets and implementations",
  "test_kyber flips one random byte of 1000 ciphertexts and only checks the secret differs; test_vectors uses wholly random ciphertexts, never a near-miss",
  ["ref/kem.c","ref/verify.c","avx2/verify.c","ref/symmetric-shake.c"],
  [("constant-time full-length comparison","ref/verify.c, avx2/verify.c verify"),("rejection key and conditional copy","ref/kem.c crypto_kem_dec, ref/symmetric-shake.c rkprf")],
  observe=["dec"])
p("C03", "Key generation, encapsulation, decapsulation are byte-exact FIPS-203 functions",
  "For arbitrary input byte strings of the published lengths, well-formed or not (including 12-bit coefficients at or above the modulus, which act as their residues), key generation, encapsulation and decapsulation return 0 and output exactly the bytes of the ML-KEM algorithms as published for this tree. The published lengths in the API headers match what is read and written.",
  ["inputs"], "for all coins, public keys, secret keys and ciphertexts of the right length, all parameter sets and implementations, against an independently written executable specification",
  "SHA256SUMS covers 10000 honest pseudo-random runs per parameter set; keys with unreduced coefficients, inconsistent keys and extreme coefficient values never appear",
  ["ref/kem.c","ref/indcpa.c","avx2/indcpa.c","ref/api.h","avx2/api.h","ref/params.h","ref/symmetric-shake.c"],
  [("G/H/J/PRF/XOF domain separation and key layout","ref/kem.c, ref/indcpa.c, ref/symmetric.h"),("coefficient handling modulo q","ref/poly.c, avx2/poly.c, avx2/*.S")],
  observe=["keypair_derand, enc_derand, dec, indcpa_*"])
p("C04", "The portable and AVX2 implementations are interchangeable",
  "For each parameter set the portable and the AVX2 implementation compute the same function: given the same coins and the same (possibly malformed) inputs every API call produces identical bytes and return values, so keys, ciphertexts and secrets can be mixed freely between them in any role.",
  ["inputs","configurations"], "for all inputs to each API function and all assignments of implementation to the key-generation, encapsulation and decapsulation roles",
  "the two are only tied through one hash of honest test vectors; rejection-sampling refills, unreduced keys, adversarial ciphertexts and structured values are not compared",
  ["ref/indcpa.c","avx2/indcpa.c","avx2/rejsample.c","avx2/poly.c","avx2/polyvec.c","avx2/cbd.c","avx2/fips202x4.c"],
  [("same encodings despite a different internal coefficient order","avx2/shuffle.S, avx2/poly.c"),("vectorised rejection sampling equal to the scalar one","avx2/rejsample.c")],
  observe=["all API functions of both libraries of a parameter set"])
p("C05", "Random bytes come fully and only from the operating system, whatever it answers",
  "The random-byte routine returns only when every requested byte, and no byte beyond the buffer, has been filled in order from successful answers of the operating system's random source, across short answers and interruptions. If the source reports a permanent failure the routine aborts the program instead of returning or continuing; each platform variant of the routine does the same.",
  ["fault_sequences"], "for all sequences of operating-system answers (any short count, interruption, transient open failure, permanent error), all request lengths and all platform variants in the source",
  "the tests run against a kernel that always answers in full at the first call",
  ["ref/randombytes.c","avx2/randombytes.c"],
  [("retry loop advancing by the bytes received, abort on error","ref/randombytes.c randombytes")],
  state=[("fd","lazily opened descriptor of the fallback device","ref/randombytes.c")],
  observe=["randombytes() with getrandom/open/read answers controlled"])
p("C06", "Encoding and compression are exact and lossless where promised",
  "Every coefficient encoder and decoder (12-bit packing, 10/11-bit and 4/5-bit compression, message bits) maps each value at each position to exactly the published rounding rule, independently of neighbouring values. Packing followed by unpacking is the identity on canonical polynomials, unpacking yields the 12-bit field at each position, decompression followed by compression is the identity, and message encoding followed by decoding is the identity.",
  ["inputs"], "for all coefficient values in the documented input range, at every coefficient position, against several backgrounds, for all byte contents when decoding",
  "tests only exercise the codecs through honest random runs; boundary roundings at specific positions or in specific vector lanes are never forced",
  ["ref/poly.c","ref/polyvec.c","avx2/poly.c","avx2/polyvec.c","avx2/shuffle.S"],
  [("multiplicative division constants","ref/poly.c poly_compress, ref/polyvec.c polyvec_compress"),("vector shuffles/masks","avx2/poly.c, avx2/polyvec.c")],
  observe=["poly_compress/decompress, polyvec_compress/decompress, *_tobytes/frombytes, *_tomsg/frommsg; and through indcpa_dec/enc"])
p("C07", "Polynomial arithmetic is exact modulo q with no overflow on its whole domain",
  "Modular reductions, the forward and inverse number-theoretic transforms, pointwise multiplication and their composition give exactly the ring product and sum modulo q for every input in the documented ranges, including the extremal inputs that maximise intermediate magnitudes, and outputs stay within the ranges later steps rely on.",
  ["inputs"], "for all 16/32-bit scalars accepted by the reductions and all polynomials with coefficients in the documented input ranges, all vector lengths, both implementations",
  "random polynomials concentrate far from the overflow boundary of lazy reduction; extremal inputs have probability below 2^-100 per test",
  ["ref/reduce.c","ref/ntt.c","ref/poly.c","ref/polyvec.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/fq.S","avx2/consts.c"],
  [("lazy reduction bounds","ref/ntt.c, avx2/ntt.S, avx2/invntt.S"),("Montgomery/Barrett constants","ref/reduce.c, avx2/consts.c")],
  observe=["montgomery_reduce, barrett_reduce, ntt, invntt, basemul, poly_*, polyvec_* and indcpa_enc/indcpa_dec under chosen XOF/PRF answers"])
p("C08", "Noise sampling is the exact centered binomial distribution of its input bits",
  "Each noise coefficient is exactly the number of ones in its first eta input bits minus that in its next eta bits, for every bit pattern at every coefficient position and regardless of the surrounding bytes; every noise polynomial is derived from its own seed-and-counter pair as published, in key generation and in encapsulation, in both implementations.",
  ["inputs"], "for all contents of each coefficient's input bit group at each position, all nonce assignments, both eta values, both implementations",
  "tests see only pseudo-random buffers through hashes of whole runs",
  ["ref/cbd.c","avx2/cbd.c","ref/poly.c","avx2/poly.c","avx2/indcpa.c"],
  [("bit-sliced counting","ref/cbd.c cbd2/cbd3, avx2/cbd.c"),("nonce sequence and 4-way noise batching","ref/indcpa.c, avx2/indcpa.c, avx2/poly.c poly_getnoise_*")],
  observe=["poly_cbd_eta1/2, poly_getnoise_*, and keypair_derand/indcpa_enc under chosen PRF answers"])
p("C09", "The public matrix is the exact rejection-sampled stream, however long it must be",
  "Each matrix entry consists of the first 256 12-bit values below the modulus in the extendable-output stream of its seed and index pair, in order, with the published index orientation for the matrix and its transpose, for every acceptance pattern of the stream including those that need several additional stream blocks.",
  ["inputs"], "for all streams: every 12-bit value at every candidate position, every acceptance pattern boundary, any number of additional blocks, all matrix positions, parameter sets and implementations",
  "a second additional block occurs with probability around 2^-40 or less per polynomial and specific acceptance patterns at vector boundaries are never forced",
  ["ref/indcpa.c","avx2/indcpa.c","avx2/rejsample.c"],
  [("scalar rejection loop and refill loop","ref/indcpa.c rej_uniform, gen_matrix"),("vector compaction with overwrite-past-counter","avx2/rejsample.c rej_uniform_avx")],
  observe=["gen_matrix; keypair_derand/enc_derand under chosen XOF streams"])
p("C10", "SHA-3 and SHAKE are exact for every length, chunking and call sequence",
  "One-shot hashing and extendable output equal FIPS 202 for every input and output length; the incremental interface produces the same output for every way of splitting the input across absorb calls and the output across squeeze and whole-block squeeze calls, including empty pieces and all block-boundary positions, and in-place hashing.",
  ["inputs","histories"], "for all input and output lengths, all message contents, all sequences of absorb, finalize and squeeze pieces",
  "Kyber itself uses about a dozen fixed lengths with one or two absorb calls; no test chunks the input or squeezes in pieces",
  ["ref/fips202.c","ref/fips202.h","avx2/fips202.c","avx2/fips202.h"],
  [("sponge position bookkeeping","ref/fips202.c keccak_absorb/keccak_finalize/keccak_squeeze"),("permutation","ref/fips202.c KeccakF1600_StatePermute")],
  state=[("pos","current byte position in the rate part","ref/fips202.h keccak_state")],
  observe=["all exported functions of libpqcrystals_fips202_ref.so"])
p("C11", "Four-way SHAKE equals four independent SHAKE computations",
  "For every input length, output length and content, the four-way functions deliver to each of the four outputs exactly what SHAKE of the corresponding input alone would give, whole-block squeezes continue the same streams, and the multi-lane state operations act only on the addressed lanes, bytes and instances.",
  ["inputs","histories"], "for all input lengths, output lengths, block counts, all instance/lane/offset/length combinations of the state operations, inputs differing in any one instance",
  "Kyber uses only two input lengths and three output lengths of the four-way code; multi-block inputs, partial-block outputs and the state layer are never run",
  ["avx2/fips202x4.c","avx2/fips202x4.h","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c","avx2/keccak4x/KeccakP-1600-unrolling.macros"],
  [("gather/scatter of lanes","avx2/fips202x4.c"),("SIMD permutation","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c")],
  observe=["exported functions of libpqcrystals_fips202x4_avx2.so"])
p("C12", "Secret data never influences control flow or memory addresses",
  "In key generation, encapsulation and decapsulation the sequence of executed instructions, of accessed addresses and of division operands depends only on public data (the public seed, public key and ciphertext), never on secret coins, secret keys, the decrypted message or whether the ciphertext was accepted.",
  ["inputs"], "for all pairs of secrets with equal public data, including accepting versus rejecting decapsulations, in every parameter set and implementation as built",
  "functional tests cannot see timing or addresses; any branch on a secret passes them",
  ["ref/kem.c","ref/verify.c","avx2/verify.c","ref/poly.c","avx2/poly.c","ref/polyvec.c","ref/cbd.c","ref/indcpa.c"],
  [("branch-free compare and select","ref/verify.c verify, cmov, cmov_int16"),("division-free compression and message decoding","ref/poly.c, ref/polyvec.c")],
  observe=["instruction and data address trace of the compiled libraries"])
p("C13", "Buffer comparison and conditional copy are exact for every length and content",
  "The comparison reports equality exactly when all bytes agree and a difference otherwise, returning only 0 or 1, whatever the number, position and value of the differing bytes and whatever the length. The conditional copy overwrites exactly the given number of bytes when its flag is 1 and leaves them when it is 0, touching nothing else.",
  ["inputs"], "for all lengths around the vector-block boundaries up to the largest ciphertext, all positions, all byte differences, all pairs of differing positions, all alignments",
  "tests only compare equal ciphertexts or wholly different ones at one length",
  ["ref/verify.c","avx2/verify.c","ref/verify.h"],
  [("OR-accumulation over the whole length with scalar tail","avx2/verify.c verify"),("masked XOR select","ref/verify.c cmov, avx2/verify.c cmov")],
  observe=["verify, cmov, cmov_int16; dec"])
p("C14", "No call reads or writes outside the buffers its caller provides",
  "Every public function reads only the documented input bytes and writes only the documented output bytes, never modifying inputs, for buffers of exactly the documented size anywhere in memory, for every input content including malformed keys, ciphertexts and any hash input or output length, and without undefined behaviour.",
  ["inputs"], "for all inputs and lengths accepted by the KEM, hash and four-way hash functions, with each buffer placed directly before and directly after inaccessible memory",
  "valgrind runs on stack buffers of honest data cannot see over-reads into neighbouring objects, and odd hash lengths are never used",
  ["ref/kem.c","ref/indcpa.c","avx2/indcpa.c","avx2/rejsample.c","avx2/polyvec.c","avx2/fips202x4.c","ref/fips202.c","avx2/verify.c"],
  [("slack bytes kept inside internal buffers","avx2/polyvec.c, avx2/poly.c, avx2/cbd.c"),("buffer length guards in vector loops","avx2/rejsample.c")],
  observe=["guard pages around every argument; sanitizer builds"])
p("C15", "Results do not depend on call history or leftover memory",
  "The result of every API call is a function of its arguments alone: it does not depend on which calls were made before, with which arguments or at which addresses, on the previous contents of output buffers, stack or vector registers, nor on whether an earlier call used near-identical input.",
  ["histories"], "for all sequences of API and hash calls, all argument reuse patterns, all prior contents of output buffers, stack and registers",
  "tests call each function in one fixed order with fresh random data",
  ["ref/kem.c","ref/indcpa.c","avx2/indcpa.c","ref/fips202.c","avx2/fips202x4.c","ref/poly.c","avx2/poly.c"],
  [("no mutable static state; all locals initialised before use","ref/*.c, avx2/*.c")],
  observe=["API outputs; writable data segments of the libraries"])
p("C16", "Concurrent calls from several threads do not disturb each other",
  "Any number of threads may run any API or hash functions at the same time, sharing read-only keys and ciphertexts, and each call returns exactly what it would return alone, under every interleaving; no call writes to its inputs even temporarily.",
  ["schedules"], "for all interleavings of two or more threads each running any API function, with private or shared constant inputs",
  "the test suite is single-threaded",
  ["ref/kem.c","ref/indcpa.c","avx2/indcpa.c","ref/fips202.c","avx2/fips202x4.c","avx2/consts.c"],
  [("no shared mutable state, inputs const","ref/*.c, avx2/*.c")],
  observe=["API outputs under a controlled scheduler; shared-memory accesses of the libraries"])
p("C17", "All variants can be linked and loaded together without interfering",
  "Every global symbol of the libraries lies in the published per-variant namespaces, so a program can link or load all parameter sets of both implementations and the hash libraries at once, in any order, and each function behaves exactly as when its library is used alone; the API header of each implementation declares exactly these symbols with matching sizes.",
  ["configurations"], "for all load orders and combinations of the built libraries and static linking of all variants",
  "each test program links exactly one parameter set of one implementation",
  ["ref/api.h","avx2/api.h","ref/params.h","avx2/params.h","ref/fips202.h","avx2/fips202.h","avx2/fips202x4.h","ref/Makefile","avx2/Makefile"],
  [("namespace macros on every external symbol","ref/*.h, avx2/*.h")],
  observe=["dynamic and static symbol tables; API results with all libraries loaded globally"])
p("C18", "Results do not depend on buffer address or alignment",
  "Every API and hash function accepts its byte-array arguments at any address: the same result is produced for every alignment of every argument, for read-only inputs and for inputs adjacent to each other, without faults.",
  ["inputs"], "for all alignments modulo 64 of every byte-array argument of every API and hash function, page-crossing placements included",
  "the tests pass stack arrays whose alignment the compiler fixes",
  ["avx2/verify.c","avx2/rejsample.c","avx2/poly.c","avx2/polyvec.c","avx2/shuffle.S","avx2/fips202x4.c","avx2/indcpa.c","ref/fips202.c"],
  [("unaligned vector loads/stores on caller memory","avx2/*.c, avx2/shuffle.S, avx2/shuffle.inc")],
  observe=["API outputs at swept addresses"])
p("C19", "The function computed does not depend on how the sources are built",
  "Whatever compiler, optimisation level, char signedness or source-provided alternative code path is chosen, every parameter set of each implementation computes the same function, and a build without an explicit parameter set is the 768 one.",
  ["configurations"], "for all combinations of installed compilers, optimisation levels, relevant code-generation flags and documented source switches",
  "the tests build one configuration with one compiler",
  ["ref/params.h","avx2/params.h","avx2/rejsample.c","ref/verify.c","avx2/verify.c","ref/reduce.c","avx2/align.h"],
  [("portable C without reliance on undefined or implementation-defined behaviour","ref/*.c, avx2/*.c"),("alternative BMI code path","avx2/rejsample.c")],
  observe=["API outputs of each build"])
p("C20", "The known-answer DRBG and generator are exact over all call sequences",
  "The deterministic generator behind the NIST known-answer program equals the CTR-DRBG specification for every seed, personalisation string and sequence of request lengths, including all counter carries; the seed expander hands out exactly its stream for every chunking and refuses over-long requests; the known-answer files the program writes are exactly those of the specification.",
  ["histories","inputs"], "for all request-length sequences, counter states, seed-expander chunkings and limits, and file contents seen by the known-answer program",
  "the KAT test only checks that the program exits with success; carries beyond the low counter byte and the seed expander are never exercised",
  ["ref/nistkat/rng.c","ref/nistkat/PQCgenKAT_kem.c"],
  [("counter increment with carry and state update","ref/nistkat/rng.c randombytes, AES256_CTR_DRBG_Update"),("seed-expander buffering","ref/nistkat/rng.c seedexpander")],
  state=[("DRBG_ctx","key, counter and reseed count","ref/nistkat/rng.c"),("AES_XOF_struct","buffer, position, remaining length","ref/nistkat/rng.h")],
  observe=["randombytes_init/randombytes/seedexpander; .req/.rsp files"])
p("C21", "The randomised API is the deterministic one on fresh, fully used randomness",
  "Randomised key generation and encapsulation draw 64 respectively 32 fresh random bytes per call and behave exactly like the deterministic variants on those bytes; every drawn bit influences the result, nothing else does, no byte is reused across calls, and the calls leave no result undetermined when the same bytes are drawn again.",
  ["inputs","histories"], "for all values of the drawn bytes (every bit position), all sequences of randomised calls, parameter sets and implementations",
  "tests never control the random source of the randomised calls, so partial use or reuse of randomness is invisible",
  ["ref/kem.c","ref/randombytes.h"],
  [("coin buffers passed to the derand functions","ref/kem.c crypto_kem_keypair, crypto_kem_enc")],
  observe=["keypair, enc with randombytes supplied by the harness"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
