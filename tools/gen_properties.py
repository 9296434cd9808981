#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing the texts below)."""
import json, os
R="Reference_Implementation_KEM/"; A="AVX_Implementation_KEM/"; VR="Variants/uSaber-90s/ref/"; VA="Variants/uSaber-90s/avx2/"; X="Variants/SaberX4_avx2/"
M0="Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/"; M4="Cortex-M_Implementation_KEM/Cortex-M4/src/"
HOST=[R,A,VR,VA,X]
def f(names, dirs=HOST): return [d+n for d in dirs for n in names if os.path.exists("/repo/"+d+n)]
def m(*p): return [dict(name=n,where=w) for n,w in p]
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=mech,observe_at=observe,hook_needed=hook)))

prop("P01","Honest encapsulation and decapsulation always agree, across implementations",
 "A ciphertext produced by encapsulating to a public key decapsulates, under the matching secret key, to exactly the shared secret the encapsulator got, with status 0, for every random input of key generation and encapsulation (apart from the scheme's own specified decryption failures, whose probability is below 2^-120). This holds for every parameter set of the reference, AVX2, uSaber/90s and four-way code, and also when key generation, encapsulation and decapsulation are each done by a different implementation of the same parameter set. Decapsulation draws no randomness, key generation and encapsulation draw only fresh random bytes.",
 ["inputs","configurations"],"every random tape of key generation and encapsulation (up to the scheme's own negligible decryption failures), every parameter set, every assignment of implementations to the three roles",
 "The known-answer files sample 100 tapes per configuration and the round-trip tests a few thousand; each configuration is only ever paired with itself and the four-way code has no known answers at all.",
 f(["kem.c","SABER_indcpa.c","poly.c","kem4x.c"]),
 m(("encapsulation/decapsulation share one key-derivation order",R+"kem.c crypto_kem_enc/crypto_kem_dec"),("rounding constants h1,h2",R+"SABER_indcpa.c"),("lane split",X+"kem.c")),
 ["crypto_kem_keypair/enc/dec outputs and return codes"])

prop("P02","Modified ciphertexts are implicitly rejected with the key-specific secret",
 "If the ciphertext given to decapsulation differs in any way from the one that re-encrypting the decrypted message would give, decapsulation still returns status 0 and its output is the hash of the secret rejection value stored in the secret key together with the hash of exactly the ciphertext received. Hence no altered ciphertext, whatever bits differ and however many, ever yields the honest shared secret or a value computable without the secret key. In the four-way code the decision is taken separately for each of the four slots.",
 ["inputs","configurations"],"every ciphertext other than the re-encryption, in particular every single-bit and single-byte change at every offset, changes at two offsets that cancel under sum or xor, and swapped or shifted blocks; every parameter set and implementation",
 "No existing test decapsulates anything but an honest ciphertext, so the rejection path is never executed.",
 f(["kem.c","kem4x.c","verify.c"])+[M4+"saber/m4-striding/kem.c",M4+"saber/m4-striding/pack_unpack.c",M0+"src/kem.c",M0+"src/verify.c"],
 m(("full-length comparison, conditional move","verify.c verify/cmov"),("rejection value z at the end of sk",R+"kem.c"),("in-place comparison",M4+"saber/m4-striding/pack_unpack.c POLp2BS_cmp/POLT2BS_cmp")),
 ["shared secret and return code of crypto_kem_dec"])

prop("P03","Key generation and encapsulation compute the specified function bit for bit",
 "The public key, secret key, ciphertext and shared secret are exactly those the Saber specification of the selected parameter set derives from the random bytes drawn, including the layout of the secret key (secret vector, public key, hash of the public key, rejection value), the order and number of random bytes drawn, and the rule that raw random bytes are hashed before any of them is published. Encapsulation follows the specification for every byte string of public-key length, including keys no key generation would output. (The Cortex-M0 firmware's own rounding of the message part, see P19, is the one accepted deviation.)",
 ["inputs","configurations"],"every random tape and every public-key byte string, for each parameter set of each implementation",
 "Known-answer tests fix 100 tapes; malformed public keys, boundary coefficients and rare sampled values are never reached, and the four-way variant is never compared with anything.",
 f(["kem.c","SABER_indcpa.c","poly.c","cbd.c","pack_unpack.c","kem4x.c"]),
 m(("matrix/secret expansion and rounding","SABER_indcpa.c indcpa_kem_keypair/indcpa_kem_enc"),("secret key layout","kem.c crypto_kem_keypair")),
 ["pk, sk, ct, ss byte strings; random bytes consumed"])

prop("P04","Decryption and decapsulation follow the specification on arbitrary bytes",
 "For every byte string of secret-key length and every byte string of ciphertext length, decapsulation terminates, returns status 0 and outputs what the specification computes from those bytes; the recovered message is the specified rounding of the inner product for arbitrary, also out-of-range, secret and ciphertext coefficients. No field of the key or ciphertext is ignored or read from another position. (On the Cortex-M0 the re-encryption uses the firmware's own rounding, see P19; compressed secret keys hold 4-bit coefficients.)",
 ["inputs","configurations"],"all secret-key and ciphertext byte strings (each field exhaustively over its value range at each position), each parameter set and implementation",
 "Tests only decapsulate honest ciphertexts with honestly generated keys, whose secret coefficients take at most eleven of 8192 values.",
 f(["kem.c","SABER_indcpa.c","poly.c","pack_unpack.c"]),
 m(("unpacking and rounding in decryption","SABER_indcpa.c indcpa_kem_dec"),("hash of pk taken from sk","kem.c crypto_kem_dec")),
 ["crypto_kem_dec output", "decrypted message of indcpa_kem_dec"])

prop("P05","Ring arithmetic is exact for every pair of operands",
 "The products computed inside key generation, encryption and decryption equal multiplication in Z_q[x]/(x^256+1) reduced to the modulus in use, for every matrix, public vector and secret vector, including all-maximal and all-minimal coefficients and every pair of monomials. The matrix is used transposed in key generation and not transposed in encryption, for every position of the vector.",
 ["inputs","configurations"],"all operand polynomials; exhaustively every pair of monomials at every vector position, with extreme coefficient values, for every implementation's multiplier",
 "Tests exercise the multipliers only on hash-generated operands; carries, wrap-around and overflow of the intermediate evaluations for extreme operands are never forced.",
 [R+"poly_mul.c",R+"poly.c",A+"polymul/toom-cook_4way.c",A+"SABER_indcpa.c",VR+"poly_mul.c",VA+"SABER_indcpa.c",X+"SABER_indcpa.c"],
 m(("Toom-Cook 4-way + Karatsuba",R+"poly_mul.c"),("vectorised Toom-Cook",A+"polymul/toom-cook_4way.c")),
 ["ciphertext and message bytes as functions of operands placed through keys, ciphertexts and the expansion function"])

prop("P06","The sampler maps random bits to the exact specified secret distribution",
 "Every secret coefficient is the difference of the Hamming weights of the two halves of its own group of random bits (or, for uSaber, the two-bit two's complement value of its own bits), for every value of every group and at every position, so the induced distribution is exactly the centred binomial (or uniform) one and never leaves its range. No random bit influences more than one coefficient and none is skipped.",
 ["inputs","configurations"],"all values of each coefficient's bit group at each of the 256 x l positions, each parameter set and implementation",
 "A known-answer run sees each position with 200 random values of up to 1024; a mapping wrong for one rare group value can pass all vectors.",
 f(["cbd.c","poly.c"])+[M4+"saber/m4-striding/cbd.c",M0+"src/cbd.c",M0+"src/poly.c"],
 m(("bit-sliced popcount difference","cbd.c cbd"),("uniform two-bit secrets",VR+"poly.c GenSecret")),
 ["secret vector inside the generated secret key; ciphertexts"])

prop("P07","Four-way batch results equal four independent single Saber runs",
 "Each slot of the four-way batch interface produces, for key generation, encapsulation and decapsulation, exactly what the single-instance Saber implementation produces for that slot's inputs and random bytes, taken in slot order. Changing one slot's key, ciphertext or random bytes changes no other slot's output, and accepted and rejected slots can be mixed in any combination.",
 ["inputs","configurations"],"all inputs of the four slots, all 16 accept/reject patterns, every single-slot modification",
 "The four-way code has one round-trip test with four honest slots and no known answers; wrong-but-consistent results and cross-slot leaks pass it.",
 [X+n for n in ("kem.c","kem4x.c","SABER_indcpa.c","pack_unpack.c","fips202x4.c","cbd.c","keccak4x/KeccakP-1600-times4-SIMD256.c")],
 m(("lane interleaving/transposition",X+"pack_unpack.c"),("per-lane verify/cmov",X+"kem4x.c")),
 ["the four slots of pk, sk, ct, ss"])

prop("P08","Bit packing is lossless and bit-exact at every width",
 "Every public packing routine writes coefficient j into bits j*w to j*w+w-1 of the output in little-endian bit order and writes nothing else, and its unpacking counterpart recovers every coefficient modulo 2^w; so unpack-after-pack is the identity on reduced coefficients and pack-after-unpack is the identity on byte strings. This holds for the message, 3, 4, 6, 10, 11, 13 and 14-bit formats and for the four-way versions, in every implementation that offers them, including the embedded ones.",
 ["inputs","configurations"],"all coefficient values at all positions, all byte values at all positions, every width and implementation",
 "Only the three formats of the selected parameter set are exercised, with honestly distributed coefficients; several exported formats are exercised by nothing.",
 f(["pack_unpack.c","pack_unpack.h"])+[M0+"src/pack_unpack.c",M4+"saber/m4-striding/pack_unpack.c"],
 m(("pack/unpack pairs","pack_unpack.c")),
 ["outputs of the packing functions declared in pack_unpack.h"])

prop("P09","Hashes and XOFs equal the FIPS standards for every length",
 "SHA3-256, SHA3-512, SHAKE128, the customised SHAKE, the four-way versions, SHA-256 and SHA-512, and the Cortex-M0 firmware's hashes return the standard's output for every input length and every output length, also when the output overlaps the input, and a longer extendable output always begins with the shorter one. Nothing outside the requested output bytes is written.",
 ["inputs","configurations"],"every input length and output length across several blocks, every byte position, single-call and block-wise use",
 "The KEM only ever hashes a handful of fixed lengths; padding at block boundaries, zero lengths and partial final blocks are not reached.",
 f(["fips202.c","fips202x4.c","sha256.c","sha512.c"])+[M0+"src/fips202.c"],
 m(("absorb/pad/squeeze","fips202.c keccak_absorb/keccak_squeezeblocks"),("Merkle-Damgard padding",VR+"sha256.c, sha512.c")),
 ["digest bytes"])

prop("P10","The AES-256-CTR keystreams are exact for every key, nonce and length",
 "The 90s-variant stream functions output exactly the AES-256 counter-mode keystream for every key, every nonce and every requested length, with the counter carried correctly across all of its bytes and with exactly the requested number of bytes written. The portable and AES-NI versions agree, and obtaining a stream in block-sized pieces gives the same bytes as asking for it at once.",
 ["inputs","configurations"],"all keys, nonces (in particular those next to every counter carry), lengths and piece splits",
 "The KEM uses only the zero nonce and three lengths, so carries beyond the low counter bytes and odd lengths are never reached by any test.",
 [VR+"aes256ctr.c",VR+"symmetric-aes.c",VA+"crypto_stream_aes256ctr.c",VA+"symmetric-aes.c"],
 m(("128-bit counter handling",VA+"crypto_stream_aes256ctr.c"),("bit-sliced AES with 32-bit block counter",VR+"aes256ctr.c")),
 ["bytes returned by aes256ctr_prf, aes256ctr_init/squeezeblocks, crypto_stream, crypto_stream_xor"])

prop("P11","The deterministic random generator follows SP 800-90A for every history",
 "After seeding with any entropy input and optional personalisation string, every sequence of requests of any lengths returns the AES-256 CTR_DRBG output of NIST SP 800-90A (no derivation function), the state advances after every request including empty ones, and the 128-bit counter carries through all of its bytes. Re-seeding discards all earlier state, and the four extra generators of the batch variant behave as independent instances of the same machine.",
 ["histories","inputs"],"all seeds and all sequences of seed/request operations with all lengths",
 "Known-answer tests issue only 32 and 48-byte requests on 101 fixed seeds; counter carries beyond the low byte, odd lengths, empty requests and personalisation strings are not reached.",
 f(["rng.c","rng.h"]),
 m(("update after each request","rng.c randombytes/AES256_CTR_DRBG_Update"),("big-endian counter increment","rng.c")),
 ["bytes returned by randombytes (and randombytes0..3)"])

prop("P12","The seed expander streams one fixed sequence and enforces its length limit",
 "However a caller splits its requests, the concatenated output of the seed expander is the same byte sequence, determined by seed, diversifier and maximum length alone. A request that does not fit the remaining length (as in the NIST code, one that would use up the last remaining byte counts as not fitting), or has no output buffer, is refused with its documented error code, writes nothing and leaves the stream position and remaining length unchanged, and a maximum length of 2^32 or more is refused at initialisation.",
 ["histories","inputs"],"all sequences of request lengths, all seeds/diversifiers/limits, and every refused request at every point of a history",
 "No test in the repository calls the seed expander.",
 f(["rng.c","rng.h"]),
 m(("buffer position and remaining length bookkeeping","rng.c seedexpander"),("32-bit block counter","rng.c seedexpander")),
 ["bytes and return codes of seedexpander_init/seedexpander"])

prop("P13","A failing cipher backend never yields predictable or unwritten random bytes",
 "If any call into the cryptographic library made while seeding or producing random bytes reports failure, the process aborts before any byte derived from the failed operation is handed to the caller. It never continues with an unchanged or partial block.",
 ["fault_sequences","histories"],"every library call of every generator operation failing, at every position of a history of operations",
 "The tests never inject a library failure.",
 f(["rng.c"]),
 m(("error check after each EVP call","rng.c handleErrors")),
 ["process outcome and buffers visible to the caller"])

prop("P14","Calls touch exactly the memory their interface names, at any alignment",
 "Key generation, encapsulation and decapsulation write every byte of their output buffers and nothing else, never modify their inputs, and read nothing beyond the documented input lengths, for byte buffers at any address. The results do not depend on the previous contents of output buffers or of unused memory, nor on where the buffers lie.",
 ["inputs","configurations"],"all buffer addresses modulo 64, buffers ending or starting at an unmapped page, all prior contents, accepted and rejected ciphertexts; each implementation",
 "The tests use one set of stack buffers at the alignment the compiler chooses and compare no surroundings.",
 f(["kem.c","SABER_indcpa.c","pack_unpack.c","kem4x.c"])+[M4+"saber/m4-striding/kem.c",M0+"src/kem.c",M0+"src/SABER_indcpa.c"],
 m(("fixed-size serialisation","pack_unpack.c"),("unaligned vector access","SABER_indcpa.c")),
 ["bytes around and in the caller's buffers, faults"])

prop("P15","Results depend only on inputs and drawn randomness, never on call history",
 "Each call's outputs are a function of its input bytes and the random bytes drawn during that call: no sequence of earlier key generations, encapsulations and (accepted or rejected) decapsulations changes any later result. Repeating a call with the same inputs and randomness repeats its outputs.",
 ["histories","configurations"],"all sequences of operations up to a bounded depth, from every previously reached internal state; each implementation",
 "Tests follow one fixed order of operations with honest ciphertexts only.",
 f(["kem.c","SABER_indcpa.c","pack_unpack.c"])+[M0+"src/SABER_indcpa.c",M0+"src/poly_mul.c"],
 m(("no persistent state besides the random generator","kem.c, SABER_indcpa.c"),("matrix stream state reset",M0+"src/SABER_indcpa.c GenMatrix_poly")),
 ["outputs of each call in a history"])

prop("P16","Concurrent calls on different threads do not disturb each other",
 "Key generations, encryptions and decapsulations running at the same time on different threads, on separate output buffers, each return the result they would return alone, under every interleaving. Only the shared random generator is exempt.",
 ["schedules","configurations"],"all interleavings of two calls up to a preemption bound, scheduling at every access to non-local memory; reference, AVX2, variant and four-way code",
 "All tests are single-threaded.",
 f(["kem.c","SABER_indcpa.c","verify.c","fips202.c"]),
 m(("automatic storage for all working state","SABER_indcpa.c, fips202.c"),("globals only ever hold their constant values",A+"SABER_indcpa.c")),
 ["outputs of each concurrent call"])

prop("P17","Secrets never steer branches or memory addresses",
 "The sequence of executed branches and of memory addresses accessed by key generation, encapsulation and decapsulation is the same for all values of the secret inputs (secret vector, noise seed, message, rejection value, shared secret) once the public inputs are fixed. In particular accepted and rejected ciphertexts, and ciphertexts wrong in any position, are indistinguishable by control flow or addresses.",
 ["inputs","configurations"],"all secret values and all ciphertexts for fixed public data; each host implementation and the Cortex-M4 and Cortex-M0 code",
 "Functional tests cannot observe control flow or addresses.",
 f(["kem.c","SABER_indcpa.c","verify.c","cbd.c","poly.c"])+[M4+"saber/m4-striding/"+n for n in ("kem.c","verify.c","poly.c")]+[M0+"src/"+n for n in ("kem.c","verify.c","SABER_indcpa.c")],
 m(("branch-free comparison and move","verify.c"),("constant-time sampling","cbd.c")),
 ["instrumented trace of basic blocks and data addresses; emulated instruction and data addresses of the embedded code"])

prop("P18","The Cortex-M4 code computes the same Saber as the reference",
 "Both Cortex-M4 implementations, for all three parameter sets, produce the same keys, ciphertexts and shared secrets as the reference implementation for the same random bytes and inputs, including rejection of every modified ciphertext by the in-place comparison. With the compressed secret-key option the same holds except that the secret vector is stored as 4-bit signed values. This holds wherever the caller's byte buffers lie, and no call touches memory outside its buffers, its stack and its own data.",
 ["inputs","configurations"],"all random tapes, public keys, secret keys and ciphertexts; both multipliers, three parameter sets, both secret-key formats",
 "The repository's build only compiles part of these files and no test runs them.",
 [M4+"saber/m4-striding/"+n for n in ("kem.c","SABER_indcpa.c","poly.c","poly_mul.c","pack_unpack.c","cbd.c","verify.c","kara.s")]+[M4+"saber/m4-tc4kara/"+n for n in ("poly_mul.c","asm_funcs.S","mult_toom4_256_16.s")],
 m(("row-by-row expansion and in-place comparison",M4+"saber/m4-striding/poly.c"),("assembly multipliers",M4+"saber/m4-striding/kara.s")),
 ["crypto_kem_* outputs"])

prop("P19","The Cortex-M0 KEM round-trips and rejects like the other implementations",
 "On the Cortex-M0 code, decapsulating an honest ciphertext returns the encapsulated secret for every random input, every modified ciphertext is implicitly rejected with the stored rejection value, and the generated keys are the ones the reference implementation generates from the same random bytes. Ciphertexts follow the firmware's own rounding (the reference's without the constant added to the message part). This holds in every sequence of calls and wherever the caller's byte buffers lie, and no call touches memory outside its buffers, its stack and its own data.",
 ["inputs","histories"],"all random tapes, ciphertexts and call sequences",
 "The repository only links the firmware; no test runs it.",
 [M0+"src/"+n for n in ("kem.c","SABER_indcpa.c","poly.c","poly_mul.c","cbd.c","encode.c","pack_unpack.c","verify.c","fips202.c","asm_KeccakF-1600.S")],
 m(("message extraction and packing",M0+"src/encode.c, src/SABER_indcpa.c indcpa_kem_dec"),("streamed matrix expansion",M0+"src/SABER_indcpa.c GenMatrix_poly")),
 ["crypto_kem_* outputs, surrounding memory"])

prop("P20","Every byte the Cortex-M0 firmware calls random comes from the hardware generator",
 "For every requested length and every sequence of words delivered by the hardware generator, the firmware's random-byte function fills exactly the requested bytes, each taken from a fresh part of a generated word: no output byte is constant, repeated from another or left unwritten. Start-up loads the full key into the generator, waits for each word to be accepted and discards the warm-up output before any byte is used.",
 ["inputs","histories"],"all generator word sequences, all lengths, all ready/not-ready answer patterns of the device within a bound",
 "The firmware is never executed by the tests.",
 [M0+"src/prng.c",M0+"include/xmc1100.h"],
 m(("word to byte conversion",M0+"src/prng.c randombytes"),("key loading handshake",M0+"src/prng.c PRNG_Init")),
 ["device register accesses and output bytes"])

prop("P21","The failure-probability calculator computes exact laws of finite distributions",
 "The parameter-selection helpers return the mathematically exact law (up to floating-point rounding) for centred binomials, modulus-switching errors, sums, products, n-fold sums, conditioned differences, moments and tail probabilities (strictly beyond the threshold) of any finite integer distributions. Probabilities of a law always sum to one where the operation preserves mass.",
 ["inputs"],"all small finite laws, moduli and exponents up to a bound",
 "The repository only parses these scripts; nothing runs them.",
 ["Scripts/Python_Scripts/select_params/proba_util.py"],
 m(("dictionary convolution, double-and-add",
 "proba_util.py law_convolution/iter_law_convolution/tail_probability")),
 ["returned dictionaries and floats"])

prop("P22","The Cortex-M0 firmware runs from reset to its report within its memory",
 "Started from its vector table with any contents of the 16 KB memory, any words from the hardware generator and any delays of the clock, serial port and generator, the linked firmware image sets up its static data, performs its key generations, encapsulations and decapsulations on the delivered random words with the specified results, reports on the serial port without an error report and without losing characters, and never lets its stack reach its static data or touches memory the device does not have. The timing program's figures are the timer ticks each operation took, and the memory measuring program's figures are the stack bytes each operation used.",
 ["inputs","configurations"],"all initial memory contents, generator words and device delays; the image as linked by the firmware's Makefile and linker script",
 "The repository only links the image; no test runs it.",
 [M0+"src/init.c",M0+"src/main.c",M0+"src/uart.c",M0+"src/benchmark.c",M0+"src/prng.c",M0+"linker_script.ld"],
 m(("static data initialisation and clock start-up",M0+"src/init.c"),("memory layout",M0+"linker_script.ld")),
 ["memory contents after the run, device register accesses, stack depth"])

prop("P23","The parameter search reports exactly the parameter sets that meet its targets",
 "For every secret law, modulus, rank, security target and failure target, the search reports for each rounding modulus p meeting the security target the smallest compression modulus T whose exact failure probability (256 times the probability that the error exceeds q/4 in absolute value) meets the failure target, and nothing for the others. The reported failure exponent and key and ciphertext sizes are those of the reported set.",
 ["inputs"],"bounded set of secret laws, moduli and ranks; all positions at which the security estimate fails; all failure targets of a list",
 "The repository only parses these scripts; nothing runs them.",
 ["Scripts/Python_Scripts/select_params/select_params.py","Scripts/Python_Scripts/select_params/proba_util.py"],
 m(("two nested searches with early exit","select_params.py search_params")),
 ["printed report"])
prop("P24","The assembly multipliers, shipped and generated, multiply",
 "Every multiplication routine of the Cortex-M4 code returns the product of its operands modulo x^256+1 (or the full product, or modulo x^64+1 for the 64-coefficient routine) for all operands, adds to the accumulator where that is its job, leaves the operand that is not scratch unchanged and stays inside its buffers. This holds for the assembly files that are shipped, including routines the shipped configuration does not call, and for the assembly that the repository's generator writes for each size it supports, before and after its alignment pass.",
 ["inputs","configurations"],"every pair of monomials, every monomial against dense operands, all block patterns of zero quarters and zero residue classes, every coefficient value; generator sizes 16 and 32",
 "The repository only assembles these files; nothing runs them, and nothing runs the generator.",
 [M4+"saber/m4-striding/tc.s",M4+"saber/m4-striding/kara.s",M4+"saber/m4-striding/generate-multiplication.py",M4+"saber/m4-striding/fix-alignment.py",M4+"saber/m4-striding/poly_mul.c",M4+"saber/m4-tc4kara/mult_toom4_256_16.s",M4+"saber/m4-tc4kara/poly_mul.c"],
 m(("unrolled Toom-Cook/Karatsuba over packed 16-bit halves",M4+"saber/m4-striding/tc.s"),("code generator with per-size addressing",M4+"saber/m4-striding/generate-multiplication.py")),
 ["result polynomial, memory touched"])
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as o:
        for p in P: o.write(json.dumps(p)+"\n")
    print(len(P))
