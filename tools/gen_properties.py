#!/usr/bin/env python3
"""Writes ../properties.jsonl. The properties are data; this file only keeps them readable."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "AES computes FIPS-197 for every key and block, on every backend",
  "For every 128-, 192- or 256-bit key and every 16-byte block, AES encryption returns the FIPS-197 ciphertext and AES decryption returns the block that encrypts to its input. The hardware-accelerated and the portable implementation, and every way of constructing a cipher from the same key, give identical results.",
  ["inputs", "configurations"], "all keys of the three sizes, all blocks, both directions, both backends the build can select",
  "The unit tests run four FIPS vectors on whichever backend the build machine selects; table entries, key-schedule words and the other backend are never touched by them.",
  ["src/aes/aes.rs", "src/aes/aes_amd64.rs", "src/aes/aes_generic.rs", "src/aes/const_tables.rs", "build.rs"],
  [("key schedule and round functions of both backends", "src/aes/aes_amd64.rs, src/aes/aes_generic.rs"), ("backend selection", "build.rs, src/aes/mod.rs")],
  observe=["Cipher::encrypt / Cipher::decrypt of AES"])

p("C02", "DES and Triple-DES compute FIPS 46-3 for every key and block",
  "For every 8-byte key (parity bits ignored) and every 8-byte block, DES encryption returns the FIPS 46-3 ciphertext and DES decryption inverts it. For every three keys Triple-DES encryption equals encrypt-decrypt-encrypt with those keys in that order, and its decryption inverts it.",
  ["inputs"], "all keys, key triples (including equal keys and weak keys) and blocks",
  "Existing tests use a handful of fixed vectors, which reach a small part of the eight S-boxes and of the key-bit selection.",
  ["src/des/des.rs", "src/des/tdes.rs", "src/des/const_tables.rs"],
  [("permutation tables, S-boxes and subkey generation", "src/des/des.rs, src/des/const_tables.rs"), ("E-D-E composition", "src/des/tdes.rs")],
  observe=["Cipher::encrypt / Cipher::decrypt of DES and TDES"])

p("C03", "SM4 computes GB/T 32907 for every key and block",
  "For every 16-byte key and 16-byte block, SM4 encryption returns the ciphertext defined by GB/T 32907-2016 and SM4 decryption inverts it, whichever constructor supplied the key.",
  ["inputs"], "all keys and blocks",
  "Existing tests use the two vectors of the standard.",
  ["src/sm4/sm4.rs", "src/sm4/sm4_const_tables.rs"],
  [("round function, key expansion, S-box", "src/sm4/sm4.rs")],
  observe=["Cipher::encrypt / Cipher::decrypt of SM4"])

p("C04", "Block ciphers accept only whole blocks and keep no state between calls",
  "Given input whose length is not exactly one block, or a key of an unsupported length, a block cipher returns an error and never panics; given exactly one block it leaves in the output vector exactly that one processed block and reports its length, whatever the vector held before. The result of a call depends only on the key and the input: not on earlier calls, failed calls, calls on clones, or the order of encryptions and decryptions.",
  ["inputs", "histories"], "all input and key lengths, all previous output-vector contents, all interleavings of calls on an object and its clones",
  "Tests only pass whole blocks to fresh objects with empty or just-used vectors.",
  ["src/aes/aes.rs", "src/aes/aes_amd64.rs", "src/aes/aes_generic.rs", "src/des/des.rs", "src/des/tdes.rs", "src/sm4/sm4.rs"],
  [("length checks and output clearing in encrypt/decrypt", "src/aes, src/des, src/sm4"), ("interior scratch buffers reached through Cell pointers", "src/des/tdes.rs, src/sm4/sm4.rs")],
  state=[("scratch buffer", "intermediate block inside the cipher object", "src/des/tdes.rs")],
  observe=["return value, output vector and later results of every call"])

p("C05", "One-shot ECB, CBC, CFB, OFB and CTR follow SP 800-38A and round-trip",
  "For every block cipher, key, initialization vector or counter, segment size and message, one-shot encryption in each mode returns the SP 800-38A ciphertext of the padded message, and one-shot decryption with the same parameters returns the message. A message the mode cannot process without padding is refused with an error instead of being shortened or altered.",
  ["inputs", "configurations"], "all messages of any length, IVs, counters, CFB segment sizes, both paddings, every block cipher including other block sizes",
  "Tests cover the whole-block vectors of the standard's appendix; no test decrypts a padded CBC or CFB message or uses lengths around a block boundary.",
  ["src/cipher_mode/ecb.rs", "src/cipher_mode/cbc.rs", "src/cipher_mode/cfb.rs", "src/cipher_mode/ofb.rs", "src/cipher_mode/ctr.rs", "src/cipher_mode/padding.rs", "src/cipher_mode/counter.rs"],
  [("mode loops, chaining value handling, final padded block", "src/cipher_mode/*.rs"), ("10* padding", "src/cipher_mode/padding.rs")],
  observe=["Cipher::encrypt / Cipher::decrypt of the mode objects"])

p("C06", "Streaming a message in any pieces equals processing it in one shot",
  "For every mode, splitting a message into any sequence of writes (including empty ones) and drawing output after any of them yields, in total after the stream is finished, exactly the one-shot result for the same parameters, for encryption and decryption. Output not taken when a message is finished is gone and does not show up later, and one-shot calls on an ECB, CBC, CFB or OFB stream object do not disturb the message in progress. After finishing or resetting, an ECB, CBC, CFB or OFB stream behaves like a new one; a CTR stream continues with the next unused counter block after finishing and starts over after resetting.",
  ["inputs", "histories"], "all messages, all partitions into writes, all draw-off schedules, all sequences of messages on one stream object",
  "Tests feed whole blocks, or whole messages, and mostly draw off once; partial blocks held across writes and reuse after finish are not explored.",
  ["src/cipher_mode/ecb.rs", "src/cipher_mode/cbc.rs", "src/cipher_mode/cfb.rs", "src/cipher_mode/ofb.rs", "src/cipher_mode/ctr.rs", "src/cipher_mode/pond.rs", "src/cipher_mode/cipher_mode_macros.rs"],
  [("held-back partial input and pending output", "write/finish of every stream type"), ("reset of the chaining value", "cipher_mode_macros.rs and finish")],
  state=[("data / pond / chaining value", "bytes waiting for a full block, output not yet drawn, feedback", "src/cipher_mode/*.rs")],
  observe=["concatenation of drawn output per message"])

p("C07", "Padding always comes off exactly, and malformed ciphertext is refused",
  "For every byte string the default padding appends one 1-bit and the fewest 0-bits that complete a block, and unpadding returns exactly the original; anything that does not end in such padding is reported as an error and left unchanged. Ciphertext of an impossible length or with damaged padding makes one-shot and streaming decryption return an error: never a panic, never a message.",
  ["inputs"], "all strings, lengths and block sizes; all truncations, extensions and damaged final blocks of ciphertexts",
  "Tests pad a few messages whose length is a multiple of the block size and never present bad padding or odd lengths.",
  ["src/cipher_mode/padding.rs", "src/cipher_mode/ecb.rs", "src/cipher_mode/cbc.rs", "src/cipher_mode/cfb.rs"],
  [("padding/unpadding", "src/cipher_mode/padding.rs"), ("length checks in decrypt and finish", "src/cipher_mode/*.rs")],
  observe=["Padding::padding/unpadding, decrypt and finish results"])

p("C08", "Counter mode never encrypts two blocks under the same counter value",
  "Within one counter-mode object, successive blocks use successive values of the big-endian counter, across all one-shot calls, stream writes and finishes, wrapping only at the counter's own width, so no counter block repeats before 2^(block bits) blocks unless the counter is reset or replaced. A counter shorter than a block is refused; a wider one is accepted and still advances on every block. A caller's own counter is used value by value in order, and data that needs more values than it has is refused.",
  ["inputs", "histories", "configurations"], "all initial values (in particular just below carries), counter widths, block sizes, and sequences of calls",
  "Tests use one counter from the standard, four blocks, and no carry beyond the last byte.",
  ["src/cipher_mode/ctr.rs", "src/cipher_mode/counter.rs"],
  [("counter increment with carry", "src/cipher_mode/counter.rs"), ("block input taken from the counter", "src/cipher_mode/ctr.rs")],
  observe=["key stream of every block of every call, traced back to the counter value behind it"])

p("C09", "Mode parameters are validated and failed changes leave the old ones in force",
  "Constructors and setters of the modes refuse IVs, counters, segment sizes and paddings that do not fit the cipher, and report a failing IV source as an error. After a refused or failed change the object keeps producing exactly what it would have produced without the attempt, and a successful change takes effect completely for the next message.",
  ["inputs", "histories", "fault_sequences"], "all parameter lengths, all failure points of the IV source, all sequences of setter calls and messages",
  "Tests construct modes only with valid parameters and a source that never fails.",
  ["src/cipher_mode/cbc.rs", "src/cipher_mode/cfb.rs", "src/cipher_mode/ofb.rs", "src/cipher_mode/ctr.rs", "src/cipher_mode/initial_vec.rs", "src/cipher_mode/counter.rs", "src/cipher_mode/cipher_mode_macros.rs"],
  [("new/set_iv/update_iv/set_counter checks", "src/cipher_mode/*.rs"), ("IV generation", "src/cipher_mode/initial_vec.rs")],
  observe=["results of setters, current IV, ciphertexts before and after"])

p("C10", "MD5, SHA-1, SHA-2 and SM3 match their standards for every message",
  "For every message and every way of splitting it into writes, MD5, SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224, SHA-512/256 and SM3 return exactly the digest their standard defines, of the advertised length, replacing whatever the output vector held.",
  ["inputs", "histories"], "all messages of any length, all partitions into writes",
  "Tests hash short fixed strings, mostly in one write; the padding and buffering branches depend on length modulo the block and on the split.",
  ["src/md5", "src/sha", "src/sm3"],
  [("block buffering in write, length padding in checksum", "src/md5/md5.rs, src/sha/sha1.rs, src/sha/sha256.rs, src/sha/sha512.rs, src/sm3/sm3.rs"), ("compression functions", "src/md5/md5_generic.rs, src/sha/*_generic.rs")],
  observe=["Digest::checksum"])

p("C11", "SHA-512/t is correct for every t and refuses meaningless t",
  "For every output length t allowed by FIPS 180-4 (0 < t < 512, t other than 384), the truncated hash with parameter t equals the standard's: the initial value generated for that t, then the leftmost t bits of the result with unused low bits of the last byte zero. For t = 224 and 256 it equals the dedicated types, and other t are refused.",
  ["inputs", "configurations"], "every t, all messages and partitions",
  "No existing test computes a digest through the generic SHA-512/t type.",
  ["src/sha/sha512.rs", "src/sha/sha.rs"],
  [("initial value generation and truncation", "src/sha/sha512.rs")],
  observe=["SHA512T / SHA::sha512t checksum"])

p("C12", "SHA-3 and SHAKE match FIPS 202 for every message and output length",
  "For every message, given as bytes and (for SHA-3) single bits in any order of writes, SHA3-224/256/384/512 return the FIPS 202 digest, and SHAKE128/256 and their raw variants return the first d bits of the FIPS 202 output for every requested d.",
  ["inputs", "configurations", "histories"], "all byte and bit messages, lengths around the rate, all output lengths including zero and several rates long, all partitions",
  "Tests use NIST sample messages of a few lengths and output lengths.",
  ["src/sha3/sha3.rs", "src/sha3/shake.rs", "src/keccak/keccak.rs"],
  [("domain suffixes", "src/sha3"), ("pad10*1, absorb, squeeze", "src/keccak/keccak.rs")],
  observe=["Digest::checksum of sha3 types"])

p("C13", "The Keccak permutation and sponge are right for every width, rounds and rate",
  "For every supported width, every number of rounds and every rate strictly between zero and the width, the sponge returns the FIPS 202 construction's output for every bit string and output length, and one sponge object gives the same answer however often it is used. Unsupported widths and rates outside that range are refused.",
  ["inputs", "configurations", "histories"], "7 widths, all round counts, all rates, all bit lengths and output lengths, repeated use",
  "The only test checks the length of one output per width.",
  ["src/keccak/keccak.rs"],
  [("theta, rho, pi, chi, iota and round constants", "src/keccak/keccak.rs"), ("rate validation", "KeccakSponge::new")],
  state=[("double-buffered state", "which of two state arrays is current survives across calls", "src/keccak/keccak.rs")],
  observe=["KeccakSponge::sponge, Keccak::permutation of the zero state"])

p("C14", "Hash and MAC objects behave as a function of the message since the last start",
  "For every hash and MAC object and every history of write, checksum, reset and clone, checksum returns the value of the data written since creation, the last reset, or the last checksum followed by a non-empty write; asking again without writing returns the same value. Clones evolve independently of the original.",
  ["histories"], "all operation sequences over all digest and MAC types",
  "Tests call write once, checksum once, then reset.",
  ["src/md5/md5.rs", "src/sha", "src/sha3", "src/sm3/sm3.rs", "src/hmac/hmac.rs", "src/cmac/cmac.rs", "src/zuc/zuc_mac.rs"],
  [("finalised flag and state reset", "write/checksum/reset of every Digest")],
  state=[("finalised flag, buffered length", "whether padding has been absorbed", "every Digest implementation")],
  observe=["every checksum in the history"])

p("C15", "HMAC equals RFC 2104 for every hash, key and message",
  "For every supported hash, key of any length (shorter than, equal to or longer than the block, and empty) and message in any split, HMAC returns the RFC 2104 / FIPS 198-1 value; after changing the key it is exactly the MAC under the new key with nothing left of the old key or message. Hashes without a block size are refused.",
  ["inputs", "histories", "configurations"], "all hashes, key lengths, messages, partitions and re-keying sequences",
  "Tests use fixed NIST vectors on fresh objects.",
  ["src/hmac/hmac.rs"],
  [("key block derivation", "HMAC::generate_k0_io"), ("inner/outer hash", "HMAC::checksum")],
  observe=["HMAC checksum"])

p("C16", "CMAC equals SP 800-38B for every block cipher, message and split",
  "For every block cipher with a supported block size and every message in any split, CMAC returns the SP 800-38B value with the right subkeys and reduction constant; unsupported block sizes are refused.",
  ["inputs", "configurations", "histories"], "AES, TDES, SM4 and test ciphers of every supported block size; all messages and partitions",
  "Tests use the NIST vectors for AES and TDES written in one piece; the other block sizes are never exercised.",
  ["src/cmac/cmac.rs", "src/cmac/const_tables.rs"],
  [("subkey generation", "CMAC::subkey_gen"), ("last-block hold-back", "CMAC::write")],
  observe=["CMAC checksum"])

p("C17", "ZUC keystream and cipher match the standard across any sequence of calls",
  "For every key and IV the ZUC generator yields the keystream of the standard, and re-keying restarts it exactly. The 128-EEA3 style cipher XORs consecutive calls with consecutive keystream bytes (whatever the split), reports the number of bytes it produced, and returns to the start on reset.",
  ["inputs", "histories"], "all keys, IVs, counts, bearers, directions; all splits of the message into calls",
  "Tests check a few words and five messages, each in one call.",
  ["src/zuc/zuc_core.rs", "src/zuc/zuc_cipher.rs", "src/zuc/zuc_const_tables.rs"],
  [("LFSR, bit reorganisation, nonlinear function", "src/zuc/zuc_core.rs"), ("left-over keystream bytes between calls", "src/zuc/zuc_cipher.rs")],
  state=[("left-over keystream", "bytes of the last word not yet used", "src/zuc/zuc_cipher.rs")],
  observe=["ZUC iterator, ZUCCipher output"])

p("C18", "The ZUC MAC equals 128-EIA3 for every message and split",
  "For every key, count, bearer, direction and byte message (including the empty one), in any split into writes, the ZUC MAC returns the 128-EIA3 value.",
  ["inputs", "histories"], "all parameters, messages and partitions",
  "Tests compute each standard vector with one write on a fresh object.",
  ["src/zuc/zuc_mac.rs"],
  [("sliding keystream window", "ZUCMac::write"), ("finalisation", "ZUCMac::checksum")],
  observe=["ZUCMac checksum"])

p("C19", "Every generated RSA key is a valid key of the requested size",
  "Every key pair that generation returns has a modulus of exactly the requested bit length, equal to the product of the requested number of pairwise distinct primes, an odd public exponent of at least 3, and a private exponent that inverts it modulo every prime minus one. Requests that cannot be met are refused; self-checking accepts such keys.",
  ["inputs", "configurations"], "all modulus sizes and prime counts, every output of the random source",
  "Tests generate two keys of fixed sizes; duplicate primes or non-invertible exponents need particular random draws.",
  ["src/rsa/rsa.rs"],
  [("prime generation loop, duplicate check, inverse computation", "PrivateKey::generate_multi_prime_key"), ("self-check", "PrivateKey::is_valid")],
  observe=["components printed by the generated key, checked with independent big-integer arithmetic"])

p("C20", "RSA decryption inverts encryption for every residue, with and without blinding",
  "For every generated key and every m below the modulus, public encryption yields m^e mod n and private decryption returns exactly m, identically with blinding, without blinding and with the checked variant, for two-prime and multi-prime keys. Ciphertexts outside [0, n) are refused by both private-key operations, the plain and the checked one. A public key built from its two numbers, or from their bytes in either order, encrypts with exactly those numbers.",
  ["inputs", "configurations"], "all residues including 0, 1, n-1, multiples of a prime factor; all keys; all blinding values",
  "Tests decrypt a few random values under one key; residues sharing a factor with n and blinding values are not explored.",
  ["src/rsa/rsa.rs"],
  [("CRT recombination", "PrivateKey::decrypt"), ("blinding", "PrivateKey::decrypt"), ("range checks", "PublicKey::encrypt, PrivateKey::decrypt")],
  observe=["results compared with independent modular exponentiation"])

p("C21", "RSA-OAEP round-trips and rejects everything that is not a valid encoding",
  "For every message up to the advertised maximum, label, hash and key, OAEP encryption produces a ciphertext of modulus length whose EME-OAEP decoding is the message, and decryption returns it; longer messages are refused. A ciphertext that is altered, has the wrong length, is out of range, or whose decoding violates any EME-OAEP rule or was made under another label makes decryption return an error, never a panic or a message.",
  ["inputs", "configurations"], "all messages, labels, hashes, moduli (also not a multiple of 8 bits); all malformed encodings and altered ciphertexts",
  "Tests decrypt a few vectors; malformed encodings are never presented.",
  ["src/rsa/oaep.rs"],
  [("encode/decode checks", "OAEP::encrypt, OAEP::decrypt"), ("MGF1", "src/rsa/oaep.rs")],
  observe=["OAEP Cipher interface; decodings recomputed independently"])

p("C22", "PKCS#1 v1.5 encryption round-trips and rejects malformed blocks",
  "For every message up to the advertised maximum (including the empty one), encryption yields a modulus-length ciphertext of a block 00 02 PS 00 M with at least eight nonzero padding bytes, and decryption returns the message; longer messages are refused. A ciphertext whose block breaks that form, or that has the wrong length or is out of range, is refused with an error.",
  ["inputs"], "all messages, keys and padding bytes (also sources producing many zero bytes); all malformed blocks",
  "Tests use fixed vectors and random round trips of nonempty messages.",
  ["src/rsa/pkcs1.rs"],
  [("padding string generation", "PKCS1::encrypt"), ("block parsing", "PKCS1::decrypt")],
  observe=["PKCS1 Cipher interface; blocks recomputed independently"])

p("C23", "PKCS#1 v1.5 signatures verify exactly when they are the canonical ones",
  "For every supported hash, key and message, signing produces the unique RFC 8017 signature and verification accepts it. Verification accepts no other byte string for that key and message: not a changed message, altered, lengthened, shortened or shifted by the modulus signature, nor one whose block deviates anywhere; hashes without a registered identifier are refused with an error.",
  ["inputs", "configurations"], "all hashes, messages, keys; all single-byte and structural alterations of signature and encoded block",
  "Tests verify fixed signatures; forged blocks (short padding, trailing garbage, wrong identifier) are not presented.",
  ["src/rsa/pkcs1.rs", "src/rsa/signature.rs"],
  [("EMSA-PKCS1-v1_5 encoding and comparison", "PKCS1::sign, PKCS1::verify"), ("hash identifier table", "src/rsa/pkcs1.rs")],
  observe=["Signature interface; forgeries made with the private key"])

p("C24", "RSA-PSS signatures verify, and any deviation in the encoding is rejected",
  "For every hash, key size (also modulus lengths not a multiple of 8 bits) and permitted salt length, signing yields an EMSA-PSS encoding that an independent verifier accepts with the configured salt length, and verification accepts it. Verification rejects a changed message, an altered or out-of-range signature, and any encoded message that breaks an EMSA-PSS rule: leading bits, zero padding, separator, salt length, trailer or hash.",
  ["inputs", "configurations"], "all hashes, salt lengths, modulus bit lengths, messages; all structural alterations",
  "The existing PSS tests do not even run in the development profile (an arithmetic overflow), and they cover one modulus length per vector file.",
  ["src/rsa/pss.rs"],
  [("EMSA-PSS encode/verify", "src/rsa/pss.rs")],
  observe=["Signature interface; encodings recomputed independently"])

p("C25", "DSA signatures verify exactly when the DSA equation holds",
  "For every valid domain, key, hash (also longer than the subgroup order) and message, a produced signature satisfies 0 < r,s < q and the FIPS 186 verification equation, and verification accepts it. Verification accepts a pair if and only if it is in range and satisfies the equation for that message and key; every other content, of any length, is refused with an error and no panic. Under a subgroup order whose bit length is not a whole number of bytes, signing and verification may be refused, but nothing wrong is produced or accepted.",
  ["inputs", "configurations"], "all messages, hashes, key sizes; altered r, s, message, key; boundary values 0, q, values above q; arbitrary signature bytes",
  "Tests verify fixed vectors and self-made signatures with matching hash length.",
  ["src/dsa/dsa.rs", "src/dsa/signature.rs"],
  [("range checks, hash truncation, equation", "DSA::sign, DSA::verify"), ("signature container", "src/dsa/signature.rs")],
  observe=["Signature interface; equation evaluated independently"])

p("C26", "Generated DSA domains and keys satisfy FIPS 186 relations",
  "Every domain that generation returns has p and q prime of exactly the requested lengths, q dividing p-1, and g of order q; every generated key has 0 < x < q and y = g^x mod p. Building a domain or key from numbers keeps exactly those numbers, and refuses missing ones, a generator or public value longer than p, and a private exponent outside 0 < x < q.",
  ["inputs", "configurations"], "every output of the random source, every supported size pair",
  "Tests generate parameters once per size with the system random source and check a sample equation.",
  ["src/dsa/dsa.rs"],
  [("domain parameter generation", "src/dsa/dsa.rs"), ("key generation", "src/dsa/dsa.rs")],
  observe=["printed key components, checked with independent arithmetic"])

p("C27", "ECDSA signatures verify exactly when the ECDSA equation holds",
  "For every supported curve, valid key, hash of any length and message, a produced signature has 0 < r,s < n and satisfies the ECDSA equation, and verification accepts it. Verification accepts a pair if and only if it is in range and satisfies the equation; altered messages, signatures, keys and arbitrary signature bytes are refused with an error and no panic.",
  ["inputs", "configurations"], "four curves and both curve implementations, hashes shorter and longer than the order, boundary values of r and s",
  "The existing ECDSA test panics in the development profile; vectors cover one message per curve and hash.",
  ["src/ecdsa/ecdsa.rs", "src/ecdsa/csp_rng.rs", "src/dsa/signature.rs"],
  [("hash to integer, range checks, equation", "src/ecdsa/ecdsa.rs")],
  observe=["Signature interface; equation evaluated independently"])

p("C28", "P-224 and P-256 arithmetic equals the curve group law for all points and scalars",
  "For every point of the curve and every scalar (including 0, 1, the order, neighbours of the order and larger values), the optimised P-224 and P-256 addition, doubling, scalar and base-point multiplication return the affine point of the group law, with the point at infinity represented as (0, 0), and agree with the generic implementation. Results are on the curve and arithmetic never panics.",
  ["inputs"], "all points including infinity, equal and opposite points; all scalars, in particular sparse, dense and boundary bit patterns",
  "Tests multiply a few dozen fixed scalars; the P-256 tests panic in the development profile; limb carries and table corner cases need particular values.",
  ["src/elliptic/p224.rs", "src/elliptic/p256.rs", "src/elliptic/elliptic.rs"],
  [("limb reduction, carry handling, table selection, mixed addition", "src/elliptic/p224.rs, src/elliptic/p256.rs")],
  observe=["EllipticCurve interface compared with affine arithmetic over big integers"])

p("C29", "All named curves have the standard parameters, group law and valid keys",
  "P-224, P-256, P-384 and P-521 report their standard name and field size; membership is true exactly for points satisfying the curve equation, and generic addition, doubling and multiplication follow the group law for all on-curve points including infinity. Every generated key has 1 <= d < n and public point d*G.",
  ["inputs", "configurations"], "four curves, all points and scalars, every output of the random source (including sources giving extreme values)",
  "Tests only check on-curve membership of the base point and one multiplication each for the larger curves.",
  ["src/elliptic/elliptic.rs", "src/elliptic/key_pair.rs"],
  [("curve constants", "src/elliptic/elliptic.rs"), ("Jacobian formulas and affine conversion", "src/elliptic/elliptic.rs"), ("key generation", "CurveParams::generate_key")],
  observe=["EllipticCurve interface, printed key components"])

p("C30", "Signing never repeats a secret nonce for two different messages",
  "With one DSA or ECDSA key, signatures of different messages never share the first component, as long as the random source is not repeating; for ECDSA this holds even when the source returns the same bytes for every signature, because the nonce also depends on the message and key. Nonces are spread over the whole range below the order of the group. OAEP, PKCS#1 encryption and PSS with salt take fresh bytes from the source for every operation, so repeating an operation gives a different result.",
  ["histories", "fault_sequences"], "all sequences of messages, keys and operations, with honest and with repeating random sources",
  "Tests never compare two signatures, and never use a degraded random source.",
  ["src/ecdsa/ecdsa.rs", "src/ecdsa/csp_rng.rs", "src/dsa/dsa.rs", "src/rsa/oaep.rs", "src/rsa/pkcs1.rs", "src/rsa/pss.rs"],
  [("nonce generator keyed with private key, entropy and hash", "src/ecdsa/ecdsa.rs, src/ecdsa/csp_rng.rs"), ("seed, padding and salt generation", "src/rsa")],
  observe=["r components, recovered nonces, repeated ciphertexts"])

p("C31", "A failing random source gives an error, never a panic, hang or weak output",
  "Whatever point of an operation the random source starts failing at, permanently, every operation that needs randomness finishes with an error or with a result as valid as with a working source: it does not panic, does not ask a dead source for ever, and does not return keys, ciphertexts or signatures built from missing random bytes.",
  ["fault_sequences"], "every failure position of the source in every randomised operation (key generation, encryption padding, blinding, signing, IV generation)",
  "Tests only use sources that never fail.",
  ["src/rsa/rsa.rs", "src/rsa/pkcs1.rs", "src/rsa/pss.rs", "src/rsa/oaep.rs", "src/dsa/dsa.rs", "src/ecdsa/ecdsa.rs", "src/elliptic/elliptic.rs", "src/cipher_mode/initial_vec.rs"],
  [("error returns after drawing", "all users of the random source")],
  observe=["result of the operation and number of draws after the failure (fault-injecting source)"])

p("C32", "Keys, curves and operands are never altered behind the caller's back",
  "No operation changes the big integers passed to it or the key and curve it belongs to, and no later in-place change by the caller to an integer that was passed in or returned as a value changes an existing key, curve or signature object. Repeating an operation on the same objects after any history of other operations gives the same result.",
  ["histories"], "all sequences of key construction, arithmetic, signing, verification, encryption and in-place changes of caller-held integers and clones",
  "The big-integer type shares storage between clones, so aliasing shows only in sequences that mutate one copy later; tests use every value once.",
  ["src/rsa/rsa.rs", "src/dsa/dsa.rs", "src/elliptic/elliptic.rs", "src/elliptic/key_pair.rs", "src/dsa/signature.rs", "src/ecdsa/ecdsa.rs"],
  [("deep copies at the API boundary", "constructors and accessors of keys and curves")],
  state=[("shared big-integer storage", "clones of a big integer point at one buffer", "rmath")],
  observe=["snapshots of operands and keys around every call"])

p("C33", "No public operation commits undefined behaviour or touches foreign memory",
  "Running any sequence of public operations with any inputs performs no out-of-bounds, misaligned, use-after-free or uninitialised access, no invalid aliasing through the library's raw pointers, and leaks no memory.",
  ["inputs", "histories", "configurations"], "all public operations over the unsafe code of ciphers, modes, RSA wrappers and curves; both AES backends",
  "Unit tests run without instrumentation, so an out-of-bounds read that returns plausible bytes passes.",
  ["src/aes/aes_amd64.rs", "src/aes/aes_generic.rs", "src/des/tdes.rs", "src/sm4/sm4.rs", "src/cipher_mode", "src/zuc/zuc_cipher.rs", "src/rsa/oaep.rs", "src/rsa/pkcs1.rs", "src/elliptic/p224.rs", "src/elliptic/p256.rs"],
  [("raw-pointer accesses and vector intrinsics", "every unsafe block in src")],
  observe=["AddressSanitizer, LeakSanitizer and Miri reports over the workloads"])

p("C34", "Hostile public input never panics and results do not depend on the build profile",
  "Fed arbitrary data blocks, ciphertexts, signatures, points, scalars, padding bytes, lengths and mode parameters, and arbitrary keys through the constructors that check them, the public operations return a value or an error and never panic or overflow, in builds with arithmetic checks. Every operation gives bit-identical results in checked and in optimised unchecked builds.",
  ["inputs", "configurations"], "all public operations with hostile inputs; checked and unchecked builds",
  "Tests pass well-formed input only and run in one build profile.",
  ["src/rsa", "src/dsa", "src/ecdsa", "src/elliptic", "src/cipher_mode", "src/aes", "src/des", "src/sm4", "src/zuc"],
  [("length and range checks at entry", "all public operations"), ("wrapping limb arithmetic", "src/elliptic/p256.rs, src/elliptic/p224.rs")],
  observe=["caught panics; transcript of results from both builds"])

p("C35", "Scheme, key and signature objects report exactly what they were built from",
  "At every point of its life an OAEP, PKCS#1, PSS, DSA or ECDSA object reports the public key, key pair, domain, curve, salt length, digest length and modulus length it was built with; the digest it returns is unused and computes the hash it was built with, and the random source it returns continues where the object has left it. The advertised maximum message length is the longest message encryption accepts. Without a private key an object never signs or decrypts. A signature container returns exactly the numbers or bytes last stored in it, whatever was stored before.",
  ["inputs", "histories"], "all schemes, hashes, key sizes and curves, with private or only public keys, before and after any operations; all pairs of numbers",
  "Tests never call the accessors after an operation, never try the advertised maximum, and never reuse a signature container.",
  ["src/rsa/oaep.rs", "src/rsa/pkcs1.rs", "src/rsa/pss.rs", "src/rsa/signature.rs", "src/dsa/dsa.rs", "src/dsa/signature.rs", "src/ecdsa/ecdsa.rs", "src/elliptic/key_pair.rs", "src/crypto_err.rs"],
  [("accessors", "OAEP, PKCS1, PSS, DSA, ECDSA"), ("length of the two halves of a signature", "src/dsa/signature.rs")],
  observe=["accessor results between operations"])

p("C36", "The kind of an error tells its cause",
  "A signature that does not belong to the message and key, or is malformed, is refused with VerificationFailed (PKCS#1, PSS, DSA, ECDSA), and so is an OAEP or PKCS#1 ciphertext of proper length and range that decodes to nothing. Signing or decrypting without a private key gives InvalidPrivateKey. A random source that fails gives RandError in the generation of keys and domains, signing, blinded decryption, PKCS#1 encryption and the generation of initial vectors. Keys, initial vectors and blocks of wrong length (AES, DES, TDES, SM4, ZUC), messages too long to encrypt, numbers not below the modulus, moduli too short for OAEP or PSS and block sizes unknown to CMAC give InvalidParameter. A missing padding marker gives UnpaddingNotMatch; a digest without PKCS#1 identifier gives NotSupportUsage when signing or verifying.",
  ["inputs", "fault_sequences", "configurations"], "all schemes, curves, domains and ciphers; all wrong lengths, altered messages and signatures, and sources that die at any point",
  "Tests look at most at whether an operation failed.",
  ["src/rsa/oaep.rs", "src/rsa/pkcs1.rs", "src/rsa/pss.rs", "src/rsa/rsa.rs", "src/dsa/dsa.rs", "src/ecdsa/ecdsa.rs", "src/elliptic/elliptic.rs", "src/checked_source.rs", "src/cipher_mode/padding.rs", "src/cipher_mode/initial_vec.rs", "src/crypto_err.rs", "src/aes/aes.rs", "src/des/des.rs", "src/sm4/sm4.rs", "src/zuc/zuc_core.rs", "src/cmac/cmac.rs"],
  [("CryptoError::new calls", "all modules"), ("order of the checks inside an operation", "sign, verify, decrypt")],
  observe=["kind of every error"])

p("C37", "A clone equals its original and is independent of it",
  "A clone of a cipher, mode object, source of initial vectors, padding, hash, MAC, ZUC generator, RSA, DSA or elliptic-curve key, domain, curve or signature content computes and reports what the original does at the moment of cloning (the clone of a counter may also start over), and from then on neither is affected by anything done to the other, including its being dropped.",
  ["inputs", "histories"], "all cloneable types, clones of clones, clones taken before, between and after operations and parameter changes",
  "Tests hardly clone anything.",
  ["src/cipher_mode", "src/aes", "src/des", "src/sm4", "src/rsa/rsa.rs", "src/dsa/dsa.rs", "src/elliptic/elliptic.rs", "src/elliptic/key_pair.rs", "src/elliptic/p224.rs", "src/elliptic/p256.rs", "src/hmac/hmac.rs", "src/zuc/zuc_cipher.rs", "src/rsa/signature.rs"],
  [("hand-written Clone implementations", "modes, TDES, SM4, ZUCCipher, keys, curves"), ("integers whose clone shares storage", "RSA, DSA and elliptic-curve keys")],
  observe=["results of several objects cloned from each other, in any order of use"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
