"""The properties: single source for properties.jsonl and the MANIFEST (see gen.py)."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if state:
        P[-1]["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]


I = "include/caligo/"
prop("C01", "MD5 and SHA-1 digests are the standard ones for every message",
     "For every message, the MD5 and SHA-1 digests returned equal the functions defined in RFC 1321 and FIPS 180-4, whatever the message length (including lengths around the padding boundary and total lengths beyond 2^32 bits). The hexadecimal form is the digest in lower case.",
     ["inputs", "histories"], "all messages of every length residue modulo the block size, any reachable chaining state and any total length below 2^61 bytes",
     "The tests hash a handful of fixed strings; no test covers each padding boundary or a message longer than 2^32 bits.",
     [I + "md5.h", "src/md5.cpp", I + "sha1.h", "src/sha1.cpp"],
     [("compression functions", "src/md5.cpp, src/sha1.cpp processChunk"), ("padding and length encoding on finalisation", "src/md5.cpp, src/sha1.cpp operator std::array")])
prop("C02", "SHA-2 digests are the standard ones for every message",
     "For every message, the SHA-224, SHA-256, SHA-384 and SHA-512 digests equal the functions defined in FIPS 180-4, whatever the message length. The hexadecimal form is exactly the digest in lower case, two characters per byte.",
     ["inputs", "histories"], "all messages of every length residue modulo the block size, any reachable chaining state and any total length below 2^61 bytes",
     "The tests use a few fixed vectors and never a message near each padding boundary or longer than 2^32 bits; the string form of the truncated variants is never compared.",
     [I + "sha2.h", "src/sha2.cpp"], [("compression function and message schedule", "src/sha2.cpp processChunk"), ("padding and truncation", "src/sha2.cpp, include/caligo/sha2.h operator std::array")])
prop("C03", "SHA-3 digests are the standard ones for every message",
     "For every message, the SHA3-224, SHA3-256, SHA3-384 and SHA3-512 digests equal the functions defined in FIPS 202, whatever the message length, including messages that end one byte before or exactly at a sponge-block boundary. The hexadecimal form is the digest in lower case.",
     ["inputs", "histories"], "all messages of every length residue modulo the rate, any reachable sponge state and absorbed length below 2^61 bytes",
     "The tests use a few fixed vectors; only one or two lengths per variant are exercised.",
     [I + "sha3.h", "src/sha3.cpp"], [("Keccak-f permutation", "src/sha3.cpp processChunk"), ("absorb and pad", "src/sha3.cpp add, operator std::array")])
prop("C04", "Incremental hashing does not depend on how the data is split or queried",
     "For every hash, absorbing a message in any sequence of pieces, with the digest asked for any number of times in between, yields at every point exactly the digest of the concatenation of what has been absorbed. Asking for a digest does not change the object, and a copy evolves independently of the original.",
     ["inputs", "histories"], "all messages, all ways to cut them in three pieces (including empty pieces), queries and copies at every cut",
     "Tests absorb in one piece or at one fixed cut; the product of cuts, lengths and intermediate queries is far beyond a test list.",
     [I + "md5.h", I + "sha1.h", I + "sha2.h", I + "sha3.h", "src/md5.cpp", "src/sha1.cpp", "src/sha2.cpp", "src/sha3.cpp"],
     [("partial-block buffering", "add() in each source file"), ("finalising on a copy", "operator std::array in each source file")])
prop("C05", "Run-time hash selection returns the hash that was named",
     "Constructing the run-time hash object with a supported name yields an object whose digest, hexadecimal form, digest size and algorithm identifier are those of the named hash, for every message. Any other name is rejected with an exception.",
     ["inputs", "configurations"], "all ten supported hashes under every accepted name, all messages within the bound; all other names up to the bound",
     "Tests construct only some names and compare one message; an unknown name and the identifier of each hash are never checked.",
     [I + "hash.h", "src/hash.cpp"], [("name dispatch", "src/hash.cpp Hash::Impl"), ("DigestInfo prefixes", "getAsn1Id in include/caligo/*.h")])
prop("C06", "CRC-32 is the standard checksum, in one piece or incrementally",
     "For every byte string the checksum equals the reflected CRC-32 with polynomial 0x04C11DB7, and updating a running checksum piece by piece gives the checksum of the concatenation. No table entry or length leads to a different result.",
     ["inputs", "histories"], "all byte strings of every length up to the bound, every running checksum value and every cut",
     "Tests check a couple of fixed strings, which touch only some table entries.",
     [I + "crc.h", "src/crc.cpp"], [("byte-wise update", "src/crc.cpp")])
prop("C07", "Base64 encoding and decoding are inverse and standard",
     "For every byte string, decoding its encoding gives the byte string back, and the encoding is the RFC 4648 text with its padding. Decoding any text terminates without touching memory outside the text.",
     ["inputs"], "all byte strings and all texts (arbitrary bytes) up to the bound",
     "Tests use a few fixed strings and no malformed text.",
     [I + "base64.h", "src/base64.cpp"], [("encoder and decoder", "src/base64.cpp")])
prop("C08", "AES block encryption is the standard cipher for every key and block",
     "For every key and every block, AES-128 and AES-256 encryption equal FIPS 197. A key of any other length is rejected with an exception and never read or stored out of bounds.",
     ["inputs"], "all keys and blocks; all key lengths up to the bound",
     "Tests encrypt a handful of vectors; wrong key lengths are never tried.",
     [I + "aes.h", "src/aes.cpp"], [("key expansion", "src/aes.cpp AesKeySchedule"), ("rounds", "include/caligo/aes.h AesEncrypt")])
prop("C09", "CTR mode encrypts, decrypts and never repeats a counter block",
     "For every key, initial counter block, message number and message, encryption XORs the message with the block cipher applied to successive 32-bit big-endian increments of the counter block (with the message number folded in), and decrypting with the same parameters returns the message. Within one message and across successive messages no keystream bytes are dropped or reused, and wrong key or IV lengths are rejected.",
     ["inputs", "histories"], "all keys, IVs, message numbers and messages up to the bound, including every counter carry",
     "There is no test with a symbolic counter near its carry, and no test compares more than a vector.",
     [I + "ctr.h"], [("counter increment", "CTR::ctr_inc"), ("keystream generation", "CTR::GenerateKeystream")])
prop("C10", "AES-GCM encryption is the standard authenticated encryption",
     "For every key, nonce, additional data and plaintext, the ciphertext and tag of the n-th message equal the NIST SP 800-38D result for the nonce with the message number folded in. Nonces of an unsupported length yield an empty result, and the plaintext length is preserved.",
     ["inputs", "histories"], "all keys, nonces of each supported length, message numbers, additional data and plaintexts up to the bound",
     "Tests use the published vectors only; combinations of partial blocks in data and text, counter carries and message numbers above 2^32 are not reached.",
     [I + "gcm.h", I + "ghash.h"], [("counter mode and tag", "GCM::Encrypt, GCM::calculate_tag, GCM::ghash")])
prop("C11", "AES-GCM accepts exactly the untampered message",
     "Decryption reports success if and only if the tag presented equals the tag of the presented ciphertext and additional data under that key, nonce and message number, for every one of the 128 tag bits. A successful decryption of what the peer encrypted returns the plaintext, message after message.",
     ["inputs", "histories"], "all keys, nonces, additional data, ciphertexts and tags up to the bound; sequences of messages",
     "Tests flip at most one byte of one vector; they cannot show that every altered bit is rejected.",
     [I + "gcm.h"], [("tag comparison and decryption", "GCM::Decrypt")])
prop("C12", "GHASH multiplication is multiplication in GF(2^128)",
     "For every pair of field elements the hash-block operation returns the product in the GCM field of the key with the sum of the accumulator and the block, and bit reflection is its own inverse. It is linear in the accumulator and has no special case.",
     ["inputs"], "all 2^384 combinations of block, key and accumulator",
     "Tests reach it only through the GCM vectors.",
     [I + "ghash.h"], [("carry-less multiply and reduction", "include/caligo/ghash.h"), ("bit reflection", "include/caligo/ghash.h reflect")])
prop("C13", "ChaCha20 is the standard stream cipher and is its own inverse",
     "For every key, nonce, starting counter and message, the output equals the message XOR the RFC 8439 keystream, whatever the length. Consecutive calls continue with fresh keystream blocks, and applying the cipher again with the same parameters restores the message.",
     ["inputs", "histories"], "all keys, nonces and messages up to the bound; all counters; sequences of calls",
     "Tests use the RFC vectors only.", [I + "chacha20.h"], [("block function and keystream", "include/caligo/chacha20.h")])
prop("C14", "HMAC is RFC 2104 HMAC for every hash, key and message",
     "For every supported hash, key (shorter than, equal to or longer than the hash's block) and message, the result equals H((K xor opad) || H((K xor ipad) || message)) with K padded to the hash's block size, or hashed first when longer than a block.",
     ["inputs", "configurations"], "all hashes, keys and messages within the bound, with the hash either the real one or an arbitrary function",
     "Tests use SHA-256/SHA-512 vectors with short keys; long keys and other hashes never occur.",
     [I + "hkdf.h"], [("inner and outer padding", "HMAC in include/caligo/hkdf.h")])
prop("C15", "HKDF and the TLS 1.3 key schedule derive the standard secrets",
     "Extract, Expand and Expand-Label equal RFC 5869 and RFC 8446 for every secret, salt, info, label, context and output length, and the handshake, master, traffic, finished and key/IV secrets are the ones the TLS 1.3 key schedule defines for the given side and phase.",
     ["inputs", "configurations"], "all byte values of every input for all lengths within the bound; the hash an arbitrary function",
     "Tests cover the RFC vectors for SHA-256 only and one TLS trace.",
     [I + "hkdf.h"], [("expand loop", "HKDF_Expand"), ("label encoding", "HKDF_Expand_Label"), ("schedule", "secret, HKDF_HandshakeSecret, HKDF_MasterSecret")])
prop("C16", "Big-number arithmetic is exact modulo the word size",
     "Addition, subtraction, multiplication, shifts, comparison, byte import and byte export of fixed-width big numbers agree with integer arithmetic for every operand: sums carry through all words, products are exact, comparisons order by value, and importing an exported number gives it back.",
     ["inputs"], "all operands of every listed width (64 to 512 bits; multiplication also at reduced digit counts)",
     "Tests use hand-picked operands; carries between words are input-dependent.",
     [I + "bignum.h"], [("word arithmetic", "bignum<N> operators"), ("import/export", "bignum<N> constructor, as_bytes")])
prop("C17", "Modular reduction and Montgomery arithmetic return canonical residues",
     "For every odd modulus, converting into Montgomery form and back is the identity on residues, and the sum, product and reduction of any residues equal the integer results modulo the modulus, always as the canonical representative below the modulus. Reduction of a value by a modulus terminates and is the remainder for every modulus greater than zero.",
     ["inputs"], "all odd moduli and operands at 32 and 64 bits; arbitrary modulus at the same widths for reduction",
     "Tests use a few fixed moduli; final-subtraction and carry corner cases have probability near 2^-64 for random inputs.",
     [I + "bignum.h", I + "mont.h"], [("Montgomery reduction", "MontgomeryState::REDC"), ("naive reduction", "naive_reduce")])
prop("C18", "Modular exponentiation is square-and-multiply of the modular product",
     "For every modulus, base and exponent, exponentiation returns the base multiplied by itself exponent-many times in modular arithmetic, for all exponents including zero and those with leading zero bits. RSA public and private operations are this exponentiation under the key's own exponent, and the private operation undoes the public one for matching keys.",
     ["inputs"], "all exponents up to the bound with an arbitrary associative product; small moduli concretely",
     "Tests exponentiate fixed values only.",
     [I + "mont.h", I + "rsa.h"], [("exponentiation ladder", "MontgomeryValue::exp"), ("RSA primitives", "rsaep, rsadp")])
prop("C19", "PKCS#1 v1.5 signatures: exactly the standard encoding is accepted",
     "A PKCS#1 v1.5 signature made with a private key verifies under the matching public key for the same message, and verification accepts a signature only if the recovered block is exactly 00 01 FF..FF 00, the hash identifier and the digest, filling the modulus. No signature of any length or content makes verification read out of bounds.",
     ["inputs"], "all recovered blocks, messages and hash values within the bound, every signature length",
     "Tests verify one generated signature; forged encodings with other padding, trailing bytes or other identifiers are never presented.",
     [I + "rsa.h", I + "pkcs1.h"], [("encoding check", "validatePkcs1_5Signature"), ("signing", "signPkcs1_5Signature")])
prop("C20", "PSS signatures: exactly valid encodings are accepted",
     "An RSASSA-PSS signature made with a private key verifies under the matching public key for the same message and hash, and verification accepts a signature only if the recovered block satisfies every EMSA-PSS condition of RFC 8017 for that message. No signature of any length or content makes verification read out of bounds.",
     ["inputs"], "all recovered blocks, salts and hash values within the bound, every signature length",
     "Tests verify one generated signature; blocks with a wrong trailer, non-zero padding or top bits are never presented.",
     [I + "rsa.h", I + "pkcs1.h"], [("EMSA-PSS decode", "validatePssSignature"), ("encode", "signPssSignature")])
prop("C21", "Curve25519 field arithmetic is exact modulo 2^255-19",
     "Addition, subtraction, multiplication, squaring, inversion and serialisation of field elements agree with integer arithmetic modulo 2^255-19 for every representable operand, and equality holds exactly when the residues are equal. Serialising any element gives its canonical residue below the prime.",
     ["inputs"], "all 256-bit representations of both operands",
     "Carry chains and the final reduction near the prime occur with probability around 2^-128 for random inputs; tests use fixed scalars.",
     [I + "x25519.h"], [("field operations", "include/caligo/x25519.h")])
prop("C22", "X25519 is the RFC 7748 function for every scalar and point",
     "For every 32-byte scalar and point, the shared secret is the RFC 7748 X25519 value: scalar clamped, the top bit of the point ignored, all 255 ladder steps performed with the right swaps. Two parties derive the same secret.",
     ["inputs"], "all scalars and point encodings, with field operations treated as exact (decided separately)",
     "Tests use the RFC vectors.", [I + "x25519.h"], [("Montgomery ladder and clamping", "include/caligo/x25519.h X25519")])
prop("C23", "Random bytes come from the generator alone and fill the whole request",
     "Every request for random bytes returns exactly the requested number of bytes, each of them produced by the system's random source, with consecutive requests using disjoint generator output. A failing source is never silently replaced by constants.",
     ["inputs", "histories", "fault_sequences"], "all request sizes up to the bound, all generator outputs and failure patterns of the source",
     "Randomness tests only look at statistics of one sample.", [I + "random.h", "src/random.cpp"], [("generator", "include/caligo/random.h")])
prop("C24", "Certificate and key parsing is memory safe on arbitrary input",
     "Parsing any byte string as a certificate, key or PEM file returns a result or throws; it never reads outside the input, never divides by zero, never dereferences a missing value and always terminates. Truncating or corrupting a valid input changes nothing about this.",
     ["inputs"], "all byte strings up to the bound, and all single-length and multi-byte corruptions of valid skeletons",
     "Tests parse only well-formed certificates.", [I + "Asn1.h", I + "X509Certificate.h", "src/X509Certificate.cpp", "src/Asn1.cpp"], [("DER reader", "asn1_view"), ("certificate reader", "parseCertificate")])
prop("C25", "Certificate dates are converted to the exact instant",
     "Every UTCTime and GeneralizedTime of the form used in certificates is converted to the exact instant it denotes (proleptic Gregorian calendar, UTC), for every year from 1970 to 2400 including century years, and the two forms agree. Malformed dates are rejected rather than misread.",
     ["inputs"], "all dates (year, month, day, hour, minute, second) in range; all malformed strings up to the bound",
     "Tests check the dates of a few certificates; century years and month boundaries are not covered.",
     ["src/X509Certificate.cpp", I + "X509Certificate.h"], [("calendar conversion", "src/X509Certificate.cpp date parser")])
prop("C26", "Certificate fields and signature checks mean what the certificate says",
     "Parsing a well-formed certificate yields exactly the names, validity, key, extensions and signed bytes it contains, and verification succeeds only if the signature check with the issuer's key over exactly the signed bytes succeeds. A certificate is never reported valid because of an unsupported algorithm, missing issuer or altered byte.",
     ["inputs"], "all field contents within a certificate skeleton; every outcome of the underlying signature check",
     "Tests use a handful of certificates; altered content is not tested.", ["src/X509Certificate.cpp", I + "X509Certificate.h"], [("field extraction", "parseCertificate"), ("verification", "x509certificate::verify")])
prop("C27", "The trust store trusts only chains that end in a trusted root",
     "The trust store accepts a chain if and only if it is non-empty, every certificate is issued and signed by the next one and currently valid by the rules the store applies, and the last is issued by a root that was added. An empty chain, a broken link or an unknown root is never trusted, and the decision depends only on the chain and the roots added so far.",
     ["inputs", "histories"], "all chains up to the bound with arbitrary issuer relations and signature outcomes, all sets of roots",
     "Tests use two or three chains.", [I + "X509Certificate.h", "src/X509Certificate.cpp"], [("chain walk", "Truststore::trust")])
prop("C28", "Multi-certificate PEM files load every certificate exactly once",
     "Loading a PEM bundle yields exactly one certificate per BEGIN/END block, in order, whatever text surrounds the blocks; a bundle without blocks yields none. Malformed framing never crashes.",
     ["inputs"], "all bundles of up to the bounded number of blocks with arbitrary surrounding text",
     "Tests load single-certificate files.", ["src/X509Certificate.cpp"], [("block splitter", "parseCertificatesPem")])
prop("C29", "Secret-dependent control flow and addresses are avoided",
     "The time-critical primitives that handle long-term secrets (ChaCha20, AES, GHASH, X25519 and its field arithmetic, the SHA family) take no branch and form no memory address that depends on a secret byte. Two runs that differ only in secrets execute the same instructions on the same addresses.",
     ["inputs"], "all pairs of secrets for fixed public lengths within the bound",
     "Tests observe results, never the sequence of addresses and branches.", [I + "x25519.h", I + "chacha20.h", I + "aes.h", "include/caligo/ghash.h", "src/sha2.cpp"], [("branch-free selection", "conditional swap in include/caligo/x25519.h")])
prop("C30", "Generated RSA primes have the requested size and shape",
     "Every prime handed out by the generator is odd, has exactly the requested length and passed the primality test, whatever the random source returns; the primality test never rejects a prime and its witness loop follows Miller-Rabin.",
     ["inputs", "histories"], "all generator outputs, with the width reduced to the bound",
     "Tests generate one or two primes.", [I + "random_prime.h"], [("candidate generation and testing", "random_prime, is_prime")])
