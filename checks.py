"""Registry: property -> jobs, bounds, explanation."""
from runner import Job

CHECKS = {}
NA = {}


def check(pid, explain, bounds, jobs, assumptions=(), budget=None, **kw):
    CHECKS[pid] = dict({"explain": explain, "bounds": bounds, "jobs": jobs, "assumptions": list(assumptions),
                        "budget": budget or {"quick": 360, "thorough": 3000}}, **kw)


X86 = "x86 intrinsics (AES-NI, PCLMUL, SSE shifts) behave as their bit-exact models in engine/models.py; heap allocation succeeds"

# ---------------------------------------------------------------- hashes
BLOCK = [64, 64, 64, 64, 128, 128, 144, 136, 104, 72]
OUT = [16, 20, 28, 32, 48, 64, 28, 32, 48, 64]
PADLEN = [9, 9, 9, 9, 17, 17, 1, 1, 1, 1]


def hash_jobs(ws):
    def f(tier):
        out = []
        th = tier != "quick"
        for w in ws:
            b = BLOCK[w]
            top = (b + 24 if w > 3 else 2 * b + 8) if not th else 4 * b + 8
            step = 16
            if w == 2 and not th:   # truncation hides a state word from the equivalence sweep: slower
                for lo, hi in ((0, 0), (20, 21), (55, 55), (56, 56), (63, 64), (65, 65), (119, 119), (120, 120)):
                    out.append(Job("hash.cpp", "h_hash", (w, lo, hi), expect=("end",), desc="digest of every message of these lengths"))
                top = 0
            for lo in range(0, top, step):
                out.append(Job("hash.cpp", "h_hash", (w, lo, min(lo + step - 1, top)), expect=("end",), desc="digest of every message of these lengths"))
            p = PADLEN[w]
            fills = range(0, b) if th or w < 2 else sorted({0, b // 3, b - p - 1, b - p, b - p + 1, b - 1} & set(range(b)))
            for fill in fills:
                for lo, hi in ((0, 1), (b - fill - 1, b - fill + 1)) if not th else ((0, 3), (b - fill - 2, b - fill + 2), (b, b + 1), (2 * b, 2 * b + 1)):
                    out.append(Job("hash.cpp", "h_state", (w, fill, max(lo, 0), hi), desc="arbitrary chaining state and message count"))
            for n in (0, 5, b) if not th else tuple(range(0, 12)) + (b - 1, b, b + 1):
                out.append(Job("hash.cpp", "h_hex", (w, n), expect=("end",)))
        return out
    return f


for pid, ws, nm in (("C01", (0, 1), "MD5 and SHA-1"), ("C02", (2, 3, 4, 5), "SHA-224/256/384/512"), ("C03", (6, 7, 8, 9), "SHA3-224/256/384/512")):
    check(pid, "The %s implementations are executed on fully symbolic messages, and from arbitrary (symbolic) chaining states with a symbolic block count, and compared with an independent transcription of the standard." % nm,
          "every message length from 0 to two blocks + 8 bytes (SHA-384, SHA-512 and SHA-3: one block + 24; SHA-224: ten lengths around the boundaries; thorough: four blocks + 8); from an arbitrary state: every buffer fill (for SHA-2 and SHA-3 in the quick tier 6 of them around the padding boundaries), with tails around every block boundary; total length below 2^61 bytes",
          hash_jobs(ws), ["the arbitrary-state jobs set private members (w/h/s, chunk, msglength) when present; otherwise they are skipped and the bounded lengths remain"])


def split_jobs(tier):
    out = []
    for w in range(10):
        b = BLOCK[w]
        n = 2 * b + 12
        cuts = sorted(set([7, b - PADLEN[w] + 1, b - 1, b, b + 1, 2 * b]))
        if tier != "quick":
            cuts = [0] + list(range(3, n + 1, 3))
        elif w == 2:
            cuts = [56, 64]
        for a in cuts:
            out.append(Job("hash.cpp", "h_split", (w, n, a, a, max(1, (n - a) // 3)), expect=("end",)))
        th = tier != "quick"
        if w != 2 or th:
            out.append(Job("hash.cpp", "h_split", (w, 5, 0 if th or w < 6 else 2, 5 if th or w < 6 else 3, 1), expect=("end",)))
        out.append(Job("hash.cpp", "h_split", (w, b + 2, b - 2 if th or w not in (2, 6, 7, 8, 9) else b, b + 2 if th or w not in (2, 6, 7, 8, 9) else b, 1), expect=("end",)))
    return out


check("C04", "Messages are absorbed in three pieces cut at the listed positions with digests asked for in between and from a copy; each digest is compared with the standard's digest of what was absorbed so far.",
      "message lengths 5, one block + 2 and two blocks + 12; first cut at block- and padding-boundary positions (thorough: every third position), second cut at a third of the rest; all cuts for the short message (quick tier: two for SHA-3); contents fully symbolic",
      split_jobs)


def named_jobs(tier):
    out = []
    for i in range(15):
        for n in (0, 4, 70) if tier == "quick" else (0, 1, 4, 63, 70, 130):
            out.append(Job("hash.cpp", "h_named", (i, n), expect=("end",)))
    for n in range(0, 13 if tier == "quick" else 20):
        out.append(Job("hash.cpp", "h_badname", (n,), expect=("end",)))
    return out


check("C05", "Each accepted name is selected and digest, size, hexadecimal form and DigestInfo identifier are compared with the named hash's standard; every other name (symbolic characters) must be refused.",
      "15 accepted names x message lengths 0, 4, 70 (thorough up to 130); refused names of every length 0..12 (thorough 19)", named_jobs)


# ---------------------------------------------------------------- CRC-32, base64
def crc_jobs(tier):
    out = []
    top = 24 if tier == "quick" else 100
    for n in range(0, top):
        for a, b in {(0, n), (n // 3, n // 2), (n, n)}:
            out.append(Job("crc.cpp", "h_crc", (n, a, b), expect=("end",)))
    for n in (0, 1, 2, 3, 4, 7, 8, 9, 16, 33, 64):
        out.append(Job("crc.cpp", "h_crc_state", (n,)))
    return out


check("C06", "The checksum is computed over fully symbolic messages absorbed in up to three pieces, and continued from an arbitrary running value, and compared with a bitwise evaluation of the CRC-32 polynomial division; the byte, string and copy forms are compared too.",
      "message lengths 0..23 (thorough 99) with three placements of the cuts; from an arbitrary running checksum lengths up to 64", crc_jobs,
      ["the arbitrary-state job sets the private member h when present"])


def b64_jobs(tier):
    out = []
    th = tier != "quick"
    for n in list(range(0, 14)) + [56, 57, 58, 60] + ([114, 115, 171] if th else []):
        for opt in range(4):
            for cs in range(3):
                if n > 13 and not th and (opt + cs) % 3:
                    continue
                out.append(Job("base64.cpp", "h_enc", (n, opt, cs), expect=("end",)))
    for n in range(0, 8 if th else 6):
        out.append(Job("base64.cpp", "h_dec", (n,), expect=("end",)))
    return out


check("C07", "Encoding of symbolic bytes under every option is compared with the RFC 4648 text and decoded again; decoding of arbitrary symbolic text is compared with a reference that skips characters outside the alphabet; every access is bounds-checked.",
      "byte strings of 0..13 and 56..60 bytes (line break boundary; thorough up to 171) with all four option combinations and three alphabets; arbitrary texts of up to 5 characters (thorough 7)", b64_jobs)


# ---------------------------------------------------------------- ChaCha20
def chacha_jobs(tier):
    out = [Job("chacha.cpp", "h_chacha_sizes", (40, 16), expect=("accepted", "rejected")), Job("chacha.cpp", "h_chacha_counter", (0,))]
    th = tier != "quick"
    for n in (0, 1, 2, 63, 64, 65, 130, 193) if not th else list(range(0, 20)) + [63, 64, 65, 127, 128, 129, 200, 257, 321, 400]:
        cuts = sorted({(0, n), (n // 2, n // 2), (min(1, n), max(n - 1, min(1, n))), (min(63, n), min(64, n)), (min(64, n), min(65, n)), (min(3, n), min(127, n) if n > 3 else n)})
        for a, b in cuts:
            for dec in (0, 1, 2) if th else (2, 0):
                out.append(Job("chacha.cpp", "h_chacha", (n, a, b, dec), expect=("end",)))
    return out


check("C13", "The cipher is run on symbolic keys, nonces and data in up to three calls and compared with an independent transcription of RFC 8439; the block function is also decided for an arbitrary counter value, and key/nonce lengths are checked.",
      "messages up to 193 bytes (thorough 400) in up to three calls cut at block boundaries and inside blocks, encrypting and decrypting interleaved; every 32-bit counter for the block function; key lengths 0..40 and nonce lengths 0..16",
      chacha_jobs, ["more than 2^32 blocks under one nonce (counter wrap) is outside the cipher's specified domain"])


# ---------------------------------------------------------------- AES
def aes_jobs(tier):
    out = []
    for bits in (128, 256):
        for tied in (0, 1):
            out.append(Job("aes.cpp", "h_aes", (bits, tied), expect=("end",)))
        out.append(Job("aes.cpp", "h_keylen", (bits, 0, 40 if tier == "quick" else 200), expect=("accepted", "rejected")))
    return out


check("C08", "Key expansion and block encryption run on a symbolic key and block (also with key and block bytes tied together) and are compared with a transcription of FIPS 197 whose S-box is computed from its definition; every other key length must be refused.",
      "every 128- and 256-bit key and every block; key lengths 0..40 bytes (thorough 200)", aes_jobs)


# ---------------------------------------------------------------- modes
ANYCIPHER = "the mode is decided with the block cipher an arbitrary function of key and block (uninterpreted), which covers every cipher; AES itself is decided in C08"


def ctr_jobs(tier):
    th = tier != "quick"
    out = [Job("modes.cpp", "h_ctr_lens", (34, 20) if th else (20, 18), expect=("accepted", "rejected"))]
    for i, ns in enumerate([(0, 0, 1), (1, 0, 16), (15, 16, 17), (32, 31, 5), (48, 0, 33), (80, 1, 1)] + ([(n, n + 1, 16 * n) for n in range(1, 20, 3)] if th else [])):
        for sym in (0, 1):
            out.append(Job("modes.cpp", "h_ctr", ns + (sym, (i + sym) & 1), expect=("end",)))
    for a in ((40, 17), (16, 0), (1, 33)):
        out.append(Job("modes.cpp", "h_ctr_pair", a, expect=("end",)))
    out += [Job("modes.cpp", "h_ctr_aes", (128, 16, 0), expect=("end",)), Job("modes.cpp", "h_ctr_aes", (256, 5, 0), expect=("end",))]
    return out


check("C09", "Three successive messages are processed from an arbitrary initial counter block and message number and compared with counter mode written from SP 800-38A; a second object decrypts what the first encrypted; key and IV lengths are checked.",
      "sequences of three messages of up to 80 bytes (thorough 300), every IV and every 64-bit message number (all counter carries); key lengths 0..20 and IV lengths 0..18", ctr_jobs, [ANYCIPHER])


def gcm_jobs(tier):
    th = tier != "quick"
    out = []
    for iv in (12, 8, 13, 16):
        for m, n in ((0, 0), (0, 5), (3, 16), (16, 15), (17, 17), (0, 33)) if iv == 12 or th else ((0, 0), (0, 17), (5, 16)):
            out.append(Job("modes.cpp", "h_gcm", (iv, m, n, 0, 999), expect=("end",)))
    out.append(Job("modes.cpp", "h_gcm", (12, 20, 33, 1, 999), expect=("end",)))
    out.append(Job("modes.cpp", "h_gcm", (12, 5, 17, 1, 3, 16), expect=("end",)))
    out.append(Job("modes.cpp", "h_gcm", (8, 0, 18, 1, 999), expect=("end",)))
    if th:
        out.append(Job("modes.cpp", "h_gcm", (60, 5, 33, 1), expect=("end",)))
        out.append(Job("modes.cpp", "h_gcm", (12, 40, 70, 1, 999), expect=("end",)))
    for iv in (0, 1, 4, 7, 9, 10, 11):
        out.append(Job("modes.cpp", "h_gcm", (iv, 3, 20, 0, 999), expect=("refused",)))
    return out


check("C10", "One or two messages are encrypted from an arbitrary message number and ciphertext and tag are compared with GCM written from SP 800-38D; field products inside are matched by GF(2) normal forms.",
      "nonces of 8, 12, 13 and 16 bytes (thorough 60); additional data and plaintext lengths up to 33 bytes (thorough 70) around the block boundaries; every 64-bit message number; every nonce length below 12 other than 8 is refused", gcm_jobs, [ANYCIPHER])


def gcmdec_jobs(tier):
    th = tier != "quick"
    out = []
    for m, n in ((0, 0), (0, 5), (0, 16), (16, 15), (20, 33)):
        out.append(Job("modes.cpp", "h_gcmdec", (12, m, n, 0), expect=("end",)))
    out.append(Job("modes.cpp", "h_gcmdec", (12, 0, 17, 1), expect=("end",)))
    for iv, m, n in ((8, 0, 20), (16, 0, 17)) + (((13, 3, 18),) if th else ()):
        out.append(Job("modes.cpp", "h_gcmdec", (iv, m, n, 0), expect=("end",)))
    for iv in (0, 4, 7, 9, 10, 11):
        out.append(Job("modes.cpp", "h_gcmdec", (iv, 3, 20, 0), expect=("refused",)))
    out.append(Job("modes.cpp", "h_gcmpair", (12, 3, 17, 20, 32, 0), expect=("end",)))
    out.append(Job("modes.cpp", "h_gcmpair", (12, 3, 5, 0, 32, 1), expect=("end",)))
    return out


check("C11", "Arbitrary ciphertext, additional data and tag are presented; acceptance must be equivalent to equality of all 128 tag bits with the SP 800-38D tag, and the plaintext of accepted messages must be the decryption; two peers exchange two messages, the first one possibly altered.",
      "as C10: lengths up to 33 bytes, nonces of 8, 12 and 16 bytes (thorough 13), every tag and every 64-bit message number", gcmdec_jobs, [ANYCIPHER])
check("C12", "The hash-block function is run on symbolic key, block and accumulator and compared with shift-and-add multiplication modulo the GCM polynomial (bilinear normal form over GF(2)).",
      "none: all 2^384 combinations", lambda tier: [Job("modes.cpp", "h_ghash", (), expect=("end",)), Job("modes.cpp", "h_reflect", (), expect=("end",))])


# ---------------------------------------------------------------- HMAC, HKDF
ANYHASH = "the construction is decided with the hash an arbitrary function of the message (uninterpreted); the real hashes are decided in C01-C03"


def hmac_jobs(tier):
    th = tier != "quick"
    out = []
    for kn in list(range(0, 12)) + [16, 17, 30] + (list(range(18, 60, 5)) if th else []):
        for n in (0, 1, 5, 40):
            out.append(Job("hkdf.cpp", "h_hmac", (kn, n), expect=("end",)))
    for w in range(10):
        b = BLOCK[w]
        if w == 2 and not th:   # SHA-224: truncation hides a state word from the equivalence sweep; two jobs are decided
            out.append(Job("hkdf.cpp", "h_hmac_real", (w, 0, 3), expect=("end",)))
            out.append(Job("hkdf.cpp", "h_hmac_real", (w, 63, 3), expect=("end",)))
            continue
        for kn in (0, b - 1, b, b + 1, 2 * b + 3) if not th else (0, 1, 20, 63, 64, 65, b - 1, b, b + 1, b + 20, 2 * b, 2 * b + 3):
            out.append(Job("hkdf.cpp", "h_hmac_real", (w, kn, 3), expect=("end",)))
        out.append(Job("hkdf.cpp", "h_hmac_real", (w, 7, b + 5), expect=("end",)))
    return out


check("C14", "HMAC is instantiated with an arbitrary hash of 8-byte blocks and with each real hash; the result is compared with RFC 2104.",
      "arbitrary hash: key lengths 0..30 (block 8; thorough 60), messages up to 40 bytes; real hashes: keys of 0, block-1, block, block+1 and 2 blocks + 3 bytes, messages of 3 bytes and block + 5 bytes", hmac_jobs, [ANYHASH])


def hkdf_jobs(tier):
    th = tier != "quick"
    out = []
    for sn, n in ((0, 0), (0, 4), (5, 5), (8, 1), (9, 20), (30, 3)):
        out.append(Job("hkdf.cpp", "h_extract", (sn, n), expect=("end",)))
    for pn in (0, 5, 8, 12):
        for i in (0, 1, 7):
            for ln in (0, 1, 4, 5, 6, 10, 11, 33) + (tuple(range(12, 60)) if th else ()):
                out.append(Job("hkdf.cpp", "h_expand", (pn, i, ln), expect=("end",)))
    out.append(Job("hkdf.cpp", "h_expand", (5, 1, 1275), expect=("end",)))
    for a in ((5, 0, 0, 5), (5, 3, 5, 7), (5, 8, 32, 16), (5, 12, 48, 12), (9, 2, 255, 6), (5, 249, 1, 5), (5, 16, 20, 300)):
        out.append(Job("hkdf.cpp", "h_label", a, expect=("end",)))
    for a in ((0, 5), (4, 5), (32, 5), (5, 0), (7, 9)):
        out.append(Job("hkdf.cpp", "h_schedule", a, expect=("end",)))
    return out


check("C15", "Extract, Expand and Expand-Label and the whole TLS 1.3 schedule (handshake, master, traffic, finished, key and IV) are run on symbolic secrets, labels, contexts and transcripts with an arbitrary hash and compared with RFC 5869 and RFC 8446.",
      "output lengths 0..33 (thorough 59) and the maximum of 255 digests and 300 bytes (16-bit length field), labels up to 249 and contexts up to 255 bytes, digests of 5 bytes with blocks of 8", hkdf_jobs,
      [ANYHASH, "HKDF_UpdateSecret, exporter_master and resumption_master do not compile when instantiated and are not covered"])


# ---------------------------------------------------------------- big numbers, Montgomery arithmetic
def bignum_jobs(tier):
    th = tier != "quick"
    out = []
    for w in (64, 96, 128, 256, 512) + ((1024,) if th else ()):
        for f in ("h_addsub", "h_cmp", "h_shifts", "h_bits", "h_bytes", "h_mul32", "h_mul", "h_sqr"):
            out.append(Job("bignum.cpp", f, (w,), expect=("end",)))
    for w in (64, 128, 256, 512):
        out.append(Job("bignum.cpp", "h_slices", (w,), expect=("end",)))
    for k in range(6):
        out.append(Job("bignum.cpp", "h_convert", (k,), expect=("end",)))
    out.append(Job("bignum.cpp", "h_lists", (), expect=("end",)))
    return out


LIFT = "products and carry chains are decided by lifting word operations to integer polynomials (engine/lift.py), each rewriting step justified by z3 range or linear-integer queries"
check("C16", "Every operation is executed on symbolic operands and compared with plain integer arithmetic on the values; " + LIFT + ".",
      "widths 64, 96, 128, 256 and 512 bits (thorough 1024); all operands, every shift distance listed by the harness", bignum_jobs)


def mont_jobs(tier):
    th = tier != "quick"
    out = []
    for w in (32, 64, 128, 256, 512) + ((1024, 2048) if th else ()):
        out.append(Job("mont.cpp", "h_redc", (w,), expect=("end",)))
    for w in (32, 64, 128) + ((256, 512) if th else ()):
        out.append(Job("mont.cpp", "h_mmul", (w,), expect=("end",)))
    for w in (64, 128, 256) + ((512, 1024) if th else ()):
        out.append(Job("mont.cpp", "h_madd", (w,), expect=("end",)))
    for w in (32, 64, 128):
        out.append(Job("mont.cpp", "h_inv", (w,), expect=("end",)))
    for a in ((64, 64, 63), (64, 64, 50), (64, 32, 31)):
        out.append(Job("mont.cpp", "h_reduce", a, expect=("end",)))
    for k in (0, 1, 2):
        out.append(Job("mont.cpp", "h_reduce_c", (k,), expect=("end",)))
    return out


check("C17", "Montgomery reduction, product, sum and inverse are run for a symbolic odd modulus and symbolic residues and compared with the integer result (existence of the quotient is shown by the defining congruence); reduction is compared with the remainder; " + LIFT + ".",
      "reduction step: every odd modulus up to 512 bits (thorough 2048); product up to 128 bits (thorough 512), sum up to 256 bits (thorough 1024), modular inverse of the low word up to 128; naive reduction for 64-bit values by moduli with 32 and 64 bits whose top bit is at a listed position, and by listed constants", mont_jobs,
      ["naive_reduce by a symbolic modulus much shorter than the value is outside the bounds (no verdict in reasonable time)"])


# ---------------------------------------------------------------- Curve25519
def field_jobs(tier):
    out = [Job("x25519.cpp", f, (), expect=("end",)) for f in ("h_equal", "h_less", "h_reduce", "h_square", "h_mul", "h_mul32", "h_sub", "h_add")]
    out.append(Job("x25519_ladder.cpp", "h_inverse", (), expect=("end",), flags=("-fno-inline",)))
    return out


check("C21", "Each operation runs on two arbitrary 256-bit representations and the residue is compared with integer arithmetic modulo 2^255-19; inversion is shown to be the power p-2 with multiplication as addition of exponents; " + LIFT + ".",
      "none: all representations of both operands", field_jobs,
      ["inversion: x^(p-2) is the inverse by Fermat's theorem"])
check("C22", "The whole ladder runs on a symbolic scalar and point with the field operations arbitrary (uninterpreted, multiplication and addition commutative) functions and is compared with RFC 7748's ladder.",
      "none: every scalar and point; the field operations themselves are decided in C21",
      lambda tier: [Job("x25519_ladder.cpp", "h_ladder", (), expect=("end",), flags=("-fno-inline",)), Job("x25519_ladder.cpp", "h_clamp", (), expect=("end",), flags=("-fno-inline",))],
      ["a ladder with other formulas than RFC 7748's would get no verdict instead of an alarm unless a counterexample is found"])


# ---------------------------------------------------------------- certificates
def date_jobs(tier):
    th = tier != "quick"
    out = []
    J = lambda *a: out.append(Job("cert.cpp", "h_date", a, expect=("end",)))
    for tag in (0x17, 0x18):
        for n in range(0, 21) if th else (0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20):
            J(tag, n, n & 1, 0, 0, 0)
        for n in ((9, 11, 13) if tag == 0x17 else (11, 13, 15)):
            for d in range(5):
                J(tag, n, d & 1, 2, d, 0)
    for tag in (1, 2, 0x13, 0x16, 0x19, 0x30):
        J(tag, 13, 1, 0, 0, 0)
    for month in range(1, 13):
        for c in (19, 20, 21, 22, 23, 24) + (tuple(range(25, 100, 9)) + (99,) if th else ()):
            J(0x18, 15, month & 1, 1, c, month)
        for n in (11, 13):
            J(0x17, n, 1 - (month & 1), 1, 0, month)
    for month in (0, 13, 19, 99):
        J(0x18, 15, 0, 1, 20, month)
        J(0x17, 13, 1, 1, 0, month)
    return out


check("C25", "A certificate is built around a date of symbolic characters and parsed through the public entry point; the instant found is compared with a calendar computed by counting days, and malformed strings must give no instant.",
      "every day of every year from 1900 to 2499 in GeneralizedTime (thorough also later centuries up to 9999) and of every UTCTime year, at 00:00:00 and 23:59:59; every time of day on five dates; every string of 0..17 and 20 arbitrary characters (thorough 0..20) that is not a date", date_jobs,
      ["instants before 1970 are not representable and are treated as malformed (result 0)", "an instant of 0 stands for a refused date, as in the code's own interface"])


def cert_jobs(tier):
    th = tier != "quick"
    out = []
    nf = ("-fno-inline",)
    for k in range(13):
        out.append(Job("cert.cpp", "h_names", (k, (k * 5 + 3) % 13, 5, 2, 19), expect=("end",)))
        out.append(Job("cert.cpp", "h_names", (k, k, 3, 4, 12), expect=("end",)))
        out.append(Job("cert.cpp", "h_names", (k, (k + 1) % 13, 0, 1, 12 if k & 1 else 19), expect=("end",)))
        if th:
            for j in range(13):
                out.append(Job("cert.cpp", "h_names", (k, j, 17, 130, 19), expect=("end",)))
    out.append(Job("cert.cpp", "h_names", (13, 13, 0, 0, 19), expect=("end",)))
    for n in (1, 8, 16, 17):
        for ext in range(4):
            out.append(Job("cert.cpp", "h_rest", (n, ext), expect=("end",)))
    for n, last, key in ((4, 0x0b, 1), (4, 0x0c, 1), (0, 0x0d, 1), (9, 300, 1), (3, 300, 0), (256, 0x0b, 1), (1, 0x0a, 1), (130, 0x0c, 1)):
        out.append(Job("cert.cpp", "h_verify", (n, last, key), expect=("end",)))
    for n, e in ((1, 1), (4, 3), (64, 3), (128, 1), (256, 3), (257, 4), (512, 8), (513, 3)):
        out.append(Job("cert.cpp", "h_rsakey", (n, e), expect=("refused", "accepted"), flags=nf))
    for n, e, d in ((8, 3, 8), (64, 3, 63), (256, 3, 256), (512, 3, 511)):
        out.append(Job("cert.cpp", "h_privkey", (n, e, d), expect=("refused", "accepted"), flags=nf))
    out.append(Job("cert.cpp", "h_scheme", (), expect=("end",), flags=nf))
    return out


check("C26", "Certificates and keys are written by an independent DER writer around symbolic contents and parsed; every field is compared with what was written, and verification is run with a recording key whose answer is symbolic.",
      "every name attribute with texts of up to 5 characters (thorough 130) in pairs, issuer and subject independent; serial numbers up to 16 bytes; RSA moduli up to 4096 bits; signatures up to 256 bytes; every validity interval, every answer of the key, every signature algorithm identifier of 9 bytes", cert_jobs,
      ["the Montgomery constants computed while building a key (C17) are left out in symbolic runs", "the certificate's inner copy of the algorithm identifier and the extensions are not interpreted by the code"])
