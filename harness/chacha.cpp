#include "vf.h"
#include <caligo/chacha20.h>
#include "chacha20.hpp"
using B = uint8_t;
static std::span<B> sp(B* p, size_t n) { return std::span<B>(p, n); }

// n bytes processed in three pieces (cuts a <= b), starting with Encrypt (dec=0), Decrypt (1) or alternating (2)
VF_HARNESS h_chacha(uint64_t n, uint64_t a, uint64_t b, uint64_t dec) {
  B* key = (B*)vf_alloc(32); B* nonce = (B*)vf_alloc(12); B* d = (B*)vf_alloc(n); B* e = (B*)vf_alloc(n); B* o = (B*)vf_alloc(n);
  vf_bytes(key, 32, "key"); vf_bytes(nonce, 12, "nonce"); vf_bytes(d, n, "data");
  for (size_t i = 0; i < n; i++) { e[i] = d[i]; o[i] = d[i]; }
  ChaCha20 c(std::span<const B>(key, 32), std::span<const B>(nonce, 12));
  size_t cut[4] = {0, a, b, n};
  for (int k = 0; k < 3; k++) {
    auto s = sp(d + cut[k], cut[k + 1] - cut[k]);
    if (dec == 0 || (dec == 2 && k != 1)) c.Encrypt(s); else c.Decrypt(s);
  }
  ref::chacha20_xor(key, nonce, e, n);
  vf_check_eq(d, e, n, "ciphertext equals RFC 8439 key stream xor plaintext");
  ChaCha20 c2(std::span<const B>(key, 32), std::span<const B>(nonce, 12));
  c2.Decrypt(sp(d, n));
  vf_check_eq(d, o, n, "decryption restores the plaintext");
  vf_note("end");
}
// key / nonce lengths: everything except 32/12 is rejected
VF_HARNESS h_chacha_sizes(uint64_t maxk, uint64_t maxn) {
  size_t kl = vf_choose("keylen", 0, maxk), nl = vf_choose("noncelen", 0, maxn);
  B* key = (B*)vf_alloc(kl); B* nonce = (B*)vf_alloc(nl);
  vf_bytes(key, kl, "key"); vf_bytes(nonce, nl, "nonce");
  bool threw = false;
  try { ChaCha20 c(std::span<const B>(key, kl), std::span<const B>(nonce, nl)); } catch (const std::runtime_error&) { threw = true; }
  vf_check(threw == !(kl == 32 && nl == 12), "constructor accepts exactly 32-byte keys and 12-byte nonces");
  vf_note(threw ? "rejected" : "accepted");
}
// the block counter as a symbolic start value: the block function holds for every 32-bit counter
VF_HARNESS h_chacha_counter(uint64_t) {
  B* key = (B*)vf_alloc(32); B* nonce = (B*)vf_alloc(12);
  vf_bytes(key, 32, "key"); vf_bytes(nonce, 12, "nonce");
  ChaCha20 c(std::span<const B>(key, 32), std::span<const B>(nonce, 12));
  uint32_t ctr = vf_u32("counter");
  if constexpr (requires { c.state[12]; c.GenerateBlock(); c.buffer[0]; c.offset; }) {
    c.state[12] = ctr;
    c.GenerateBlock();
    B d[130] = {}, e[130] = {};
    c.Encrypt(sp(d, 130));
    B b[64];
    for (size_t i = 0; i < 130; i++) {
      if (i % 64 == 0) ref::chacha20_block(key, ctr + uint32_t(i / 64), nonce, b);
      e[i] = b[i % 64];
    }
    vf_check_eq(d, e, 130, "key stream for an arbitrary block counter");
    vf_note("end");
  }
}
