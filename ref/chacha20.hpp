// RFC 8439 ChaCha20, written from the RFC text (sections 2.1 - 2.4).
#pragma once
#include <cstdint>
#include <cstddef>
namespace ref {
inline uint32_t cc_rotl(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
inline void cc_quarter(uint32_t& a, uint32_t& b, uint32_t& c, uint32_t& d) {
  a += b; d ^= a; d = cc_rotl(d, 16);
  c += d; b ^= c; b = cc_rotl(b, 12);
  a += b; d ^= a; d = cc_rotl(d, 8);
  c += d; b ^= c; b = cc_rotl(b, 7);
}
inline void chacha20_block(const uint8_t* key, uint32_t counter, const uint8_t* nonce, uint8_t* out) {
  uint32_t s[16], x[16];
  s[0] = 0x61707865; s[1] = 0x3320646e; s[2] = 0x79622d32; s[3] = 0x6b206574;
  for (int i = 0; i < 8; i++) s[4 + i] = uint32_t(key[4 * i]) | uint32_t(key[4 * i + 1]) << 8 | uint32_t(key[4 * i + 2]) << 16 | uint32_t(key[4 * i + 3]) << 24;
  s[12] = counter;
  for (int i = 0; i < 3; i++) s[13 + i] = uint32_t(nonce[4 * i]) | uint32_t(nonce[4 * i + 1]) << 8 | uint32_t(nonce[4 * i + 2]) << 16 | uint32_t(nonce[4 * i + 3]) << 24;
  for (int i = 0; i < 16; i++) x[i] = s[i];
  for (int r = 0; r < 10; r++) {
    cc_quarter(x[0], x[4], x[8], x[12]);
    cc_quarter(x[1], x[5], x[9], x[13]);
    cc_quarter(x[2], x[6], x[10], x[14]);
    cc_quarter(x[3], x[7], x[11], x[15]);
    cc_quarter(x[0], x[5], x[10], x[15]);
    cc_quarter(x[1], x[6], x[11], x[12]);
    cc_quarter(x[2], x[7], x[8], x[13]);
    cc_quarter(x[3], x[4], x[9], x[14]);
  }
  for (int i = 0; i < 16; i++) {
    uint32_t v = x[i] + s[i];
    for (int k = 0; k < 4; k++) out[4 * i + k] = v >> (8 * k);
  }
}
// key stream byte `pos` of a stream whose first block has counter 1
inline void chacha20_xor(const uint8_t* key, const uint8_t* nonce, uint8_t* data, size_t n) {
  uint8_t b[64];
  for (size_t i = 0; i < n; i++) {
    if (i % 64 == 0) chacha20_block(key, uint32_t(1 + i / 64), nonce, b);
    data[i] ^= b[i % 64];
  }
}
}
