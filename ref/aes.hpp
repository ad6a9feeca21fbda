// FIPS 197 from its definition: S-box as GF(2^8) inverse plus affine map (built at compile time)
#pragma once
#include <cstddef>
#include <cstdint>
namespace ref {
constexpr uint8_t gmul(uint8_t a, uint8_t b) {
  uint8_t r = 0;
  for (int i = 0; i < 8; i++) {
    if (b & 1) r ^= a;
    a = uint8_t((a << 1) ^ (a & 0x80 ? 0x1b : 0));
    b >>= 1;
  }
  return r;
}
struct Sbox { uint8_t t[256]; };
constexpr Sbox make_sbox() {
  // p runs through the powers of 3, q through the powers of its inverse: q = 1/p
  Sbox s{};
  uint8_t p = 1, q = 1;
  const uint8_t third = 0xf6;   // 3 * 0xf6 = 1
  for (int n = 0; n < 255; n++) {
    uint8_t r = 0x63;
    for (int k = 0; k < 5; k++) r ^= uint8_t((q << k) | (q >> (8 - k)));
    s.t[p] = r;
    p = gmul(p, 3);
    q = gmul(q, third);
  }
  s.t[0] = 0x63;
  return s;
}
static_assert(gmul(3, 0xf6) == 1);
inline constexpr Sbox sbox = make_sbox();
inline uint8_t xt(uint8_t a) { return uint8_t((a << 1) ^ ((a >> 7) * 0x1b)); }
// round keys as bytes: (rounds+1)*16
inline void aes_expand(const uint8_t* key, size_t nk, uint8_t* w, size_t rounds) {
  for (size_t i = 0; i < 4 * nk; i++) w[i] = key[i];
  uint8_t rc = 1;
  for (size_t i = nk; i < 4 * (rounds + 1); i++) {
    uint8_t t[4];
    for (int j = 0; j < 4; j++) t[j] = w[4 * (i - 1) + j];
    if (i % nk == 0) {
      uint8_t t0 = t[0];
      t[0] = uint8_t(sbox.t[t[1]] ^ rc); t[1] = sbox.t[t[2]]; t[2] = sbox.t[t[3]]; t[3] = sbox.t[t0];
      rc = xt(rc);
    } else if (nk > 6 && i % nk == 4) {
      for (int j = 0; j < 4; j++) t[j] = sbox.t[t[j]];
    }
    for (int j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - nk) + j] ^ t[j];
  }
}
template <size_t bits> struct Aes {
  static constexpr size_t nk = bits / 32, rounds = nk + 6;
  uint8_t w[16 * (rounds + 1)];
  Aes(const uint8_t* key) { aes_expand(key, nk, w, rounds); }
  void enc(const uint8_t* in, uint8_t* out) const {
    uint8_t s[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
    for (size_t r = 1; r <= rounds; r++) {
      uint8_t t[16];
      for (int c = 0; c < 4; c++)
        for (int k = 0; k < 4; k++) t[4 * c + k] = sbox.t[s[4 * ((c + k) % 4) + k]];
      if (r < rounds)
        for (int c = 0; c < 4; c++) {
          uint8_t* p = t + 4 * c;
          uint8_t a = p[0], b = p[1], d = p[2], e = p[3], all = a ^ b ^ d ^ e;
          p[0] = a ^ all ^ xt(a ^ b); p[1] = b ^ all ^ xt(b ^ d); p[2] = d ^ all ^ xt(d ^ e); p[3] = e ^ all ^ xt(e ^ a);
        }
      for (int i = 0; i < 16; i++) s[i] = t[i] ^ w[16 * r + i];
    }
    for (int i = 0; i < 16; i++) out[i] = s[i];
  }
};
}
