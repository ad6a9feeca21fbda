// SP 800-38D: multiplication in GF(2^128), GHASH, GCM and SP 800-38A counter mode
#pragma once
#include <cstddef>
#include <cstdint>
#include <x86intrin.h>
namespace ref {
struct G { uint64_t lo, hi; };   // coefficient of x^i (bit i of the block, counted from the top of each byte) at bit i
inline G gload(const uint8_t* p) {
  G g{0, 0};
  for (int i = 0; i < 64; i++) {
    g.lo |= uint64_t((p[i / 8] >> (7 - i % 8)) & 1) << i;
    g.hi |= uint64_t((p[8 + i / 8] >> (7 - i % 8)) & 1) << i;
  }
  return g;
}
inline void gstore(uint8_t* p, G g) {
  for (int i = 0; i < 16; i++) p[i] = 0;
  for (int i = 0; i < 64; i++) {
    p[i / 8] |= ((g.lo >> i) & 1) << (7 - i % 8);
    p[8 + i / 8] |= ((g.hi >> i) & 1) << (7 - i % 8);
  }
}
inline G gmul128_bits(G x, G y) {   // modulo x^128 + x^7 + x^2 + x + 1
  G z{0, 0}, v = y;
  for (int i = 0; i < 128; i++) {
    uint64_t m = 0 - ((i < 64 ? x.lo >> i : x.hi >> (i - 64)) & 1);
    z.hi ^= v.hi & m; z.lo ^= v.lo & m;
    uint64_t r = 0 - (v.hi >> 63);
    v.hi = (v.hi << 1) | (v.lo >> 63);
    v.lo = (v.lo << 1) ^ (r & 0x87);
  }
  return z;
}
// the same from the four word products; shown equal to the definition above by h_ghash
inline G clm(uint64_t a, uint64_t b) {
  __m128i r = _mm_clmulepi64_si128(_mm_set_epi64x(0, (long long)a), _mm_set_epi64x(0, (long long)b), 0);
  return G{(uint64_t)_mm_cvtsi128_si64(r), (uint64_t)_mm_cvtsi128_si64(_mm_srli_si128(r, 8))};
}
inline G gmul128(G x, G y) {
  G a = clm(x.lo, y.lo), b = clm(x.lo, y.hi), c = clm(x.hi, y.lo), d = clm(x.hi, y.hi);
  uint64_t w0 = a.lo, w1 = a.hi ^ b.lo ^ c.lo, w2 = b.hi ^ c.hi ^ d.lo, w3 = d.hi;
  // x^128 = x^7 + x^2 + x + 1
  w1 ^= w3 ^ (w3 << 1) ^ (w3 << 2) ^ (w3 << 7);
  w2 ^= (w3 >> 63) ^ (w3 >> 62) ^ (w3 >> 57);
  w0 ^= w2 ^ (w2 << 1) ^ (w2 << 2) ^ (w2 << 7);
  w1 ^= (w2 >> 63) ^ (w2 >> 62) ^ (w2 >> 57);
  return G{w0, w1};
}
inline void ghash_absorb(G h, G& y, const uint8_t* p, size_t n) {   // n bytes padded with zeroes to whole blocks
  for (size_t i = 0; i < n; i += 16) {
    uint8_t b[16] = {};
    for (size_t k = 0; k < 16 && i + k < n; k++) b[k] = p[i + k];
    G g = gload(b);
    y.hi ^= g.hi; y.lo ^= g.lo;
    y = gmul128(y, h);
  }
}
inline void inc32(uint8_t* c) {
  uint32_t v = (uint32_t(c[12]) << 24 | uint32_t(c[13]) << 16 | uint32_t(c[14]) << 8 | c[15]) + 1;
  c[12] = v >> 24; c[13] = v >> 16; c[14] = v >> 8; c[15] = v;
}
inline void fold(uint8_t* c, uint64_t message) {   // the message number, big endian, into bytes 4..11
  for (int i = 0; i < 8; i++) c[4 + i] ^= uint8_t(message >> (56 - 8 * i));
}
// E(in, out): the block cipher under the key
template <typename E> void ctr(E&& e, uint8_t* c, const uint8_t* in, size_t n, uint8_t* out) {
  for (size_t i = 0; i < n; i += 16) {
    inc32(c);
    uint8_t k[16];
    e(c, k);
    for (size_t j = 0; j < 16 && i + j < n; j++) out[i + j] = in[i + j] ^ k[j];
  }
}
// one message.  iv: ivlen bytes as given to the constructor
template <typename E> void gcm_j0(E&& e, const uint8_t* iv, size_t ivlen, uint64_t message, uint8_t* j0) {
  if (ivlen == 12) {
    for (int i = 0; i < 12; i++) j0[i] = iv[i];
    j0[12] = j0[13] = j0[14] = 0; j0[15] = 1;
  } else {
    uint8_t z[16] = {}, hb[16], len[16] = {};
    e(z, hb);
    G h = gload(hb), y{0, 0};
    ghash_absorb(h, y, iv, ivlen);
    for (int i = 0; i < 8; i++) len[15 - i] = uint8_t((uint64_t(ivlen) * 8) >> (8 * i));
    ghash_absorb(h, y, len, 16);
    gstore(j0, y);
  }
  fold(j0, message);
}
template <typename E> void gcm_tag(E&& e, const uint8_t* j0, const uint8_t* ct, size_t n, const uint8_t* aad, size_t m, uint8_t* tag) {
  uint8_t z[16] = {}, hb[16], len[16] = {}, ek[16];
  e(z, hb);
  G h = gload(hb), y{0, 0};
  ghash_absorb(h, y, aad, m);
  ghash_absorb(h, y, ct, n);
  for (int i = 0; i < 8; i++) { len[7 - i] = uint8_t((uint64_t(m) * 8) >> (8 * i)); len[15 - i] = uint8_t((uint64_t(n) * 8) >> (8 * i)); }
  ghash_absorb(h, y, len, 16);
  gstore(tag, y);
  e(j0, ek);
  for (int i = 0; i < 16; i++) tag[i] ^= ek[i];
}
}
