// Reference hash functions, written from FIPS 180-4 / FIPS 202 / RFC 1321.
#pragma once
#include "hash_consts.hpp"
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace ref {
inline uint32_t rotl(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
inline uint32_t rotr(uint32_t x, unsigned n) { return (x >> n) | (x << (32 - n)); }
inline uint64_t rotr64(uint64_t x, unsigned n) { return (x >> n) | (x << (64 - n)); }
inline uint64_t rotl64(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }

inline void md5_block(uint32_t* h, const uint8_t* p) {
  static const uint8_t S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
  for (unsigned i = 0; i < 64; i++) {
    uint32_t f; unsigned g;
    if (i < 16) { f = (b & c) | (~b & d); g = i; }
    else if (i < 32) { f = (b & d) | (c & ~d); g = (1 + 5 * i) % 16; }
    else if (i < 48) { f = b ^ c ^ d; g = (5 + 3 * i) % 16; }
    else { f = c ^ (b | ~d); g = (7 * i) % 16; }
    uint32_t x = uint32_t(p[4 * g]) | uint32_t(p[4 * g + 1]) << 8 | uint32_t(p[4 * g + 2]) << 16 | uint32_t(p[4 * g + 3]) << 24;
    uint32_t t = b + rotl(a + f + x + KMD5[i], S[i / 16][i % 4]);
    a = d; d = c; c = b; b = t;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
inline void sha1_block(uint32_t* h, const uint8_t* p) {
  uint32_t w[80];
  for (int t = 0; t < 16; t++) w[t] = uint32_t(p[4 * t]) << 24 | uint32_t(p[4 * t + 1]) << 16 | uint32_t(p[4 * t + 2]) << 8 | p[4 * t + 3];
  for (int t = 16; t < 80; t++) w[t] = rotl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
  for (int t = 0; t < 80; t++) {
    uint32_t f, k;
    if (t < 20) { f = (b & c) ^ (~b & d); k = 0x5a827999; }
    else if (t < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
    else if (t < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdc; }
    else { f = b ^ c ^ d; k = 0xca62c1d6; }
    uint32_t T = rotl(a, 5) + f + e + k + w[t];
    e = d; d = c; c = rotl(b, 30); b = a; a = T;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
inline void sha256_block(uint32_t* h, const uint8_t* p) {
  uint32_t w[64];
  for (int t = 0; t < 16; t++) w[t] = uint32_t(p[4 * t]) << 24 | uint32_t(p[4 * t + 1]) << 16 | uint32_t(p[4 * t + 2]) << 8 | p[4 * t + 3];
  for (int t = 16; t < 64; t++) {
    uint32_t s1 = rotr(w[t - 2], 17) ^ rotr(w[t - 2], 19) ^ (w[t - 2] >> 10);
    uint32_t s0 = rotr(w[t - 15], 7) ^ rotr(w[t - 15], 18) ^ (w[t - 15] >> 3);
    w[t] = s1 + w[t - 7] + s0 + w[t - 16];
  }
  uint32_t v[8];
  for (int i = 0; i < 8; i++) v[i] = h[i];
  for (int t = 0; t < 64; t++) {
    uint32_t S1 = rotr(v[4], 6) ^ rotr(v[4], 11) ^ rotr(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
    uint32_t t1 = v[7] + S1 + ch + K256[t] + w[t];
    uint32_t S0 = rotr(v[0], 2) ^ rotr(v[0], 13) ^ rotr(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
    uint32_t t2 = S0 + mj;
    for (int i = 7; i > 0; i--) v[i] = v[i - 1];
    v[4] += t1; v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) h[i] += v[i];
}
inline void sha512_block(uint64_t* h, const uint8_t* p) {
  uint64_t w[80];
  for (int t = 0; t < 16; t++) { w[t] = 0; for (int k = 0; k < 8; k++) w[t] = w[t] << 8 | p[8 * t + k]; }
  for (int t = 16; t < 80; t++) {
    uint64_t s1 = rotr64(w[t - 2], 19) ^ rotr64(w[t - 2], 61) ^ (w[t - 2] >> 6);
    uint64_t s0 = rotr64(w[t - 15], 1) ^ rotr64(w[t - 15], 8) ^ (w[t - 15] >> 7);
    w[t] = s1 + w[t - 7] + s0 + w[t - 16];
  }
  uint64_t v[8];
  for (int i = 0; i < 8; i++) v[i] = h[i];
  for (int t = 0; t < 80; t++) {
    uint64_t S1 = rotr64(v[4], 14) ^ rotr64(v[4], 18) ^ rotr64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
    uint64_t t1 = v[7] + S1 + ch + K512[t] + w[t];
    uint64_t S0 = rotr64(v[0], 28) ^ rotr64(v[0], 34) ^ rotr64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
    uint64_t t2 = S0 + mj;
    for (int i = 7; i > 0; i--) v[i] = v[i - 1];
    v[4] += t1; v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) h[i] += v[i];
}
// A[x][y] is lane x + 5y
inline void keccak_f(uint64_t* A) {
  for (int r = 0; r < 24; r++) {
    uint64_t C[5], D[5], B[25];
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rotl64(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] ^= D[x];
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl64(A[x + 5 * y], KECCAK_RHO[x + 5 * y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    A[0] ^= KECCAK_RC[r];
  }
}
// ---- Merkle-Damgard family: state words, block function, length encoding
struct Md5 {
  using W = uint32_t; static constexpr size_t block = 64, words = 4, out = 16, lenbytes = 8; static constexpr bool be = false;
  static void init(W* h) { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; }
  static void f(W* h, const uint8_t* p) { md5_block(h, p); }
};
struct Sha1 {
  using W = uint32_t; static constexpr size_t block = 64, words = 5, out = 20, lenbytes = 8; static constexpr bool be = true;
  static void init(W* h) { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; h[4] = 0xc3d2e1f0; }
  static void f(W* h, const uint8_t* p) { sha1_block(h, p); }
};
template <int bits> struct Sha256 {
  using W = uint32_t; static constexpr size_t block = 64, words = 8, out = bits / 8, lenbytes = 8; static constexpr bool be = true;
  static void init(W* h) { for (int i = 0; i < 8; i++) h[i] = bits == 224 ? H224[i] : H256[i]; }
  static void f(W* h, const uint8_t* p) { sha256_block(h, p); }
};
template <int bits> struct Sha512 {
  using W = uint64_t; static constexpr size_t block = 128, words = 8, out = bits / 8, lenbytes = 16; static constexpr bool be = true;
  static void init(W* h) { for (int i = 0; i < 8; i++) h[i] = bits == 384 ? H384[i] : H512[i]; }
  static void f(W* h, const uint8_t* p) { sha512_block(h, p); }
};
// finish a message whose first (total - n) bytes (a multiple of the block size) are already absorbed in h
template <typename A> void md_finish(typename A::W* h, const uint8_t* tail, size_t n, uint64_t total, uint8_t* out) {
  uint8_t b[A::block];
  size_t i = 0;
  for (; n - i >= A::block; i += A::block) A::f(h, tail + i);
  size_t r = n - i;
  for (size_t k = 0; k < A::block; k++) b[k] = k < r ? tail[i + k] : k == r ? 0x80 : 0;
  if (r + 1 + A::lenbytes > A::block) {
    A::f(h, b);
    for (size_t k = 0; k < A::block; k++) b[k] = 0;
  }
  unsigned __int128 bitsn = (unsigned __int128)total << 3;
  for (size_t k = 0; k < A::lenbytes; k++) {
    uint8_t v = uint8_t(bitsn >> (8 * k));
    b[A::be ? A::block - 1 - k : A::block - A::lenbytes + k] = v;
  }
  A::f(h, b);
  for (size_t k = 0; k < A::out; k++) {
    size_t ws = sizeof(typename A::W), w = k / ws, j = k % ws;
    out[k] = uint8_t(h[w] >> (8 * (A::be ? ws - 1 - j : j)));
  }
}
template <typename A> void md_hash(const uint8_t* p, size_t n, uint8_t* out) {
  typename A::W h[A::words];
  A::init(h);
  md_finish<A>(h, p, n, n, out);
}
// ---- SHA-3
template <int bits> struct Sha3 { static constexpr size_t block = 200 - bits / 4, out = bits / 8; };
inline void sha3_finish(uint64_t* A, size_t rate, const uint8_t* p, size_t n, uint8_t* out, size_t on) {
  size_t i = 0;
  for (; n - i >= rate; i += rate) {
    for (size_t k = 0; k < rate; k++) A[k / 8] ^= uint64_t(p[i + k]) << (8 * (k % 8));
    keccak_f(A);
  }
  for (size_t k = i; k < n; k++) A[(k - i) / 8] ^= uint64_t(p[k]) << (8 * ((k - i) % 8));
  A[(n - i) / 8] ^= uint64_t(6) << (8 * ((n - i) % 8));
  A[(rate - 1) / 8] ^= uint64_t(0x80) << (8 * ((rate - 1) % 8));
  keccak_f(A);
  for (size_t k = 0; k < on; k++) out[k] = uint8_t(A[k / 8] >> (8 * (k % 8)));
}
template <typename A> concept IsMd = requires { A::lenbytes; };
template <typename A> void hash(const uint8_t* p, size_t n, uint8_t* out) {
  if constexpr (IsMd<A>) md_hash<A>(p, n, out);
  else { uint64_t S[25] = {}; sha3_finish(S, A::block, p, n, out, A::out); }
}
inline void hexlower(const uint8_t* p, size_t n, char* o) {
  for (size_t i = 0; i < n; i++) { uint8_t h = p[i] >> 4, l = p[i] & 15; o[2 * i] = h < 10 ? '0' + h : 'a' + (h - 10); o[2 * i + 1] = l < 10 ? '0' + l : 'a' + (l - 10); }
}
}
