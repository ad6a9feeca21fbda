#include "vf.h"
#include <span>
#include <vector>
#include <stdexcept>
#include <caligo/aes.h>
#include "aes.hpp"
using namespace Caligo;
using B = uint8_t;
template <size_t bits> static void one(uint64_t tied) {
  B* key = (B*)vf_alloc(bits / 8); B* in = (B*)vf_alloc(16);
  vf_bytes(key, bits / 8, "key");
  vf_bytes(in, 16, "block");
  if (tied) for (int i = 0; i < 16; i++) in[i] = key[i];
  AesKeySchedule<bits> ks(std::span<const B>(key, bits / 8));
  B out[16], exp[16];
  _mm_storeu_si128((__m128i*)out, AesEncrypt(ks, _mm_loadu_si128((const __m128i*)in)));
  ref::Aes<bits>(key).enc(in, exp);
  vf_check_eq(out, exp, 16, "block encryption equals FIPS 197");
  _mm_storeu_si128((__m128i*)out, AES<bits>::Encrypt(ks, _mm_loadu_si128((const __m128i*)in)));
  vf_check_eq(out, exp, 16, "encrypting again under the same schedule gives the same block");
  vf_note("end");
}
VF_HARNESS h_aes(uint64_t bits, uint64_t tied) { if (bits == 128) one<128>(tied); else one<256>(tied); }
template <size_t bits> static void keylen(uint64_t n) {
  B* key = (B*)vf_alloc(n);
  vf_bytes(key, n, "key");
  bool threw = false;
  try { AesKeySchedule<bits> ks(std::span<const B>(key, n)); } catch (const std::exception&) { threw = true; }
  vf_check(threw == (n != bits / 8), "exactly keys of the cipher's key length are accepted");
  vf_note(threw ? "rejected" : "accepted");
}
VF_HARNESS h_keylen(uint64_t bits, uint64_t lo, uint64_t hi) {
  uint64_t n = vf_choose("keylen", lo, hi);
  if (bits == 128) keylen<128>(n); else keylen<256>(n);
}
