#include "vf.h"
#include <array>
#include <algorithm>
#include <cstring>
#include <span>
#include <stdexcept>
#include <vector>
#include <x86intrin.h>
#include <caligo/aes.h>
#include <caligo/key_iv_pair.h>
#include <caligo/ctr.h>
#include <caligo/ghash.h>
#include <caligo/gcm.h>
#include "aes.hpp"
#include "gcm.hpp"
using namespace Caligo;
using B = uint8_t;
using Sp = std::span<const B>;
// an arbitrary block cipher: the mode is decided for every function of key and block
template <size_t K> struct AnyCipher {
  static constexpr size_t size = 16, ivsize = 12, keysize = K;
  struct KeySchedule {
    B key[K];
    explicit KeySchedule(Sp k) {
      if (k.size() != K) throw std::runtime_error("key");
      for (size_t i = 0; i < K; i++) key[i] = k[i];
    }
  };
  static void enc(const B* key, const B* in, B* out) {
    B m[K + 16];
    for (size_t i = 0; i < K; i++) m[i] = key[i];
    for (size_t i = 0; i < 16; i++) m[K + i] = in[i];
    vf_uf("E", m, K + 16, out, 16);
  }
  static __m128i Encrypt(const KeySchedule& ks, __m128i b) {
    B in[16], out[16];
    _mm_storeu_si128((__m128i*)in, b);
    enc(ks.key, in, out);
    return _mm_loadu_si128((const __m128i*)out);
  }
};
using Any = AnyCipher<8>;
template <typename C> struct RefEnc {
  const B* key;
  void operator()(const B* in, B* out) const { C::enc(key, in, out); }
};
template <size_t bits> struct RefEnc<AES<bits>> {
  ref::Aes<bits> a;
  RefEnc(const B* key) : a(key) {}
  void operator()(const B* in, B* out) const { a.enc(in, out); }
};
static B* bytes(size_t n, const char* name) { B* p = (B*)vf_alloc(n); vf_bytes(p, n, name); return p; }
template <typename O> static bool start_at(O& o, uint64_t counter) {
  if constexpr (requires { o.message_counter = counter; }) { o.message_counter = counter; return true; }
  return false;
}

// ---- CTR: up to three messages of n1, n2, n3 bytes from an arbitrary message number (sym) or from a new object
template <typename C> static void ctr(size_t n1, size_t n2, size_t n3, uint64_t sym, uint64_t dec) {
  B* key = bytes(C::keysize, "key"); B* iv = bytes(16, "iv");
  CTR<C> c(key_iv_pair<C>(Sp(key, C::keysize), Sp(iv, 16)));
  RefEnc<C> e{key};
  uint64_t num = 0;
  if (sym) { uint64_t s = vf_u64("messages"); if (start_at(c, s)) num = s; }
  for (size_t n : {n1, n2, n3}) {
    B* m = bytes(n, "msg"); B* exp = (B*)vf_alloc(n);
    B j[16];
    for (int i = 0; i < 16; i++) j[i] = iv[i];
    ref::fold(j, num);
    ref::ctr(e, j, m, n, exp);
    if (dec) c.Decrypt(std::span<B>(m, n)); else c.Encrypt(std::span<B>(m, n));
    vf_check_eq(m, exp, n, "message XOR the cipher applied to successive counter blocks");
    num++;
  }
  vf_note("end");
}
VF_HARNESS h_ctr(uint64_t n1, uint64_t n2, uint64_t n3, uint64_t sym, uint64_t dec) { ctr<Any>(n1, n2, n3, sym, dec); }
VF_HARNESS h_ctr_aes(uint64_t bits, uint64_t n1, uint64_t n2) { if (bits == 128) ctr<AES<128>>(n1, n2, 0, 0, 0); else ctr<AES<256>>(n1, n2, 0, 0, 1); }
// what one side encrypts the other decrypts, message after message
VF_HARNESS h_ctr_pair(uint64_t n1, uint64_t n2) {
  B* key = bytes(8, "key"); B* iv = bytes(16, "iv");
  CTR<Any> a(key_iv_pair<Any>(Sp(key, 8), Sp(iv, 16))), b(key_iv_pair<Any>(Sp(key, 8), Sp(iv, 16)));
  for (size_t n : {n1, n2}) {
    B* m = bytes(n, "msg"); B* o = (B*)vf_alloc(n);
    memcpy(o, m, n);
    a.Encrypt(std::span<B>(m, n));
    b.Decrypt(std::span<B>(m, n));
    vf_check_eq(m, o, n, "decryption returns the message");
  }
  vf_note("end");
}
// no two counter blocks of one message are the same, whatever the initial counter (distinctness of block a and block b)
VF_HARNESS h_ctr_lens(uint64_t maxkey, uint64_t maxiv) {
  size_t k = vf_choose("keylen", 0, maxkey), v = vf_choose("ivlen", 0, maxiv);
  B* key = bytes(k, "key"); B* iv = bytes(v, "iv");
  bool threw = false;
  try { CTR<AES<128>> c(key_iv_pair<AES<128>>(Sp(key, k), Sp(iv, v))); } catch (const std::exception&) { threw = true; }
  vf_check(threw == !(k == 16 && v == 16), "exactly the cipher's key and block lengths are accepted");
  vf_note(threw ? "rejected" : "accepted");
}

// ---- GHASH
VF_HARNESS h_ghash() {
  B x[16], h[16], a[16], got[16], exp[16];
  vf_bytes(x, 16, "x"); vf_bytes(h, 16, "h"); vf_bytes(a, 16, "acc");
  auto ld = [](const B* p) { return reflect(_mm_loadu_si128((const __m128i*)p)); };
  _mm_storeu_si128((__m128i*)got, reflect(ghash_block(ld(x), ld(h), ld(a))));
  ref::G g = ref::gload(x), y = ref::gload(a);
  g.hi ^= y.hi; g.lo ^= y.lo;
  ref::gstore(exp, ref::gmul128_bits(g, ref::gload(h)));
  vf_check_eq(got, exp, 16, "hash block is the field product");
  ref::gstore(exp, ref::gmul128_bits(ref::gload(x), ref::gload(h)));
  ref::gstore(a, ref::gmul128(ref::gload(x), ref::gload(h)));
  vf_check_eq(a, exp, 16, "product by words (reference) equals the product by bits");
  _mm_storeu_si128((__m128i*)got, reflect(galoisMultiply(ld(x), ld(h))));
  vf_check_eq(got, exp, 16, "product in GF(2^128)");
  vf_note("end");
}
VF_HARNESS h_reflect() {
  B x[16], got[16], exp[16];
  vf_bytes(x, 16, "x");
  __m128i v = _mm_loadu_si128((const __m128i*)x);
  _mm_storeu_si128((__m128i*)got, reflect(reflect(v)));
  vf_check_eq(got, x, 16, "reflection is its own inverse");
  _mm_storeu_si128((__m128i*)got, reflect(v));
  for (int i = 0; i < 16; i++) { exp[i] = 0; for (int b = 0; b < 8; b++) exp[i] |= ((x[i] >> b) & 1) << (7 - b); }
  vf_check_eq(got, exp, 16, "reflection reverses the bits of every byte");
  vf_note("end");
}

// ---- GCM: two messages from an arbitrary message number
template <typename C> static void gcm(size_t ivlen, size_t m, size_t n, uint64_t sym, size_t m2, size_t n2) {
  B* key = bytes(C::keysize, "key"); B* iv = bytes(ivlen, "iv");
  GCM<C> g(key_iv_pair<C>(Sp(key, C::keysize), Sp(iv, ivlen)));
  RefEnc<C> e{key};
  uint64_t num = 0;
  if (sym) { uint64_t s = vf_u64("messages"); if (start_at(g, s)) num = s; }
  for (int k = 0; k < (m2 == 999 ? 1 : 2); k++) {
    if (k) { m = m2; n = n2; }
    B* aad = bytes(m, "aad"); B* pt = bytes(n, "plaintext");
    auto [ct, tag] = g.Encrypt(std::span<B>(pt, n), std::span<B>(aad, m));
    if (ivlen == 8 || ivlen >= 12) {
      B j0[16], c[16], et[16]; B* ec = (B*)vf_alloc(n);
      ref::gcm_j0(e, iv, ivlen, num, j0);
      memcpy(c, j0, 16);
      ref::ctr(e, c, pt, n, ec);
      ref::gcm_tag(e, j0, ec, n, aad, m, et);
      vf_check(ct.size() == n, "ciphertext has the plaintext's length");
      vf_check_eq(ct.data(), ec, n, "ciphertext equals SP 800-38D");
      vf_check_eq(tag.data(), et, 16, "tag equals SP 800-38D");
      vf_note("end");
    } else {
      vf_check(ct.size() == 0, "nonce of unsupported length gives an empty result");
      vf_note("refused");
    }
    num++;
  }
}
VF_HARNESS h_gcm(uint64_t ivlen, uint64_t m, uint64_t n, uint64_t sym, uint64_t m2, uint64_t n2) { gcm<Any>(ivlen, m, n, sym, m2, n2); }
VF_HARNESS h_gcm_aes(uint64_t bits, uint64_t m, uint64_t n) { if (bits == 128) gcm<AES<128>>(12, m, n, 0, 999, 0); else gcm<AES<256>>(12, m, n, 0, 999, 0); }

// ---- GCM decryption of arbitrary ciphertext and tag
template <typename C> static void gcmdec(size_t ivlen, size_t m, size_t n, uint64_t sym) {
  B* key = bytes(C::keysize, "key"); B* iv = bytes(ivlen, "iv");
  GCM<C> g(key_iv_pair<C>(Sp(key, C::keysize), Sp(iv, ivlen)));
  RefEnc<C> e{key};
  uint64_t num = 0;
  if (sym) { uint64_t s = vf_u64("messages"); if (start_at(g, s)) num = s; }
  B* aad = bytes(m, "aad"); B* ct = bytes(n, "ciphertext");
  std::array<B, 16> tag;
  bool ok = ivlen == 8 || ivlen >= 12;
  B j0[16], c[16], et[16]; B* ep = (B*)vf_alloc(n);
  if (ok) {
    ref::gcm_j0(e, iv, ivlen, num, j0);
    memcpy(c, j0, 16);
    ref::ctr(e, c, ct, n, ep);
    ref::gcm_tag(e, j0, ct, n, aad, m, et);
  }
  vf_bytes(tag.data(), 16, "tag");
  bool same = true;
  for (int i = 0; i < 16; i++) same = same & (tag[i] == et[i]);
  auto [pt, good] = g.Decrypt(Sp(ct, n), Sp(aad, m), tag);
  if (!ok) {
    vf_check(!good, "nothing is accepted under a nonce of unsupported length");
    vf_note("refused");
    return;
  }
  B acc = good ? 1 : 0, want = same ? 1 : 0;
  vf_check_eq(&acc, &want, 1, "accepted exactly when the tag is the right one");
  if (pt.size() == n) {
    B mask = B(0 - want);
    B* p = (B*)vf_alloc(n);
    for (size_t i = 0; i < n; i++) { p[i] = pt[i] & mask; ep[i] &= mask; }
    vf_check_eq(p, ep, n, "plaintext is the decryption");
  } else {
    vf_check(!good, "plaintext has the ciphertext's length");
  }
  vf_note("end");
}
VF_HARNESS h_gcmdec(uint64_t ivlen, uint64_t m, uint64_t n, uint64_t sym) { gcmdec<Any>(ivlen, m, n, sym); }
// a peer's messages are accepted and restored, one after the other; the first one tampered with in any way does not disturb the second
VF_HARNESS h_gcmpair(uint64_t ivlen, uint64_t m, uint64_t n, uint64_t m2, uint64_t n2, uint64_t tamper) {
  B* key = bytes(8, "key"); B* iv = bytes(ivlen, "iv");
  GCM<Any> a(key_iv_pair<Any>(Sp(key, 8), Sp(iv, ivlen))), b(key_iv_pair<Any>(Sp(key, 8), Sp(iv, ivlen)));
  for (int k = 0; k < 2; k++) {
    if (k) { m = m2; n = n2; }
    B* aad = bytes(m, "aad"); B* pt = bytes(n, "plaintext");
    auto [ct, tag] = a.Encrypt(std::span<B>(pt, n), std::span<B>(aad, m));
    if (tamper && k == 0) {
      for (size_t i = 0; i < 16; i++) tag[i] ^= vf_u8("tampertag");
      auto r = b.Decrypt(Sp(ct.data(), ct.size()), Sp(aad, m), tag);
      continue;
    }
    auto [out, good] = b.Decrypt(Sp(ct.data(), ct.size()), Sp(aad, m), tag);
    B acc = good ? 1 : 0, one = 1;
    vf_check_eq(&acc, &one, 1, "the peer's message is accepted");
    vf_check(out.size() == n, "the peer's message has its length");
    if (out.size() == n) vf_check_eq(out.data(), pt, n, "the peer's message is restored");
  }
  vf_note("end");
}
