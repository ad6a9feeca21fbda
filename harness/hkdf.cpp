#include "vf.h"
#include <array>
#include <cstring>
#include <span>
#include <string>
#include <utility>
#include <vector>
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>
#include <caligo/aes.h>
#include <caligo/hkdf.h>
#include "hashes.hpp"
using namespace Caligo;
using B = uint8_t;
using Sp = std::span<const B>;
using Vec = std::vector<B>;
static B* bytes(size_t n, const char* name) { B* p = (B*)vf_alloc(n); vf_bytes(p, n, name); return p; }
// an arbitrary hash function with digests of N bytes and blocks of K
template <size_t N, size_t K> struct AnyHash {
  static constexpr size_t hashsize = N, blocksize = K;
  B buf[700];
  size_t len = 0;
  AnyHash() {}
  AnyHash(Sp s) { add(s); }
  void add(Sp s) { for (B b : s) { if (len < sizeof(buf)) buf[len++] = b; } }
  std::array<B, N> data() const { std::array<B, N> r; vf_uf("H", buf, len, r.data(), N); return r; }
  operator std::array<B, N>() const { return data(); }
};
// ---- reference over a hash given as function object h(data, n, out)
template <size_t N, size_t K> struct AnyRef {
  static constexpr size_t out = N, block = K;
  static void hash(const B* p, size_t n, B* o) { vf_uf("H", p, n, o, N); }
};
template <typename R> struct RealRef {
  static constexpr size_t out = R::out, block = R::block;
  static void hash(const B* p, size_t n, B* o) { ref::hash<R>(p, n, o); }
};
template <typename R> void r_hmac(const B* key, size_t kn, const B* m, size_t n, B* o) {
  B k[R::block] = {}, buf[900];
  if (kn > R::block) R::hash(key, kn, k);
  else for (size_t i = 0; i < kn; i++) k[i] = key[i];
  B in[R::out];
  for (size_t i = 0; i < R::block; i++) buf[i] = k[i] ^ 0x36;
  for (size_t i = 0; i < n; i++) buf[R::block + i] = m[i];
  R::hash(buf, R::block + n, in);
  for (size_t i = 0; i < R::block; i++) buf[i] = k[i] ^ 0x5c;
  for (size_t i = 0; i < R::out; i++) buf[R::block + i] = in[i];
  R::hash(buf, R::block + R::out, o);
}
// RFC 5869
template <typename R> void r_expand(const B* prk, size_t pn, const B* info, size_t in, size_t len, B* o) {
  B t[R::out], buf[900];
  size_t tn = 0, pos = 0;
  for (B i = 1; pos < len; i++) {
    for (size_t k = 0; k < tn; k++) buf[k] = t[k];
    for (size_t k = 0; k < in; k++) buf[tn + k] = info[k];
    buf[tn + in] = i;
    r_hmac<R>(prk, pn, buf, tn + in + 1, t);
    tn = R::out;
    for (size_t k = 0; k < tn && pos < len; k++) o[pos++] = t[k];
  }
}
// RFC 8446 7.1
template <typename R> void r_label(const B* sec, size_t sn, const char* label, const B* ctx, size_t cn, size_t len, B* o) {
  B info[400];
  size_t n = 0, ln = 0;
  while (label[ln]) ln++;
  info[n++] = B(len >> 8); info[n++] = B(len);
  info[n++] = B(6 + ln);
  for (const char* c = "tls13 "; *c; c++) info[n++] = *c;
  for (size_t i = 0; i < ln; i++) info[n++] = label[i];
  info[n++] = B(cn);
  for (size_t i = 0; i < cn; i++) info[n++] = ctx[i];
  r_expand<R>(sec, sn, info, n, len, o);
}
using H = AnyHash<5, 8>;
using R = AnyRef<5, 8>;

VF_HARNESS h_hmac(uint64_t kn, uint64_t n) {
  B* key = bytes(kn, "key"); B* m = bytes(n, "msg");
  B e[5], e2[8];
  r_hmac<R>(key, kn, m, n, e);
  auto g = HMAC<H>(Sp(m, n), Sp(key, kn));
  vf_check_eq(g.data(), e, 5, "HMAC equals RFC 2104");
  r_hmac<AnyRef<8, 8>>(key, kn, m, n, e2);
  auto g2 = HMAC<AnyHash<8, 8>>(Sp(m, n), Sp(key, kn));
  vf_check_eq(g2.data(), e2, 8, "HMAC equals RFC 2104 (digest as long as the block)");
  vf_note("end");
}
template <typename HH, typename RR> static void realhmac(size_t kn, size_t n) {
  B* key = bytes(kn, "key"); B* m = bytes(n, "msg");
  B e[RR::out];
  r_hmac<RealRef<RR>>(key, kn, m, n, e);
  auto g = HMAC<HH>(Sp(m, n), Sp(key, kn));
  static_assert(HH::hashsize == RR::out);
  vf_check_eq(g.data(), e, RR::out, "HMAC equals RFC 2104");
  vf_note("end");
}
VF_HARNESS h_hmac_real(uint64_t which, uint64_t kn, uint64_t n) {
  switch (which) {
    case 0: realhmac<MD5, ref::Md5>(kn, n); break;
    case 1: realhmac<SHA1, ref::Sha1>(kn, n); break;
    case 2: realhmac<SHA2<224>, ref::Sha256<224>>(kn, n); break;
    case 3: realhmac<SHA2<256>, ref::Sha256<256>>(kn, n); break;
    case 4: realhmac<SHA2<384>, ref::Sha512<384>>(kn, n); break;
    case 5: realhmac<SHA2<512>, ref::Sha512<512>>(kn, n); break;
    case 6: realhmac<SHA3<224>, ref::Sha3<224>>(kn, n); break;
    case 7: realhmac<SHA3<256>, ref::Sha3<256>>(kn, n); break;
    case 8: realhmac<SHA3<384>, ref::Sha3<384>>(kn, n); break;
    case 9: realhmac<SHA3<512>, ref::Sha3<512>>(kn, n); break;
  }
}
VF_HARNESS h_extract(uint64_t sn, uint64_t n) {
  B* salt = bytes(sn, "salt"); B* ikm = bytes(n, "ikm");
  B e[5];
  r_hmac<R>(salt, sn, ikm, n, e);
  auto g = HKDF_Extract<H>(Sp(salt, sn), Sp(ikm, n));
  vf_check_eq(g.data(), e, 5, "Extract is HMAC(salt, ikm)");
  vf_note("end");
}
VF_HARNESS h_expand(uint64_t pn, uint64_t in, uint64_t len) {
  B* prk = bytes(pn, "prk"); B* info = bytes(in, "info");
  B* e = (B*)vf_alloc(len);
  r_expand<R>(prk, pn, info, in, len, e);
  Vec g = HKDF_Expand<H>(Sp(prk, pn), Sp(info, in), len);
  vf_check(g.size() == len, "Expand gives the requested length");
  vf_check_eq(g.data(), e, len, "Expand equals RFC 5869");
  vf_note("end");
}
VF_HARNESS h_label(uint64_t pn, uint64_t ln, uint64_t cn, uint64_t len) {
  B* prk = bytes(pn, "prk"); B* ctx = bytes(cn, "context");
  char* label = (char*)vf_alloc(ln + 1);
  vf_bytes(label, ln, "label");
  for (size_t i = 0; i < ln; i++) vf_assume(label[i] != 0);
  label[ln] = 0;
  B* e = (B*)vf_alloc(len);
  B info[700];
  size_t n = 0;
  info[n++] = B(len >> 8); info[n++] = B(len);
  info[n++] = B(6 + ln);
  for (const char* c = "tls13 "; *c; c++) info[n++] = *c;
  for (size_t i = 0; i < ln; i++) info[n++] = label[i];
  info[n++] = B(cn);
  for (size_t i = 0; i < cn; i++) info[n++] = ctx[i];
  r_expand<R>(prk, pn, info, n, len, e);
  Vec g = HKDF_Expand_Label<H>(Sp(prk, pn), std::string(label, ln), Sp(ctx, cn), len);
  vf_check(g.size() == len, "Expand-Label gives the requested length");
  vf_check_eq(g.data(), e, len, "Expand-Label equals RFC 8446");
  vf_note("end");
}
// the schedule from the shared secret to keys
VF_HARNESS h_schedule(uint64_t sn, uint64_t tn) {
  constexpr size_t N = 5;
  B* shared = bytes(sn, "shared"); B* transcript = bytes(tn, "transcript");
  B zero[N] = {}, early[N], empty[N], derived[N], hs[N], ms[N];
  R::hash(zero, 0, empty);
  r_hmac<R>(zero, N, zero, N, early);
  r_label<R>(early, N, "derived", empty, N, N, derived);
  r_hmac<R>(derived, N, shared, sn, hs);
  r_label<R>(hs, N, "derived", empty, N, N, derived);
  r_hmac<R>(derived, N, zero, N, ms);
  secret<H> s = HKDF_HandshakeSecret<H>(Sp(shared, sn));
  vf_check_eq(s.data.data(), hs, N, "handshake secret");
  secret<H> m = HKDF_MasterSecret<H>(s);
  vf_check_eq(m.data.data(), ms, N, "master secret");
  const char* labels[2][2] = {{"s ap traffic", "s hs traffic"}, {"c ap traffic", "c hs traffic"}};
  for (int client = 0; client < 2; client++) {
    for (int handshake = 0; handshake < 2; handshake++) {
      secret<H>& x = handshake ? s : m;
      const B* xr = handshake ? hs : ms;
      B tr[N], key[32], iv[12];
      r_label<R>(xr, N, labels[client][handshake], transcript, tn, N, tr);
      Vec t = x.get_traffic_secret(Sp(transcript, tn), client, handshake);
      vf_check(t.size() == N, "traffic secret has the digest's length");
      vf_check_eq(t.data(), tr, N, "traffic secret");
      r_label<R>(tr, N, "key", zero, 0, 16, key);
      r_label<R>(tr, N, "iv", zero, 0, 12, iv);
      auto ki = x.get_key_iv<AES<128>>(Sp(transcript, tn), client, handshake);
      vf_check(ki.key.size() == 16 && ki.iv.size() == 12, "key and IV have the cipher's lengths");
      vf_check_eq(ki.key.data(), key, 16, "traffic key (AES-128)");
      vf_check_eq(ki.iv.data(), iv, 12, "traffic IV");
      r_label<R>(tr, N, "key", zero, 0, 32, key);
      auto k2 = x.get_key_iv<AES<256>>(Sp(transcript, tn), client, handshake);
      vf_check(k2.key.size() == 32 && k2.iv.size() == 12, "key and IV have the cipher's lengths");
      vf_check_eq(k2.key.data(), key, 32, "traffic key (AES-256)");
    }
    B tr[N], f[N];
    r_label<R>(hs, N, labels[client][1], transcript, tn, N, tr);
    r_label<R>(tr, N, "finished", zero, 0, N, f);
    Vec k = s.get_finished_key(Sp(transcript, tn), client);
    vf_check(k.size() == N, "finished key has the digest's length");
    vf_check_eq(k.data(), f, N, "finished key");
  }
  vf_note("end");
}
