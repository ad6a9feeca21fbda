#include "vf.h"
#include <string>
#include <span>
#include <vector>
#include <array>
#define private public
#define protected public
#include <caligo/md5.h>
#include <caligo/sha1.h>
#include <caligo/sha2.h>
#include <caligo/sha3.h>
#include <caligo/hash.h>
#undef private
#undef protected
#include "hashes.hpp"
using namespace Caligo;
using B = uint8_t;
using Sp = std::span<const B>;

template <typename F> void with_hash(uint64_t which, F f) {
  switch (which) {
    case 0: f.template operator()<MD5, ref::Md5>(); break;
    case 1: f.template operator()<SHA1, ref::Sha1>(); break;
    case 2: f.template operator()<SHA2<224>, ref::Sha256<224>>(); break;
    case 3: f.template operator()<SHA2<256>, ref::Sha256<256>>(); break;
    case 4: f.template operator()<SHA2<384>, ref::Sha512<384>>(); break;
    case 5: f.template operator()<SHA2<512>, ref::Sha512<512>>(); break;
    case 6: f.template operator()<SHA3<224>, ref::Sha3<224>>(); break;
    case 7: f.template operator()<SHA3<256>, ref::Sha3<256>>(); break;
    case 8: f.template operator()<SHA3<384>, ref::Sha3<384>>(); break;
    case 9: f.template operator()<SHA3<512>, ref::Sha3<512>>(); break;
  }
}

// every message of lo..hi bytes, absorbed at once
VF_HARNESS h_hash(uint64_t which, uint64_t lo, uint64_t hi) {
  with_hash(which, [&]<typename H, typename R>() {
    size_t n = vf_choose("len", lo, hi);
    B* m = (B*)vf_alloc(n);
    vf_bytes(m, n, "msg");
    B exp[R::out];
    ref::hash<R>(m, n, exp);
    H h;
    h.add(Sp(m, n));
    std::array<B, H::hashsize> d = h.data();
    static_assert(H::hashsize == R::out);
    vf_check_eq(d.data(), exp, R::out, "digest equals the standard's");
    vf_note("end");
  });
}
// message of n bytes absorbed in three pieces with queries in between; n fixed, cuts explored
VF_HARNESS h_split(uint64_t which, uint64_t n, uint64_t alo, uint64_t ahi, uint64_t bstep) {
  with_hash(which, [&]<typename H, typename R>() {
    size_t a = vf_choose("cut1", alo, ahi);
    size_t nb = (n - a) / bstep;
    size_t b = a + bstep * vf_choose("cut2", 0, nb);
    if (b > n) b = n;
    B* m = (B*)vf_alloc(n);
    vf_bytes(m, n, "msg");
    B e1[R::out], e2[R::out], e3[R::out];
    H h;
    B* p1 = (B*)vf_alloc(a); B* p2 = (B*)vf_alloc(b - a); B* p3 = (B*)vf_alloc(n - b);
    for (size_t i = 0; i < a; i++) p1[i] = m[i];
    for (size_t i = a; i < b; i++) p2[i - a] = m[i];
    for (size_t i = b; i < n; i++) p3[i - b] = m[i];
    h.add(Sp(p1, a));
    ref::hash<R>(m, a, e1);
    auto d1 = h.data();
    vf_check_eq(d1.data(), e1, R::out, "digest of the prefix absorbed so far");
    auto d1b = h.data();
    vf_check_eq(d1b.data(), e1, R::out, "asking again gives the same digest");
    h.add(Sp(p2, b - a));
    H copy = h;
    h.add(std::string_view((const char*)p3, n - b));
    ref::hash<R>(m, n, e3);
    auto d3 = h.data();
    vf_check_eq(d3.data(), e3, R::out, "digest after absorbing in pieces with intermediate queries");
    ref::hash<R>(m, b, e2);
    auto d2 = copy.data();
    vf_check_eq(d2.data(), e2, R::out, "a copy is independent of the original");
    vf_note("end");
  });
}
// arbitrary reachable state: symbolic chaining value and symbolic byte count (a multiple of the block size plus `fill`),
// so that the statement covers every history, including message lengths far beyond what can be hashed in a test
template <typename H> concept MdState = requires(H h) { h.chunk[0]; h.msglength; };
VF_HARNESS h_state(uint64_t which, uint64_t fill, uint64_t nlo, uint64_t nhi) {
  with_hash(which, [&]<typename H, typename R>() {
    H h;
    size_t n = vf_choose("len", nlo, nhi);
    if constexpr (ref::IsMd<R>) {
      auto setw = [&](auto* w, size_t k) {
        typename R::W s[R::words], t[R::words];
        vf_bytes(s, sizeof(s), "state");
        for (size_t i = 0; i < k; i++) { w[i] = s[i]; t[i] = s[i]; }
        uint64_t blocks = vf_u64("blocks") >> 12;
        B* m = (B*)vf_alloc(fill + n);
        vf_bytes(m, fill + n, "msg");
        for (size_t i = 0; i < fill; i++) h.chunk[i] = m[i];
        h.msglength = blocks * R::block + fill;
        h.add(Sp(m + fill, n));
        auto d = h.data();
        B exp[R::out];
        ref::md_finish<R>(t, m, fill + n, blocks * R::block + fill + n, exp);
        vf_check_eq(d.data(), exp, R::out, "continuing and finishing from an arbitrary state");
        vf_note("end");
      };
      if constexpr (requires { h.w[0]; h.chunk[0]; h.msglength; }) setw(h.w, R::words);
      else if constexpr (requires { h.h[0]; h.chunk[0]; h.msglength; }) setw(h.h, R::words);
    } else if constexpr (requires { h.s[0]; h.msglength; }) {
      uint64_t s[25], t[25];
      vf_bytes(s, sizeof(s), "state");
      for (size_t i = 0; i < 25; i++) { h.s[i] = s[i]; t[i] = s[i]; }
      uint64_t blocks = vf_u64("blocks") >> 12;
      B* m = (B*)vf_alloc(fill + n);
      vf_bytes(m, fill + n, "msg");
      for (size_t i = 0; i < fill; i++) h.s[i / 8] ^= uint64_t(m[i]) << (8 * (i % 8));
      h.msglength = blocks * R::block + fill;
      vf_assume(h.msglength % R::block == fill);
      h.add(Sp(m + fill, n));
      auto d = h.data();
      B exp[R::out];
      ref::sha3_finish(t, R::block, m, fill + n, exp, R::out);
      vf_check_eq(d.data(), exp, R::out, "continuing and finishing from an arbitrary state");
      vf_note("end");
    }
  });
}
// hexadecimal form and the constructor taking several pieces
VF_HARNESS h_hex(uint64_t which, uint64_t n) {
  with_hash(which, [&]<typename H, typename R>() {
    B* m = (B*)vf_alloc(n);
    vf_bytes(m, n, "msg");
    H h{Sp(m, n / 2), std::string_view((const char*)m + n / 2, n - n / 2)};
    B exp[R::out]; char hx[2 * R::out];
    ref::hash<R>(m, n, exp);
    ref::hexlower(exp, R::out, hx);
    std::string s = h;
    vf_check(s.size() == 2 * R::out, "hexadecimal form has two characters per digest byte");
    vf_check_eq(s.data(), hx, 2 * R::out, "hexadecimal form is the digest in lower-case hexadecimal");
    vf_note("end");
  });
}
// run-time selection by name
template <typename F> void with_name(uint64_t i, F f) {
  switch (i) {
    case 0: f.template operator()<MD5, ref::Md5>("md5"); break;
    case 1: f.template operator()<SHA1, ref::Sha1>("sha1"); break;
    case 2: f.template operator()<SHA1, ref::Sha1>("sha"); break;
    case 3: f.template operator()<SHA2<224>, ref::Sha256<224>>("sha224"); break;
    case 4: f.template operator()<SHA2<224>, ref::Sha256<224>>("sha2-224"); break;
    case 5: f.template operator()<SHA2<256>, ref::Sha256<256>>("sha256"); break;
    case 6: f.template operator()<SHA2<256>, ref::Sha256<256>>("sha2-256"); break;
    case 7: f.template operator()<SHA2<384>, ref::Sha512<384>>("sha384"); break;
    case 8: f.template operator()<SHA2<384>, ref::Sha512<384>>("sha2-384"); break;
    case 9: f.template operator()<SHA2<512>, ref::Sha512<512>>("sha512"); break;
    case 10: f.template operator()<SHA2<512>, ref::Sha512<512>>("sha2-512"); break;
    case 11: f.template operator()<SHA3<224>, ref::Sha3<224>>("sha3-224"); break;
    case 12: f.template operator()<SHA3<256>, ref::Sha3<256>>("sha3-256"); break;
    case 13: f.template operator()<SHA3<384>, ref::Sha3<384>>("sha3-384"); break;
    case 14: f.template operator()<SHA3<512>, ref::Sha3<512>>("sha3-512"); break;
  }
}
static const char* const names[] = {"md5", "sha1", "sha", "sha224", "sha2-224", "sha256", "sha2-256", "sha384", "sha2-384", "sha512", "sha2-512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"};
// DigestInfo prefix of RFC 8017 / NIST: SEQUENCE { SEQUENCE { OID, NULL }, OCTET STRING of the digest size }
static size_t digestinfo(uint64_t i, size_t hs, B* o) {
  static const B oid_md5[] = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05};
  static const B oid_sha1[] = {0x2b, 0x0e, 0x03, 0x02, 0x1a};
  static const B nist[] = {4, 4, 1, 1, 2, 2, 3, 3, 7, 8, 9, 10};
  B oid[9] = {0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0};
  size_t on = 9;
  if (i == 0) { on = 8; for (size_t k = 0; k < on; k++) oid[k] = oid_md5[k]; }
  else if (i <= 2) { on = 5; for (size_t k = 0; k < on; k++) oid[k] = oid_sha1[k]; }
  else oid[8] = nist[i - 3];
  size_t n = 0;
  o[n++] = 0x30; o[n++] = B(on + 2 + 2 + 2 + 2 + hs);
  o[n++] = 0x30; o[n++] = B(on + 2 + 2);
  o[n++] = 6; o[n++] = B(on);
  for (size_t k = 0; k < on; k++) o[n++] = oid[k];
  o[n++] = 5; o[n++] = 0;
  o[n++] = 4; o[n++] = B(hs);
  return n;
}
VF_HARNESS h_named(uint64_t i, uint64_t n) {
  with_name(i, [&]<typename H, typename R>(std::string_view name) {
    B* m = (B*)vf_alloc(n);
    vf_bytes(m, n, "msg");
    size_t cut = n / 3;
    Hash h(name, Sp(m, cut));
    h.add(std::string_view((const char*)m + cut, n - cut));
    B exp[R::out]; char hx[2 * R::out];
    ref::hash<R>(m, n, exp);
    ref::hexlower(exp, R::out, hx);
    vf_check(h.hashsize() == R::out, "digest size is that of the named hash");
    std::vector<B> d = h.data();
    vf_check(d.size() == R::out, "digest has the size of the named hash");
    vf_check_eq(d.data(), exp, R::out, "digest is that of the named hash");
    std::string s = h;
    vf_check(s.size() == 2 * R::out, "hexadecimal form has two characters per digest byte");
    vf_check_eq(s.data(), hx, 2 * R::out, "hexadecimal form is the digest in lower-case hexadecimal");
    std::vector<B> id = h.getAsn1Id();
    B di[32];
    size_t dn = digestinfo(i, R::out, di);
    vf_check(id.size() == dn, "algorithm identifier has the standard length");
    vf_check_eq(id.data(), di, dn, "algorithm identifier is the DigestInfo prefix of the named hash");
    vf_check(h.MaxLength() >= (1ull << 32), "accepts messages beyond 2^32 bytes");
    vf_note("end");
  });
}
// every other name of n characters is refused
VF_HARNESS h_badname(uint64_t n) {
  char* s = (char*)vf_alloc(n);
  vf_bytes((B*)s, n, "name");
  bool known = false;
  for (const char* k : names) {
    size_t l = __builtin_strlen(k);
    bool eq = l == n;
    if (eq) for (size_t j = 0; j < n; j++) eq = eq & (s[j] == k[j]);
    known = known | eq;
  }
  vf_assume(!known);
  bool threw = false;
  try { Hash h{std::string_view(s, n)}; } catch (const std::exception&) { threw = true; }
  vf_check(threw, "an unknown hash name is refused with an exception");
  vf_note("end");
}
