#include "vf.h"
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <span>
#include <caligo/X509Certificate.h>
using namespace Caligo;
using B = uint8_t;
using V = std::vector<B>;

// ---- DER writer
static V tlv(B tag, const V& c) {
  V r;
  r.push_back(tag);
  if (c.size() < 0x80) {
    r.push_back((B)c.size());
  } else if (c.size() < 0x100) {
    r.push_back(0x81);
    r.push_back((B)c.size());
  } else {
    r.push_back(0x82);
    r.push_back((B)(c.size() >> 8));
    r.push_back((B)c.size());
  }
  r.insert(r.end(), c.begin(), c.end());
  return r;
}
static V cat(std::initializer_list<V> l) {
  V r;
  for (auto& v : l) r.insert(r.end(), v.begin(), v.end());
  return r;
}
static V str(const char* s) { return V((const B*)s, (const B*)s + strlen(s)); }
static V input(size_t n, const char* name) {
  V r(n);
  if (n) vf_bytes(r.data(), n, name);
  return r;
}
static const V oidSha256 = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b};
static V attribute(const V& oid, B tag, const V& text) { return tlv(0x31, tlv(0x30, cat({tlv(6, oid), tlv(tag, text)}))); }
static V cn(const V& text) { return attribute({0x55, 4, 3}, 0x13, text); }
static V otherKey() { return tlv(0x30, cat({tlv(0x30, tlv(6, {0x2b, 0x65, 0x6e})), tlv(3, {0, 1, 2, 3})})); }
static V rsaKey(const V& n, const V& e) {
  return tlv(0x30, cat({tlv(0x30, cat({tlv(6, {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01}), tlv(5, {})})), tlv(3, cat({V{0}, tlv(0x30, cat({tlv(2, n), tlv(2, e)}))}))}));
}
struct Parts {
  V version = tlv(0xa0, tlv(2, {2}));
  V serial = tlv(2, {1, 2, 3});
  V algo = tlv(0x30, cat({tlv(6, oidSha256), tlv(5, {})}));
  V issuer = cn(str("R"));
  V from = tlv(0x17, str("200101000000Z")), to = tlv(0x17, str("300101000000Z"));
  V subject = cn(str("S"));
  V key = otherKey();
  V extensions;
  V outer = tlv(0x30, cat({tlv(6, oidSha256), tlv(5, {})}));
  V signature = tlv(3, {0, 9, 8, 7});
  V tbs() const { return tlv(0x30, cat({version, serial, algo, tlv(0x30, issuer), tlv(0x30, cat({from, to})), tlv(0x30, subject), key, extensions})); }
  V der() const { return tlv(0x30, cat({tbs(), outer, signature})); }
};
static std::span<const B> exact(const V& v) {
  B* p = (B*)vf_alloc(v.size());
  if (!v.empty()) std::memcpy(p, v.data(), v.size());
  return {p, v.size()};
}

// ---- dates
static bool leap(unsigned y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
struct Civil {
  unsigned y, mon, d, h, mi, s;
};
static Civil fields(B tag, const V& t) {
  size_t yd = tag == 0x17 ? 2 : 4, n = t.size();
  auto two = [&](size_t i) { return (unsigned)(t[i] - '0') * 10 + (unsigned)(t[i + 1] - '0'); };
  unsigned y = tag == 0x17 ? two(0) + (two(0) >= 50 ? 1900 : 2000) : two(0) * 100 + two(2);
  return {y, two(yd), two(yd + 2), two(yd + 4), n > yd + 7 ? two(yd + 6) : 0, n > yd + 9 ? two(yd + 8) : 0};
}
static unsigned length(unsigned mon, unsigned y) { return mon == 2 ? 28u + leap(y) : (mon == 4) | (mon == 6) | (mon == 9) | (mon == 11) ? 30u : 31u; }
static bool wellformed(B tag, const V& t) {
  if (tag != 0x17 && tag != 0x18) return false;
  size_t yd = tag == 0x17 ? 2 : 4, n = t.size();
  if (n != yd + 6 + 1 && n != yd + 8 + 1 && n != yd + 10 + 1) return false;
  bool ok = t[n - 1] == 'Z';
  for (size_t i = 0; i + 1 < n; i++) ok &= (t[i] >= '0') & (t[i] <= '9');
  Civil c = fields(tag, t);
  return ok & (c.y >= 1970) & (c.mon >= 1) & (c.mon <= 12) & (c.d >= 1) & (c.d <= length(c.mon, c.y)) & (c.h <= 23) & (c.mi <= 59) & (c.s <= 59);
}
static uint64_t instant(B tag, const V& t) {
  Civil c = fields(tag, t);
  unsigned before = 0;
  for (unsigned i = 1; i < 12; i++)
    if (i < c.mon) before += length(i, c.y);
  unsigned p = c.y - 1; // days of the years 1970 .. y - 1
  uint64_t days = (uint64_t)(c.y - 1970) * 365 + (p / 4 - p / 100 + p / 400) - (1969 / 4 - 1969 / 100 + 1969 / 400) + before + (c.d - 1);
  return days * 86400 + c.h * 3600 + c.mi * 60 + c.s;
}
// mode 0: every malformed string of n characters is refused; 1: every year of century a in month b and every day;
// 2: every time of the day on the a-th listed date
VF_HARNESS h_date(uint64_t tag, uint64_t n, uint64_t second, uint64_t mode, uint64_t a, uint64_t b) {
  V t = input(n, "t");
  size_t yd = tag == 0x17 ? 2 : 4;
  if (mode == 1) {
    if (yd == 4) {
      t[0] = '0' + a / 10;
      t[1] = '0' + a % 10;
    }
    t[yd] = '0' + b / 10;
    t[yd + 1] = '0' + b % 10;
    for (size_t i = yd + 4; i + 1 < n; i++) t[i] = second ? "235959"[i - yd - 4] : '0';
    t[n - 1] = 'Z';
  } else if (mode == 2) {
    static const char dates[5][9] = {"19700101", "20240229", "21000301", "20371231", "19991130"};
    for (size_t i = 0; i < yd + 4; i++) t[i] = dates[a][i + 4 - yd];
  }
  Parts p;
  if (second) p.to = tlv((B)tag, t); else p.from = tlv((B)tag, t);
  x509certificate x = parseCertificate(exact(p.der()));
  uint64_t got = second ? x.validity_end : x.validity_start;
  if (mode == 0) {
    vf_assume(!wellformed((B)tag, t));
    vf_check(got == 0, "a malformed date is refused");
  } else {
    uint64_t want = wellformed((B)tag, t) ? instant((B)tag, t) : 0;
    vf_check(got == want, "instant of the date");
  }
  vf_check(second ? x.validity_start == 1577836800u : x.validity_end == 1893456000u, "the other date");
  vf_note("end");
}

// ---- contents
static const B attrs[13][10] = {{3, 0x55, 4, 3}, {3, 0x55, 4, 4}, {3, 0x55, 4, 5}, {3, 0x55, 4, 6}, {3, 0x55, 4, 7}, {3, 0x55, 4, 8}, {3, 0x55, 4, 9}, {3, 0x55, 4, 0x0a},
                                {3, 0x55, 4, 0x61}, {3, 0x55, 4, 0x0b}, {3, 0x55, 4, 0x0c}, {3, 0x55, 4, 0x2a}, {9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x09, 0x01}};
// prefix of each attribute in the printed name and its place in the order
static const char labels[13][8] = {"CN=", "SN=", "S#=", "C=", "L=", "ST=", "STREET=", "O=", "OI=", "OU=", "T=", "GN=", "E="};
static const int order[13] = {2, 3, 4, 6, 5, 12, 11, 1, 10, 7, 8, 9, 0};
static V oid(size_t k) { return V(attrs[k] + 1, attrs[k] + 1 + attrs[k][0]); }
static std::string expected(const std::vector<std::pair<size_t, V>>& l) {
  std::string r;
  for (int k : order) {
    const V* last = nullptr;
    for (auto& [i, v] : l)
      if ((int)i == k) last = &v;
    if (!last || last->empty()) continue;
    if (!r.empty()) r += " ";
    r += labels[k];
    r.append((const char*)last->data(), last->size());
  }
  return r;
}
static void same(const std::string& a, const std::string& b, const char* label) {
  vf_check(a.size() == b.size(), label);
  if (a.size() == b.size()) vf_check_eq(a.data(), b.data(), a.size(), label);
}
// names with the attributes a and b (13: absent) of n and m characters in issuer and subject
VF_HARNESS h_names(uint64_t a, uint64_t b, uint64_t n, uint64_t m, uint64_t tag) {
  std::vector<std::pair<size_t, V>> is, su;
  auto add = [&](std::vector<std::pair<size_t, V>>& l, size_t k, size_t len, const char* name) {
    if (k < 13) l.push_back({k, input(len, name)});
  };
  add(is, a, n, "ia");
  add(is, b, m, "ib");
  add(su, b, n, "sb");
  add(su, a, m, "sa");
  Parts p;
  p.issuer.clear();
  p.subject.clear();
  for (auto& [k, v] : is) p.issuer = cat({p.issuer, attribute(oid(k), (B)tag, v)});
  for (auto& [k, v] : su) p.subject = cat({p.subject, attribute(oid(k), (B)tag, v)});
  x509certificate x = parseCertificate(exact(p.der()));
  same(x.issuer, expected(is), "issuer");
  same(x.subject, expected(su), "subject");
  V name;
  for (auto& [k, v] : su)
    if (k == 0) name = v;
  vf_check(x.fqdns.size() == 1, "one host name");
  vf_check(x.appliesTo(std::string((const char*)name.data(), name.size())), "the common name is the host name");
  vf_note("end");
}
// serial number, key absence, extensions, kept encoding
VF_HARNESS h_rest(uint64_t n, uint64_t ext) {
  Parts p;
  V serial = input(n, "serial");
  if (n == 17) serial[0] = 0;
  p.serial = tlv(2, serial);
  if (ext & 1) p.version.clear();
  if (ext & 2) p.extensions = cat({tlv(0xa1, input(3, "uid")), tlv(0xa3, input(200, "ext"))});
  V der = p.der();
  x509certificate x = parseCertificate(exact(der));
  B want[16] = {};
  for (size_t i = 0; i < n && i < 16; i++) want[i] = serial[n - 1 - i];
  vf_check_eq(x.serialNumber.v, want, 16, "serial number");
  vf_check(!x.pubkey, "an unsupported key is no key");
  vf_check(x.derCert.size() == der.size(), "kept encoding");
  if (x.derCert.size() == der.size()) vf_check_eq(x.derCert.data(), der.data(), der.size(), "kept encoding");
  vf_check(x.validity_start == 1577836800u && x.validity_end == 1893456000u, "validity");
  same(x.issuer, "CN=R", "issuer");
  same(x.subject, "CN=S", "subject");
  vf_note("end");
}
struct Recorder : PublicKey {
  mutable int calls = 0;
  mutable uint32_t type = 0;
  mutable V data, sig;
  bool answer;
  Recorder(bool a) : answer(a) {}
  bool validateSignature(Tls13SignatureScheme t, std::span<const B> d, std::span<const B> s) const override {
    calls++;
    type = t;
    data.assign(d.begin(), d.end());
    sig.assign(s.begin(), s.end());
    return answer;
  }
};
// the issuer's key is asked about exactly the signed bytes, the signature and the stated algorithm; dates must nest
VF_HARNESS h_verify(uint64_t siglen, uint64_t last, uint64_t key) {
  Parts p;
  V a = oidSha256;
  if (last < 256) a[8] = (B)last; else a = input(9, "oid");
  p.outer = tlv(0x30, cat({tlv(6, a), tlv(5, {})}));
  V sig = input(siglen, "sig");
  p.signature = tlv(3, cat({V{0}, sig}));
  p.serial = tlv(2, input(4, "serial"));
  V tbs = p.tbs();
  x509certificate x, issuer;
  V der = p.der();
  x.derCert = der;
  x.validity_start = vf_u64("from");
  x.validity_end = vf_u64("to");
  issuer.validity_start = vf_u64("ifrom");
  issuer.validity_end = vf_u64("ito");
  bool nest = x.validity_start >= issuer.validity_start && x.validity_end <= issuer.validity_end;
  bool answer = vf_bool("answer");
  Recorder* r = nullptr;
  if (key) issuer.pubkey.reset(r = new Recorder(answer));
  bool ok = x.verify(issuer);
  bool known = std::memcmp(a.data(), oidSha256.data(), 8) == 0 && a[8] >= 0x0b && a[8] <= 0x0d;
  uint32_t want = known ? 0x0401 + 0x100 * (a[8] - 0x0bu) : 0;
  if (!key) {
    vf_check(!ok, "an issuer without a key verifies nothing");
  } else {
    if (ok) {
      vf_check(nest, "validity within the issuer's");
      vf_check(r->calls > 0, "verified without asking the key");
      vf_check(answer, "verified although the key refused");
    } else {
      vf_check(!(nest && answer && known), "refused although everything is in order");
    }
    if (r->calls) {
      if (known) vf_check(r->type == want, "algorithm");
      else vf_check(!(r->type >= 0x0401 && r->type <= 0x080b), "unsupported algorithm");
      vf_check(r->data.size() == tbs.size(), "signed bytes");
      if (r->data.size() == tbs.size()) vf_check_eq(r->data.data(), tbs.data(), tbs.size(), "signed bytes");
      vf_check(r->sig.size() == siglen, "signature");
      if (r->sig.size() == siglen && siglen) vf_check_eq(r->sig.data(), sig.data(), siglen, "signature");
    }
  }
  vf_note("end");
}

// ---- keys; the precomputation of Montgomery constants (C17) is left out in symbolic runs
extern "C" __attribute__((used)) void vf_subst__ZN6Caligo15MontgomeryStateILm4096EEC2ENS_6bignumILm4096EEE(MontgomeryState<4096>* s, bignum<4096> n) {
  std::memset((void*)s, 0, sizeof(*s));
  std::memcpy((void*)&s->N, &n, sizeof(n));
}
static void number(const V& be, B* out, size_t n) {
  std::memset(out, 0, n);
  for (size_t i = 0; i < be.size() && i < n; i++) out[i] = be[be.size() - 1 - i];
}
static bool small(const V& be) { // below 17
  bool r = be.empty() || be.back() < 17;
  for (size_t i = 0; i + 1 < be.size(); i++) r &= be[i] == 0;
  return r;
}
VF_HARNESS h_rsakey(uint64_t nl, uint64_t el) {
  vf_substitute("MontgomeryStateILm4096");
  V n = input(nl, "n"), e = input(el, "e");
  if (nl == 513) n[0] = 0;
  Parts p;
  p.key = rsaKey(n, e);
  auto der = exact(p.der());
  bool thrown = false;
  x509certificate x;
  try {
    x = parseCertificate(der);
  } catch (std::exception&) {
    thrown = true;
  }
  bool good = !small(e) && nl && (n[nl - 1] & 1);
  if (thrown) {
    vf_check(!good, "a good key is refused");
    vf_note("refused");
  } else {
    RsaPubkey* k = static_cast<RsaPubkey*>(x.pubkey.get());
    vf_check(good && k, "a bad key is accepted");
    if (k) {
      B w[512];
      number(n, w, 512);
      vf_check_eq(k->pubkey.n.v, w, 512, "modulus");
      number(e, w, 512);
      vf_check_eq(k->pubkey.e.v, w, 512, "public exponent");
      vf_check_eq(k->pubkey.s.N.v, k->pubkey.n.v, 512, "modulus of the arithmetic");
    }
    vf_note("accepted");
  }
}
VF_HARNESS h_privkey(uint64_t nl, uint64_t el, uint64_t dl) {
  vf_substitute("MontgomeryStateILm4096");
  V n = input(nl, "n"), e = input(el, "e"), d = input(dl, "d");
  n[0] |= 0x80;
  V m = cat({V{0}, n});
  V der = tlv(0x30, cat({tlv(2, {0}), tlv(2, m), tlv(2, e), tlv(2, d), tlv(2, {3}), tlv(2, {5})}));
  bool thrown = false;
  std::unique_ptr<PrivateKey> k;
  try {
    k = parsePrivateKey(exact(der));
  } catch (std::exception&) {
    thrown = true;
  }
  bool good = n[nl - 1] & 1;
  if (thrown) {
    vf_check(!good, "a good key is refused");
    vf_note("refused");
  } else {
    RsaPrivateKey* r = static_cast<RsaPrivateKey*>(k.get());
    vf_check(good && r, "a bad key is accepted");
    if (r) {
      B w[512];
      number(n, w, 512);
      vf_check_eq(r->privkey.n.v, w, 512, "modulus");
      number(d, w, 512);
      vf_check_eq(r->privkey.d.v, w, 512, "private exponent");
      vf_check(r->privkey.actualN == 8 * nl, "length of the modulus");
    }
    vf_note("accepted");
  }
}
// a scheme the key does not support is never satisfied
VF_HARNESS h_scheme() {
  vf_substitute("MontgomeryStateILm4096");
  RsaPubkey k(rsa_public_key<4096>(bignum<4096>(uint32_t(0x80000001)), bignum<4096>(uint32_t(3))));
  uint32_t t = vf_u32("scheme");
  bool known = t == 0x0401 || t == 0x0501 || t == 0x0601 || (t >= 0x0804 && t <= 0x0806) || (t >= 0x0809 && t <= 0x080b);
  vf_assume(!known);
  V data = input(4, "data"), sig = input(4, "sig");
  vf_check(!k.validateSignature((Tls13SignatureScheme)t, data, sig), "unsupported scheme");
  vf_note("end");
}
