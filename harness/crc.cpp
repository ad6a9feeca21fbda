#include "vf.h"
#include <string>
#include <span>
#include <vector>
#include <array>
#define private public
#include <caligo/crc.h>
#undef private
using namespace Caligo;
using B = uint8_t;
using Sp = std::span<const B>;
static uint32_t ref_crc(uint32_t h, const B* p, size_t n) {
  for (size_t i = 0; i < n; i++) {
    h ^= p[i];
    for (int k = 0; k < 8; k++) h = (h >> 1) ^ (0xEDB88320u & (0u - (h & 1)));
  }
  return h;
}
static void be(uint32_t v, B* o) { for (int i = 0; i < 4; i++) o[i] = B(v >> (24 - 8 * i)); }
static char hexc(B v) { return "0123456789abcdef"[v & 15]; }
// every message of n bytes in three pieces, digest queried in between, in every form
VF_HARNESS h_crc(uint64_t n, uint64_t a, uint64_t b) {
  B* m = (B*)vf_alloc(n);
  vf_bytes(m, n, "msg");
  CRC32 c(Sp(m, a));
  B e[4];
  be(ref_crc(0xFFFFFFFFu, m, a) ^ 0xFFFFFFFFu, e);
  vf_check_eq(c.data().data(), e, 4, "checksum of the prefix absorbed so far");
  c.add(Sp(m + a, b - a));
  CRC32 copy = c;
  c.add(std::string_view((const char*)m + b, n - b));
  be(ref_crc(0xFFFFFFFFu, m, n) ^ 0xFFFFFFFFu, e);
  vf_check_eq(c.data().data(), e, 4, "checksum of the whole message");
  std::string s = c;
  vf_check(s.size() == 8, "hexadecimal form has eight characters");
  char hx[8];
  for (int i = 0; i < 4; i++) { hx[2 * i] = hexc(e[i] >> 4); hx[2 * i + 1] = hexc(e[i] & 15); }
  vf_check_eq(s.data(), hx, 8, "hexadecimal form of the checksum");
  be(ref_crc(0xFFFFFFFFu, m, b) ^ 0xFFFFFFFFu, e);
  vf_check_eq(copy.data().data(), e, 4, "a copy is independent of the original");
  vf_note("end");
}
// arbitrary running checksum
VF_HARNESS h_crc_state(uint64_t n) {
  CRC32 c;
  if constexpr (requires { c.h; }) {
    B* m = (B*)vf_alloc(n);
    vf_bytes(m, n, "msg");
    uint32_t h = vf_u32("state");
    c.h = h;
    c.add(Sp(m, n));
    B e[4];
    be(ref_crc(h, m, n) ^ 0xFFFFFFFFu, e);
    vf_check_eq(c.data().data(), e, 4, "continuing from an arbitrary running checksum");
    vf_note("end");
  }
}
