#include "vf.h"
#include <string>
#include <span>
#include <vector>
#include <caligo/base64.h>
using namespace Caligo;
using B = uint8_t;
static char sym(unsigned v, int cs) {
  if (v < 26) return char('A' + v);
  if (v < 52) return char('a' + v - 26);
  if (v < 62) return char('0' + v - 52);
  if (v == 62) return cs == 2 ? '-' : '+';
  return cs == 2 ? '_' : cs == 1 ? ',' : '/';
}
static int val(B c) {   // accepts every variant, -1 for everything else
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == '+' || c == '-') return 62;
  if (c == '/' || c == ',' || c == '_') return 63;
  return -1;
}
// n bytes, options: bit 0 newlines, bit 1 omit padding; charset cs
VF_HARNESS h_enc(uint64_t n, uint64_t opt, uint64_t cs) {
  B* m = (B*)vf_alloc(n);
  vf_bytes(m, n, "data");
  std::string s = base64(std::span<const B>(m, n), opt & 1, (opt >> 1) & 1, (Base64CharSet)cs);
  // reference text
  char* e = (char*)vf_alloc(n * 2 + 16);
  size_t k = 0;
  for (size_t i = 0; i < n; i += 3) {
    unsigned v = unsigned(m[i]) << 16 | (i + 1 < n ? unsigned(m[i + 1]) << 8 : 0) | (i + 2 < n ? m[i + 2] : 0);
    size_t have = n - i < 3 ? n - i : 3;
    for (size_t j = 0; j < 4; j++) {
      if (j <= have) e[k++] = sym((v >> (18 - 6 * j)) & 63, cs);
      else if (!(opt & 2)) e[k++] = '=';
    }
    if ((opt & 1) && have == 3 && (i / 3) % 19 == 18) e[k++] = '\n';
  }
  if (opt & 1) e[k++] = '\n';
  vf_check(s.size() == k, "encoded text has the standard length");
  vf_check_eq(s.data(), e, k, "encoded text is the standard encoding");
  std::vector<B> d = base64d(s);
  vf_check(d.size() == n, "decoding the encoding restores the length");
  vf_check_eq(d.data(), m, n, "decoding the encoding restores the bytes");
  vf_note("end");
}
// arbitrary text of n characters
VF_HARNESS h_dec(uint64_t n) {
  B* t = (B*)vf_alloc(n);
  vf_bytes(t, n, "text");
  std::vector<B> d = base64d(std::string_view((const char*)t, n));
  B out[64];
  size_t k = 0, cnt = 0; unsigned acc = 0;
  for (size_t i = 0; i < n; i++) {
    int v = val(t[i]);
    if (v < 0) continue;
    acc = acc << 6 | unsigned(v);
    cnt++;
    if (cnt % 4 == 2) out[k++] = B(acc >> 4);
    if (cnt % 4 == 3) out[k++] = B(acc >> 2);
    if (cnt % 4 == 0) out[k++] = B(acc);
  }
  vf_check(d.size() == k, "decoded length is determined by the alphabet characters alone");
  k = vf_concretize(k);
  vf_check_eq(d.data(), out, k, "decoded bytes are those of the alphabet characters");
  vf_note("end");
}
