#include "vf.h"
#include <array>
#include <algorithm>
#include <cstring>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>
#include <caligo/bignum.h>
using namespace Caligo;
using B = uint8_t;
template <size_t W> using U = unsigned _BitInt(W);
template <size_t W> static bignum<W> input(const char* name) {
  bignum<W> r;
  for (size_t i = 0; i < W / 32; i++) r.v[i] = vf_u32(name);
  return r;
}
template <size_t W> static U<W> num(const bignum<W>& a) {
  U<W> r = 0;
  for (size_t i = 0; i < W / 32; i++) r |= (U<W>)a.v[i] << (32 * i);
  return r;
}
template <size_t W> static void eq(const bignum<W>& a, U<W> r, const char* label) {
  uint32_t w[W / 32];
  for (size_t i = 0; i < W / 32; i++) w[i] = (uint32_t)(r >> (32 * i));
  vf_check_eq(a.v, w, W / 8, label);
}
static void flag(bool a, bool b, const char* label) { B x = a, y = b; vf_check_eq(&x, &y, 1, label); }

template <size_t W> static void addsub() {
  vf_lift_first();
  bignum<W> a = input<W>("a"), b = input<W>("b");
  U<W> x = num(a), y = num(b);
  auto [c, s] = a + b;
  U<W + 1> t = (U<W + 1>)x + (U<W + 1>)y;
  eq<W>(s, (U<W>)t, "sum");
  flag(c, (bool)(t >> W), "carry out of the sum");
  auto [u, d] = a - b;
  eq<W>(d, (U<W>)(x - y), "difference");
  flag(u, x < y, "borrow out of the difference");
  vf_note("end");
}
template <size_t W> static void cmp() {
  vf_lift_first();
  bignum<W> a = input<W>("a"), b = input<W>("b");
  flag(a == b, num(a) == num(b), "equality");
  flag(a < b, num(a) < num(b), "order");
  flag(a == a, true, "equality with itself");
  vf_note("end");
}
template <size_t W> static void mul() {
  bignum<W> a = input<W>("a"), b = input<W>("b");
  U<2 * W> t = (U<2 * W>)num(a) * (U<2 * W>)num(b);
  eq<2 * W>(a * b, t, "product");
  vf_note("end");
}
template <size_t W> static void sqr() {
  bignum<W> a = input<W>("a");
  U<2 * W> t = (U<2 * W>)num(a) * (U<2 * W>)num(a);
  eq<2 * W>(a.square(), t, "square");
  vf_note("end");
}
template <size_t W> static void mul32() {
  bignum<W> a = input<W>("a");
  uint32_t b = vf_u32("b");
  U<W + 32> t = (U<W + 32>)num(a) * (U<W + 32>)b;
  eq<W + 32>(a * b, t, "product with a word");
  vf_note("end");
}
template <size_t W> static void shifts() {
  bignum<W> a = input<W>("a");
  U<W> x = num(a);
  bignum<W> s = a;
  s.shr1();
  eq<W>(s, x >> 1, "shift right by one bit");
  for (size_t n = 0; n <= W / 32; n++) {
    bignum<W> l = a;
    l.shl_word(n);
    eq<W>(l, n == W / 32 ? (U<W>)0 : (U<W>)(x << (32 * n)), "shift left by words");
  }
  vf_note("end");
}
template <size_t W> static void bits() {
  bignum<W> a = input<W>("a"), b = input<W>("b");
  U<W> x = num(a), y = num(b);
  for (size_t n = 0; n < W; n++) {
    flag(a.bit(n), (bool)((x >> n) & 1), "bit");
    bignum<W> s = a, c = a;
    s.set_bit(n);
    c.clear_bit(n);
    eq<W>(s, x | ((U<W>)1 << n), "set_bit");
    eq<W>(c, x & ~((U<W>)1 << n), "clear_bit");
  }
  eq<W>(a ^ b, x ^ y, "exclusive or");
  bignum<W> t = a;
  t ^= b;
  eq<W>(t, x ^ y, "exclusive or in place");
  t = a;
  t &= b;
  eq<W>(t, x & y, "and in place");
  t = a;
  t.neg();
  eq<W>(t, ~x, "one's complement");
  bool sw = vf_bool("swap");
  bignum<W> p = a, q = b;
  ctime_swap(sw, p, q);
  eq<W>(p, sw ? y : x, "conditional swap, first");
  eq<W>(q, sw ? x : y, "conditional swap, second");
  vf_note("end");
}
template <size_t W> static void bytes() {
  bignum<W> a = input<W>("a");
  U<W> x = num(a);
  std::vector<B> v = a.as_bytes();
  B ref[W / 8];
  for (size_t i = 0; i < W / 8; i++) ref[i] = (B)(x >> (8 * i));
  flag(v.size() == W / 8, true, "as_bytes length");
  vf_check_eq(v.data(), ref, W / 8, "as_bytes");
  bignum<W> r{std::span<const B>(v)};
  eq<W>(r, x, "import of the export");
  for (size_t n = 0; n <= W / 8 + 5; n++) {
    B* d = (B*)vf_alloc(n);
    vf_bytes(d, n, "d");
    bignum<W> k{std::span<const B>(d, n)};
    U<W> e = 0;
    for (size_t i = 0; i < n && i < W / 8; i++) e |= (U<W>)d[i] << (8 * i);
    eq<W>(k, e, "import of bytes");
  }
  uint32_t words[W / 32];
  for (size_t i = 0; i < W / 32; i++) words[i] = vf_u32("w");
  bignum<W> k{std::span<const uint32_t>(words)};
  U<W> e = 0;
  for (size_t i = 0; i < W / 32; i++) e = (W > 32 ? e << (W > 32 ? 32 : 0) : 0) | words[i];
  eq<W>(k, e, "import of words, most significant first");
  uint32_t one = vf_u32("one");
  eq<W>(bignum<W>(one), (U<W>)one, "construction from a word");
  bignum<W> as = a;
  as = one;
  eq<W>(as, (U<W>)one, "assignment of a word");
  vf_note("end");
}
template <size_t W, size_t V> static void convert() {
  bignum<W> a = input<W>("a");
  eq<V>(bignum<V>(a), (U<V>)num(a), "conversion to another width");
  vf_note("end");
}
template <size_t W> static void slices() {
  bignum<W> a = input<W>("a");
  U<W> x = num(a);
  eq<W / 2>(a.template slice<W / 2>(0), (U<W / 2>)x, "low half");
  eq<W / 2>(a.template slice<W / 2>(W / 2), (U<W / 2>)(x >> (W / 2)), "high half");
  if constexpr (W >= 96) eq<32>(a.template slice<32>(64), (U<32>)(x >> 64), "middle word");
  vf_note("end");
}
static void lists() {
  uint32_t w[4];
  for (auto& x : w) x = vf_u32("w");
  eq<128>(bignum<128>({w[0], w[1], w[2], w[3]}), ((U<128>)w[0] << 96) | ((U<128>)w[1] << 64) | ((U<128>)w[2] << 32) | w[3], "list of words, most significant first");
  eq<128>(bignum<128>({w[0], w[1]}), ((U<128>)w[0] << 32) | w[1], "short list of words");
  vf_note("end");
}
#define BYW(name)                                      \
  VF_HARNESS h_##name(uint64_t w) {                    \
    switch (w) {                                       \
      case 64: name<64>(); break;                      \
      case 96: if constexpr (true) name<96>(); break;  \
      case 128: name<128>(); break;                    \
      case 256: name<256>(); break;                    \
      case 512: name<512>(); break;                    \
      case 1024: name<1024>(); break;                  \
    }                                                  \
  }
BYW(addsub) BYW(cmp) BYW(shifts) BYW(bits) BYW(bytes) BYW(mul32) BYW(mul) BYW(sqr)
VF_HARNESS h_slices(uint64_t w) {
  switch (w) {
    case 64: slices<64>(); break;
    case 128: slices<128>(); break;
    case 256: slices<256>(); break;
    case 512: slices<512>(); break;
  }
}
VF_HARNESS h_convert(uint64_t k) {
  switch (k) {
    case 0: convert<64, 128>(); break;
    case 1: convert<128, 64>(); break;
    case 2: convert<256, 512>(); break;
    case 3: convert<96, 64>(); break;
    case 4: convert<256, 288>(); break;
    case 5: convert<32, 64>(); break;
  }
}
VF_HARNESS h_lists() { lists(); }
