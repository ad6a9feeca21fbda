#include "vf.h"
#include <array>
#include <algorithm>
#include <cstring>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>
#include <caligo/bignum.h>
#include <caligo/mont.h>
using namespace Caligo;
template <size_t W> using U = unsigned _BitInt(W);
template <size_t W> static bignum<W> input(const char* name) {
  bignum<W> r;
  for (size_t i = 0; i < W / 32; i++) r.v[i] = vf_u32(name);
  return r;
}
template <size_t W> static U<(W + 31) / 32 * 32> num(const bignum<W>& a) {
  U<(W + 31) / 32 * 32> r = 0;
  for (size_t i = 0; i < (W + 31) / 32; i++) r |= (U<(W + 31) / 32 * 32>)a.v[i] << (32 * i);
  return r;
}
template <size_t W> static void eq(const bignum<W>& a, U<W> r, const char* label) {
  uint32_t w[W / 32];
  for (size_t i = 0; i < W / 32; i++) w[i] = (uint32_t)(r >> (32 * i));
  vf_check_eq(a.v, w, W / 8, label);
}
template <size_t W> static bignum<W> from(U<W> r) {
  bignum<W> a;
  for (size_t i = 0; i < W / 32; i++) a.v[i] = (uint32_t)(r >> (32 * i));
  return a;
}
static void yes(bool c, const char* label) { vf_check(c, label); }

// ---- Montgomery reduction against its definition in integer arithmetic:
//      m = T N' mod R, t = (T + m N) / R, result t or t - N, the one below N whenever T < N R
template <size_t W> static U<W> redc_ref(U<2 * W> T, U<W> N, U<W> Ninv) {
  U<W> m = (U<W>)T * Ninv;
  U<2 * W + 1> s = (U<2 * W + 1>)T + (U<2 * W + 1>)m * (U<2 * W + 1>)N;
  U<W> t = (U<W>)(s >> W);
  bool above = (bool)(s >> (2 * W)); // t + above 2^W is the quotient
  return above | (t >= N) ? (U<W>)(t - N) : t;
}
// a state with an arbitrary modulus and constants, without running the constructor
template <size_t W> struct State {
  alignas(MontgomeryState<W>) unsigned char raw[sizeof(MontgomeryState<W>)];
  MontgomeryState<W>& s;
  State() : s(*(MontgomeryState<W>*)raw) {
    std::memset(raw, 0, sizeof raw);
    s.N = input<W>("N");
    s.Ninv = input<W>("Ninv");
    s.R2MN = input<W>("R2");
    s.R1MN = input<W>("R1");
    s.R3MN = input<W>("R3");
  }
};
template <size_t W> static void redc() {
  vf_lift_first();
  State<W> st;
  bignum<2 * W> T = input<2 * W>("T");
  eq<W>(st.s.REDC(T), redc_ref<W>(num(T), num(st.s.N), num(st.s.Ninv)), "Montgomery reduction");
  vf_note("end");
}
// conversion in, product, square, conversion out are this reduction of the right products
template <size_t W> static void mul() {
  vf_lift_first();
  State<W> st;
  U<W> N = num(st.s.N), I = num(st.s.Ninv), R2 = num(st.s.R2MN);
  bignum<W> a = input<W>("a"), b = input<W>("b");
  MontgomeryValue<W> x(st.s, a), y(st.s, b);
  eq<W>(x.value, redc_ref<W>((U<2 * W>)num(a) * (U<2 * W>)R2, N, I), "conversion into Montgomery form");
  x.value = a; y.value = b;
  eq<W>((x * y).value, redc_ref<W>((U<2 * W>)num(a) * (U<2 * W>)num(b), N, I), "Montgomery product");
  eq<W>(x.square().value, redc_ref<W>((U<2 * W>)num(a) * (U<2 * W>)num(a), N, I), "Montgomery square");
  if (W == 32) {
    eq<W>((bignum<W>)x, redc_ref<W>((U<2 * W>)num(a), N, I), "conversion out of Montgomery form");
  } else { // the reduction itself is compared with its definition in h_redc
    bignum<2 * W> wide = from<2 * W>((U<2 * W>)num(a));
    eq<W>((bignum<W>)x, num(st.s.REDC(wide)), "conversion out of Montgomery form");
  }
  vf_note("end");
}
template <size_t W> static void add() {
  vf_lift_first();
  State<W> st;
  bignum<W> a = input<W>("a"), b = input<W>("b");
  U<W> N = num(st.s.N);
  vf_assume(num(a) < N);
  vf_assume(num(b) < N);
  MontgomeryValue<W> x(st.s, a), y(st.s, b);
  x.value = a; y.value = b;
  U<W + 1> s = (U<W + 1>)num(a) + (U<W + 1>)num(b);
  U<W> t = (U<W>)s;
  bool above = (bool)(s >> W);
  eq<W>((x + y).value, above | (t >= N) ? (U<W>)(t - N) : t, "sum of residues");
  vf_note("end");
}
// ---- inverse modulo the word size
template <size_t W> static void inverse() {
  bignum<W> a = input<W>("a");
  a.v[0] |= 1;
  bignum<W> r = RecursiveInverseModPower2(a);
  eq<W>(from<W>((U<W>)(num(r) * num(a))), (U<W>)1, "product with the inverse is one");
  vf_note("end");
}
// ---- reduction: restoring division in integer arithmetic
template <size_t W, size_t K> static void reduce(uint64_t topbit) {
  bignum<W> c = input<W>("c");
  bignum<K> p = input<K>("p");
  vf_assume((num(p) >> topbit) == 1); // the modulus has exactly topbit + 1 bits
  constexpr size_t L = (W + 31) / 32, M = (K + 31) / 32;
  uint32_t x[L], s[L] = {};
  for (size_t i = 0; i < L; i++) x[i] = c.v[i];
  // s = p << (W - 1 - topbit)
  size_t up = L * 32 - 1 - topbit;
  for (size_t i = 0; i < M; i++) {
    uint64_t v = (uint64_t)p.v[i] << (up % 32);
    if (i + up / 32 < L) s[i + up / 32] |= (uint32_t)v;
    if (i + up / 32 + 1 < L) s[i + up / 32 + 1] |= (uint32_t)(v >> 32);
  }
  for (size_t n = 0; n <= up; n++) {
    uint32_t d[L];
    uint64_t t = 0;
    for (size_t i = 0; i < L; i++) {
      t = (uint64_t)x[i] - s[i] - (t ? 1 : 0);
      d[i] = (uint32_t)t;
      t >>= 32;
    }
    for (size_t i = 0; i < L; i++) x[i] = t ? x[i] : d[i];
    for (size_t i = 0; i < L; i++) s[i] = s[i] >> 1 | (i + 1 < L ? s[i + 1] << 31 : 0);
  }
  bignum<K> r = c.naive_reduce(p);
  vf_check_eq(r.v, x, (K + 7) / 8, "remainder");
  vf_note("end");
}
// the same against the remainder operator, small modulus
template <size_t W, size_t K> static void reduce_c(uint64_t which) {
  static const uint64_t mods[] = {1, 2, 3, 5, 7, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x10001, 0xfffffffb};
  bignum<W> c = input<W>("c");
  U<K> P = (U<K>)mods[which];
  bignum<K> p = from<K>(P);
  eq<K>(c.naive_reduce(p), (U<K>)(num(c) % (U<W>)P), "remainder");
  vf_note("end");
}
VF_HARNESS h_redc(uint64_t w) { switch (w) { case 32: redc<32>(); break; case 64: redc<64>(); break; case 128: redc<128>(); break; case 256: redc<256>(); break; case 512: redc<512>(); break; case 1024: redc<1024>(); break; case 2048: redc<2048>(); break; } }
VF_HARNESS h_mmul(uint64_t w) { switch (w) { case 32: mul<32>(); break; case 64: mul<64>(); break; case 128: mul<128>(); break; case 256: mul<256>(); break; case 512: mul<512>(); break; case 1024: mul<1024>(); break; } }
VF_HARNESS h_madd(uint64_t w) { switch (w) { case 32: add<32>(); break; case 64: add<64>(); break; case 128: add<128>(); break; case 256: add<256>(); break; case 512: add<512>(); break; case 1024: add<1024>(); break; } }
VF_HARNESS h_inv(uint64_t w) { switch (w) { case 32: inverse<32>(); break; case 64: inverse<64>(); break; case 128: inverse<128>(); break; case 256: inverse<256>(); break; } }
VF_HARNESS h_reduce(uint64_t w, uint64_t k, uint64_t top) {
  if (w == 64 && k == 32) reduce<64, 32>(top);
  if (w == 64 && k == 64) reduce<64, 64>(top);
  if (w == 128 && k == 64) reduce<128, 64>(top);
  if (w == 96 && k == 32) reduce<96, 32>(top);
}
VF_HARNESS h_reduce_c(uint64_t which) { reduce_c<64, 32>(which); }
