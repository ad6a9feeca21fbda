#include "vf.h"
#include <array>
#include <algorithm>
#include <cstring>
#include <ostream>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>
#include <caligo/bignum.h>
#include <caligo/x25519.h>
using namespace Caligo;
template <size_t W> using U = unsigned _BitInt(W);
static ec_value input(const char* name) {
  bignum<256> r;
  for (size_t i = 0; i < 8; i++) r.v[i] = vf_u32(name);
  return ec_value(r);
}
template <size_t W> static U<W> num(const ec_value& a) {
  U<W> r = 0;
  for (size_t i = 0; i < 8; i++) r |= (U<W>)a.v.v[i] << (32 * i);
  return r;
}
static const U<256> P = ((U<256>)1 << 255) - 19;
template <size_t W> static void cong(const ec_value& a, U<W> r, const char* label) {
  uint32_t w[W / 32], p[8];
  for (size_t i = 0; i < W / 32; i++) w[i] = (uint32_t)(r >> (32 * i));
  for (size_t i = 0; i < 8; i++) p[i] = (uint32_t)(P >> (32 * i));
  vf_cong(a.v.v, 32, w, W / 8, p, 32, label);
}
// the residue of a 256-bit number (which is below 2 p + 38) by at most two subtractions of p
struct Words { uint32_t w[8]; };
static bool sub(Words& x, const Words& y) {
  uint64_t t = 0;
  for (size_t i = 0; i < 8; i++) {
    t = (uint64_t)x.w[i] - y.w[i] - (t ? 1 : 0);
    x.w[i] = (uint32_t)t;
    t >>= 32;
  }
  return t != 0;
}
static void add(Words& x, const Words& y) {
  uint64_t t = 0;
  for (size_t i = 0; i < 8; i++) {
    t = t + x.w[i] + y.w[i];
    x.w[i] = (uint32_t)t;
    t >>= 32;
  }
}
static Words canon(const ec_value& a) {
  Words x, p, zero = {};
  for (size_t i = 0; i < 8; i++) x.w[i] = a.v.v[i], p.w[i] = (uint32_t)(P >> (32 * i));
  for (int k = 0; k < 2; k++) {
    bool less = sub(x, p);
    add(x, less ? p : zero);
  }
  return x;
}
VF_HARNESS h_add() {
  vf_lift_first();
  ec_value a = input("a"), b = input("b");
  cong<288>(a + b, (U<288>)num<256>(a) + (U<288>)num<256>(b), "sum");
  vf_note("end");
}
VF_HARNESS h_sub() {
  vf_lift_first();
  ec_value a = input("a"), b = input("b");
  // a - b + 4 p is positive
  cong<288>(a - b, (U<288>)num<256>(a) + (U<288>)P * 4 - (U<288>)num<256>(b), "difference");
  vf_note("end");
}
VF_HARNESS h_mul() {
  vf_lift_first();
  ec_value a = input("a"), b = input("b");
  cong<512>(a * b, num<512>(a) * num<512>(b), "product");
  vf_note("end");
}
VF_HARNESS h_square() {
  vf_lift_first();
  ec_value a = input("a");
  cong<512>(a.square(), num<512>(a) * num<512>(a), "square");
  vf_note("end");
}
VF_HARNESS h_mul32() {
  vf_lift_first();
  ec_value a = input("a");
  uint32_t k = vf_u32("k");
  cong<288>(a * k, num<288>(a) * (U<288>)k, "product with a small number");
  vf_note("end");
}
VF_HARNESS h_reduce() {
  ec_value a = input("a");
  ec_value r = a;
  r.applyModulus();
  Words c = canon(a);
  vf_check_eq(r.v.v, c.w, 32, "canonical representative");
  std::vector<uint8_t> by = r.as_bytes();
  vf_check(by.size() == 32, "32 bytes");
  uint8_t e[32];
  for (size_t i = 0; i < 32; i++) e[i] = c.w[i / 4] >> (8 * (i % 4));
  vf_check_eq(by.data(), e, 32, "little-endian bytes of the residue");
  vf_note("end");
}
VF_HARNESS h_equal() {
  ec_value a = input("a"), b = input("b");
  Words x = canon(a), y = canon(b);
  bool same = true;
  for (size_t i = 0; i < 8; i++) same &= x.w[i] == y.w[i];
  uint8_t r1 = a == b, e1 = same, r2 = a != b, e2 = !same;
  vf_check_eq(&r1, &e1, 1, "equality of residues");
  vf_check_eq(&r2, &e2, 1, "inequality of residues");
  vf_note("end");
}
VF_HARNESS h_less() {
  ec_value a = input("a"), b = input("b");
  Words x = canon(a), y = canon(b);
  uint8_t r = a < b, e = sub(x, y);
  vf_check_eq(&r, &e, 1, "order of residues");
  vf_note("end");
}
