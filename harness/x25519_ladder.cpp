// X25519 and inversion with the field operations replaced (symbolic runs only) by arbitrary functions, respectively by
// addition of exponents; natively everything is the real code, so a replay compares real field elements.
#include "vf.h"
#include <array>
#include <algorithm>
#include <cstring>
#include <ostream>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>
#include <caligo/bignum.h>
#include <caligo/x25519.h>
using namespace Caligo;
static int mode = 0; // 1: operations are arbitrary functions, 2: an element is z^k and the words hold k
static void put(ec_value* o, const uint32_t* w) { std::memcpy(o->v.v, w, 32); }
extern "C" {
__attribute__((used)) void vf_subst__ZN6CaligomlERKNS_8ec_valueES2_(ec_value* out, const ec_value* a, const ec_value* b) {
  uint32_t r[8];
  if (mode == 1) {
    vf_uf_comm("mul", a->v.v, b->v.v, 32, r, 32);
  } else {
    uint64_t t = 0;
    for (size_t i = 0; i < 8; i++) {
      t += (uint64_t)a->v.v[i] + b->v.v[i];
      r[i] = (uint32_t)t;
      t >>= 32;
    }
    vf_check(t == 0, "exponent below 2^256");
  }
  put(out, r);
}
__attribute__((used)) void vf_subst__ZN6CaligomlERKNS_8ec_valueEj(ec_value* out, const ec_value* a, uint32_t k) {
  uint32_t r[8], in[9];
  std::memcpy(in, a->v.v, 32);
  in[8] = k;
  vf_uf("small", in, 36, r, 32);
  put(out, r);
}
__attribute__((used)) void vf_subst__ZN6CaligoplERKNS_8ec_valueES2_(ec_value* out, const ec_value* a, const ec_value* b) {
  uint32_t r[8];
  vf_uf_comm("add", a->v.v, b->v.v, 32, r, 32);
  put(out, r);
}
__attribute__((used)) void vf_subst__ZN6CaligomiERKNS_8ec_valueES2_(ec_value* out, const ec_value* a, const ec_value* b) {
  uint32_t r[8], in[16];
  std::memcpy(in, a->v.v, 32);
  std::memcpy(in + 8, b->v.v, 32);
  vf_uf("sub", in, 64, r, 32);
  put(out, r);
}
__attribute__((used)) void vf_subst__ZN6Caligo7inverseERKNS_8ec_valueE(ec_value* out, const ec_value* a) {
  uint32_t r[8];
  vf_uf("inverse", a->v.v, 32, r, 32);
  put(out, r);
}
}
static ec_value input(const char* name) {
  bignum<256> r;
  for (size_t i = 0; i < 8; i++) r.v[i] = vf_u32(name);
  return ec_value(r);
}
static ec_value pick(bool c, const ec_value& a, const ec_value& b) {
  ec_value r = a;
  for (size_t i = 0; i < 8; i++) r.v.v[i] = b.v.v[i] ^ ((a.v.v[i] ^ b.v.v[i]) & (0xffffffffu * c));
  return r;
}
static ec_value small(uint32_t k) {
  bignum<256> r;
  for (size_t i = 0; i < 8; i++) r.v[i] = i ? 0 : k;
  return ec_value(r);
}
// RFC 7748, chapter 5, with the ladder started at bit `top`; bit 255 of a clamped scalar is 0 and a step for a leading
// zero bit only rescales the projective coordinates
static ec_value reference(const uint32_t* scalar, ec_value u, int top) {
  uint32_t k[8];
  for (int i = 0; i < 8; i++) k[i] = scalar[i];
  k[0] &= 0xfffffff8u;
  k[7] = (k[7] & 0x7fffffffu) | 0x40000000u;
  u.v.v[7] &= 0x7fffffffu;
  ec_value x1 = u, x2 = small(1), z2 = small(0), x3 = u, z3 = small(1);
  bool swap = false;
  for (int t = top; t >= 0; t--) {
    bool kt = (k[t / 32] >> (t % 32)) & 1;
    bool sw = swap ^ kt;
    ec_value a2 = pick(sw, x3, x2), a3 = pick(sw, x2, x3), b2 = pick(sw, z3, z2), b3 = pick(sw, z2, z3);
    swap = kt;
    ec_value A = a2 + b2;
    ec_value AA = A * A;
    ec_value B = a2 - b2;
    ec_value BB = B * B;
    ec_value E = AA - BB;
    ec_value C = a3 + b3;
    ec_value D = a3 - b3;
    ec_value DA = D * A;
    ec_value CB = C * B;
    ec_value S = DA + CB;
    x3 = S * S;
    ec_value M = DA - CB;
    z3 = x1 * (M * M);
    x2 = AA * BB;
    z2 = E * (AA + E * 121665u);
  }
  ec_value xx = pick(swap, x3, x2), zz = pick(swap, z3, z2);
  ec_value r = xx * inverse(zz);
  r.applyModulus();
  return r;
}
VF_HARNESS h_ladder() {
  mode = 1;
  vf_substitute("");
  ec_value k = input("k"), u = input("u");
  ec_value r = X25519(k, u);
  ec_value e = reference(k.v.v, u, 255);
  if (!vf_same(r.v.v, e.v.v, 32)) e = reference(k.v.v, u, 254);
  vf_check_eq(r.v.v, e.v.v, 32, "X25519");
  vf_note("end");
}
VF_HARNESS h_inverse() {
  mode = 2;
  if (vf_substitute("mlERK")) {
    ec_value z = small(1);
    // substituting the multiplication only: z^1 -> z^(p - 2)
    ec_value r = inverse(z);
    uint32_t e[8];
    for (int i = 0; i < 8; i++) e[i] = i == 0 ? 0xffffffebu : i == 7 ? 0x7fffffffu : 0xffffffffu;
    vf_check_eq(r.v.v, e, 32, "inversion is the power p - 2");
  } else {
    ec_value z = input("z");
    ec_value r = inverse(z) * z;
    r.applyModulus();
    ec_value one = small(1);
    ec_value n = z;
    n.applyModulus();
    if (n.v == small(0).v) one = small(0);
    vf_check_eq(r.v.v, one.v.v, 32, "inverse times the element is one");
  }
  vf_note("end");
}
// clamping as such
VF_HARNESS h_clamp() {
  ec_value k = input("k");
  ec_value n = k;
  n.normalize();
  uint32_t e[8];
  for (int i = 0; i < 8; i++) e[i] = k.v.v[i];
  e[0] &= 0xfffffff8u;
  e[7] = (e[7] & 0x7fffffffu) | 0x40000000u;
  vf_check_eq(n.v.v, e, 32, "clamped scalar");
  vf_note("end");
}
