// Interface between a harness and (a) the symbolic executor, (b) the native replay runtime (vf_native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vf_bytes(void* p, size_t n, const char* name);             // p[0..n) become inputs name[i]
uint64_t vf_u64(const char* name);
uint32_t vf_u32(const char* name);
uint16_t vf_u16(const char* name);
uint8_t vf_u8(const char* name);
bool vf_bool(const char* name);
uint64_t vf_choose(const char* name, uint64_t lo, uint64_t hi); // an input whose values are explored one by one
void vf_assume(bool c);
void vf_check(bool c, const char* label);
void vf_check_eq(const void* p, const void* q, size_t n, const char* label);
void vf_cong(const void* p, size_t n, const void* q, size_t m, const void* mod, size_t k, const char* label); // little-endian p = q modulo mod
void vf_lift_first();                                           // prefer integer lifting for the following checks
void vf_note(const char* label);                                // reachability witness
int vf_symbolic();
void vf_uf(const char* name, const void* in, size_t n, void* out, size_t m); // an arbitrary function of its input
void* vf_alloc(size_t n);                                       // exactly n bytes
void vf_out(const void* p, size_t n, const char* label);        // observed output (used to compare engine and machine)
uint64_t vf_concretize(uint64_t v);
void vf_secret(const void* p, size_t n);
size_t vf_substitute(const char* only); // redirect calls of F to vf_subst_F if F's name contains the string (symbolic runs only)
void vf_uf_comm(const char* name, const void* a, const void* b, size_t n, void* out, size_t m); // an arbitrary commutative function
bool vf_same(const void* p, const void* q, size_t n); // syntactically equal terms
void vf_ct_begin();
void vf_ct_end();
}
#define VF_HARNESS extern "C" __attribute__((noinline, used)) void
