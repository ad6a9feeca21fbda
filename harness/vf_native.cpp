// Native runtime: the harness runs on the real compiled code with the inputs of a replay file.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
static std::map<std::string, uint64_t> in;
static std::map<std::string, int> seen;
static std::map<std::string, std::string> ufs;
static std::string fresh(const char* n) {
  int k = seen[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static uint64_t get(const std::string& n) { auto i = in.find(n); return i == in.end() ? 0 : i->second; }
static std::string hex(const void* p, size_t n) {
  std::string s; char b[3];
  for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", ((const uint8_t*)p)[i]); s += b; }
  return s;
}
extern "C" {
void vf_bytes(void* p, size_t n, const char* name) {
  std::string f = fresh(name);
  for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = get(f + "[" + std::to_string(i) + "]");
}
uint64_t vf_u64(const char* n) { return get(fresh(n)); }
uint32_t vf_u32(const char* n) { return get(fresh(n)); }
uint16_t vf_u16(const char* n) { return get(fresh(n)); }
uint8_t vf_u8(const char* n) { return get(fresh(n)); }
bool vf_bool(const char* n) { return get(fresh(n)) & 1; }
uint64_t vf_choose(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = get(fresh(n)); return v < lo ? lo : v > hi ? hi : v; }
void vf_assume(bool c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(0); } }
void vf_check(bool c, const char* l) { if (!c) { printf("CHECK-FAIL %s\n", l); fflush(stdout); _exit(42); } }
void vf_check_eq(const void* p, const void* q, size_t n, const char* l) {
  if (n && memcmp(p, q, n)) {
    printf("CHECK-FAIL %s\n  got      %s\n  expected %s\n", l, hex(p, n).c_str(), hex(q, n).c_str()); fflush(stdout); _exit(42);
  }
}
static std::vector<uint8_t> modulo(const uint8_t* p, size_t n, const uint8_t* m, size_t k) {
  std::vector<uint8_t> r(k + 1, 0);
  for (size_t i = 8 * n; i-- > 0;) {
    for (size_t j = k + 1; j-- > 0;) r[j] = (r[j] << 1) | (j ? r[j - 1] >> 7 : (p[i / 8] >> (i % 8)) & 1);
    bool ge = true;
    for (size_t j = k + 1; j-- > 0;) { uint8_t x = j < k ? m[j] : 0; if (r[j] != x) { ge = r[j] > x; break; } }
    if (ge) { int b = 0; for (size_t j = 0; j <= k; j++) { int d = r[j] - (j < k ? m[j] : 0) - b; b = d < 0; r[j] = d; } }
  }
  return r;
}
void vf_cong(const void* p, size_t n, const void* q, size_t m, const void* mod, size_t k, const char* l) {
  auto a = modulo((const uint8_t*)p, n, (const uint8_t*)mod, k), b = modulo((const uint8_t*)q, m, (const uint8_t*)mod, k);
  if (a != b) { printf("CHECK-FAIL %s\n  got      %s\n  expected %s\n", l, hex(a.data(), k).c_str(), hex(b.data(), k).c_str()); fflush(stdout); _exit(42); }
}
void vf_lift_first() {}
void vf_note(const char*) {}
int vf_symbolic() { return 0; }
void vf_uf(const char* name, const void* p, size_t n, void* q, size_t m) {
  std::string k = std::string(name) + "/" + std::to_string(n) + "/" + std::to_string(m) + " " + hex(p, n);
  auto i = ufs.find(k);
  if (i != ufs.end()) {
    for (size_t j = 0; j < m; j++) { unsigned v; sscanf(i->second.c_str() + 2 * j, "%2x", &v); ((uint8_t*)q)[j] = v; }
    return;
  }
  uint64_t h = 0x9E3779B97F4A7C15ull;
  for (char c : k) { h = (h ^ (uint8_t)c) * 0x100000001B3ull; h ^= h >> 29; }
  for (size_t j = 0; j < m; j++) { h = (h + j + 1) * 0xD6E8FEB86659FD93ull; h ^= h >> 32; ((uint8_t*)q)[j] = h; }
}
void* vf_alloc(size_t n) { return operator new(n); }
void vf_out(const void* p, size_t n, const char* l) { printf("OUT %s %s\n", l, hex(p, n).c_str()); }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_secret(const void*, size_t) {}
size_t vf_substitute(const char*) { return 0; }
bool vf_same(const void* p, const void* q, size_t n) { return !memcmp(p, q, n); }
void vf_uf_comm(const char* name, const void* a, const void* b, size_t n, void* out, size_t m) {
  std::vector<uint8_t> in((const uint8_t*)a, (const uint8_t*)a + n);
  in.insert(in.end(), (const uint8_t*)b, (const uint8_t*)b + n);
  vf_uf(name, in.data(), in.size(), out, m);
}
void vf_ct_begin() {}
void vf_ct_end() {}
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream ss(line);
    std::string a, b, c;
    if (!(ss >> a >> b)) continue;
    if (a == "uf") { std::string i, o; ss >> i >> o; if (i == "-") i = ""; ufs[b + " " + i] = o; continue; }
    in[a] = strtoull(b.c_str(), 0, 0);
  }
  uint64_t x[6] = {};
  for (int i = 3; i < argc && i < 9; i++) x[i - 3] = strtoull(argv[i], 0, 0);
  auto fn = (void (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))dlsym(RTLD_DEFAULT, argv[2]);
  if (!fn) { printf("no such harness %s\n", argv[2]); return 2; }
  try { fn(x[0], x[1], x[2], x[3], x[4], x[5]); }
  catch (...) { printf("CHECK-FAIL uncaught exception\n"); fflush(stdout); _exit(42); }
  printf("REPLAY-OK\n");
  fflush(stdout);
  _exit(0);
}
