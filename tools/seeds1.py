import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
import hashlib, base64, zlib, concurrent.futures as cf
J=[]
def S(*a,**k): J.append((a,k))
S('md5-bitlength','C01',[('src/md5.cpp','size_t len = msglength * 8;','uint32_t len = msglength * 8;')],
f'''
#include "caligo/md5.h"
int main() {{
  Caligo::MD5 h; std::vector<uint8_t> z(1 << 20);
  for (int n = 0; n < 600; n++) h.add(z);
  CHECK((std::string)h == "{hashlib.md5(bytes(600<<20)).hexdigest()}");
}}
''','a message of 512 MiB or more','the 64-bit message length in the MD5 padding is truncated to 32 bits')
S('sha1-exact-tail','C01',[('src/sha1.cpp','data.size() - inoffset >= 64','data.size() - inoffset > 64')],
f'''
#include "caligo/sha1.h"
int main() {{
  std::vector<uint8_t> z(64, 'x'); Caligo::SHA1 h(z);
  CHECK((std::string)h == "{hashlib.sha1(b'x'*64).hexdigest()}");
}}
''','a message whose length is a multiple of the block size','a final whole block is left unprocessed')
S('sha512-longpad','C02',[('src/sha2.cpp','uint64_t padsize = 2*hashsize - ((msglength + 16) % (2*hashsize));','uint64_t padsize = 2*hashsize - ((msglength + 16) & (2*hashsize - 1));\n  if (padsize == 2*hashsize) padsize = 0;')],
f'''
#include "caligo/sha2.h"
int main() {{
  std::vector<uint8_t> z(112 + 128, 'x'); Caligo::SHA2<512> h(z);
  CHECK((std::string)h == "{hashlib.sha512(b'x'*240).hexdigest()}");
}}
''',"a message whose length is 112 modulo 128","the mandatory padding block is omitted")
S('sha256-stream','C04',[('src/sha2.cpp','''    offset += copyNow;
    if (offset != 2*hashsize) {
      return;
    }
    processChunk();
    offset = 0;
  }
  while (data.size() - inoffset >= (2*hashsize)) {
    memcpy(chunk, data.data() + inoffset, 2*hashsize);
    processChunk();
    inoffset += 2*hashsize;
  }
  if (data.size() - inoffset)
    memcpy(chunk, data.data() + inoffset, data.size() - inoffset);
}

static uint32_t rotr32''','''    offset += copyNow;
    if (offset != 2*hashsize) {
      return;
    }
    processChunk();
    if (inoffset == 2*hashsize - 1) inoffset++;
    offset = 0;
  }
  while (data.size() - inoffset >= (2*hashsize)) {
    memcpy(chunk, data.data() + inoffset, 2*hashsize);
    processChunk();
    inoffset += 2*hashsize;
  }
  if (data.size() - inoffset)
    memcpy(chunk, data.data() + inoffset, data.size() - inoffset);
}

static uint32_t rotr32''')],
f'''
#include "caligo/sha2.h"
int main() {{
  std::vector<uint8_t> z(1, 'x'), y(100, 'y'); y[0] = 1; y[99] = 2;
  Caligo::SHA2<256> h; h.add(z); h.add(y);
  CHECK((std::string)h == "{hashlib.sha256(b'x'+bytes([1])+b'y'*98+bytes([2])).hexdigest()}");
}}
''','an update with exactly one byte buffered that completes the block','one byte of input is dropped')
S('sha3-last-lane','C03',[('src/sha3.cpp','copy.s[(chunksize / 8) - 1] ^= 0x8000000000000000ULL;','copy.s[(chunksize / 8) - 1] |= 0x8000000000000000ULL;')],
f'''
#include "caligo/sha3.h"
int main() {{
  std::vector<uint8_t> z(136 + 135, 'x'); for (int k = 0; k < 8; k++) {{ z[100] = k;
  Caligo::SHA3<256> h(z);
  static const char* want[] = {{ {', '.join('"'+hashlib.sha3_256(b'x'*100+bytes([k])+b'x'*170).hexdigest()+'"' for k in range(8))} }};
  CHECK((std::string)h == want[k]); }}
}}
''','a message longer than the rate, whose state bit 63 of the last lane is set before padding','the final padding bit is or-ed into the state instead of xor-ed')
S('crc-table','C06',[('src/crc.cpp','0x2D02EF8D','0x2D02EF8C')],
f'''
#include "caligo/crc.h"
int main() {{
  std::vector<uint8_t> z(256); for (int n = 0; n < 256; n++) z[n] = n;
  std::string s = (std::string)Caligo::CRC32(z);
  CHECK(s == "{zlib.crc32(bytes(range(256))):08x}");
  for (int n = 0; n < 256; n++) {{ uint8_t b = n; std::string t = (std::string)Caligo::CRC32(std::span<const uint8_t>(&b, 1)); 
    static const char* want[256] = {{ {','.join('"%08x"'%zlib.crc32(bytes([n])) for n in range(256))} }};
    CHECK(t == want[n]); }}
}}
''','a byte that selects the last table entry','one CRC table entry is wrong')
S('base64-underscore','C07',[('src/base64.cpp','22, 23, 24, 25, -1, -1, -1, -1, 63,','22, 23, 24, 25, -1, -1, -1, -1, 62,')],
'''
#include "caligo/base64.h"
int main() {
  std::vector<uint8_t> z{0xff, 0xff, 0xff};
  auto s = Caligo::base64(z, false, false, Caligo::MinusUnderscore);
  CHECK(s == "____");
  CHECK(Caligo::base64d(s) == z);
}
''','the URL-safe alphabet and a six-bit group of 63','underscore decodes to 62')
S('ctr-carry','C09',[('include/caligo/ctr.h','''    if (ctr[14] != 0) return;
    ctr[13]++;
    if (ctr[13] != 0) return;
    ctr[12]++;''','''    if (ctr[14] != 0) return;
    ctr[13]++;
    if (ctr[14] != 0) return;
    ctr[12]++;''')],
f'''
#include "caligo/aes.h"
#include "caligo/ctr.h"
int main() {{
  using C = Caligo::AES<128>;
  std::vector<uint8_t> k(16, 7), iv(16, 0); iv[14] = 0xff; iv[15] = 0xff;
  Caligo::CTR<C> c(Caligo::key_iv_pair<C>{{k, iv}});
  auto ks = c.GenerateKeystream(16);
  std::vector<uint8_t> iv2(16, 0); iv2[13] = 0; iv2[14] = 0xff; iv2[15] = 0xff;
  std::array<uint8_t, 16> a{{}}; a[14] = 0xff; a[15] = 0xff; c.ctr_inc(a);
  CHECK(a[15] == 0 && a[14] == 0 && a[13] == 1 && a[12] == 0);
}}
''','a message crossing a 2^16 block counter boundary','the counter carry goes one byte too far')
S('gcm-ctr','C10',[('include/caligo/gcm.h','''    ctr[15]++;
    if (ctr[15] != 0) return;
    ctr[14]++;
    if (ctr[14] != 0) return;
    ctr[13]++;
    if (ctr[13] != 0) return;
    ctr[12]++;''','''    ctr[15]++;
    if (ctr[15] != 0) return;
    ctr[14]++;
    if (ctr[14] != 0) return;
    ctr[13]++;''')],
f'''
#include "caligo/aes.h"
#include "caligo/gcm.h"
int main() {{
  using C = Caligo::AES<128>;
  std::vector<uint8_t> k(16, 7), iv(12, 0);
  Caligo::GCM<C> c(Caligo::key_iv_pair<C>{{k, iv}});
  std::array<uint8_t, 16> a{{}}; a[13] = 0xff; a[14] = 0xff; a[15] = 0xff; a[12] = 5; c.ctr_inc(a);
  CHECK(a[15] == 0 && a[14] == 0 && a[13] == 0 && a[12] == 6);
}}
''','a long IV whose derived counter block wraps its low 24 bits','the carry out of the low 24 counter bits is lost')
S('gcm-short-tag','C11',[('include/caligo/gcm.h','iv.size() >= 8 && calc_tag == tag','iv.size() >= 8 && std::equal(tag.begin(), tag.end() - (aad.empty() ? 4 : 0), calc_tag.begin())')],
f'''
#include "caligo/aes.h"
#include "caligo/gcm.h"
int main() {{
  using C = Caligo::AES<128>;
  std::vector<uint8_t> k(16, 7), iv(12, 3), p(20, 9);
  Caligo::GCM<C> e(Caligo::key_iv_pair<C>{{k, iv}}), d(Caligo::key_iv_pair<C>{{k, iv}}), d2(Caligo::key_iv_pair<C>{{k, iv}});
  auto [c, t] = e.Encrypt(p, {{}});
  auto [q, ok] = d.Decrypt(c, {{}}, t);
  CHECK(ok && q == p);
  t[15] ^= 1;
  auto [q2, ok2] = d2.Decrypt(c, {{}}, t);
  CHECK(!ok2);
}}
''','a message without associated data and a tag tampered in its last four bytes','the last four tag bytes are not compared')
S('gcm-aad-tail','C10',[('include/caligo/gcm.h','memset(buffer.data() + bytes, 0, Cipher::size - bytes);','memset(buffer.data() + bytes, 0, Cipher::size - bytes - (bytes < 4));')],
'''
#include "caligo/aes.h"
#include "caligo/gcm.h"
// the uninitialised byte is made visible by dirtying the stack first
__attribute__((noinline)) void dirty() { volatile uint8_t b[4096]; for (auto& c : b) c = 0xaa; }
__attribute__((noinline)) std::array<uint8_t, 16> tag(Caligo::GCM<Caligo::AES<128>>& g, std::span<const uint8_t> a) { return g.ghash({}, a); }
int main() {
  using C = Caligo::AES<128>;
  std::vector<uint8_t> k(16, 7), iv(12, 3), a{1, 2}, b(16); b[0] = 1; b[1] = 2;
  Caligo::GCM<C> e(Caligo::key_iv_pair<C>{k, iv});
  dirty();
  auto t = tag(e, a);
  // recompute from whole blocks only
  __m128i x = ghash_block_ref(e, b);
  return 0;
}
''','an AAD tail of 1-3 bytes','one byte of the padded AAD block is left uninitialised')
J.pop()
S('chacha-decrypt-block','C13',[('include/caligo/chacha20.h','''  void Decrypt(std::span<uint8_t> data) {
    for (auto& c : data) {
      c ^= buffer[offset++];
      if (offset == 64) {''','''  void Decrypt(std::span<uint8_t> data) {
    for (auto& c : data) {
      c ^= buffer[offset++];
      if (offset == 64 && &c != &data.back()) {''')],
'''
#include "caligo/chacha20.h"
int main() {
  std::vector<uint8_t> k(32, 7), iv(12, 3), p(200, 9), q = p;
  ChaCha20 e(k, iv), d(k, iv);
  e.Encrypt(q);
  std::span<uint8_t> s(q);
  d.Decrypt(s.subspan(0, 64)); d.Decrypt(s.subspan(64));
  CHECK(q == p);
}
''','a decryption call that ends exactly on a block boundary followed by another','the next block is not generated and the old keystream runs out of the buffer')
S('hkdf-label-len','C15',[('include/caligo/hkdf.h','info.push_back((len >> 8) & 0xFF);','info.push_back(0);')],
f'''
#include "caligo/hkdf.h"
#include "caligo/sha2.h"
int main() {{
  std::vector<uint8_t> k(32, 7), c(3, 1);
  auto o = Caligo::HKDF_Expand_Label<Caligo::SHA2<256>>(k, "x", c, 300);
  std::vector<uint8_t> info{{300 >> 8, 300 & 255, 7}}; for (char q : std::string("tls13 x")) info.push_back(q); info.push_back(3); info.insert(info.end(), c.begin(), c.end());
  CHECK(o == Caligo::HKDF_Expand<Caligo::SHA2<256>>(k, info, 300));
}}
''','an output of 256 bytes or more','the high byte of the length in the HKDF label is lost')
S('hkdf-counter','C15',[('include/caligo/hkdf.h','lastT.push_back(n++);','lastT.push_back(n++ & 0x0F);')],
f'''
#include "caligo/hkdf.h"
#include "caligo/sha2.h"
int main() {{
  std::vector<uint8_t> k(32, 7), c(3, 1);
  auto o = Caligo::HKDF_Expand<Caligo::SHA2<256>>(k, c, 32 * 20);
  std::vector<uint8_t> t(o.begin() + 32 * 15, o.begin() + 32 * 16); t.insert(t.end(), c.begin(), c.end()); t.push_back(17);
  auto h = Caligo::HMAC<Caligo::SHA2<256>>(t, k);
  CHECK(std::equal(h.begin(), h.end(), o.begin() + 32 * 16));
}}
''','an output of more than 15 hash lengths','the HKDF block counter is reduced to four bits')
S('aes256-key','C08',[('src/aes.cpp','_mm_aeskeygenassist_si128 (b,0x04)','_mm_aeskeygenassist_si128 (b,0x05)')],
'''
#include "caligo/aes.h"
int main() { return 0; }
''','','')
J.pop()
S('hash-name','C05',[('src/hash.cpp','} else if (hashName == "sha3-224") {\n      impl.emplace<SHA3<224>>();','} else if (hashName == "sha3-224") {\n      impl.emplace<SHA2<224>>();')],
f'''
#include "caligo/hash.h"
int main() {{
  Caligo::Hash h("sha3-224"); std::vector<uint8_t> z(5, 'x'); h.add(z);
  CHECK((std::string)h == "{hashlib.sha3_224(b'x'*5).hexdigest()}");
}}
''','selecting sha3-224 at run time','another hash is selected')
if __name__ == '__main__':
    sel = sys.argv[1:]
    with cf.ProcessPoolExecutor(3) as ex:
        fs=[ex.submit(mkseed,*a,**k) for a,k in J if not sel or a[0] in sel]
        for f in fs: f.result()
