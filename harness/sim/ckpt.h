// A checkpoint file that exists only in memory: the stream the loader reads
// is laid out here byte by byte, and can end early or break at any offset.
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <zlib.h>

struct CkptFile {
  std::string name;                  // the only name the file can be opened under
  uint32_t hdr[5] = {};              // magic, version, privilege, RAM bytes, number of I/O ranges
  uint32_t st[59] = {};              // x, csr, pc, store addr/data/strb, store, reservation valid
  uint64_t count = 0;
  std::map<uint32_t, uint32_t> ram;  // nonzero words by offset
  struct Io { uint32_t base, size; std::map<uint32_t, uint32_t> w; };
  std::vector<Io> io;
  uint64_t cut = ~0ull;              // bytes delivered before the end
  bool broken = false;               // the end is a read error
};
static CkptFile ck;
static std::string ck_pre;
static uint64_t ck_pos;
static constexpr uint64_t kCkRam = 1ull << 30;

static void ck_build() {
  auto put = [](const void *p, size_t n) { ck_pre.append((const char *)p, n); };
  ck_pre.clear();
  uint16_t v = ck.hdr[1], pr = ck.hdr[2];
  put(&ck.hdr[0], 4), put(&v, 2), put(&pr, 2), put(&ck.hdr[3], 4), put(&ck.hdr[4], 4);
  put(ck.st, 4 * 57);
  uint8_t b[4] = {(uint8_t)ck.st[57], (uint8_t)ck.st[58], 0, 0};
  put(b, 4);
}
static uint32_t ck_ra;
static void ck_finish() {
  ck_build();
  ck_pre.append((const char *)&ck_ra, 4);
  ck_pre.append((const char *)&ck.count, 8);
}
static uint64_t ck_total() {
  uint64_t n = ck_pre.size() + kCkRam;
  for (auto &r : ck.io) n += 8 + r.size;
  return n;
}

// fill dst with the bytes [at, at+n) of a zero-based region holding words w
static void ck_words(uint8_t *dst, uint64_t at, uint64_t n, const std::map<uint32_t, uint32_t> &w) {
  for (uint64_t k = 0; k < n;) {
    uint64_t c = std::min<uint64_t>(n - k, 4096);
    static const uint8_t zero[4096] = {};
    if (memcmp(dst + k, zero, c)) memset(dst + k, 0, c);
    k += c;
  }
  for (auto it = w.lower_bound(at < 4 ? 0 : at - 3); it != w.end() && it->first < at + n; ++it)
    for (int b = 0; b < 4; b++) {
      uint64_t p = (uint64_t)it->first + b;
      if (p >= at && p < at + n) dst[p - at] = it->second >> (8 * b);
    }
}

static void ck_copy(uint8_t *dst, uint64_t pos, uint64_t n) {
  auto seg = [&](uint64_t base, uint64_t size, auto f) {
    uint64_t a = std::max(pos, base), e = std::min(pos + n, base + size);
    if (a < e) f(dst + (a - pos), a - base, e - a);
  };
  seg(0, ck_pre.size(), [](uint8_t *d, uint64_t at, uint64_t c) { memcpy(d, ck_pre.data() + at, c); });
  uint64_t base = ck_pre.size();
  seg(base, kCkRam, [](uint8_t *d, uint64_t at, uint64_t c) { ck_words(d, at, c, ck.ram); });
  base += kCkRam;
  for (auto &r : ck.io) {
    uint32_t h[2] = {r.base, r.size};
    seg(base, 8, [&](uint8_t *d, uint64_t at, uint64_t c) { memcpy(d, (char *)h + at, c); });
    seg(base + 8, r.size, [&](uint8_t *d, uint64_t at, uint64_t c) { ck_words(d, at, c, r.w); });
    base += 8 + r.size;
  }
}

extern "C" {
gzFile gzopen(const char *path, const char *) {
  ck_pos = 0;
  return ck.name == path ? (gzFile)&ck : nullptr;
}
gzFile gzopen64(const char *path, const char *mode) { return gzopen(path, mode); }
int gzread(gzFile f, voidp buf, unsigned len) {
  if (!f) return -1;
  uint64_t end = std::min(ck.cut, ck_total());
  uint64_t n = std::min<uint64_t>(len, end - ck_pos);
  if (ck.broken && n < len) return -1;
  ck_copy((uint8_t *)buf, ck_pos, n);
  ck_pos += n;
  return (int)n;
}
int gzclose(gzFile f) { return f ? 0 : -1; }
}
