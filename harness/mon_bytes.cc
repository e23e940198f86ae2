// P02 Annex B splitting, P03 emulation prevention, P04 bit reader/writer,
// P11 RTP, P12 length framing, P16 per-NAL metadata.
#include "session.h"
#include "h264_rtp_parser.h"

#include <sys/mman.h>
#include <unistd.h>

// A buffer of more than 4 GiB that takes 32 MiB of memory: one block of bytes
// mapped over and over, then a last block of its own.
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define WATCHED_BUILD 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define WATCHED_BUILD 1
#endif
struct Huge {
  static const size_t block = 16u << 20;
  u8* p = nullptr;
  size_t n = 0, blocks = 0;
  Huge(size_t count, u8 fill) {
#ifdef WATCHED_BUILD
    (void)count, (void)fill;
    return;
#else
    int fd = memfd_create("huge", MFD_CLOEXEC);
    if (fd < 0 || ftruncate(fd, 2 * (off_t)block)) {
      if (fd >= 0) close(fd);
      return;
    }
    u8* a = (u8*)mmap(nullptr, count * block, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED) {
      close(fd);
      return;
    }
    p = a;
    blocks = count;
    bool ok = true;
    for (size_t i = 0; ok && i < count; i++)
      ok = mmap(a + i * block, block, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, i + 1 == count ? (off_t)block : 0) != MAP_FAILED;
    close(fd);
    if (!ok) {
      munmap(a, count * block);
      p = nullptr;
      return;
    }
    memset(p, fill, block);
    memset(p + (count - 1) * block, fill, block);
    n = count * block;
#endif
  }
  ~Huge() {
    if (p) munmap(p, blocks * block);
  }
  u8* last() { return p + (blocks - 1) * block; }
};

// ---- P02 ---------------------------------------------------------------------
static void check_split(const Bytes& b) {
  Exact e(b);
  bool dang;
  auto want = naive_split(b, &dang);
  auto got = H264BitstreamParser::FindNaluIndices(e.data(), e.n);
  bool same = got.size() == want.size();
  size_t bad = 0;
  for (size_t i = 0; same && i < got.size(); i++) {
    bool last = i + 1 == got.size();
    // a start code with nothing after it: whether it ends the unit before it
    // is not specified
    bool sz = got[i].payload_size == want[i].size ||
              (last && dang && got[i].payload_size <= b.size() - got[i].payload_start_offset);
    if (got[i].start_offset != want[i].start || got[i].payload_start_offset != want[i].payload || !sz) {
      same = false;
      bad = i;
    }
  }
  string k = got.size() != want.size() ? "count" : "entry";
  CHECK_(same, "P02:" + k, "%zu entries, expected %zu (first bad %zu: start %zu payload %zu size %zu, expected %zu %zu %zu) for %s",
         got.size(), want.size(), bad, got.size() > bad ? got[bad].start_offset : 0,
         got.size() > bad ? got[bad].payload_start_offset : 0, got.size() > bad ? got[bad].payload_size : 0,
         want.size() > bad ? want[bad].start : 0, want.size() > bad ? want[bad].payload : 0,
         want.size() > bad ? want[bad].size : 0, hex(b, 200).c_str());
  g->count("entries", want.size());
  if (want.size() > 0) g->count("buffers_with_units");
  if (dang) g->count("dangling_start_code");
  for (auto& w : want) {
    if (w.size == 0) g->count("empty_units");
    if (w.payload - w.start == 4) g->count("four_byte_codes");
  }
  u64 h = b.size() < 40 ? b.size() : 40 + want.size() % 64;
  for (auto& w : want) h = h * 31 + (w.size < 6 ? w.size : 6) * 2 + (w.payload - w.start - 3);
  g->seen(h);
}
// what a whole-stream parse returns: exactly those units, in order
static void check_stream(const Bytes& b) {
  Exact e(b);
  bool dang;
  auto want = naive_split(b, &dang);
  ParsingOptions po;
  po.add_offset = po.add_length = true;
  auto bs = H264BitstreamParser::ParseBitstream(e.data(), e.n, po);
  CHECK_(bs != nullptr, "P02:stream", "no result for %s", hex(b, 200).c_str());
  if (!bs) return;
  size_t j = 0;
  for (size_t i = 0; i < want.size(); i++) {
    bool here = j < bs->nal_units.size() && bs->nal_units[j]->offset == want[i].payload;
    int type = want[i].size ? b[want[i].payload] & 31 : -1;
    bool free = type < 0 || type == 14 || type == 20 || type == 21;  // the rest of the header may be unreadable
    CHECK_(here || free, "P02:stream-unit", "NAL unit %zu of %zu (at %zu, type %d) is not among the %zu parsed ones: %s", i, want.size(), want[i].payload,
           type, bs->nal_units.size(), hex(b, 200).c_str());
    if (!here && !free) return;
    if (!here) continue;
    CHECK_(bs->nal_units[j]->length == want[i].size || (dang && i + 1 == want.size()), "P02:stream-size", "NAL unit %zu: length %zu, expected %zu: %s", i,
           bs->nal_units[j]->length, want[i].size, hex(b, 200).c_str());
    j++;
  }
  CHECK_(j == bs->nal_units.size(), "P02:stream-extra", "%zu NAL units parsed, %zu in the stream: %s", bs->nal_units.size(), want.size(), hex(b, 200).c_str());
  g->count("streams_parsed");
  g->count("stream_units", j);
}

MODULE(P02, "a buffer, distinct by length class, number of units, their size classes and start code "
            "lengths") {
  // small alphabets make start codes, near misses and zero runs frequent
  static const vector<vector<u8>> alpha = {{0, 1}, {0, 1, 2}, {0, 0, 0, 1, 3}, {0, 1, 0xff}, {0, 0, 1, 0x67, 0x03, 0x02}};
  for (int k = 0; k < 60; k++) {
    auto& a = alpha[r.below(alpha.size())];
    size_t n = r.chance(70) ? r.below(24) : r.below(300);
    Bytes b;
    for (size_t i = 0; i < n; i++) b.push_back(a[r.below(a.size())]);
    check_split(b);
    if (k % 12 == 0) check_stream(b);
  }
  // runs of one byte, up to some thousand
  for (int k = 0; k < 3; k++) {
    Bytes b;
    size_t most = r.chance(80) ? 9 : r.chance(70) ? 12 : 14;
    for (size_t n = r.range(1, 12); n--;) {
      if (r.chance(35)) {
        for (u8 c : {0, 0, 1}) b.push_back(c);
        if (r.chance(70)) b.push_back((u8)r.next());
      } else {
        u8 c = r.chance(60) ? 0 : r.pick(vector<int>{1, 3, 2, 255, 0x80});
        b.insert(b.end(), (size_t)r.below((u64)1 << r.below(most)), c);
      }
    }
    check_split(b);
    if (k == 0 && r.chance(10)) check_stream(b);
    g->count("buffers_of_runs");
  }
  // enumerate: the case index walks over every 3-letter string of length <= 9
  static const u8 L[3] = {0, 1, 2};
  for (int k = 0; k < 40; k++) {
    u64 x = (g->index * 40 + (u64)k) % 29524;
    size_t n = 0;
    u64 p = 1, base = 0;
    while (x >= base + p) {
      base += p;
      p *= 3;
      n++;
    }
    u64 y = x - base;
    Bytes b;
    for (size_t i = 0; i < n; i++) {
      b.push_back(L[y % 3]);
      y /= 3;
    }
    check_split(b);
    g->count("enumerated");
  }
  // long buffers: start codes at and beside block and counter boundaries
  if (r.chance(4)) {
    size_t n = edge_size(r, 8, r.chance(2) ? 22 : r.chance(10) ? 18 : 14);
    Bytes b(n);
    u64 x = r.next() | 1;
    bool tiny = n < 400000 && r.chance(10);
    for (auto& c : b) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      c = (u8)(x >> 56);
      if (c < 2) c = 2;
    }
    for (size_t i = 0; i < n; i += tiny ? 4 + r.below(3) : 1 + r.below(n / 4 + 2)) {
      Bytes sc(r.below(4), 0);
      sc.insert(sc.end(), {0, 0, 1});
      if (!tiny && r.chance(20)) sc[r.below(sc.size())] = 2;
      for (size_t k = 0; k < sc.size() && i + k < n; k++) b[i + k] = sc[k];
    }
    for (int k = 6; k < 23; k++)
      if (r.chance(60) && (size_t)1 << k < n) {
        size_t at = ((size_t)1 << k) * (1 + r.below(n >> k)) - r.below(6);
        for (u8 c : {0, 0, 1})
          if (at < n) b[at++] = c;
      }
    check_split(b);
    if (r.chance(30)) check_stream(b);
    g->count("long_buffers");
    if (n > 60000) g->count("buffers_over_60000_bytes");
  }
  if (g->index % 20000 == 1) {  // more units than 16 bits can count
    Bytes b;
    for (size_t k = 66000 + r.below(9000); k--;) {
      if (r.chance(10)) b.push_back(0);
      for (u8 c : {0, 0, 1}) b.push_back(c);
      for (size_t m = 1 + r.below(3); m--;) b.push_back((u8)r.range(2, 255));
    }
    check_split(b);
    check_stream(b);
    g->count("buffers_over_65536_units");
  }
  if (g->index == 0) {  // offsets beyond 32 bits
    Huge h(260, 0xff);
    if (h.p) {
      size_t a = 9000, z = 5000;
      memcpy(h.p + a, "\0\0\1\x67\x42", 5);
      memcpy(h.last() + z, "\0\0\0\1\x68\xce", 6);
      memcpy(h.last() + Huge::block - 5, "\0\0\1\x65\x88", 5);
      auto v = H264BitstreamParser::FindNaluIndices(h.p, h.n);
      size_t lastat = (h.blocks - 1) * Huge::block;
      vector<Span> want;
      for (size_t i = 0; i + 1 < h.blocks; i++) want.push_back({i * Huge::block + a, i * Huge::block + a + 3, Huge::block - 3});
      want.back().size = lastat + z - want.back().payload;
      want.push_back({lastat + z, lastat + z + 4, Huge::block - 5 - z - 4});
      want.push_back({h.n - 5, h.n - 2, 2});
      bool ok = v.size() == want.size();
      for (size_t i = 0; ok && i < v.size(); i++)
        ok = v[i].start_offset == want[i].start && v[i].payload_start_offset == want[i].payload && v[i].payload_size == want[i].size;
      CHECK_(ok, "P02:over-4GiB", "a buffer of %zu bytes is split into %zu units, expected %zu", h.n, v.size(), want.size());
      g->count("buffers_over_4GiB");
    }
  }
  // real streams: the generator knows where the units are
  vector<Bytes> nals;
  RefState st;
  for (auto& raw : gen_history(r, (int)r.range(1, 8), st, 10, 10)) {
    Bytes w = wire(raw);
    if (!w.empty()) nals.push_back(w);
  }
  vector<Span> idx;
  Bytes b = annexb(r, nals, &idx);
  check_split(b);
  Exact e(b);
  auto got = H264BitstreamParser::FindNaluIndices(e.data(), e.n);
  bool ok = got.size() == idx.size();
  for (size_t i = 0; ok && i < got.size(); i++)
    ok = got[i].start_offset == idx[i].start && got[i].payload_start_offset == idx[i].payload &&
         got[i].payload_size == idx[i].size;
  CHECK_(ok, "P02:generated-stream", "split differs from how the stream was put together: %s",
         hex(b, 600).c_str());
  g->count("generated_streams");
  g->sample(fmt("stream of %zu bytes, %zu units found", b.size(), got.size()));
}

// ---- P03 ---------------------------------------------------------------------
MODULE(P03, "a byte string, distinct by length class and pattern of removed bytes") {
  static const vector<vector<u8>> alpha = {{0, 3}, {0, 0, 0, 3, 1}, {0, 3, 2, 1, 4}, {0, 0, 3, 0xff}};
  auto one = [&](const Bytes& b) {
    Exact e(b);
    auto got = UnescapeRbsp(e.data(), e.n);
    Bytes want = unescape(b);
    CHECK_(got == want, "P03:unescape", "un-escaped %s into %s, expected %s", hex(b, 120).c_str(),
           hex(got, 120).c_str(), hex(want, 120).c_str());
    g->count("bytes_removed", b.size() - want.size());
    if (b.size() != want.size()) g->count("strings_with_removal");
    u64 h = b.size() < 64 ? b.size() : 64;
    h = h * 1000 + (b.size() - want.size());
    h = h * 16 + (b.size() >= 1 && b.back() == 3) + 2 * (want.size() >= 2 && want[want.size() - 1] == 0 && want[want.size() - 2] == 0);
    g->seen(h);
    Bytes esc = escape(b);
    Exact e2(esc);
    auto back = UnescapeRbsp(e2.data(), e2.n);
    CHECK_(back == b, "P03:roundtrip", "payload %s escaped and un-escaped gives %s", hex(b, 120).c_str(),
           hex(back, 120).c_str());
  };
  for (int k = 0; k < 80; k++) {
    auto& a = alpha[r.below(alpha.size())];
    size_t n = r.chance(80) ? r.below(20) : r.below(400);
    Bytes b;
    for (size_t i = 0; i < n; i++) b.push_back(a[r.below(a.size())]);
    if (r.chance(10)) for (auto& x : b) if (r.chance(30)) x = (u8)r.next();
    one(b);
  }
  if (r.chance(3)) {  // long ones, with escapes at and beside block boundaries
    size_t n = edge_size(r, 8, r.chance(2) ? 21 : r.chance(10) ? 17 : 13);
    Bytes b(n);
    u64 x = r.next() | 1, z = r.below(40);
    for (auto& c : b) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      c = (u8)(x >> 56);
      if ((x >> 40) % 40 < z) c = (x >> 48) & 1 ? 0 : 3;
    }
    for (int k = 5; k < 22; k++)
      if (r.chance(60) && (size_t)1 << k < n) {
        size_t at = ((size_t)1 << k) * (1 + r.below(n >> k)) - r.below(6);
        for (u8 c : {0, 0, 3, (int)r.below(5)})
          if (at < n) b[at++] = c;
      }
    one(b);
    g->count("long_strings");
  }
  static const u8 L[4] = {0, 3, 1, 2};
  for (int k = 0; k < 40; k++) {  // every 4-letter string of length <= 8
    u64 x = (g->index * 40 + (u64)k) % 87381;
    size_t n = 0;
    u64 p = 1, base = 0;
    while (x >= base + p) {
      base += p;
      p *= 4;
      n++;
    }
    u64 y = x - base;
    Bytes b;
    for (size_t i = 0; i < n; i++) {
      b.push_back(L[y & 3]);
      y >>= 2;
    }
    one(b);
    g->count("enumerated");
  }
  // escape bytes inside real NAL units: a payload parsed from escaped bytes
  // equals the one parsed from plain bytes
  Session s, t;
  RefState st;
  for (auto& raw : gen_history(r, 4, st, 0, 10)) {
    Bytes e = escape(raw);
    if (e.size() == raw.size()) g->count("nal_without_escape");
    else g->count("nal_with_escape");
    Exact a(e), b(raw);
    auto x = H264NalUnitParser::ParseNalUnit(a.data(), a.n, &s.st, s.opt);
    auto y = H264NalUnitParser::ParseNalUnitUnescaped(b.data(), b.n, &t.st, t.opt);
    bool ok = (bool)x == (bool)y && (!x || digest(flat_nal(*x)) == digest(flat_nal(*y)));
    CHECK_(ok, "P03:nal", "escaped and plain forms parse differently: %s", hex(raw).c_str());
  }
  g->sample(fmt("case %" PRIu64 ": 120 strings un-escaped and round-tripped", g->index));
}

// ---- P04 ---------------------------------------------------------------------
namespace {
struct Model {  // a bit position in a byte string
  Bytes b;
  u64 pos = 0;
  u64 left() const { return b.size() * 8 - pos; }
  int bit(u64 p) const { return (b[p >> 3] >> (7 - (p & 7))) & 1; }
  u64 get(u64 p, unsigned n) const {
    u64 v = 0;
    for (unsigned i = 0; i < n; i++) v = (v << 1) | (u64)bit(p + i);
    return v;
  }
  void set(u64 p, unsigned n, u64 v) {
    for (unsigned i = 0; i < n; i++) {
      u64 q = p + i;
      u8 m = (u8)(1 << (7 - (q & 7)));
      if ((v >> (n - 1 - i)) & 1) b[q >> 3] |= m;
      else b[q >> 3] &= (u8)~m;
    }
  }
  // 9.1: leading zeros, then one bit, then as many bits
  bool ue(u64* v, u64* used) const {
    u64 z = 0;
    while (z < left() && !bit(pos + z)) z++;
    if (z >= left() || z > 31 || left() < 2 * z + 1) return false;
    *v = ((1ull << z) - 1) + (z ? get(pos + z + 1, (unsigned)z) : 0);
    *used = 2 * z + 1;
    return true;
  }
};
unsigned width_ns(uint32_t n) {  // countbits(n)
  unsigned w = 0;
  while (w < 32 && (n >> w)) w++;
  return w;
}
}  // namespace
MODULE(P04, "an operation at a position, distinct by operation, bit offset, width or code length, and "
            "outcome") {
  Model m;
  size_t n = r.chance(70) ? r.below(24) : r.below(120);
  if (r.below(1500) == 0) {  // long, with positions past 16 bits' worth of bits
    n = edge_size(r, 8, r.chance(10) ? 20 : 14);
    g->count("long_buffers");
  }
  if (g->index == 0) {  // positions beyond 31 bits in bytes and 32 in bits; more than 32 bits of bytes is not accepted
    Huge h(255, 0x5a);
    if (h.p) {
      memset(h.last() + 77, 0, 4000);
      h.last()[77 + 3] = 0x10;
      BitBuffer bb(h.p, h.n);
      size_t lastat = (h.blocks - 1) * Huge::block, by = 0, bi = 9;
      uint32_t v = 0;
      uint8_t v8 = 0;
      u64 v64 = 0;
      bool ok = bb.RemainingBitCount() == (u64)h.n * 8 && bb.Seek(lastat + 77, 0);
      bb.GetCurrentOffset(&by, &bi);
      ok = ok && by == lastat + 77 && bi == 0 && bb.RemainingBitCount() == (u64)(h.n - by) * 8;
      ok = ok && bb.ReadExponentialGolomb(v) && v == (1u << 27) - 1 && bb.Seek(lastat + 70, 3);
      ok = ok && bb.PeekBits(40, v64) && v64 == 0xd2d2d2d2d2ull && bb.ReadBits(53, v64) && v64 == (0x5a5a5a5a5a5a5aull & ((1ull << 53) - 1));
      ok = ok && bb.Seek(5, 0) && bb.ConsumeBytes(lastat) && bb.ReadUInt8(v8);
      bb.GetCurrentOffset(&by, &bi);
      ok = ok && v8 == 0x5a && by == lastat + 6 && bi == 0 && !bb.Seek(h.n, 1) && !bb.Seek(h.n + 1, 0) && bb.Seek(h.n - 1, 7);
      ok = ok && bb.ReadBits(1, v) && v == 0 && !bb.ReadBits(1, v) && bb.RemainingBitCount() == 0;
      ok = ok && bb.Seek(0, 0) && bb.ConsumeBits((u64)(lastat + 77) * 8 + 27) && bb.ReadBits(1, v) && v == 1;
      CHECK_(ok, "P04:over-2GiB", "a read at a position beyond 2 GiB goes wrong");
      g->count("buffers_over_2GiB");
    }
  }
  for (size_t i = 0; i < n; i++) {
    u64 k = r.below(10);
    m.b.push_back(k < 4 ? 0 : k == 4 ? (u8)(1 << r.below(8)) : k == 5 ? 0xff : (u8)r.next());
  }
  Exact e(m.b);
  BitBufferWriter bb((u8*)e.data(), e.n);
  auto at = [&](const char* op) {
    size_t by = 999, bi = 999;
    bb.GetCurrentOffset(&by, &bi);
    CHECK_(by * 8 + bi == m.pos && bi < 8 && bb.RemainingBitCount() == m.left(),
           string("P04:position:") + op, "%s left the position at byte %zu bit %zu (%" PRIu64
           " bits remaining), expected bit %" PRIu64 " of %zu bytes", op, by, bi, bb.RemainingBitCount(), m.pos, n);
    Bytes now(e.data(), e.data() + e.n);
    CHECK_(now == m.b, string("P04:buffer:") + op, "%s changed bits outside the written range (position %" PRIu64 ")", op, m.pos);
  };
  auto value = [&](const char* op, bool ok, bool want_ok, u64 v, u64 want, u64 w) {
    CHECK_(ok == want_ok, string("P04:success:") + op, "%s %s at bit %" PRIu64 " of %zu bytes, width %" PRIu64,
           op, ok ? "succeeded" : "failed", m.pos, n, w);
    if (ok && want_ok)
      CHECK_(v == want, string("P04:value:") + op, "%s at bit %" PRIu64 " width %" PRIu64 " gave %" PRIu64 ", bits hold %" PRIu64,
             op, m.pos, w, v, want);
    g->count(string(op) + (want_ok ? ":ok" : ":refused"));
    g->seen(fnvs(fmt("%s %d %d %d", op, (int)(m.pos & 7), (int)w, (int)want_ok)));
    g->sample(fmt("%s, width %" PRIu64 ", bit %" PRIu64 " of %zu bytes: %s %" PRIu64, op, w, m.pos, n, ok ? "gave" : "refused", ok ? v : 0));
  };
  for (int k = 0; k < 60 && !g->violations; k++) {
    int op = (int)r.below(18);
    if (m.left() == 0 && op < 16 && r.chance(60)) op = 15;
    switch (op) {
      case 0: {
        uint32_t v = 0xdeadbeef;
        unsigned w = (unsigned)r.below(33);
        if (r.chance(4)) w = 33 + (unsigned)r.below(60);
        bool ok = w >= 1 && w <= 32 && w <= m.left();  // no 0-bit reads
        bool got = bb.ReadBits(w, v);
        value("ReadBits32", got, ok, v, ok ? m.get(m.pos, w) : 0, w);
        if (ok) m.pos += w;
        at("ReadBits32");
        break;
      }
      case 1: {
        u64 v = 7;
        unsigned w = (unsigned)r.below(65);
        if (r.chance(4)) w = 65 + (unsigned)r.below(60);
        bool ok = w >= 1 && w <= 64 && w <= m.left();
        bool got = bb.ReadBits(w, v);
        value("ReadBits64", got, ok, v, ok ? m.get(m.pos, w) : 0, w);
        if (ok) m.pos += w;
        at("ReadBits64");
        break;
      }
      case 2: {
        uint32_t v = 0xdeadbeef;
        unsigned w = (unsigned)r.below(33);
        bool ok = w >= 1 && w <= m.left();
        bool got = bb.PeekBits(w, v);
        value("PeekBits32", got, ok, v, ok ? m.get(m.pos, w) : 0, w);
        at("PeekBits32");
        break;
      }
      case 3: {
        u64 v = 7;
        unsigned w = (unsigned)r.below(65);
        bool ok = w >= 1 && w <= m.left();
        bool got = bb.PeekBits(w, v);
        value("PeekBits64", got, ok, v, ok ? m.get(m.pos, w) : 0, w);
        at("PeekBits64");
        break;
      }
      case 4: {
        uint32_t v = 1;
        u64 want = 0, used = 0;
        bool ok = m.ue(&want, &used);
        bool got = bb.ReadExponentialGolomb(v);
        value("ReadExponentialGolomb", got, ok, v, want, used);
        if (ok) m.pos += used;
        at("ReadExponentialGolomb");
        break;
      }
      case 5: {
        int32_t v = 1;
        u64 want = 0, used = 0;
        bool ok = m.ue(&want, &used);
        i64 sv = (want & 1) ? (i64)((want + 1) / 2) : -(i64)(want / 2);
        bool got = bb.ReadSignedExponentialGolomb(v);
        value("ReadSignedExponentialGolomb", got, ok, (u64)(i64)v, (u64)sv, used);
        if (ok) m.pos += used;
        at("ReadSignedExponentialGolomb");
        break;
      }
      case 6: {
        uint32_t nv = (uint32_t)(r.chance(60) ? 1 + r.below(40) : 1 + (r.next() >> (33 + r.below(31))));
        if (nv > 0x80000000u) nv = 0x80000000u;
        uint32_t v = 77;
        unsigned w = width_ns(nv);
        u64 kk = (w >= 32 ? 0x100000000ull : (1ull << w)) - nv;
        u64 want = 0, used = w - 1;
        bool ok = m.left() >= used;
        if (ok) {
          want = m.get(m.pos, (unsigned)used);
          if (want >= kk) {
            used = w;
            ok = m.left() >= used;
            if (ok) want = m.get(m.pos, w) - kk;
          }
        }
        bool got = bb.ReadNonSymmetric(nv, v);
        value("ReadNonSymmetric", got, ok, v, want, w);
        if (ok) {
          m.pos += used;
        } else {  // where a failed one stops is not specified
          bb.Seek(m.pos >> 3, m.pos & 7);
        }
        at("ReadNonSymmetric");
        break;
      }
      case 7: {
        size_t c = r.below(r.chance(80) ? 6 : 200);
        bool ok = c * 8 <= m.left();
        value("ConsumeBytes", bb.ConsumeBytes(c), ok, 0, 0, c > 8 ? 9 : c);
        if (ok) m.pos += c * 8;
        at("ConsumeBytes");
        break;
      }
      case 8: {
        size_t c = r.below(r.chance(80) ? 40 : 2000);
        bool ok = c <= m.left();
        value("ConsumeBits", bb.ConsumeBits(c), ok, 0, 0, c > 64 ? 65 : c);
        if (ok) m.pos += c;
        at("ConsumeBits");
        break;
      }
      case 9: {
        uint8_t a = 0;
        uint16_t b = 0;
        uint32_t c = 0;
        int wd = (int)r.below(3);
        unsigned w = 8u << wd;
        bool ok = w <= m.left();
        bool got = wd == 0 ? bb.ReadUInt8(a) : wd == 1 ? bb.ReadUInt16(b) : bb.ReadUInt32(c);
        u64 v = wd == 0 ? a : wd == 1 ? b : c;
        value("ReadUInt", got, ok, v, ok ? m.get(m.pos, w) : 0, w);
        if (ok) m.pos += w;
        at("ReadUInt");
        break;
      }
      case 10: {
        unsigned w = (unsigned)r.below(65);
        u64 v = r.next();
        if (w < 64 && r.chance(80)) v &= (1ull << w) - 1;
        bool ok = w <= m.left();
        bool got = bb.WriteBits(v, w);
        value("WriteBits", got, ok, 0, 0, w);
        if (ok) {
          m.set(m.pos, w, v);
          m.pos += w;
        }
        at("WriteBits");
        break;
      }
      case 11: {
        uint32_t v = (uint32_t)(r.next() >> (32 + r.below(32)));
        if (r.chance(10)) v = 0xfffffffeu - (uint32_t)r.below(2);
        u64 x = (u64)v + 1;
        unsigned z = 0;
        while (x >> (z + 1)) z++;
        bool ok = 2 * z + 1 <= m.left();
        if (v == 0xffffffffu) break;  // has no ue(v) code
        bool got = bb.WriteExponentialGolomb(v);
        value("WriteExponentialGolomb", got, ok, 0, 0, 2 * z + 1);
        if (ok) {
          m.set(m.pos, z, 0);
          m.set(m.pos + z, z + 1, x);
          // and it reads back
          m.pos += 2 * z + 1;
        } else {
          break;
        }
        at("WriteExponentialGolomb");
        break;
      }
      case 12: {
        int32_t v = (int32_t)(r.next() >> (32 + r.below(32)));
        if (r.chance(50)) v = -v;
        if (v == INT32_MIN) break;
        u64 u = v > 0 ? 2ull * (u64)v - 1 : 2ull * (u64)(-(i64)v);
        u64 x = u + 1;
        unsigned z = 0;
        while (x >> (z + 1)) z++;
        bool ok = 2 * z + 1 <= m.left();
        bool got = bb.WriteSignedExponentialGolomb(v);
        value("WriteSignedExponentialGolomb", got, ok, 0, 0, 2 * z + 1);
        if (ok) {
          m.set(m.pos, z, 0);
          m.set(m.pos + z, z + 1, x);
          m.pos += 2 * z + 1;
        }
        at("WriteSignedExponentialGolomb");
        break;
      }
      case 13: {
        uint32_t nv = (uint32_t)(r.chance(60) ? 1 + r.below(40) : 1 + (r.next() >> (33 + r.below(31))));
        if (nv > 0x80000000u) nv = 0x80000000u;
        uint32_t v = (uint32_t)r.below(nv);
        unsigned w = width_ns(nv);
        u64 kk = (w >= 32 ? 0x100000000ull : (1ull << w)) - nv;
        unsigned used = v < kk ? w - 1 : w;
        bool ok = used <= m.left();
        CHECK_(BitBufferWriter::SizeNonSymmetricBits(v, nv) == used, "P04:value:SizeNonSymmetricBits",
               "%u of %u: %zu, expected %u", v, nv, BitBufferWriter::SizeNonSymmetricBits(v, nv), used);
        bool got = bb.WriteNonSymmetric(v, nv);
        value("WriteNonSymmetric", got, ok, 0, 0, used);
        if (ok) {
          m.set(m.pos, used, v < kk ? v : v + kk);
          u64 was = m.pos;
          m.pos += used;
          at("WriteNonSymmetric");
          if (used) {
            uint32_t back = ~v;
            BitBuffer rd(e.data(), e.n);
            rd.Seek(was >> 3, was & 7);
            CHECK_(rd.ReadNonSymmetric(nv, back) && back == v, "P04:readback:NonSymmetric", "%u of %u read back as %u", v, nv, back);
          }
        } else {
          at("WriteNonSymmetric");
        }
        break;
      }
      case 14: {
        int wd = (int)r.below(3);
        unsigned w = 8u << wd;
        uint32_t v = (uint32_t)r.next();
        bool ok = w <= m.left();
        bool got = wd == 0 ? bb.WriteUInt8((uint8_t)v) : wd == 1 ? bb.WriteUInt16((uint16_t)v) : bb.WriteUInt32(v);
        value("WriteUInt", got, ok, 0, 0, w);
        if (ok) {
          m.set(m.pos, w, v);
          m.pos += w;
        }
        at("WriteUInt");
        break;
      }
      case 15: {
        size_t by = r.below(n + 2), bi = r.below(r.chance(90) ? 8 : 10);
        bool ok = bi < 8 && (by < n || (by == n && bi == 0));
        value("Seek", bb.Seek(by, bi), ok, 0, 0, bi);
        if (ok) m.pos = by * 8 + bi;
        at("Seek");
        break;
      }
      case 17: {  // 7.2: what the syntax functions make of the position
        CHECK_(byte_aligned(&bb) == ((m.pos & 7) == 0), "P04:value:byte_aligned", "wrong at bit %" PRIu64, m.pos);
        CHECK_(get_current_offset(&bb) == (m.pos + 7) / 8, "P04:value:get_current_offset", "%zu at bit %" PRIu64,
               get_current_offset(&bb), m.pos);
        if (r.chance(70) && n) {  // go to, or near, where the payload ends
          i64 last = -1;
          for (u64 p = 0; p < n * 8; p++)
            if (m.bit(p)) last = (i64)p;
          i64 to = last + (r.chance(60) ? 0 : r.range(-9, 3));
          if (to >= 0 && to <= (i64)n * 8 && bb.Seek((size_t)to >> 3, (size_t)to & 7)) m.pos = (u64)to;
          at("Seek");
        }
        i64 last = -1;
        for (u64 p = m.pos; p < n * 8; p++)
          if (m.bit(p)) last = (i64)p;
        bool more = more_rbsp_data(&bb);
        at("more_rbsp_data");
        // an RBSP whose last byte holds the stop bit
        if (m.left() == 0) CHECK_(!more, "P04:value:more_rbsp_data", "more data at the end of %zu bytes", n);
        else if (m.b[n - 1] && last >= 0)
          CHECK_(more == (last != (i64)m.pos), "P04:value:more_rbsp_data", "%d at bit %" PRIu64 " with the stop bit at %" PRId64,
                 (int)more, m.pos, last);
        unsigned w = 8 - (unsigned)(m.pos & 7);
        bool stop = m.left() && m.get(m.pos, w) == (1ull << (w - 1));
        bool got = rbsp_trailing_bits(&bb);
        CHECK_(got == stop, "P04:value:rbsp_trailing_bits", "%d at bit %" PRIu64 " of byte %02x", (int)got, m.pos,
               m.left() ? m.b[m.pos >> 3] : 0);
        g->count(stop ? "rbsp_trailing_bits:ok" : "rbsp_trailing_bits:refused");
        g->seen(fnvs(fmt("trailing %d %d %d", (int)(m.pos & 7), (int)more, (int)stop)));
        if (stop) m.pos += w;
        else bb.Seek(m.pos >> 3, m.pos & 7);  // where a refusal leaves it is not specified
        at("rbsp_trailing_bits");
        break;
      }
      default: {  // a code written at an odd position and read back
        u64 was = m.pos;
        uint32_t v = (uint32_t)(r.next() >> (32 + r.below(32)));
        if (v == 0xffffffffu) v--;
        u64 x = (u64)v + 1;
        unsigned z = 0;
        while (x >> (z + 1)) z++;
        bool ok = 2 * z + 1 <= m.left();
        bool got = bb.WriteExponentialGolomb(v);
        value("WriteExponentialGolomb", got, ok, 0, 0, 2 * z + 1);
        if (!ok || !got) break;
        m.set(m.pos, z, 0);
        m.set(m.pos + z, z + 1, x);
        bb.Seek(was >> 3, was & 7);
        uint32_t back = ~v;
        CHECK_(bb.ReadExponentialGolomb(back) && back == v, "P04:readback:ExponentialGolomb", "%u read back as %u", v, back);
        m.pos += 2 * z + 1;
        at("readback");
      }
    }
  }
}

// ---- P11 ---------------------------------------------------------------------
typedef H264NalUnitPayloadParser::NalUnitPayloadState Payload;
typedef H264NalUnitHeaderParser::NalUnitHeaderState Header;
static Node flat_hp(const Header* h, const Payload* p) {
  Node n;
  Out o{&n, ""};
  if (h) flat(*h, o.sub("nal_unit_header"));
  if (p) flat(*p, o);
  return n;
}
static bool plain_type(i64 t) { return t <= 23; }

// what a lone NAL unit must look like; empty when it agrees
static string agree(const RefNal& f, const Header* h, const Payload* p, string* field, bool header = true) {
  if (!p) {
    *field = "payload";
    return "no payload";
  }
  if (header && !h) {
    *field = "header";
    return "no header";
  }
  if (f.unspec) return "";
  bool got = payload_any(*p);
  if (got != f.payload_ok) {
    *field = "payload";
    return got ? "payload reported that does not parse" : "payload missing";
  }
  Node ref = *f.n;
  if (!f.payload_ok) ref = only_prefix(*f.n, "nal_unit_header");
  Node lib = flat_hp(header ? h : nullptr, p);
  if (!header) ref = only_payload(ref);
  return compare(ref, lib, field);
}

MODULE(P11, "an RTP packet, distinct by kind, NAL unit types and sizes carried, fragmentation bits and "
            "outcome") {
  Session s;
  GenOpt o;
  int packets = (int)r.range(3, 12);
  // some history arrives as plain NAL units
  for (int i = 0; i < 4; i++) {
    GenOpt x;
    static const int t[4] = {7, 8, 15, 8};
    x.type = t[i];
    if (r.chance(70)) s.feed(r, gen_nal(r, s.ref, x).raw);
  }
  auto draw_wire = [&](const RefState& st, bool any) {
    if (r.chance(2)) {  // long units
      size_t n = edge_size(r, 6, r.chance(20) ? 15 : 12);
      if (r.chance(5)) n = 65535;
      g->count(n > 32767 ? "units_over_32767_bytes" : "long_units");
      Bytes w = filler_nal(r, n, r.chance(40));
      if (!plain_type(w[0] & 31)) w[0] = 0x6c;
      return w;
    }
    for (;;) {
      GenOpt x = o;
      x.fault = r.chance(6);
      GenNal n = gen_nal(r, st, x);
      if (any && r.chance(5)) mutate(r, n.raw);
      Bytes w = wire(n.raw);
      if (r.chance(70)) w = escape(n.raw);  // RTP does not care about trailing zeros
      if (!w.empty() && plain_type(w[0] & 31)) return w;
    }
  };
  for (int k = 0; k < packets && !g->violations; k++) {
    int kind = (int)r.below(10);
    Bytes pkt;
    if (kind < 3) {  // single NAL unit
      Bytes w = draw_wire(s.ref, true);
      RefNal f = ref_decode(unescape(w), s.ref);
      Exact e(w);
      std::unique_ptr<H264RtpParser::RtpState> p;
      std::unique_ptr<H264RtpSingleParser::RtpSingleState> q;
      bool via = r.chance(80);
      if (via) p = H264RtpParser::ParseRtp(e.data(), e.n, &s.st);
      else q = H264RtpSingleParser::ParseRtpSingle(e.data(), e.n, &s.st);
      g->count("single");
      g->seen(fnvs(fmt("single %d %d %d", (int)f.type, (int)f.hdr_ok, (int)f.payload_ok)));
      g->sample(fmt("single packet of %zu bytes, type %d, header %d payload %d", w.size(), (int)f.type, (int)f.hdr_ok, (int)f.payload_ok));
      if (!f.hdr_ok) {
        CHECK_(!p && !q, "P11:single:bad-header", "packet with unreadable NAL unit header returned: %s", hex(w).c_str());
      } else {
        auto* si = via ? (p ? p->rtp_single.get() : nullptr) : q.get();
        CHECK_(si != nullptr, "P11:single:missing", "single NAL unit packet not parsed: %s", hex(w).c_str());
        if (!si) return;
        string fld, d = agree(f, si->nal_unit_header.get(), si->nal_unit_payload.get(), &fld);
        CHECK_(d.empty(), "P11:single:" + fld, "%s in packet %s", d.c_str(), hex(w).c_str());
        if (via) CHECK_(!p->rtp_stapa && !p->rtp_fua && p->nal_unit_header && (i64)p->nal_unit_header->nal_unit_type == f.type,
               "P11:single:kind", "packet kind misreported: %s", hex(w).c_str());
      }
      if (dead(f)) return;
    } else if (kind < 6) {  // STAP-A
      int c = (int)r.range(1, r.chance(10) ? 20 : 6);
      if (r.chance(1) && r.chance(15)) {
        c = (int)r.range(120, 600);
        g->count("aggregates_of_many");
      }
      bool small = g->index % 2000 == 7 && k == 0;  // as many as a packet can hold
      if (small) {
        c = (int)r.range(4000, 16000);
        g->count("aggregates_of_thousands");
      }
      u8 h = (u8)((r.below(4) << 5) | 24);
      pkt.push_back(h);
      vector<Bytes> units;
      vector<RefNal> refs;
      RefState st = s.ref;
      bool dd = false, badhdr = false;
      int shortu = -1;
      for (int i = 0; i < c; i++) {
        Bytes w = small ? Bytes{(u8)(0x60 | r.pick(vector<int>{6, 9, 12})), (u8)r.range(16, 255)} : draw_wire(st, false);
        if (w.size() > 65535) w.resize(65535);
        units.push_back(w);
        RefNal f = ref_decode(unescape(w), st);
        if (dead(f)) dd = true;
        if (!f.hdr_ok) badhdr = true;
        refs.push_back(f);
        pkt.push_back((u8)(w.size() >> 8));
        pkt.push_back((u8)w.size());
        pkt.insert(pkt.end(), w.begin(), w.end());
        if (dd || badhdr) break;
      }
      bool overrun = false;
      if (!dd && !badhdr && r.chance(20)) {
        // a last size that overruns the packet
        overrun = true;
        Bytes w = draw_wire(st, false);
        size_t claim = w.size() + 1 + r.below(r.chance(50) ? 3 : 500);
        pkt.push_back((u8)(claim >> 8));
        pkt.push_back((u8)claim);
        pkt.insert(pkt.end(), w.begin(), w.end());
      } else if (!dd && !badhdr && r.chance(5)) {
        overrun = true;  // an empty unit has no header
        pkt.push_back(0);
        pkt.push_back(0);
        shortu = 1;
      }
      (void)shortu;
      Exact e(pkt);
      std::unique_ptr<H264RtpParser::RtpState> p;
      std::unique_ptr<H264RtpStapAParser::RtpStapAState> q;
      bool via = r.chance(80);
      if (via) p = H264RtpParser::ParseRtp(e.data(), e.n, &s.st);
      else q = H264RtpStapAParser::ParseRtpStapA(e.data(), e.n, &s.st);
      auto* sa = via ? (p ? p->rtp_stapa.get() : nullptr) : q.get();
      g->count(overrun ? "stapa_overrun" : "stapa");
      string types;
      for (auto& f : refs) types += fmt(" %d:%d", (int)f.type, (int)f.payload_ok);
      g->seen(fnvs("stapa" + types + (overrun ? "!" : "")));
      g->sample("aggregate of types" + types + (overrun ? " (size beyond the packet)" : ""));
      if (badhdr || overrun) {
        CHECK_(!p && !q, "P11:stapa:overrun-accepted", "aggregate that must be rejected was returned: %s", hex(pkt).c_str());
        if (badhdr) g->count("stapa_bad_header");
        s.ref = st;  // the units before it were seen
        if (dd) return;
        string fld, d = compare_state(s.ref, s.st, &fld);
        if (!d.empty()) return;  // whether they count is not specified
        continue;
      }
      CHECK_(sa != nullptr, "P11:stapa:missing", "aggregate not parsed: %s", hex(pkt).c_str());
      if (!sa) return;
      bool cnt = sa->nal_unit_sizes.size() == refs.size() && sa->nal_unit_headers.size() == refs.size() &&
                 sa->nal_unit_payloads.size() == refs.size();
      CHECK_(cnt, "P11:stapa:count", "%zu units reported, %zu sent: %s", sa->nal_unit_sizes.size(), refs.size(), hex(pkt).c_str());
      if (!cnt) return;
      CHECK_(sa->header && (i64)sa->header->nal_unit_type == 24 && sa->header->nal_ref_idc == (uint32_t)((h >> 5) & 3),
             "P11:stapa:header", "aggregate header misreported: %s", hex(pkt).c_str());
      for (size_t i = 0; i < refs.size(); i++) {
        CHECK_(sa->nal_unit_sizes[i] == units[i].size(), "P11:stapa:size", "unit %zu: size %zu, sent %zu", i,
               sa->nal_unit_sizes[i], units[i].size());
        string fld, d = agree(refs[i], sa->nal_unit_headers[i].get(), sa->nal_unit_payloads[i].get(), &fld);
        CHECK_(d.empty(), "P11:stapa:" + fld, "unit %zu of %zu: %s; unit %s", i, refs.size(), d.c_str(), hex(units[i]).c_str());
        if (g->violations) return;
      }
      g->count("stapa_units", refs.size());
      s.ref = st;
      if (dd) return;
    } else if (kind < 9) {  // FU-A
      Bytes w = draw_wire(s.ref, true);
      while (w.size() < 2) w = draw_wire(s.ref, true);
      // split into fragments of the bytes after the NAL unit header
      size_t body = w.size() - 1, first = r.chance(60) ? body : 1 + r.below(body);
      int frags = first == body ? 1 : (int)r.range(2, 5);
      size_t posn = 1;
      for (int i = 0; i < frags; i++) {
        size_t c = i == 0 ? first : (i + 1 == frags ? w.size() - posn : r.below(w.size() - posn + 1));
        bool sb = i == 0, eb = i + 1 == frags && r.chance(80);
        bool rb = r.chance(10);
        Bytes f;
        f.push_back((u8)((w[0] & 0xe0) | 28));
        f.push_back((u8)((sb ? 0x80 : 0) | (eb ? 0x40 : 0) | (rb ? 0x20 : 0) | (w[0] & 31)));
        f.insert(f.end(), w.begin() + (long)posn, w.begin() + (long)(posn + c));
        posn += c;
        // the model: the NAL unit cut after this fragment
        RefNal rf;
        if (sb) {
          Bytes cut;
          cut.push_back(w[0]);
          cut.insert(cut.end(), f.begin() + 2, f.end());
          rf = ref_decode(unescape(cut), s.ref);
        }
        Node before = flat_state(s.st);
        Exact e(f);
        bool via = r.chance(80);
        std::unique_ptr<H264RtpParser::RtpState> p;
        std::unique_ptr<H264RtpFuAParser::RtpFuAState> q;
        uint32_t idc = (w[0] >> 5) & 3;
        if (via) p = H264RtpParser::ParseRtp(e.data(), e.n, &s.st);
        else q = H264RtpFuAParser::ParseRtpFuA(e.data(), e.n, idc, &s.st);
        auto* fu = via ? (p ? p->rtp_fua.get() : nullptr) : q.get();
        g->count(sb ? "fua_start" : "fua_other");
        g->seen(fnvs(fmt("fua %d %d %d %d %d", (int)(w[0] & 31), sb, eb, rb, sb ? rf.payload_ok + 2 * rf.hdr_ok : 7)));
        if (sb && !rf.hdr_ok) {
          CHECK_(!fu, "P11:fua:bad-header", "fragment with unreadable NAL unit header returned: %s", hex(f).c_str());
          break;
        }
        CHECK_(fu != nullptr, "P11:fua:missing", "fragment not parsed: %s", hex(f).c_str());
        if (!fu) return;
        CHECK_(fu->s_bit == (uint32_t)sb && fu->e_bit == (uint32_t)eb && fu->r_bit == (uint32_t)rb &&
                   fu->fu_type == (uint32_t)(w[0] & 31) && fu->nal_ref_idc == idc && fu->header &&
                   fu->header->nal_unit_type == 28,
               "P11:fua:header", "fragmentation header misreported for %s", hex(f).c_str());
        if (sb) {
          string fld, d = agree(rf, nullptr, fu->nal_unit_payload.get(), &fld, false);
          CHECK_(d.empty(), "P11:fua:" + fld, "%s in start fragment %s", d.c_str(), hex(f).c_str());
          if (dead(rf)) return;
        } else {
          CHECK_(!fu->nal_unit_payload, "P11:fua:continuation", "continuation fragment with a payload: %s", hex(f).c_str());
          CHECK_(digest(before) == digest(flat_state(s.st)), "P11:fua:continuation-state",
                 "continuation fragment changed the parameter sets: %s", hex(f).c_str());
        }
        if (g->violations) return;
      }
    } else {  // packet kinds that are not supported: header only
      static const vector<int> t = {25, 26, 27, 29, 30, 31};
      Bytes f = {(u8)((r.below(4) << 5) | (u64)r.pick(t))};
      int nn = (int)r.below(30);
      for (int i = 0; i < nn; i++) f.push_back((u8)r.next());
      Node before = flat_state(s.st);
      Exact e(f);
      auto p = H264RtpParser::ParseRtp(e.data(), e.n, &s.st);
      CHECK_(p && !p->rtp_single && !p->rtp_stapa && !p->rtp_fua && p->nal_unit_header &&
                 p->nal_unit_header->nal_unit_type == (uint32_t)(f[0] & 31),
             "P11:other-kind", "packet kind %d", f[0] & 31);
      CHECK_(digest(before) == digest(flat_state(s.st)), "P11:other-kind-state", "packet kind %d changed the state", f[0] & 31);
      g->count("other_kinds");
    }
    string fld, d = compare_state(s.ref, s.st, &fld);
    CHECK_(d.empty(), "P11:state:" + fld, "after packet %d: %s", k, d.c_str());
  }
}

// ---- P12 ---------------------------------------------------------------------
MODULE(P12, "a length-framed buffer, distinct by width, number of units, where and how it is broken") {
  RefState st;
  auto raws = gen_history(r, (int)r.range(1, 9), st, 10, 8);
  vector<Bytes> nals;
  for (auto& x : raws) {
    Bytes w = r.chance(70) ? wire(x) : escape(x);
    if (!w.empty()) nals.push_back(w);
  }
  if (nals.empty()) return;
  size_t width = (size_t)r.range(1, 8);
  if (r.chance(40)) width = r.pick(vector<size_t>{1, 2, 4});
  if (r.chance(6)) {  // units as long as the field can tell, and past its bytes
    int hi = width == 1 ? 7 : width == 2 ? (r.chance(20) ? 15 : 11) : r.chance(2) ? 24 : r.chance(15) ? 17 : 12;
    for (int k = (int)r.range(1, 3); k--;) {
      size_t n = edge_size(r, 6, hi), top = width < 3 ? ((size_t)1 << (8 * width)) - 1 : ~(size_t)0;
      if (n > top || r.chance(5)) n = std::min(n, top);
      if (width == 2 && r.chance(10)) n = top;
      nals.insert(nals.begin() + (long)r.below(nals.size() + 1), filler_nal(r, n, r.chance(40)));
      g->count(n > 32767 ? "units_over_32767_bytes" : "long_units");
    }
  }
  if (r.chance(1) && r.chance(8)) {  // many
    for (size_t k = edge_size(r, 8, r.chance(10) ? 16 : 12); k--;) nals.push_back({(u8)(0x60 | (k % 3 == 0 ? 9 : 12)), (u8)(16 + k % 7)});
    g->count("streams_of_many_units");
  }
  if (g->index == 0) {  // offsets beyond 32 bits
    Huge h(260, 0xff);
    if (h.p) {
      size_t step = Huge::block;
      auto put = [&](u8* at, size_t len) {
        for (int i = 0; i < 4; i++) at[i] = (u8)(len >> (24 - 8 * i));
      };
      put(h.p, step - 4);
      put(h.last(), 900);
      put(h.last() + 904, step - 908);
      auto v = H264BitstreamParser::FindNaluIndicesExplicitFraming(h.p, h.n);
      bool ok = v.size() == h.blocks + 1;
      for (size_t i = 0; ok && i < v.size(); i++) {
        size_t at = i == h.blocks ? (i - 1) * step + 904 : i * step;
        size_t len = i == h.blocks ? step - 908 : i + 1 == h.blocks ? 900 : step - 4;
        ok = v[i].start_offset == at && v[i].payload_start_offset == at + 4 && v[i].payload_size == len;
      }
      CHECK_(ok, "P12:over-4GiB", "a buffer of %zu bytes is split into %zu units, expected %zu", h.n, v.size(), h.blocks + 1);
      g->count("buffers_over_4GiB");
    }
  }
  bool single = r.chance(10);
  if (single) {
    width = 0;
    nals.resize(1);
  }
  // what the field cannot tell cannot be framed
  if (width && width < 8)
    for (auto& n : nals)
      if (n.size() >> (8 * width)) n.resize(((size_t)1 << (8 * width)) - 1);
  vector<Span> idx;
  Bytes b = single ? nals[0] : length_framed(nals, width, &idx);
  if (single) idx.push_back({0, 0, nals[0].size()});
  string how = "intact";
  size_t expect = nals.size();
  if (!single && r.chance(55)) {
    int kind = (int)r.below(6);
    size_t k = r.below(nals.size());
    if (kind == 0) {  // cut anywhere
      size_t cut = r.below(b.size());
      b.resize(cut);
      expect = 0;
      while (expect < idx.size() && idx[expect].payload + idx[expect].size <= cut) expect++;
      how = "cut";
      if (expect < idx.size()) how += cut < idx[expect].payload ? " in length" : " in unit";
    } else if (kind == 1) {  // zero length
      for (size_t i = 0; i < width; i++) b[idx[k].start + i] = 0;
      expect = k;
      how = "zero length";
    } else {  // a length that overruns
      u64 room = b.size() - idx[k].payload;
      u64 maxv = width == 8 ? ~0ull : (1ull << (8 * width)) - 1;
      u64 v = kind == 2 ? room + 1 + r.below(4) : (r.chance(40) ? maxv : room + 1 + (r.next() >> (64 - 8 * width)));
      // a length that is plausible once its upper bytes, or its overflow past
      // the end of the buffer, are lost
      if (kind == 4 && width > 1) {
        u64 hi = 1 + r.below(width);
        hi = hi >= width ? width - 1 : hi;
        if (width > 4 && r.chance(50)) hi = 4;
        v = (r.chance(70) ? nals[k].size() : r.below(nals[k].size() + 1)) +
            ((r.chance(50) ? 1ull : 1 + r.below(255)) << (8 * (hi + (r.chance(20) ? r.below(width - hi) : 0))));
      } else if (kind == 5 && width == 8) {
        v = 0 - (u64)r.below(2 * (idx[k].payload + 9));
      } else if (kind == 5) {
        v = 1ull << (8 * width - 1);
        if (r.chance(60)) v += nals[k].size();
      }
      if (v > maxv || v <= room) v = maxv;
      if (v <= room) return;
      for (size_t i = 0; i < width; i++) b[idx[k].start + i] = (u8)(v >> (8 * (width - 1 - i)));
      expect = k;
      how = v == maxv ? "huge length" : kind == 4 ? "overrun in the upper bytes" : kind == 5 ? "overrun by wrapping" : "overrun";
    }
  }
  // the model
  RefState ref;
  struct E {
    RefNal f;
    size_t off, len;
    Bytes raw;
  };
  vector<E> want;
  bool dd = false;
  for (size_t i = 0; i < expect; i++) {
    Bytes raw = unescape(nals[i]);
    RefNal f = ref_decode(raw, ref);
    if (f.hdr_ok) want.push_back({f, idx[i].payload, idx[i].size, raw});
    if (dead(f)) {
      dd = true;
      break;
    }
  }
  if (dd) return;
  Exact e(b);
  H264BitstreamParserState ls;
  ParsingOptions po;
  auto bs = H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, width, &ls, po);
  g->count("width_" + fmt("%zu", width));
  g->count("how:" + how);
  g->seen(fnvs(fmt("%zu %zu %zu %s", width, nals.size(), expect, how.c_str())));
  g->sample(fmt("%zu units behind %zu-byte lengths, %s: %zu reported", nals.size(), width, how.c_str(), bs ? bs->nal_units.size() : 0));
  CHECK_(bs != nullptr, "P12:null", "no result");
  if (!bs) return;
  CHECK_(bs->nal_units.size() == want.size(), "P12:count:" + how, "%zu units reported, %zu expected (width %zu, %s): %s",
         bs->nal_units.size(), want.size(), width, how.c_str(), hex(b).c_str());
  if (bs->nal_units.size() != want.size()) return;
  for (size_t i = 0; i < want.size(); i++) {
    auto& n = *bs->nal_units[i];
    CHECK_(n.offset == want[i].off && n.length == want[i].len, "P12:place", "unit %zu at %zu+%zu, expected %zu+%zu (width %zu)",
           i, n.offset, n.length, want[i].off, want[i].len, width);
    string fld, d = agree(want[i].f, n.nal_unit_header.get(), n.nal_unit_payload.get(), &fld);
    CHECK_(d.empty(), "P12:content:" + fld, "unit %zu: %s: %s", i, d.c_str(), hex(want[i].raw).c_str());
    if (g->violations) return;
  }
  string fld, d = compare_state(ref, ls, &fld);
  CHECK_(d.empty(), "P12:state:" + fld, "%s", d.c_str());
  // without a caller-supplied state
  auto b2 = H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, width, po);
  CHECK_(b2 && b2->nal_units.size() == want.size(), "P12:stateless", "stateless entry disagrees");
  // against the same units in Annex B framing
  if (how == "intact" && b2) {
    bool clean = true;
    for (auto& n : nals) clean = clean && n.back() != 0;
    if (clean && !single) {
      Bytes ab = annexb(r, nals, nullptr);
      Exact x(ab);
      H264BitstreamParserState s3;
      auto b3 = H264BitstreamParser::ParseBitstream(x.data(), x.n, &s3, po);
      bool same = b3 && b3->nal_units.size() == bs->nal_units.size();
      for (size_t i = 0; same && i < b3->nal_units.size(); i++)
        same = digest(flat_nal(*b3->nal_units[i])) == digest(flat_nal(*bs->nal_units[i])) &&
               b3->nal_units[i]->length == bs->nal_units[i]->length &&
               b3->nal_units[i]->parsed_length == bs->nal_units[i]->parsed_length &&
               b3->nal_units[i]->checksum->GetPrintableChecksum() == bs->nal_units[i]->checksum->GetPrintableChecksum();
      CHECK_(same && digest(flat_state(s3)) == digest(flat_state(ls)), "P12:annexb",
             "Annex B and length framing (width %zu) give different results: %s", width, hex(b).c_str());
      g->count("annexb_compared");
    }
  }
  // the 4-byte splitter
  if (width == 4) {
    auto v = H264BitstreamParser::FindNaluIndicesExplicitFraming(e.data(), e.n);
    vector<Span> sw;
    size_t i = 0;
    while (i + 4 <= b.size()) {
      u64 l = ((u64)b[i] << 24) | ((u64)b[i + 1] << 16) | ((u64)b[i + 2] << 8) | b[i + 3];
      if (l > b.size() - i - 4) break;
      sw.push_back({i, i + 4, (size_t)l});
      i += 4 + l;
    }
    bool same = v.size() == sw.size();
    for (size_t k = 0; same && k < v.size(); k++)
      same = v[k].start_offset == sw[k].start && v[k].payload_start_offset == sw[k].payload && v[k].payload_size == sw[k].size;
    // a zero length may either end the split or be an empty entry
    if (!same && how == "zero length") same = v.size() == expect;
    CHECK_(same, "P12:splitter", "4-byte splitter found %zu units, expected %zu: %s", v.size(), sw.size(), hex(b).c_str());
    g->count("splitter");
  }
}

// ---- P16 ---------------------------------------------------------------------
MODULE(P16, "a NAL unit in a stream, distinct by type, length modulo 4, whether it contains escapes, "
            "options and parse outcome") {
  RefState st;
  GenOpt go;
  auto raws = gen_history(r, (int)r.range(1, 9), st, 8, 6, go);
  vector<Bytes> nals;
  for (auto& x : raws) {
    Bytes w = wire(x);
    if (r.chance(20)) {  // unparsed types of every length
      w.clear();
      w.push_back((u8)(0x60 | r.pick(vector<int>{6, 9, 12, 0, 31})));
      for (size_t i = r.below(20); i; i--) w.push_back((u8)(1 + r.below(255)));
    } else if (r.chance(12)) {  // sums that carry, and carry again when folded
      w.clear();
      w.push_back((u8)(0x60 | r.pick(vector<int>{6, 9, 12, 0, 31})));
      for (size_t i = 3 + 4 * (size_t)r.range(1, r.chance(10) ? 700 : 9); i; i--) w.push_back(0xff);
      u64 sum = 0;
      for (size_t i = 0; i < w.size(); i += 4)
        sum += ((u64)w[i] << 24) | ((u64)w[i + 1] << 16) | ((u64)w[i + 2] << 8) | w[i + 3];
      // choose the last word so that high + low lands on, just under or just
      // over 2^32
      u64 want = (1ull << 32) - (sum >> 32) - (sum & 0xffffffff) + r.below(3) - 1 + (r.chance(30) ? r.below(70000) : 0);
      for (int i = 3; i >= 0; i--) w.push_back((u8)(want >> (8 * i)));
      while (w.back() == 0) w.pop_back();
      w = escape(w);
    }
    if (!w.empty()) nals.push_back(w);
  }
  if (r.chance(5)) {
    nals.push_back(filler_nal(r, edge_size(r, 6, r.chance(3) ? 22 : r.chance(15) ? 17 : 12), r.chance(50)));
    g->count("long_units");
    if (r.chance(50)) std::swap(nals.back(), nals[r.below(nals.size())]);
  }
  if (r.chance(40) && !nals.empty()) {  // straight from a bit buffer that stands somewhere
    Bytes raw = unescape(r.pick(nals));
    size_t bits = r.chance(60) ? 8 * r.below(raw.size() + 1) : r.below(raw.size() * 8 + 1), by = 9, bi = 9;
    BitBuffer bb(raw.data(), raw.size());
    bool ok = bb.ConsumeBits(bits);
    auto c = ok ? NaluChecksum::GetNaluChecksum(&bb) : nullptr;
    bb.GetCurrentOffset(&by, &bi);
    CHECK_(ok && c && by == bits / 8 && bi == bits % 8, "P16:checksum-moves", "computed at bit %zu, the buffer then stands at byte %zu bit %zu", bits, by, bi);
    if (c && bits % 8 == 0) {
      string w = fmt("%08x", ref_checksum(Bytes(raw.begin() + (long)(bits / 8), raw.end())));
      CHECK_(c->GetPrintableChecksum() == w, "P16:checksum-rest", "checksum of the bytes from %zu is %s, expected %s: %s", bits / 8,
             c->GetPrintableChecksum().c_str(), w.c_str(), hex(raw).c_str());
    }
    g->count("checksum_from_buffer");
  }
  if (nals.empty()) return;
  int framing = (int)r.below(3);
  size_t width = (size_t)r.range(1, 4);
  if (framing == 1 && width == 1)
    for (auto& n : nals)
      if (n.size() > 255) width = 2;
  if (framing == 1 && width == 2)
    for (auto& n : nals)
      if (n.size() > 65535) width = 4;
  if (framing == 1 && width == 3)
    for (auto& n : nals)
      if (n.size() >= 1u << 24) width = 4;
  vector<Span> idx;
  Bytes b = framing == 1 ? length_framed(nals, width, &idx) : annexb(r, nals, &idx);
  ParsingOptions po;
  po.add_offset = r.chance(70);
  po.add_length = r.chance(70);
  po.add_parsed_length = r.chance(70);
  po.add_checksum = r.chance(65);
  po.add_resolution = r.chance(70);
  Exact e(b);
  H264BitstreamParserState ls;
  std::unique_ptr<H264BitstreamParser::BitstreamState> bs;
  if (framing == 1) bs = H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, width, &ls, po);
  else if (framing == 0) bs = H264BitstreamParser::ParseBitstream(e.data(), e.n, &ls, po);
  else bs = H264BitstreamParser::ParseBitstream(e.data(), e.n, po);
  CHECK_(bs != nullptr, "P16:null", "no result");
  if (!bs) return;
  RefState ref;
  size_t j = 0;
  for (size_t i = 0; i < nals.size(); i++) {
    Bytes raw = unescape(nals[i]);
    RefNal f = ref_decode(raw, ref);
    if (!f.hdr_ok) continue;
    if (j >= bs->nal_units.size()) {
      violation("P16:count", "NAL unit missing from the result");
      return;
    }
    auto& n = *bs->nal_units[j++];
    CHECK_(n.offset == idx[i].payload, "P16:offset", "offset %zu, NAL unit starts at %zu", n.offset, idx[i].payload);
    CHECK_(n.length == idx[i].size, "P16:length", "length %zu, NAL unit has %zu bytes", n.length, idx[i].size);
    CHECK_(n.parsed_length <= raw.size(), "P16:parsed_length-bound", "parsed length %zu of %zu un-escaped bytes",
           n.parsed_length, raw.size());
    if (!f.unspec) {
      if (!f.attempted()) {
        CHECK_(n.parsed_length == f.hdr_len, fmt("P16:parsed_length:type%d", (int)f.type),
               "parsed length %zu of an unparsed NAL unit with a %zu byte header", n.parsed_length, f.hdr_len);
        g->count("parsed_length_header_only");
      } else if (f.payload_ok && f.plen_valid) {
        CHECK_(n.parsed_length == f.parsed_len, fmt("P16:parsed_length:type%d", (int)f.type),
               "parsed length %zu, syntax takes %zu bytes: %s", n.parsed_length, f.parsed_len, hex(raw).c_str());
        g->count("parsed_length_exact");
      }
    }
    CHECK_((n.checksum != nullptr) == po.add_checksum, "P16:checksum-presence", "checksum %s but option is %s",
           n.checksum ? "present" : "absent", po.add_checksum ? "on" : "off");
    if (n.checksum) {
      uint32_t c = ref_checksum(raw);
      string w = fmt("%08x", c), got = n.checksum->GetPrintableChecksum();
      const u8* p = (const u8*)n.checksum->GetChecksum();
      bool bytes = n.checksum->GetLength() == 4 && p[0] == (u8)(c >> 24) && p[1] == (u8)(c >> 16) && p[2] == (u8)(c >> 8) && p[3] == (u8)c;
      CHECK_(got == w && bytes, "P16:checksum", "checksum %s, expected %s, of %s", got.c_str(), w.c_str(), hex(raw).c_str());
      char buf[64] = {};
      n.checksum->fdump(buf, 64);
      CHECK_(w == buf, "P16:checksum-print", "checksum printed as %s, expected %s", buf, w.c_str());
      // into less room: as much of it as fits, and nothing beyond
      size_t room = r.below(12);
      memset(buf, 0, room);
      memset(buf + room, '?', sizeof(buf) - room);
      n.checksum->fdump(buf, (int)room);
      bool fits = room == 0 || memchr(buf, 0, room) != nullptr;
      for (size_t q = room; q < sizeof(buf); q++) fits = fits && buf[q] == '?';
      if (room && fits) fits = w.compare(0, strlen(buf), buf) == 0 && (room <= w.size() || w == buf);
      CHECK_(fits, "P16:checksum-print", "checksum %s printed into %zu bytes as %.*s", w.c_str(), room, (int)room, buf);
      g->count(fmt("checksum_len_mod4_%zu", raw.size() % 4));
      {
        u64 sum = 0;
        for (size_t q = 0; q < raw.size(); q++) sum += (u64)raw[q] << (8 * (3 - q % 4));
        if (((sum >> 32) + (sum & 0xffffffff)) >> 32) g->count("checksum_second_carry");
      }
    }
    g->count("nal_units");
    g->seen(fnvs(fmt("%d %zu %d %d %d %d", (int)f.type, raw.size() % 4, raw.size() != nals[i].size(), po.add_checksum,
                     (int)f.payload_ok, framing)));
    // the checksum option does not disturb the parse
    string fld, d = agree(f, n.nal_unit_header.get(), n.nal_unit_payload.get(), &fld);
    CHECK_(d.empty(), "P16:parse-disturbed:" + fld, "%s (checksum %d)", d.c_str(), po.add_checksum);
    if (dead(f) || g->violations) return;
  }
  CHECK_(j == bs->nal_units.size(), "P16:count", "%zu NAL units reported, %zu expected", bs->nal_units.size(), j);
  g->sample(fmt("stream of %zu bytes with %zu NAL units, framing %d", b.size(), j, framing));
}
