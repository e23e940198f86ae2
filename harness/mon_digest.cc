// P20: the same bytes give the same result. Reads the exported cases; within
// one build every case is parsed again and again under changed surroundings;
// across builds the digests written here are compared by the driver.
#include <malloc.h>

#include "session.h"
#include "toolbox.h"
#ifdef FDUMP_DEFINE
#include "dumptree.h"
#include "h264_rtp_parser.h"
#endif

struct Case {
  u64 index = 0, key = 0;
  vector<Bytes> nals, other;
};
static const vector<Case>& cases() {
  static vector<Case> v;
  if (!v.empty()) return v;
  const char* p = getenv("P20_CASES");
  FILE* f = p ? fopen(p, "rb") : nullptr;
  if (!f) abort();
  auto u32 = [&]() -> u64 {
    u8 b[4];
    if (fread(b, 1, 4, f) != 4) abort();
    return b[0] | (u64)b[1] << 8 | (u64)b[2] << 16 | (u64)b[3] << 24;
  };
  for (;;) {
    int c = fgetc(f);
    if (c == EOF) break;
    ungetc(c, f);
    Case k;
    k.index = u32();
    u64 lo = u32(), hi = u32();
    k.key = lo | hi << 32;
    for (auto* dst : {&k.nals, &k.other}) {
      u64 n = u32();
      for (u64 i = 0; i < n; i++) {
        u64 z = u32();
        Bytes b(z);
        if (z && fread(b.data(), 1, z, f) != z) abort();
        dst->push_back(b);
      }
    }
    v.push_back(k);
  }
  fclose(f);
  return v;
}

// garbage left on the stack for the next call to find
__attribute__((noinline)) static void dirty_stack(int fill) {
  volatile u8 a[48 << 10];
  for (size_t i = 0; i < sizeof a; i++) a[i] = (u8)fill;
  if (a[fill & 1023] != (u8)fill) abort();
}
static void dirty_heap(int fill) {
  vector<void*> v;
  for (size_t z = 16; z < 6000; z = z * 5 / 4)
    for (int k = 0; k < 3; k++) {
      void* p = malloc(z);
      memset(p, fill, z);
      v.push_back(p);
    }
  for (void* p : v) free(p);
}

// a buffer at a chosen alignment, with chosen bytes around it
struct Placed {
  vector<u8> mem;
  size_t off, n;
  Placed(const Bytes& b, size_t align, int around) : mem(b.size() + 80, (u8)around), off(32 + align), n(b.size()) {
    if (n) memcpy(&mem[off], b.data(), n);
  }
  const u8* data() const { return &mem[off]; }
};

static u64 meta(const NalU& n, bool place, bool sum) {
  u64 h = 7;
  if (place) {
    h = fnvs(fmt("%zu %zu", n.offset, n.length), h);
  }
  h = fnvs(fmt("%zu", n.parsed_length), h);
  if (sum && n.checksum) h = fnvs(n.checksum->GetPrintableChecksum(), h);
  return h;
}
struct Result {
  vector<u64> units;   // content of each returned unit, 0: none
  vector<u64> metas;   // place, parsed length, checksum
  vector<u64> sums;    // parsed length, checksum
  u64 state = 0;
  u64 unimpl = 0;
  u64 text = 0;        // dumps
  u64 all(bool with_meta) const {
    u64 h = 1;
    for (u64 u : units) h = mix(h, u);
    if (with_meta)
      for (u64 u : metas) h = mix(h, u);
    h = mix(h, state);
    return mix(h, unimpl);
  }
};
static Bytes start_coded(const vector<Bytes>& nals, u64 key) {
  Bytes b;
  for (size_t i = 0; i < nals.size(); i++) {
    if (key >> (i % 60) & 1) b.push_back(0);
    b.insert(b.end(), {0, 0, 1});
    b.insert(b.end(), nals[i].begin(), nals[i].end());
  }
  return b;
}
static ParsingOptions options(unsigned k) {
  ParsingOptions p;
  p.add_offset = k & 1;
  p.add_length = k >> 1 & 1;
  p.add_parsed_length = k >> 2 & 1;
  p.add_checksum = k >> 3 & 1;
  p.add_resolution = k >> 4 & 1;
  return p;
}
static u64 dump_of(const NalU& n, const ParsingOptions& po) {
#ifdef FDUMP_DEFINE
  return fnvs(capture([&](FILE* fp) {
    n.fdump(fp, 0, po);
    n.fdump(fp, -1, po);
  }));
#else
  (void)n;
  (void)po;
  return 0;
#endif
}

// entry: 0 whole stream with state, 1 whole stream stateless, 2 unit by unit,
// 3 un-escaped unit by unit, 4 unit by unit through a bit buffer, 5 length fields
static Result parse(const Case& c, int entry, const ParsingOptions& po, size_t align, int around,
                    const Case* between = nullptr) {
  Result x;
  u64 u0 = get_unimplemented_count();
  H264BitstreamParserState st;
  auto note = [&](const NalU* n, bool place) {
    if (!n) {
      return;
    }
    x.units.push_back(digest(flat_nal(*n)));
    x.metas.push_back(meta(*n, place, true));
    x.sums.push_back(meta(*n, false, true));
    x.text = mix(x.text, dump_of(*n, po));
  };
  if (entry <= 1 || entry == 5) {
    Bytes b;
    std::unique_ptr<H264BitstreamParser::BitstreamState> bs;
    if (entry == 5) b = length_framed(c.nals, 4, nullptr);
    else b = start_coded(c.nals, c.key);
    Placed p(b, align, around);
    if (entry == 0) bs = H264BitstreamParser::ParseBitstream(p.data(), p.n, &st, po);
    else if (entry == 1) bs = H264BitstreamParser::ParseBitstream(p.data(), p.n, po);
    else bs = H264BitstreamParser::ParseBitstreamNALULength(p.data(), p.n, 4, &st, po);
    if (bs)
      for (auto& n : bs->nal_units) note(n.get(), entry != 5);
  } else {
    H264BitstreamParserState other;
    size_t k = 0;
    for (auto& n : c.nals) {
      if (between && !between->other.empty()) {
        u64 a = get_unimplemented_count();
        const Bytes& w = between->other[k++ % between->other.size()];
        Placed q(w, align ^ 3, 0x55);
        auto y = H264NalUnitParser::ParseNalUnit(q.data(), q.n, &other, po);
        u0 += get_unimplemented_count() - a;
      }
      std::unique_ptr<NalU> y;
      if (entry == 3) {
        Bytes raw = unescape(n);
        Placed p(raw, align, around);
        y = H264NalUnitParser::ParseNalUnitUnescaped(p.data(), p.n, &st, po);
      } else if (entry == 4) {
        Bytes raw = unescape(n);
        Placed p(raw, align, around);
        BitBuffer bb(p.data(), p.n);
        y = H264NalUnitParser::ParseNalUnit(&bb, &st, po);
      } else {
        Placed p(n, align, around);
        y = H264NalUnitParser::ParseNalUnit(p.data(), p.n, &st, po);
      }
      note(y.get(), true);
    }
  }
  if (entry != 1) x.state = digest(flat_state(st));
  x.unimpl = get_unimplemented_count() - u0;
  return x;
}

// the entry points of the single structures
static u64 box(const Case& c, size_t align, int around) {
  H264BitstreamParserState st;
  ParsingOptions po;
  u64 h = 1;
  for (auto& n : c.nals) {
    Bytes raw = unescape(n);
    Placed p(raw, align, around);
    H264NalUnitParser::ParseNalUnitUnescaped(p.data(), p.n, &st, po);
    h = mix(h, toolbox(p.data(), p.n, c.key + n.size(), &st));
  }
  return h;
}

// a buffer that is used over and over, as a reading loop does: each unit (or the
// whole stream) lies where an almost equal one was parsed just before
static Bytes near_copy(Rng& r, Bytes b) {
  if (b.size() < 3) return b;
  size_t keep = r.chance(50) ? 1 : r.below(b.size() / 2);
  size_t lo = std::max<size_t>(1, keep), hi = b.size() - std::max<size_t>(1, keep);
  if (lo >= hi) {
    lo = 1;
    hi = b.size() - 1;
  }
  b[lo + r.below(hi - lo)] ^= (u8)(1u << r.below(8));
  return b;
}
static Result parse_in_place(Rng& r, const Case& c, bool stream, bool raw, const ParsingOptions& po) {
  Result x;
  H264BitstreamParserState st;
  u64 skip = 0, u0 = get_unimplemented_count();
  size_t most = 64;
  Bytes whole = start_coded(c.nals, c.key);
  most = std::max(most, whole.size());
  for (auto& n : c.nals) most = std::max(most, n.size());
  vector<u8> mem(most + 16);
  u8* at = mem.data() + r.below(8);
  auto note = [&](const NalU* n) {
    if (!n) return;
    x.units.push_back(digest(flat_nal(*n)));
    x.metas.push_back(meta(*n, true, true));
    x.sums.push_back(meta(*n, false, true));
  };
  for (size_t k = 0; k < (stream ? 1 : c.nals.size()); k++) {
    Bytes real = stream ? whole : raw ? unescape(c.nals[k]) : c.nals[k];
    for (int turn = 0; turn < 2; turn++) {
      Bytes b = turn ? real : near_copy(r, real);
      if (b.empty()) b.push_back(0);
      memcpy(at, b.data(), b.size());
      size_t n = real.size();
      H264BitstreamParserState none;
      H264BitstreamParserState* use = turn ? &st : &none;
      u64 a = get_unimplemented_count();
      if (stream) {
        auto bs = H264BitstreamParser::ParseBitstream(at, n, use, po);
        if (turn && bs)
          for (auto& y : bs->nal_units) note(y.get());
      } else {
        auto y = raw ? H264NalUnitParser::ParseNalUnitUnescaped(at, n, use, po) : H264NalUnitParser::ParseNalUnit(at, n, use, po);
        if (turn) note(y.get());
      }
      if (!turn) skip += get_unimplemented_count() - a;
    }
  }
  x.state = digest(flat_state(st));
  x.unimpl = get_unimplemented_count() - u0 - skip;
  return x;
}

MODULE(P20, "a case of a build, distinct by entry point, options, surroundings and result") {
  const auto& cs = cases();
  if (g->index >= cs.size()) return;
  const Case& c = cs[g->index];
  ParsingOptions full;
  mallopt(M_PERTURB, 0);
  Result base = parse(c, 0, full, 0, 0);
  u64 base_box = box(c, 0, 0);
  FILE* f = fopen((g->scratch + "/digests.txt").c_str(), "a");
  if (!f) abort();
  u64 full_text = base.text;
#ifdef FDUMP_DEFINE
  {  // RTP
    H264BitstreamParserState st;
    for (auto& n : c.nals) {
      Placed p(n, 1, 0);
      auto y = H264RtpParser::ParseRtp(p.data(), p.n, &st);
      full_text = mix(full_text, y ? fnvs(capture([&](FILE* fp) { y->fdump(fp, -1, full); })) : 3);
    }
  }
#endif
  fprintf(f, "%" PRIu64 " %016" PRIx64 " %016" PRIx64 " %zu\n", c.index, mix(base.all(true), base_box), full_text, base.units.size());
  fclose(f);
  if (!base.units.empty()) g->seen(base.all(true));
  g->count("units", base.units.size());
  if (base.unimpl) g->count("cases_unimplemented");

  // changed surroundings, same result
  auto same = [&](const Result& y, const char* what, bool metas, bool state, bool texts) {
    bool ok = y.units == base.units && (!state || y.state == base.state) && y.unimpl == base.unimpl && (!metas || y.metas == base.metas) &&
              (!texts || y.text == base.text);
    size_t k = 0;
    while (k < y.units.size() && k < base.units.size() && y.units[k] == base.units[k]) k++;
    CHECK_(ok, string("P20:") + what, "case %" PRIu64 ": %s: %zu units against %zu, first difference at %zu, state %s, count %" PRIu64 " against %" PRIu64,
           c.index, what, y.units.size(), base.units.size(), k, y.state == base.state ? "same" : "differs", y.unimpl, base.unimpl);
    g->count(string("repeat ") + what);
    g->seen(mix(fnvs(what), base.units.size() * 1000 + base.unimpl));
  };
  static const int fills[] = {0x00, 0xff, 0xa5, 0x01, 0x80};
  for (int k = 0; k < 3 && !g->violations; k++) {
    int fill = fills[r.below(5)];
    mallopt(M_PERTURB, fill ^ 0xff);
    dirty_heap(fill);
    dirty_stack(fill);
    same(parse(c, 0, full, r.below(16), fill), "memory contents", true, true, true);
    if (k == 0) {
      dirty_heap(fill);
      dirty_stack(fill);
      CHECK_(box(c, r.below(16), fill) == base_box, "P20:structures", "case %" PRIu64 ": the structure parsers give other results when repeated", c.index);
      g->count("repeat structures");
    }
  }
  mallopt(M_PERTURB, (int)r.below(256));
  const Case& o = cs[r.below(cs.size())];
  if (!g->violations) {
    parse(o, 0, full, 0, 0);
    same(parse(c, 0, full, 0, 0), "after unrelated parse", true, true, true);
  }
  if (!g->violations) same(parse(c, 1, full, r.below(16), 0xff), "stateless entry", true, false, true);
  if (!g->violations) {
    Result y = parse(c, 2, full, r.below(16), 1);
    same(y, "unit by unit", false, true, false);
    Result z = parse(c, 2, full, r.below(16), 0xfe, &o);
    same(z, "interleaved with unrelated", false, true, false);
    CHECK_(y.metas == z.metas && y.text == z.text, "P20:unit-meta", "case %" PRIu64 ": unit by unit results differ when repeated", c.index);
    Result w = parse(c, 3, full, r.below(16), 3);
    same(w, "un-escaped entry", false, true, false);
    CHECK_(w.sums == y.sums, "P20:unescaped-meta", "case %" PRIu64 ": escaped and un-escaped entry give other lengths or checksums",
           c.index);
    Result v = parse(c, 4, full, r.below(16), 3);
    same(v, "bit buffer entry", false, true, false);
    Result l = parse(c, 5, full, r.below(16), 7);
    same(l, "length fields", false, true, false);
  }
  if (!g->violations) {
    same(parse_in_place(r, c, false, false, full), "reused buffer", false, true, false);
    same(parse_in_place(r, c, false, true, full), "reused un-escaped buffer", false, true, false);
    same(parse_in_place(r, c, true, false, full), "reused stream buffer", true, true, false);
  }
  if (!g->violations) {
    unsigned k = (unsigned)r.below(32);
    int e = (int)r.below(4);
    same(parse(c, e, options(k), r.below(16), 0), "other options", false, e != 1, false);
  }
}
