// P18: memory and work are bounded by the input size. Built with the library
// instrumented to count executed edges; every allocation and every block copy
// is counted here.
#include <stdint.h>

#include <new>

#include "session.h"
#include "h264_rtp_parser.h"

// ---- accounting ----------------------------------------------------------------
static u64 steps;       // executed edges of library code + bytes moved / 16
static i64 live, peak;  // bytes
static u64 total, largest;

extern "C" {
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { steps++; }
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  while (a < b) *a++ = 1;
}
// block operations the edge counter cannot see
__attribute__((noinline)) void* memmove(void* d, const void* s, size_t n) {
  steps += n / 16;
  u8* a = (u8*)d;
  const u8* b = (const u8*)s;
  if (a < b)
    __asm__ volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
  else if (a > b && n) {
    a += n - 1;
    b += n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
  }
  return d;
}
__attribute__((noinline)) void* memcpy(void* d, const void* s, size_t n) {
  steps += n / 16;
  void* a = d;
  __asm__ volatile("rep movsb" : "+D"(a), "+S"(s), "+c"(n) : : "memory");
  return d;
}
__attribute__((noinline)) void* memset(void* d, int v, size_t n) {
  steps += n / 16;
  void* a = d;
  __asm__ volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(v) : "memory");
  return d;
}
}
// requested bytes, not what the allocator rounds them to: a 16-byte header
// remembers how much each block asked for
static void* take(size_t n) {
  u64* p = (u64*)malloc(n + 16);
  if (!p) abort();
  p[0] = n;
  live += (i64)n;
  total += n;
  if (n > largest) largest = n;
  if (live > peak) peak = live;
  return p + 2;
}
static void give(void* q) {
  if (!q) return;
  u64* p = (u64*)q - 2;
  live -= (i64)p[0];
  free(p);
}
void* operator new(size_t n) {
  if (n > (1ull << 32)) {  // do not take the machine down: it is over any bound
    total += n;
    largest = n;
    peak = (i64)n;
    throw std::bad_alloc();
  }
  return take(n);
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

struct Cost {
  u64 steps = 0, total = 0, largest = 0;
  i64 peak = 0, kept = 0;
};
template <class F>
static Cost measure(F f) {
  u64 s0 = steps, t0 = total;
  i64 l0 = live;
  largest = 0;
  peak = live;
  f();
  Cost c;
  c.steps = steps - s0;
  c.total = total - t0;
  c.largest = largest;
  c.peak = peak - l0;
  c.kept = live - l0;
  return c;
}

// Bounds: several times what the costliest input of each kind needs. A NAL
// unit of one byte (four with its start code) already costs a handful of small
// structures, so the factors are large; they are still far below what a
// claimed table size (2^32 entries, 2^64 bytes) would cost.
static const u64 kPeak0 = 32 << 10, kPeak1 = 600;
static const u64 kTotal0 = 64 << 10, kTotal1 = 1600;
static const u64 kSteps0 = 20000, kSteps1 = 600;

static map<string, double> worst;
static void bound(const Cost& c, size_t n, const string& what, const string& detail) {
  CHECK_((u64)c.peak <= kPeak0 + kPeak1 * n, "P18:peak:" + what, "%s: %zu bytes of input held %" PRId64 " bytes of memory at once; %s", what.c_str(), n,
         c.peak, detail.c_str());
  CHECK_(c.total <= kTotal0 + kTotal1 * n, "P18:total:" + what, "%s: %zu bytes of input allocated %" PRIu64 " bytes; %s", what.c_str(), n, c.total,
         detail.c_str());
  CHECK_(c.steps <= kSteps0 + kSteps1 * n, "P18:steps:" + what, "%s: %zu bytes of input took %" PRIu64 " steps; %s", what.c_str(), n, c.steps,
         detail.c_str());
  worst["peak"] = std::max(worst["peak"], (double)c.peak / (double)(kPeak0 + kPeak1 * n));
  worst["total"] = std::max(worst["total"], (double)c.total / (double)(kTotal0 + kTotal1 * n));
  worst["steps"] = std::max(worst["steps"], (double)c.steps / (double)(kSteps0 + kSteps1 * n));
}

typedef H264BitstreamParser::BitstreamState BS;
static std::unique_ptr<BS> parse_any(const Exact& e, int framing, size_t width, H264BitstreamParserState* st, const ParsingOptions& po) {
  if (framing == 1) return H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, width, st, po);
  return H264BitstreamParser::ParseBitstream(e.data(), e.n, st, po);
}

// ---- small buffers that announce a lot -------------------------------------------
static void claims(Rng& r) {
  RefState rs;
  H264BitstreamParserState st;
  GenOpt go;
  go.pool = 2;
  go.bigpct = (int)r.pick(vector<int>{2, 60, 95});
  int n = (int)r.range(2, 8);
  ParsingOptions po;
  po.add_checksum = r.chance(50);
  size_t fed = 0;
  i64 base = live;
  for (int i = 0; i < n; i++) {
    GenOpt x = go;
    x.fault = r.chance(35);
    if (i < 3 && r.chance(70)) x.type = i == 1 ? 8 : (r.chance(60) ? 7 : 15);
    // the elements that size a table
    if (r.chance(50)) {
      static const vector<const char*> sizes = {
          "pps.pic_size_in_map_units_minus1", "sps.sps_data.num_ref_frames_in_pic_order_cnt_cycle",
          "pps.num_slice_groups_minus1", "sps.sps_data.vui_parameters.nal_hrd_parameters.cpb_cnt_minus1",
          "slice_layer_without_partitioning_rbsp.slice_header.num_ref_idx_l0_active_minus1",
          "slice_layer_extension_rbsp.slice_header_in_scalable_extension.num_ref_idx_l1_active_minus1",
          "pps.num_ref_idx_l0_default_active_minus1", "sps.sps_data.pic_width_in_mbs_minus1",
          "sps.sps_data.pic_height_in_map_units_minus1", "sps.sps_data.max_num_ref_frames"};
      const char* k = r.pick(sizes);
      static const vector<i64> vals = {255, 256, 4095, 65535, 1000000, 139263, 139264, 0x7fffffff, 4294967294ll};
      x.force[k] = r.pick(vals);
      if (!strcmp(k, "pps.pic_size_in_map_units_minus1")) {
        x.type = 8;
        x.force["pps.num_slice_groups_minus1"] = r.range(1, 7);
        x.force["pps.slice_group_map_type"] = 6;
      }
      if (!strncmp(k, "sps.", 4)) x.type = 7;
      if (!strcmp(k, "sps.sps_data.num_ref_frames_in_pic_order_cnt_cycle")) x.force["sps.sps_data.pic_order_cnt_type"] = 1;
    }
    GenNal gn = gen_nal(r, rs, x);
    Bytes b = gn.raw;
    if (b.size() > 60 && r.chance(85)) b.resize((size_t)r.range(4, 60));  // announced, not delivered
    if (r.chance(20)) mutate(r, b);
    ref_decode(b, rs);
    Bytes w = wire(b);
    Exact e(w);
    fed += w.size();
    std::unique_ptr<NalU> res;
    Cost c = measure([&] { res = H264NalUnitParser::ParseNalUnit(e.data(), e.n, &st, po); });
    bound(c, e.n, "nal", fmt("type %d: %s", w.empty() ? -1 : w[0] & 31, hex(w, 40).c_str()));
    g->count("claims_nal");
    if (!x.force.empty()) g->count("claims_forced_size");
    g->seen(fnvs(fmt("claim %d %zu %d %zu", w.empty() ? -1 : w[0] & 31, x.force.size() ? (size_t)fnvs(x.force.begin()->first) : 0, lib_parsed(res.get()),
                     w.size() / 4)));
    if (g->violations) return;
    // RTP carries the same claims
    if (r.chance(25) && w.size() > 2) {
      Bytes p;
      int kind = (int)r.below(3);
      if (kind == 0) p = w;
      else if (kind == 1) {
        p = {0x78};
        size_t z = r.chance(50) ? w.size() : (size_t)r.pick(vector<int>{65535, 4000, 1, 0});
        p.push_back((u8)(z >> 8));
        p.push_back((u8)z);
        p.insert(p.end(), w.begin(), w.end());
      } else {
        p = {(u8)((w[0] & 0xe0) | 28), (u8)(0x80 | (w[0] & 31))};
        p.insert(p.end(), w.begin() + 1, w.end());
      }
      Exact q(p);
      std::unique_ptr<H264RtpParser::RtpState> x2;
      Cost c2 = measure([&] { x2 = H264RtpParser::ParseRtp(q.data(), q.n, &st); });
      bound(c2, q.n, "rtp", hex(p, 40));
      g->count("claims_rtp");
    }
    // so does a length field
    if (r.chance(25)) {
      size_t width = (size_t)r.range(1, 8);
      Bytes p;
      for (size_t k = 0; k < width; k++) p.push_back((u8)(r.chance(50) ? 0xff : r.next()));
      p.insert(p.end(), w.begin(), w.end());
      Exact q(p);
      std::unique_ptr<BS> x3;
      Cost c3 = measure([&] { x3 = H264BitstreamParser::ParseBitstreamNALULength(q.data(), q.n, width, &st, po); });
      bound(c3, q.n, "length-field", hex(p, 40));
      g->count("claims_length_field");
    }
  }
  (void)fed;
  (void)base;
}

// ---- large repetitive buffers: cost at n, 2n, 4n ----------------------------------
static void growth(Rng& r) {
  int kind = (int)r.below(14);
  static const char* names[] = {"zeros", "short start codes", "tiny units", "escapes", "one big unit", "sps repeated", "pps repeated", "slices repeated",
                                "tiny length units", "stap-a", "ones", "near start codes", "trailing zeros", "history"};
  Bytes unit;
  RefState rs;
  vector<Bytes> setup;
  GenOpt go;
  go.pool = 1;
  go.bigpct = 0;
  auto valid = [&](int type) {
    for (int k = 0; k < 40; k++) {
      GenOpt x = go;
      x.type = type;
      if (type == 1 || type == 5) x.force["nal_unit_header.nal_ref_idc"] = 1;
      GenNal n = gen_nal(r, rs, x);
      RefState t = rs;
      RefNal f = ref_decode(n.raw, t);
      if (f.payload_ok) {
        rs = t;
        return wire(n.raw);
      }
    }
    return Bytes{(u8)(0x60 | type), 0x80};
  };
  int framing = 0;
  size_t width = (size_t)r.range(1, 4);
  auto sc = [&](Bytes& b) {
    if (r.chance(50)) b.push_back(0);
    b.insert(b.end(), {0, 0, 1});
  };
  size_t base = (size_t)r.pick(vector<int>{1 << 12, 1 << 13, 3 << 12, 1 << 14});
  Bytes prefix;
  switch (kind) {
    case 0: unit = {0}; prefix = {0, 0, 1, 0x67}; break;
    case 1: unit = {0, 0, 1}; break;
    case 2: unit = {0, 0, 1, (u8)r.next()}; break;
    case 3: unit = {0, 0, 3, (u8)r.below(4)}; prefix = {0, 0, 1, (u8)(0x60 | r.pick(vector<int>{1, 5, 6, 7, 8, 15, 20}))}; break;
    case 4: unit = {(u8)(1 + r.below(255)), (u8)(1 + r.below(255))}; prefix = {0, 0, 1, (u8)(0x60 | r.pick(vector<int>{1, 5, 6, 7, 8, 12, 15, 14, 20}))}; break;
    case 5:
    case 6:
    case 7: {
      Bytes s = valid(7), p = valid(8), x = kind == 5 ? s : kind == 6 ? p : valid(r.chance(50) ? 1 : 5);
      for (auto* y : {&s, &p}) {
        sc(prefix);
        prefix.insert(prefix.end(), y->begin(), y->end());
      }
      sc(unit);
      unit.insert(unit.end(), x.begin(), x.end());
      break;
    }
    case 8: {
      framing = 1;
      size_t z = (size_t)r.range(1, 3);
      for (size_t k = 0; k + 1 < width; k++) unit.push_back(0);
      unit.push_back((u8)z);
      for (size_t k = 0; k < z; k++) unit.push_back((u8)r.next());
      break;
    }
    case 9: {
      framing = 2;
      prefix = {0x78};
      size_t z = (size_t)r.range(1, 4);
      unit = {0, (u8)z};
      for (size_t k = 0; k < z; k++) unit.push_back((u8)(1 + r.below(255)));
      break;
    }
    case 10: unit = {0xff}; prefix = {0, 0, 1, (u8)(0x60 | r.pick(vector<int>{1, 7, 8, 15}))}; break;
    case 11: unit = r.chance(50) ? Bytes{0, 0, 2} : Bytes{0, 1}; prefix = {0, 0, 1, 0x65}; break;
    case 12: unit = {0, 0, 1, 0x67, 0, 0, 0, 0, 0, 0, 0, 0}; break;
    default: {
      for (int k = 0; k < 8; k++) {
        Bytes x = k == 0 ? valid(7) : k == 1 ? valid(8) : valid((int)r.pick(vector<int>{1, 5, 7, 8, 15}));
        sc(unit);
        unit.insert(unit.end(), x.begin(), x.end());
      }
    }
  }
  Cost c[3];
  size_t n[3];
  ParsingOptions po;
  po.add_checksum = r.chance(50);
  bool withstate = r.chance(70);
  for (int k = 0; k < 3; k++) {
    Bytes b = prefix;
    while (b.size() < base << k) b.insert(b.end(), unit.begin(), unit.end());
    Exact e(b);
    n[k] = e.n;
    H264BitstreamParserState st;
    std::unique_ptr<BS> bs;
    std::unique_ptr<H264RtpParser::RtpState> rt;
    c[k] = measure([&] {
      if (framing == 2) rt = H264RtpParser::ParseRtp(e.data(), e.n, &st);
      else bs = parse_any(e, framing, width, &st, po);
    });
    bound(c[k], e.n, names[kind], hex(unit, 30));
    (void)withstate;
    if (g->violations) return;
  }
  auto linear = [&](const char* what, double a, double b4) {
    // four times the input: at most about four times the cost
    CHECK_(b4 <= 6.0 * a + 40000, fmt("P18:growth:%s:%s", what, names[kind]), "%s: %s grows from %.0f to %.0f when the input grows from %zu to %zu bytes",
           names[kind], what, a, b4, n[0], n[2]);
  };
  linear("steps", (double)c[0].steps, (double)c[2].steps);
  linear("memory", (double)c[0].peak, (double)c[2].peak);
  linear("allocation", (double)c[0].total, (double)c[2].total);
  g->count(string("growth_") + names[kind]);
  g->seen(fnvs(fmt("growth %s %zu %zu %d", names[kind], base, unit.size(), po.add_checksum)));
  if (r.chance(4))
    g->sample(fmt("%s: %zu bytes -> %" PRIu64 " steps, %" PRId64 " bytes held; %zu bytes -> %" PRIu64 " steps, %" PRId64 " bytes held", names[kind], n[0], c[0].steps,
                  c[0].peak, n[2], c[2].steps, c[2].peak));
}

// ---- one unit that is itself long: cost at n, 2n, 4n -------------------------------
struct Pen {
  Bytes b;
  int left = 0;
  Pen& u(int n, u64 v) {
    while (n-- > 0) {
      if (!left) {
        b.push_back(0);
        left = 8;
      }
      if (v >> n & 1) b.back() = (u8)(b.back() | 1u << (left - 1));
      left--;
    }
    return *this;
  }
  Pen& ue(u64 v) {
    int k = 0;
    while ((v + 1) >> k > 1) k++;
    return u(k, 0).u(k + 1, v + 1);
  }
  Bytes done(int header) {
    u(1, 1);
    Bytes o = {(u8)header};
    o.insert(o.end(), b.begin(), b.end());
    return escape(o);
  }
};
static void long_units(Rng& r) {
  static const char* names[] = {"slice group map", "list modifications", "marking operations", "prefix extension", "subset extension", "scalable slice lists", "length split"};
  int kind = (int)r.below(7);
  auto sps = [](int profile, Pen& p) {
    p.u(8, (u64)profile).u(8, 0).u(8, 40).ue(0);
    if (profile == 83 || profile == 86) p.ue(1).ue(0).ue(0).u(1, 0).u(1, 0);
    p.ue(0).ue(2).ue(1).u(1, 0).ue(300).ue(300).u(1, 1).u(1, 1).u(1, 0).u(1, 0);
  };
  Pen s0, p0, ss;
  sps(66, s0);
  p0.ue(0).ue(0).u(1, 0).u(1, 0).ue(0).ue(0).ue(0).u(1, 0).u(2, 0).ue(0).ue(0).ue(0).u(3, 0);
  sps(83, ss);
  ss.u(1, 0).u(2, 0).u(1, 0).u(2, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0);
  vector<Bytes> setup = {s0.done(0x67), ss.done(0x6f), p0.done(0x68)};
  size_t base = (size_t)r.pick(vector<int>{1 << 10, 1 << 11, 3 << 10});
  u64 arg = r.below(4);
  Cost c[3], d[3];
  size_t n[3];
  u64 got[3] = {};
  for (int k = 0; k < 3; k++) {
    size_t bytes = base << k, items = bytes * 8;
    Pen p;
    Bytes b;
    switch (kind) {
      case 0:
        p.ue(1).ue(0).u(2, 0).ue(1).ue(6).ue(items - 1);
        for (size_t i = 0; i < items; i++) p.u(1, i & 1);
        p.ue(0).ue(0).u(1, 0).u(2, 0).ue(0).ue(0).ue(0).u(3, 0);
        b = p.done(0x68);
        break;
      case 1:
      case 2:
      case 5:
        p.ue(0).ue(0).ue(0).u(4, 0).u(1, 0);
        if (kind != 2) {
          p.u(1, 1);
          for (size_t i = 0; i < items / 4; i++) p.ue(arg & 1).ue(i % 3);
          p.ue(3);
        } else {
          p.u(1, 0);
        }
        if (kind == 5) {
          p.u(2, 0).u(40, ~0ull);  // no marking operations, no base picture; then flags and ue(0)
        } else {
          if (kind == 2) {
            p.u(1, 1);
            static const int ops[] = {1, 2, 3, 6};
            for (size_t i = 0; i < items / 8; i++) {
              p.ue((u64)ops[arg]).ue(i % 3);
              if (ops[arg] == 3) p.ue(i % 5);
            }
            p.ue(0);
          } else {
            p.u(1, 0);
          }
          p.ue(0);
        }
        b = p.done(kind == 5 ? 0x74 : 0x61);
        if (kind == 5) b.insert(b.begin() + 1, {0x80, 0x00, 0x07});
        break;
      case 3:
        p.u(1, 0).u(1, 1);
        for (size_t i = 0; i < items; i++) p.u(1, arg & 1);
        b = p.done(0x6e);
        b.insert(b.begin() + 1, {0x80, 0x00, 0x07});
        break;
      case 4:
        sps(66, p);
        p.u(1, 1);
        for (size_t i = 0; i < items; i++) p.u(1, (i + arg) & 1);
        b = p.done(0x6f);
        break;
      default:
        for (size_t i = 0; i < bytes; i += 4 + arg) {
          b.insert(b.end(), {0, 0, 0, (u8)arg});
          b.insert(b.end(), arg, 9);
        }
    }
    H264BitstreamParserState st;
    ParsingOptions po;
    po.add_checksum = r.chance(50);
    for (auto& x : setup) {
      Exact e(x);
      H264NalUnitParser::ParseNalUnit(e.data(), e.n, &st, po);
    }
    Exact e(b);
    n[k] = e.n;
    std::unique_ptr<NalU> res;
    if (kind == 6) {
      vector<H264BitstreamParser::NaluIndex> v;
      c[k] = measure([&] { v = H264BitstreamParser::FindNaluIndicesExplicitFraming(e.data(), e.n); });
      got[k] = v.size();
    } else {
      c[k] = measure([&] { res = H264NalUnitParser::ParseNalUnit(e.data(), e.n, &st, po); });
      got[k] = res && lib_parsed(res.get());
    }
    bound(c[k], e.n, names[kind], hex(b, 30));
    if (g->violations) return;
    if (res) {  // printing it costs no more than in proportion either
      static FILE* nul = fopen("/dev/null", "w");
      d[k] = measure([&] { res->fdump(nul, r.chance(50) ? -1 : 0, po); });
      g->count("measured_dumps");
    }
  }
  auto linear = [&](const char* what, double a, double b4) {
    CHECK_(b4 <= 6.0 * a + 40000, fmt("P18:growth:%s:%s", what, names[kind]), "%s: %s grows from %.0f to %.0f when the unit grows from %zu to %zu bytes", names[kind],
           what, a, b4, n[0], n[2]);
  };
  linear("steps", (double)c[0].steps, (double)c[2].steps);
  linear("memory", (double)c[0].peak, (double)c[2].peak);
  linear("allocation", (double)c[0].total, (double)c[2].total);
  linear("dump steps", (double)d[0].steps, (double)d[2].steps);
  linear("dump allocation", (double)d[0].total, (double)d[2].total);
  g->count(string("long ") + names[kind] + (got[2] ? " parsed" : " refused"));
  g->seen(fnvs(fmt("long %s %zu %d", names[kind], base, (int)arg)));
}

// ---- the remembered state does not grow with repetition ----------------------------
static void retention(Rng& r) {
  RefState rs;
  GenOpt go;
  go.pool = 3;
  go.bigpct = 0;
  auto raws = gen_history(r, (int)r.range(3, 12), rs, 10, 10, go);
  vector<Bytes> nals;
  for (auto& x : raws)
    if (!x.empty()) nals.push_back(wire(x));
  Bytes b = annexb(r, nals, nullptr);
  Exact e(b);
  ParsingOptions po;
  std::unique_ptr<H264BitstreamParserState> st(new H264BitstreamParserState);
  // the first rounds may still change which sets are remembered and how they
  // are read; after that, every round leaves what the one before it left
  auto once = [&] { auto bs = H264BitstreamParser::ParseBitstream(e.data(), e.n, st.get(), po); };
  for (int k = 0; k < 4; k++) once();
  i64 l0 = live;
  const int rounds = 24;
  for (int k = 0; k < rounds; k++) once();
  i64 more = live - l0;
  CHECK_(more <= 64, "P18:retention", "parsing the same %zu bytes %d times more keeps %" PRId64 " more bytes", e.n, rounds, more);
  g->count("retention_runs");
  g->seen(fnvs(fmt("retention %zu %zu", nals.size(), b.size() / 32)));
}

MODULE(P18, "a measured parse, distinct by kind of claim or repetition, forced element, size class and outcome") {
  int k = (int)r.below(21);
  if (k < 12) claims(r);
  else if (k < 17) growth(r);
  else if (k == 20) long_units(r);
  else retention(r);
  for (auto& w : worst) {
    u64& x = g->ev["maximum_permille_of_bound_" + w.first];
    x = std::max<u64>(x, (u64)(1000 * w.second));
  }
}
