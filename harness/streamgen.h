// Workload generation: NAL units, histories, framings, mutations.
#pragma once
#include "ref.h"

struct GenOpt {
  int type = -1;          // -1: any
  bool fault = false;     // one element out of range, or its code unreadable
  int pool = 0;           // > 0: parameter set ids come from a pool this small
  int bigpct = 2;
  vector<int> weights;    // by NAL unit type (32 entries), empty: default
  map<string, i64> force;
};
struct GenNal {
  Bytes raw;  // un-escaped
  string fault_name;
  int ranged = 0, codes = 0;
};

inline vector<int> weights(std::initializer_list<std::pair<int, int>> l) {
  vector<int> w(32, 0);
  for (auto& p : l) w[p.first] = p.second;
  return w;
}
inline int draw_type(Rng& r, const GenOpt& o) {
  static const vector<int> def = {1, 20, 1, 1, 1, 12, 3, 16, 18, 1, 1,
                                  1, 1,  1, 6, 10, 1, 1, 1,  1, 16, 1,
                                  1, 1,  1, 0, 0,  0, 1, 0,  0, 1};
  const vector<int>& w = o.weights.empty() ? def : o.weights;
  int sum = 0;
  for (int x : w) sum += x;
  int k = (int)r.below((u64)sum);
  for (int i = 0; i < 32; i++) {
    if (k < w[i]) return i;
    k -= w[i];
  }
  return 7;
}

inline GenNal gen_nal_once(Rng& r, const RefState& st, const GenOpt& o, int type,
                           int fault, int overlong = -1) {
  GenNal out;
  Node tmp;
  Syn s = Syn::mk(r, &tmp);
  s.fault = fault;
  s.overlong = overlong;
  s.bigpct = o.bigpct;
  s.force = o.force;
  const string h = "nal_unit_header.";
  s.force[h + "nal_unit_type"] = type;
  if (!r.chance(3)) s.force[h + "forbidden_zero_bit"] = 0;
  if (!r.chance(4) && !s.force.count(h + "svc_extension_flag"))
    s.force[h + "svc_extension_flag"] = 1;
  if (o.pool > 0) {
    auto some = [&](int n) { return (i64)r.below((u64)n); };
    if (r.chance(90)) s.force["sps.sps_data.seq_parameter_set_id"] = some(o.pool);
    if (r.chance(90)) s.force["subset_sps.sps_data.seq_parameter_set_id"] = some(o.pool);
    if (r.chance(90)) s.force["pps.pic_parameter_set_id"] = some(o.pool + 1);
    if (r.chance(90)) s.force["pps.seq_parameter_set_id"] = some(o.pool);
  }
  if (type == 8 && !o.force.count("pps.seq_parameter_set_id") && r.chance(70)) {
    vector<i64> ids;
    for (auto& x : st.sps) ids.push_back(x.first);
    for (auto& x : st.subset) ids.push_back(x.first);
    if (!ids.empty()) s.force["pps.seq_parameter_set_id"] = r.pick(ids);
  }
  if (type == 15 && r.chance(75) && !o.force.count("subset_sps.sps_data.profile_idc"))
    s.force["subset_sps.sps_data.profile_idc"] = r.chance(50) ? 83 : 86;
  RefNal n;
  try {
    nal_hdr(s, n);
    bool done = n.attempted();
    nal_payload(s, n, st);
    bool slice = type == 1 || type == 5 || type == 20;
    if (slice || !done) {
      int k = (int)r.below(r.chance(5) ? 400 : 24);
      for (int i = 0; i < k; i++) s.put(r.next() & 255, 8);
      s.trailing();
    }
  } catch (Reject&) {
    s.fault = s.overlong = -1;
    int k = (int)r.below(24);
    for (int i = 0; i < k; i++) s.put(r.next() & 255, 8);
    s.trailing();
  }
  out.raw = s.out;
  out.fault_name = s.fault_name;
  out.ranged = s.ranged;
  out.codes = s.codes;
  return out;
}

inline GenNal gen_nal(Rng& r, const RefState& st, const GenOpt& o = GenOpt()) {
  int type = o.type >= 0 ? o.type : draw_type(r, o);
  if (!o.fault) return gen_nal_once(r, st, o, type, -1);
  Rng save = r;
  GenNal a = gen_nal_once(r, st, o, type, -1);
  Rng q(save.s ^ 0x5555);
  if (a.codes && q.chance(25)) {
    r = save;
    return gen_nal_once(r, st, o, type, -1, (int)q.below((u64)a.codes));
  }
  if (a.ranged == 0) return a;
  r = save;
  int k = (int)q.below((u64)a.ranged);
  return gen_nal_once(r, st, o, type, k);
}

// sizes at and beside the places where a counter, a field or a block ends
inline size_t edge_size(Rng& r, int lo, int hi) {
  size_t k = (size_t)1 << r.range(lo, hi);
  if (r.chance(30)) k += k / 2;
  return k + (size_t)r.range(-3, 3);
}
// a unit the parser only frames, of a given size, without zero bytes at all or
// with escapes
inline Bytes filler_nal(Rng& r, size_t n, bool zeros = false) {
  static const vector<int> t = {6, 9, 12, 0, 31, 13, 2, 19, 23};
  Bytes b;
  b.reserve(n + 1);
  b.push_back((u8)((r.below(4) << 5) | (u64)r.pick(t)));
  u64 x = r.next() | 1;
  while (b.size() < n) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    u8 v = (u8)(x >> 56);
    if (zeros && (v & 7) < 3 && b.size() > 1 && b.size() + 4 < n) {
      if ((v & 7) < 2) b.push_back(0);
      else b.insert(b.end(), {0, 0, 3, (u8)(v >> 6)});
      // no start code, no bare 00 00 0x
      if (b.back() == 0) b.push_back(1);
    } else b.push_back(v < 4 ? 4 : v);
  }
  if (b.size() > n) b.resize(n);
  if (b.size() > 1 && b.back() < 4) b.back() = 0x80;
  return b;
}

inline void mutate(Rng& r, Bytes& b) {
  int k = 1 + (int)r.below(3);
  while (k--) {
    switch (r.below(9)) {
      case 0:
      case 1:
      case 2:
        if (!b.empty()) b[r.below(b.size())] ^= (u8)(1 << r.below(8));
        break;
      case 3:
        if (!b.empty()) b[r.below(b.size())] = (u8)r.next();
        break;
      case 4:
        if (!b.empty()) b.resize(r.below(b.size()));
        break;
      case 5:
        b.insert(b.begin() + (long)r.below(b.size() + 1), (u8)r.next());
        break;
      case 6:
        if (!b.empty()) b.erase(b.begin() + (long)r.below(b.size()));
        break;
      case 7: {
        if (b.empty()) break;
        size_t p = r.below(b.size()), n = r.below(8) + 1;
        u8 v = r.chance(50) ? 0 : 0xff;
        for (size_t i = p; i < b.size() && i < p + n; i++) b[i] = v;
        break;
      }
      default: {
        size_t n = r.below(10);
        for (size_t i = 0; i < n; i++) b.push_back((u8)r.next());
      }
    }
  }
}

// NAL units in sending order, as raw (un-escaped) bytes; `st` evolves
inline vector<Bytes> gen_history(Rng& r, int count, RefState& st, int faultpct,
                                 int mutpct, GenOpt o = GenOpt()) {
  vector<Bytes> v;
  for (int i = 0; i < count; i++) {
    GenOpt x = o;
    x.fault = r.chance(faultpct);
    // most histories start with parameter sets
    if (o.type < 0 && o.weights.empty() && i < 4 && r.chance(80)) {
      static const int t[4] = {7, 8, 15, 8};
      x.type = t[i];
    }
    GenNal n = gen_nal(r, st, x);
    if (r.chance(mutpct)) mutate(r, n.raw);
    ref_decode(n.raw, st);
    v.push_back(n.raw);
  }
  return v;
}

// a NAL unit as it appears in a stream: escaped, and never ending in zero
inline Bytes wire(const Bytes& raw) {
  Bytes e = escape(raw);
  if (!e.empty() && e.back() == 0) e.push_back(3);
  return e;
}

struct Span {
  size_t start, payload, size;
};
// Annex B byte stream of the given (escaped) NAL units
// trailing and leading zero bytes: mostly few, now and then stuffing
inline size_t zero_run(Rng& r, size_t few) { return r.chance(97) ? r.below(few) : r.below(r.chance(80) ? 80 : 1200); }
inline Bytes annexb(Rng& r, const vector<Bytes>& nals, vector<Span>* idx,
                    bool zeros = true) {
  Bytes b;
  if (zeros && r.chance(20)) b.insert(b.end(), zero_run(r, 4), 0);
  for (auto& n : nals) {
    if (zeros && r.chance(10)) b.insert(b.end(), zero_run(r, 5), 0);
    if (r.chance(50)) b.push_back(0);
    b.push_back(0);
    b.push_back(0);
    b.push_back(1);
    size_t p = b.size();
    size_t st = p - 3;
    if (st > 0 && b[st - 1] == 0) st--;
    if (idx) idx->push_back({st, p, n.size()});
    b.insert(b.end(), n.begin(), n.end());
  }
  if (zeros && r.chance(20)) b.insert(b.end(), zero_run(r, 5), 0);
  return b;
}
inline Bytes length_framed(const vector<Bytes>& nals, size_t width, vector<Span>* idx) {
  Bytes b;
  for (auto& n : nals) {
    size_t st = b.size();
    for (size_t i = 0; i < width; i++) {
      size_t sh = 8 * (width - 1 - i);
      b.push_back(sh >= 64 ? 0 : (u8)((u64)n.size() >> sh));
    }
    if (idx) idx->push_back({st, b.size(), n.size()});
    b.insert(b.end(), n.begin(), n.end());
  }
  return b;
}
// a copy in an allocation of exactly the right size, so that the sanitizer
// sees any access past either end
struct Exact {
  u8* p;
  size_t n;
  explicit Exact(const Bytes& b) : p((u8*)malloc(b.size() ? b.size() : 1)), n(b.size()) {
    if (n) memcpy(p, b.data(), n);
  }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
  // what the library gets for an empty buffer: a pointer it must not read
  const u8* data() const { return n ? p : p + 1; }
};
