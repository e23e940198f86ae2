// Independent model of the H.264 syntax the library supports, written from
// the syntax tables of the standard (7.3.*, G.7.3.*, E.1.*). The same
// description runs in two directions: it decodes bits (the oracle) and it
// generates them (the workload).
#pragma once
#include "common.h"

struct Reject {};   // the structure does not parse
struct Unspec {};   // input for which the expected result is not specified

// What a parse reports: named scalars, named lists, and which of the names
// were coded in the bits (as opposed to inferred).
struct Node {
  map<string, i64> val;
  map<string, vector<i64>> vec;
  set<string> coded;
  set<string> block;  // substructures present
  i64 get(const string& k, i64 d = 0) const {
    auto it = val.find(k);
    return it == val.end() ? d : it->second;
  }
  void clear() {
    val.clear();
    vec.clear();
    coded.clear();
    block.clear();
  }
};

static const i64 kUeMax = 4294967294ll;  // 2^32-2
static const i64 kSeMax = 2147483647ll;

struct Syn {
  bool gen;
  Rng* r = nullptr;
  // decode
  const u8* d = nullptr;
  size_t nb = 0;
  size_t pos = 0;  // in bits, both directions
  // generate
  Bytes out;
  Node* n = nullptr;
  string pre;
  // fault injection: the `fault`-th ranged element is coded out of range
  int fault = -1;
  int ranged = 0;
  string fault_name;
  // the `overlong`-th Exp-Golomb code starts with more zeros than any code has
  int overlong = -1;
  int zeros = 0;  // still to come
  int codes = 0;
  map<string, i64> force;
  bool has_want = false;
  i64 want_v = 0;
  int unimpl = 0;
  int bigpct = 2;  // how often (in %) large tables are generated

  static Syn dec(const Bytes& b, Node* n) {
    Syn s;
    s.gen = false;
    s.d = b.data();
    s.nb = b.size() * 8;
    s.n = n;
    return s;
  }
  static Syn mk(Rng& r, Node* n) {
    Syn s;
    s.gen = true;
    s.r = &r;
    s.n = n;
    return s;
  }
  void want(i64 v) {
    if (gen) {
      has_want = true;
      want_v = v;
    }
  }
  bool chance(int p) { return gen && r->chance(p); }
  // how the flags of a table come out: -1 as they fall, else all 0 or all 1
  int style(int all, int none) { return chance(all) ? 1 : chance(none) ? 0 : -1; }
  void want_if(int style) {
    if (style >= 0) want(style);
  }

  // ---- raw bits
  u64 bits(int c) {
    if (pos + (size_t)c > nb) throw Reject();
    u64 v = 0;
    for (int i = 0; i < c; i++) {
      v = (v << 1) | ((d[pos >> 3] >> (7 - (pos & 7))) & 1);
      pos++;
    }
    return v;
  }
  void put(u64 v, int c) {
    for (int i = c - 1; i >= 0; i--) {
      if ((pos & 7) == 0) out.push_back(0);
      if ((v >> i) & 1) out.back() |= (u8)(1 << (7 - (pos & 7)));
      pos++;
    }
  }
  bool planned(const string& name, i64* v) {
    if (has_want) {
      has_want = false;
      *v = want_v;
      return true;
    }
    if (!force.empty()) {
      auto it = force.find(pre + name);
      if (it != force.end()) {
        *v = it->second;
        return true;
      }
    }
    return false;
  }
  // ---- u(n)
  i64 ru(int c, const string& name) {
    if (!gen) return (i64)bits(c);
    i64 v;
    if (!planned(name, &v)) {
      u64 m = c >= 64 ? ~0ull : ((1ull << c) - 1);
      int k = (int)r->below(10);
      if (c == 1)
        v = (i64)(r->next() & 1);
      else if (k < 2)
        v = 0;
      else if (k < 4)
        v = (i64)m;
      else if (k == 4)
        v = (i64)(1 & m);
      else
        v = (i64)(r->next() & m);
    }
    if (zeros > 0) {
      zeros -= c;
      v = 0;
    }
    put((u64)v, c);
    return v;
  }
  i64 draw(i64 lo, i64 hi, i64 genhi) {
    if (genhi >= 0 && genhi < hi && !r->chance(bigpct)) hi = genhi;
    u64 span = (u64)(hi - lo);
    switch (r->below(8)) {
      case 0:
        return lo;
      case 1:
        return hi;
      case 2:
        return span ? lo + 1 : lo;
      case 3:
        return span ? hi - 1 : hi;
      case 4:
      case 5: {  // a random length
        int len = 1;
        while (len < 32 && (span >> len)) len++;
        u64 x = r->next() & ((1ull << r->range(0, len)) - 1);
        if (r->chance(20)) x = (1ull << r->range(0, len - 1)) - (u64)r->below(2);
        return lo + (i64)(x > span ? x % (span + 1) : x);
      }
      case 6: {
        u64 x = r->below(8);
        return lo + (i64)(x > span ? span : x);
      }
      default:
        return lo + (i64)r->below(span + 1);
    }
  }
  void put_ue(u64 v) {
    u64 x = v + 1;
    int len = 0;
    while ((x >> len) > 1) len++;
    put(0, len);
    put(x, len + 1);
  }
  u64 get_ue() {
    int z = 0;
    for (;;) {
      if (pos + 1 > nb) throw Reject();
      if (bits(1)) break;
      z++;
      if (z > 31) throw Reject();
    }
    if (z == 0) return 0;
    return ((1ull << z) - 1) + bits(z);
  }
  // Two ways: zeros put in front of the code, or no code at all while what
  // follows starts with that many zeros (it would parse if the element were
  // taken as absent). Returns true when nothing is to be written.
  bool maybe_overlong(const string& name, i64* v) {
    if (codes++ != overlong) return false;
    fault_name = pre + name + " unreadable";
    if (r->chance(50)) {
      zeros = 32;
      if (r->chance(80)) *v = 0;
      return true;
    }
    put(0, r->chance(80) ? (int)r->range(32, 44) : (int)r->range(45, 64));
    put(1, 1);
    return false;
  }
  // the run of zeros goes on through a code, when its range allows it
  void stretch(i64 hi, i64* v) {
    if (zeros > 0 && zeros <= 31 && hi >= (1ll << zeros)) {
      int len = (int)r->range(zeros, 31);
      *v = (i64)((1ull << len) - 1 + (r->next() & ((1ull << len) - 1)));
      if (*v > hi) *v = (1ll << zeros) - 1;
    }
    zeros = 0;
  }
  // ---- ue(v), unranged when hi < 0
  i64 rue(const string& name, i64 lo = 0, i64 hi = -1, i64 genhi = -1) {
    bool isr = hi >= 0;
    if (!isr) hi = kUeMax;
    if (!gen) {
      i64 v = (i64)get_ue();
      if (v < lo || v > hi) throw Reject();
      return v;
    }
    i64 v;
    if (isr && ranged++ == fault) {
      fault_name = pre + name;
      int k = (int)r->below(10);
      if (lo > 0 && k < 3)
        v = lo - 1;
      else if (k < 7)
        v = hi + 1;
      else if (k == 7)
        v = hi + 2;
      else if (k == 8)
        v = hi * 2 + 1;
      else
        v = hi + 1 + (i64)r->below(300);
      if (v > kUeMax) v = kUeMax;
      has_want = false;
    } else if (!planned(name, &v)) {
      v = draw(lo, hi, genhi);
    }
    if (maybe_overlong(name, &v)) return v;
    stretch(hi, &v);
    put_ue((u64)v);
    return v;
  }
  // ---- se(v), unranged when lo > hi
  i64 rse(const string& name, i64 lo = 1, i64 hi = 0) {
    bool isr = lo <= hi;
    if (!isr) {
      lo = -kSeMax;
      hi = kSeMax;
    }
    if (!gen) {
      u64 k = get_ue();
      i64 v = (k & 1) ? (i64)((k + 1) / 2) : -(i64)(k / 2);
      if (v < lo || v > hi) throw Reject();
      return v;
    }
    i64 v;
    if (isr && ranged++ == fault) {
      fault_name = pre + name;
      switch (r->below(4)) {
        case 0:
          v = lo - 1;
          break;
        case 1:
          v = hi + 1;
          break;
        case 2:
          v = hi + 1 + (i64)r->below(200);
          break;
        default:
          v = lo - 1 - (i64)r->below(200);
      }
      has_want = false;
    } else if (!planned(name, &v)) {
      int k = (int)r->below(10);
      if (k < 4) {
        v = r->range(-6, 6);
        if (v < lo) v = lo;
        if (v > hi) v = hi;
      } else if (k < 6) {
        v = r->chance(50) ? lo : hi;
      } else if (k == 6) {
        v = r->chance(50) ? lo + 1 : hi - 1;
      } else {
        i64 m = hi > -lo ? hi : -lo;
        int len = 1;
        while (len < 31 && (m >> len)) len++;
        v = (i64)(r->next() & ((1ull << r->range(0, len)) - 1));
        if (r->chance(50)) v = -v;
        if (v < lo) v = lo;
        if (v > hi) v = hi;
      }
    }
    if (maybe_overlong(name, &v)) return v;
    if (zeros > 0) {
      i64 k = v > 0 ? 2 * v - 1 : -2 * v;
      stretch(isr ? 0 : kUeMax, &k);
      v = (k & 1) ? (k + 1) / 2 : -(k / 2);
    }
    put_ue(v > 0 ? (u64)(2 * v - 1) : (u64)(-2 * v));
    return v;
  }
  // ---- recording variants
  i64 set(const string& name, i64 v) {  // inferred, not coded
    n->val[pre + name] = v;
    return v;
  }
  i64 rec(const string& name, i64 v) {
    n->val[pre + name] = v;
    n->coded.insert(pre + name);
    return v;
  }
  i64 recv(const string& name, i64 v) {
    n->vec[pre + name].push_back(v);
    n->coded.insert(pre + name);
    return v;
  }
  i64 u(int c, const string& name) { return rec(name, ru(c, name)); }
  i64 ue(const string& name, i64 lo = 0, i64 hi = -1, i64 genhi = -1) {
    return rec(name, rue(name, lo, hi, genhi));
  }
  i64 se(const string& name, i64 lo = 1, i64 hi = 0) {
    return rec(name, rse(name, lo, hi));
  }
  i64 uv(int c, const string& name) { return recv(name, ru(c, name)); }
  i64 uev(const string& name, i64 lo = 0, i64 hi = -1, i64 genhi = -1) {
    return recv(name, rue(name, lo, hi, genhi));
  }
  i64 sev(const string& name, i64 lo = 1, i64 hi = 0) {
    return recv(name, rse(name, lo, hi));
  }
  void list(const string& name) { n->vec[pre + name]; }
  void check(bool ok) {
    if (!gen && !ok) throw Reject();
  }
  // cap generated loops that run on an out of range count
  i64 lim(i64 c) { return gen && c > 150000 ? 150000 : c; }

  // ---- more_rbsp_data() / rbsp_trailing_bits()
  bool more() {
    if (pos >= nb || d[nb / 8 - 1] == 0) throw Unspec();
    size_t last = nb - 1;
    while (!((d[last >> 3] >> (7 - (last & 7))) & 1)) last--;
    if (last < pos) throw Unspec();
    return last > pos;
  }
  bool trailing() {
    if (gen) {
      put(1, 1);
      while (pos & 7) put(0, 1);
      return true;
    }
    size_t p = pos;
    if (p >= nb || !((d[p >> 3] >> (7 - (p & 7))) & 1)) return false;
    p++;
    while (p & 7) {
      if ((d[p >> 3] >> (7 - (p & 7))) & 1) return false;
      p++;
    }
    pos = p;
    return true;
  }
};

struct Scope {
  Syn& s;
  string old;
  Scope(Syn& s_, const string& name) : s(s_), old(s_.pre) {
    s.pre += name + ".";
    s.n->block.insert(old + name);
  }
  ~Scope() { s.pre = old; }
};

// ---- remembered parameter sets --------------------------------------------
// Table 7-1, as this library spells it
inline const char* nut_name(u64 t) {
  static const char* n[32] = {"unspecified", "coded_slice_of_non_idr_picture", "coded_slice_data_partition_a", "coded_slice_data_partition_b",
    "coded_slice_data_partition_c", "coded_slice_of_idr_picture", "sei", "sps", "pps", "aud", "eoseq", "eostream", "filler_data",
    "sps_extension", "prefix", "subset_sps", "rsv16", "rsv17", "rsv18", "coded_slice_of_auxiliary_coded_picture",
    "coded_slice_extension", "rsv21", "rsv22", "rsv23", "unspec24", "unspec25", "unspec26", "unspec27", "unspec28", "unspec29",
    "unspec30", "unspec31"};
  return t < 32 ? n[t] : "unknown";
}
struct SpsView {
  i64 profile = 0, cf = 1, sep = 0, bdl = 0, bdc = 0, log2fn = 0, poct = 0,
      lsb = 0, dpoaz = 0, w = 0, h = 0, fmo = 0, id = 0;
  i64 crop[4] = {0, 0, 0, 0};
  i64 cat() const { return sep ? 0 : cf; }
  static SpsView of(const Node& n, const string& p) {
    SpsView v;
    v.profile = n.get(p + "profile_idc");
    v.cf = n.get(p + "chroma_format_idc", 1);
    v.sep = n.get(p + "separate_colour_plane_flag");
    v.bdl = n.get(p + "bit_depth_luma_minus8");
    v.bdc = n.get(p + "bit_depth_chroma_minus8");
    v.log2fn = n.get(p + "log2_max_frame_num_minus4");
    v.poct = n.get(p + "pic_order_cnt_type");
    v.lsb = n.get(p + "log2_max_pic_order_cnt_lsb_minus4");
    v.dpoaz = n.get(p + "delta_pic_order_always_zero_flag");
    v.w = n.get(p + "pic_width_in_mbs_minus1");
    v.h = n.get(p + "pic_height_in_map_units_minus1");
    v.fmo = n.get(p + "frame_mbs_only_flag");
    v.id = n.get(p + "seq_parameter_set_id");
    v.crop[0] = n.get(p + "frame_crop_left_offset");
    v.crop[1] = n.get(p + "frame_crop_right_offset");
    v.crop[2] = n.get(p + "frame_crop_top_offset");
    v.crop[3] = n.get(p + "frame_crop_bottom_offset");
    return v;
  }
  // 7.4.2.1.1, Table 6-1
  int subw() const { return sep || cf == 0 ? -1 : (cf == 3 ? 1 : 2); }
  int subh() const { return sep || cf == 0 ? -1 : (cf == 1 ? 2 : 1); }
  i64 cux() const { return cat() == 0 ? 1 : subw(); }
  i64 cuy() const { return cat() == 0 ? 2 - fmo : subh() * (2 - fmo); }
  i64 width() const { return 16 * (w + 1) - cux() * (crop[0] + crop[1]); }
  i64 height() const {
    return 16 * (h + 1) * (2 - fmo) - cuy() * (crop[2] + crop[3]);
  }
};
struct PpsView {
  i64 id = 0, sps_id = 0, cabac = 0, bfpo = 0, groups = 0, map_type = 0,
      rate = 0, l0 = 0, l1 = 0, wp = 0, wb = 0, dbf = 0, red = 0;
  static PpsView of(const Node& n) {
    PpsView v;
    const string p = "pps.";
    v.id = n.get(p + "pic_parameter_set_id");
    v.sps_id = n.get(p + "seq_parameter_set_id");
    v.cabac = n.get(p + "entropy_coding_mode_flag");
    v.bfpo = n.get(p + "bottom_field_pic_order_in_frame_present_flag");
    v.groups = n.get(p + "num_slice_groups_minus1");
    v.map_type = n.get(p + "slice_group_map_type");
    v.rate = n.get(p + "slice_group_change_rate_minus1");
    v.l0 = n.get(p + "num_ref_idx_l0_default_active_minus1");
    v.l1 = n.get(p + "num_ref_idx_l1_default_active_minus1");
    v.wp = n.get(p + "weighted_pred_flag");
    v.wb = n.get(p + "weighted_bipred_idc");
    v.dbf = n.get(p + "deblocking_filter_control_present_flag");
    v.red = n.get(p + "redundant_pic_cnt_present_flag");
    return v;
  }
};
struct SubsetView {
  SpsView sps;
  bool svc = false;  // seq_parameter_set_svc_extension() present
  i64 ildf = 0, ess = 0, atl = 0, shr = 0;
  static SubsetView of(const Node& n) {
    SubsetView v;
    v.sps = SpsView::of(n, "subset_sps.sps_data.");
    const string p = "subset_sps.seq_parameter_set_svc_extension.";
    v.svc = n.block.count("subset_sps.seq_parameter_set_svc_extension") > 0;
    v.ildf = n.get(p + "inter_layer_deblocking_filter_control_present_flag");
    v.ess = n.get(p + "extended_spatial_scalability_idc");
    v.atl = n.get(p + "adaptive_tcoeff_level_prediction_flag");
    v.shr = n.get(p + "slice_header_restriction_flag");
    return v;
  }
};
template <class V>
struct Stored {
  V v;
  std::shared_ptr<Node> n;
};
struct RefState {
  map<i64, Stored<SpsView>> sps;
  map<i64, Stored<PpsView>> pps;
  map<i64, Stored<SubsetView>> subset;
};

inline i64 ceil_log2(u64 x) {
  i64 l = 0;
  while ((1ull << l) < x) l++;
  return l;
}
// Ceil(Log2(PicSizeInMapUnits / SliceGroupChangeRate + 1)), exact division
inline i64 change_cycle_len(i64 wm1, i64 hm1, i64 ratem1) {
  u64 size = (u64)(wm1 + 1) * (u64)(hm1 + 1), rate = (u64)ratem1 + 1;
  i64 l = 0;
  while (((unsigned __int128)rate << l) < (unsigned __int128)size + rate) l++;
  return l;
}

// ---- hrd_parameters(), vui_parameters() (E.1) ------------------------------
inline void hrd(Syn& s, const char* name) {
  Scope sc(s, name);
  i64 c = s.ue("cpb_cnt_minus1", 0, 31);
  s.u(4, "bit_rate_scale");
  s.u(4, "cpb_size_scale");
  c = s.lim(c);
  for (i64 i = 0; i <= c; i++) {
    s.uev("bit_rate_value_minus1");
    s.uev("cpb_size_value_minus1");
    s.uv(1, "cbr_flag");
  }
  s.u(5, "initial_cpb_removal_delay_length_minus1");
  s.u(5, "cpb_removal_delay_length_minus1");
  s.u(5, "dpb_output_delay_length_minus1");
  s.u(5, "time_offset_length");
}

inline i64 u32min1(Syn& s, const string& name) {  // u(32), shall be > 0
  i64 v;
  if (s.gen) {
    if (s.ranged++ == s.fault) {
      s.fault_name = s.pre + name;
      v = 0;
      s.put(0, 32);
    } else {
      if (!s.has_want && !s.force.count(s.pre + name)) {
        i64 x = (i64)(s.r->next() >> (32 + s.r->below(32)));
        s.want(x ? x : 1);
      }
      v = s.ru(32, name);
    }
  } else {
    v = s.ru(32, name);
    s.check(v >= 1);
  }
  return s.rec(name, v);
}

inline void vui(Syn& s) {
  Scope sc(s, "vui_parameters");
  if (s.u(1, "aspect_ratio_info_present_flag")) {
    if (s.chance(50)) s.want(255);
    if (s.u(8, "aspect_ratio_idc") == 255) {
      s.u(16, "sar_width");
      s.u(16, "sar_height");
    }
  }
  if (s.u(1, "overscan_info_present_flag")) s.u(1, "overscan_appropriate_flag");
  if (s.u(1, "video_signal_type_present_flag")) {
    s.u(3, "video_format");
    s.u(1, "video_full_range_flag");
    if (s.u(1, "colour_description_present_flag")) {
      s.u(8, "colour_primaries");
      s.u(8, "transfer_characteristics");
      s.u(8, "matrix_coefficients");
    }
  }
  if (s.u(1, "chroma_loc_info_present_flag")) {
    s.ue("chroma_sample_loc_type_top_field", 0, 5);
    s.ue("chroma_sample_loc_type_bottom_field", 0, 5);
  }
  if (s.u(1, "timing_info_present_flag")) {
    u32min1(s, "num_units_in_tick");
    u32min1(s, "time_scale");
    s.u(1, "fixed_frame_rate_flag");
  }
  i64 a = s.u(1, "nal_hrd_parameters_present_flag");
  if (a) hrd(s, "nal_hrd_parameters");
  i64 b = s.u(1, "vcl_hrd_parameters_present_flag");
  if (b) hrd(s, "vcl_hrd_parameters");
  if (a || b) s.u(1, "low_delay_hrd_flag");
  s.u(1, "pic_struct_present_flag");
  if (s.u(1, "bitstream_restriction_flag")) {
    s.u(1, "motion_vectors_over_pic_boundaries_flag");
    s.ue("max_bytes_per_pic_denom", 0, 16);
    s.ue("max_bits_per_mb_denom", 0, 16);
    s.ue("log2_max_mv_length_horizontal", 0, 16);
    s.ue("log2_max_mv_length_vertical", 0, 16);
    s.ue("max_num_reorder_frames", 0, 16);
    s.ue("max_dec_frame_buffering", 0, 16);
  }
}

// ---- scaling_list() (7.3.2.1.1.1) ------------------------------------------
inline void scaling_list(Syn& s, int i) {
  int size = i < 6 ? 16 : 64;
  int idx = i < 6 ? i : i - 6;
  string ln = i < 6 ? "ScalingList4x4" : "ScalingList8x8";
  string fn = i < 6 ? "UseDefaultScalingMatrix4x4Flag"
                    : "UseDefaultScalingMatrix8x8Flag";
  vector<i64> l(size);
  i64 last = 8, next = 8, usedef = 0;
  int style = s.gen ? (int)s.r->below(5) : 0;
  for (int j = 0; j < size; j++) {
    if (next != 0) {
      if (s.gen) {
        if (style == 0 && j == 0)
          s.want(-8);  // default matrix
        else if (style == 1 && s.chance(20))
          s.want(last <= 128 ? -last : 256 - last);  // ends the list
        else if (style <= 2)
          s.want(s.r->range(-3, 3));
      }
      i64 dl = s.se("delta_scale", -128, 127);
      next = ((last + dl + 256) % 256 + 256) % 256;
      if (j == 0 && next == 0) usedef = 1;
    }
    l[j] = next == 0 ? last : next;
    last = l[j];
  }
  s.n->vec[s.pre + ln] = l;
  s.n->coded.insert(s.pre + ln);
  auto& f = s.n->vec[s.pre + fn];
  while ((int)f.size() <= idx) f.push_back(0);
  f[idx] = usedef;
  s.n->coded.insert(s.pre + fn);
}

inline bool high_profile(i64 p) {
  static const std::set<i64> k = {100, 110, 122, 244, 44,  83, 86,
                                  118, 128, 138, 139, 134, 135};
  return k.count(p) > 0;
}

// ---- seq_parameter_set_data() (7.3.2.1.1) ----------------------------------
inline void sps_data(Syn& s) {
  Scope sc(s, "sps_data");
  if (s.gen && !s.force.count(s.pre + "profile_idc")) {
    static const vector<i64> k = {66,  77,  88,  100, 110, 122, 244,
                                  44,  83,  86,  144, 100, 66, 244,
                                  118, 128, 138, 139, 134, 135};
    s.want(s.chance(92) ? s.r->pick(k) : (i64)s.r->below(256));
  }
  i64 profile = s.u(8, "profile_idc");
  s.u(1, "constraint_set0_flag");
  s.u(1, "constraint_set1_flag");
  s.u(1, "constraint_set2_flag");
  s.u(1, "constraint_set3_flag");
  s.u(1, "constraint_set4_flag");
  s.u(1, "constraint_set5_flag");
  s.u(2, "reserved_zero_2bits");
  s.u(8, "level_idc");
  s.ue("seq_parameter_set_id", 0, 31);
  i64 cf = 1, sep = 0;
  if (high_profile(profile)) {
    cf = s.ue("chroma_format_idc", 0, 3);
    if (cf == 3) sep = s.u(1, "separate_colour_plane_flag");
    s.ue("bit_depth_luma_minus8", 0, 6);
    s.ue("bit_depth_chroma_minus8", 0, 6);
    s.u(1, "qpprime_y_zero_transform_bypass_flag");
    if (s.chance(60)) s.want(0);
    if (s.u(1, "seq_scaling_matrix_present_flag")) {
      int nl = cf != 3 ? 8 : 12;
      int y = s.style(8, 4);
      for (int i = 0; i < nl; i++) {
        s.want_if(y);
        if (s.uv(1, "seq_scaling_list_present_flag")) scaling_list(s, i);
      }
    }
  } else {
    s.set("chroma_format_idc", 1);
  }
  s.ue("log2_max_frame_num_minus4", 0, 12);
  i64 t = s.ue("pic_order_cnt_type", 0, 2);
  if (t == 0) {
    s.ue("log2_max_pic_order_cnt_lsb_minus4", 0, 12);
  } else if (t == 1) {
    s.u(1, "delta_pic_order_always_zero_flag");
    s.se("offset_for_non_ref_pic");
    s.se("offset_for_top_to_bottom_field");
    i64 c = s.ue("num_ref_frames_in_pic_order_cnt_cycle", 0, 255, 12);
    c = s.lim(c);
    for (i64 i = 0; i < c; i++) s.sev("offset_for_ref_frame");
  }
  s.ue("max_num_ref_frames", 0, 16);
  s.u(1, "gaps_in_frame_num_value_allowed_flag");
  i64 w = s.ue("pic_width_in_mbs_minus1", 0, 1055);
  i64 h = s.ue("pic_height_in_map_units_minus1", 0, 1055);
  i64 fmo = s.u(1, "frame_mbs_only_flag");
  if (!fmo) s.u(1, "mb_adaptive_frame_field_flag");
  s.u(1, "direct_8x8_inference_flag");
  if (s.u(1, "frame_cropping_flag")) {
    SpsView v;
    v.cf = cf;
    v.sep = sep;
    v.fmo = fmo;
    i64 ux = v.cux(), uy = v.cuy();
    if (ux < 1) ux = 1;
    if (uy < 1) uy = 1;
    i64 mx = (16 * (w + 1) - 1) / ux, my = (16 * (2 - fmo) * (h + 1) - 1) / uy;
    i64 c[4] = {0, 0, 0, 0};
    if (s.gen) {
      // a sum of exactly the limit, or any smaller one
      bool over_x = false, over_y = false;
      if (s.ranged++ == s.fault) {
        over_x = true;
        s.fault_name = s.pre + "crop_x";
      }
      if (s.ranged++ == s.fault) {
        over_y = true;
        s.fault_name = s.pre + "crop_y";
      }
      auto split = [&](i64 m, bool over, i64* a, i64* b) {
        i64 sum = s.chance(30) ? m : (s.chance(30) ? 0 : s.r->range(0, m));
        if (over) sum = m + 1 + (s.chance(30) ? (i64)s.r->below(40) : 0);
        *a = s.chance(30) ? 0 : (s.chance(30) ? sum : s.r->range(0, sum));
        *b = sum - *a;
        for (int k = 0; k < 2; k++) {
          i64* p = k ? a : b;
          i64* q = k ? b : a;
          if (*p > 16880) {
            *q += *p - 16880;
            *p = 16880;
          }
        }
      };
      split(mx, over_x, &c[0], &c[1]);
      split(my, over_y, &c[2], &c[3]);
    }
    const char* nm[4] = {"frame_crop_left_offset", "frame_crop_right_offset",
                         "frame_crop_top_offset", "frame_crop_bottom_offset"};
    for (int i = 0; i < 4; i++) {
      if (!s.force.count(s.pre + nm[i])) s.want(c[i]);
      c[i] = s.ue(nm[i], 0, 16880);
    }
    s.check(c[0] + c[1] <= mx);
    s.check(c[2] + c[3] <= my);
  }
  if (s.u(1, "vui_parameters_present_flag")) vui(s);
}

inline void svc_ext(Syn& s, i64 cat) {
  Scope sc(s, "seq_parameter_set_svc_extension");
  s.u(1, "inter_layer_deblocking_filter_control_present_flag");
  i64 e = s.u(2, "extended_spatial_scalability_idc");
  if (cat == 1 || cat == 2) s.u(1, "chroma_phase_x_plus1_flag");
  if (cat == 1) s.u(2, "chroma_phase_y_plus1");
  if (e == 1) {
    if (cat > 0) {
      s.u(1, "seq_ref_layer_chroma_phase_x_plus1_flag");
      s.u(2, "seq_ref_layer_chroma_phase_y_plus1");
    }
    s.se("seq_scaled_ref_layer_left_offset");
    s.se("seq_scaled_ref_layer_top_offset");
    s.se("seq_scaled_ref_layer_right_offset");
    s.se("seq_scaled_ref_layer_bottom_offset");
  }
  if (s.u(1, "seq_tcoeff_level_prediction_flag"))
    s.u(1, "adaptive_tcoeff_level_prediction_flag");
  s.u(1, "slice_header_restriction_flag");
}

// returns whether well formed trailing bits end the structure
inline bool sps_rbsp(Syn& s) {
  Scope sc(s, "sps");
  sps_data(s);
  return s.trailing();
}

inline bool subset_sps_rbsp(Syn& s) {
  Scope sc(s, "subset_sps");
  sps_data(s);
  SpsView v = SpsView::of(*s.n, s.pre + "sps_data.");
  if (v.profile == 83 || v.profile == 86) {
    svc_ext(s, v.cat());
    if (s.chance(75)) s.want(0);
    if (s.u(1, "svc_vui_parameters_present_flag")) {
      s.unimpl++;
      if (s.gen) {
        for (int i = 0; i < 12; i++) s.put(s.r->next() & 255, 8);
        s.trailing();
      }
      return false;
    }
  } else if (v.profile == 118 || v.profile == 128 || v.profile == 134 ||
             v.profile == 138 || v.profile == 135 || v.profile == 139) {
    if (s.chance(80)) s.want(1);
    s.u(1, "bit_equal_to_one");
    s.unimpl++;
    if (s.gen) {
      for (int i = 0; i < 12; i++) s.put(s.r->next() & 255, 8);
      s.trailing();
    }
    return false;
  }
  if (s.u(1, "additional_extension2_flag")) {
    int k = s.gen ? (int)s.r->below(30) : 0;
    while (s.gen ? k-- > 0 : s.more()) s.u(1, "additional_extension2_data_flag");
  }
  return s.trailing();
}

inline bool sps_ext_rbsp(Syn& s) {
  Scope sc(s, "sps_extension");
  s.ue("seq_parameter_set_id", 0, 31);
  if (s.ue("aux_format_idc", 0, -1, -1) != 0) {
    i64 b = s.ue("bit_depth_aux_minus8", 0, 4);
    if (b > 23) b = 23;
    s.u(1, "alpha_incr_flag");
    s.u((int)b + 9, "alpha_opaque_value");
    s.u((int)b + 9, "alpha_transparent_value");
  }
  s.u(1, "additional_extension_flag");
  return s.trailing();
}

// ---- pic_parameter_set_rbsp() (7.3.2.2) ------------------------------------
// fixed_cf < 0: take chroma_format_idc from the sequence parameter set named
inline bool pps_rbsp(Syn& s, const RefState* st, i64 fixed_cf = -1) {
  Scope sc(s, "pps");
  s.ue("pic_parameter_set_id", 0, 255);
  i64 sid = s.ue("seq_parameter_set_id", 0, 31);
  i64 cf = 1;
  if (fixed_cf >= 0) {
    cf = fixed_cf;
  } else if (st) {
    auto a = st->sps.find(sid);
    auto b = st->subset.find(sid);
    if (a != st->sps.end())
      cf = a->second.v.cf;
    else if (b != st->subset.end())
      cf = b->second.v.sps.cf;
  }
  s.u(1, "entropy_coding_mode_flag");
  s.u(1, "bottom_field_pic_order_in_frame_present_flag");
  if (s.chance(50)) s.want(0);
  i64 g8 = s.ue("num_slice_groups_minus1", 0, 7);
  if (g8 > 0) {
    i64 t = s.ue("slice_group_map_type", 0, 6);
    i64 gl = s.lim(g8);
    if (t == 0) {
      for (i64 i = 0; i <= gl; i++) s.uev("run_length_minus1");
    } else if (t == 2) {
      for (i64 i = 0; i < gl; i++) {
        s.uev("top_left");
        s.uev("bottom_right");
      }
    } else if (t >= 3 && t <= 5) {
      s.u(1, "slice_group_change_direction_flag");
      s.ue("slice_group_change_rate_minus1");
    } else if (t == 6) {
      i64 c = s.ue("pic_size_in_map_units_minus1", 0, 139263, 200);
      int len = (int)ceil_log2((u64)g8 + 1);
      c = s.lim(c);
      for (i64 i = 0; i <= c; i++) s.uv(len, "slice_group_id");
    }
  }
  s.ue("num_ref_idx_l0_default_active_minus1", 0, 31);
  s.ue("num_ref_idx_l1_default_active_minus1", 0, 31);
  s.u(1, "weighted_pred_flag");
  if (s.chance(50)) s.want(1);
  s.u(2, "weighted_bipred_idc");
  s.se("pic_init_qp_minus26");
  s.se("pic_init_qs_minus26");
  s.se("chroma_qp_index_offset");
  s.u(1, "deblocking_filter_control_present_flag");
  s.u(1, "constrained_intra_pred_flag");
  s.u(1, "redundant_pic_cnt_present_flag");
  if (s.gen ? s.chance(50) : s.more()) {
    i64 t8 = s.u(1, "transform_8x8_mode_flag");
    if (s.u(1, "pic_scaling_matrix_present_flag")) {
      int nl = 6 + (cf != 3 ? 2 : 6) * (int)t8;
      int y = s.style(8, 4);
      for (int i = 0; i < nl; i++) {
        s.want_if(y);
        if (s.uv(1, "pic_scaling_list_present_flag")) scaling_list(s, i);
      }
    }
    s.se("second_chroma_qp_index_offset");
  }
  return s.trailing();
}

// ---- slice header parts ------------------------------------------------------
inline void ref_list_mod(Syn& s, i64 st) {
  Scope sc(s, "ref_pic_list_modification");
  for (int l = 0; l < 2; l++) {
    if (l == 0 ? !(st % 5 != 2 && st % 5 != 4) : st % 5 != 1) continue;
    if (!s.u(1, l ? "ref_pic_list_modification_flag_l1"
                  : "ref_pic_list_modification_flag_l0"))
      continue;
    int left = s.gen ? (s.chance(8) ? (s.chance(10) ? (int)s.r->range(60, 320) : 40) : (int)s.r->below(5)) : 0;
    i64 k;
    do {
      if (s.gen) s.want(left-- > 0 ? (i64)s.r->below(3) : 3);
      k = s.uev("modification_of_pic_nums_idc", 0, 3);
      if (k == 0 || k == 1)
        s.uev("abs_diff_pic_num_minus1");
      else if (k == 2)
        s.uev("long_term_pic_num");
    } while (k != 3 && !(s.gen && left < -3));
  }
}

inline void pred_weights(Syn& s, i64 st, i64 cat, i64 l0, i64 l1) {
  Scope sc(s, "pred_weight_table");
  s.ue("luma_log2_weight_denom", 0, 7);
  if (cat != 0) s.ue("chroma_log2_weight_denom", 0, 7);
  for (int l = 0; l < 2; l++) {
    if (l && st % 5 != 1) break;
    string x = l ? "_l1" : "_l0";
    i64 c = s.lim(l ? l1 : l0);
    int luma = s.style(12, 8), chroma = s.style(12, 8);
    for (i64 i = 0; i <= c; i++) {
      s.want_if(luma);
      if (s.uv(1, "luma_weight" + x + "_flag")) {
        s.sev("luma_weight" + x);
        s.sev("luma_offset" + x);
      }
      if (cat != 0) {
        s.want_if(chroma);
        if (s.uv(1, "chroma_weight" + x + "_flag")) {
          for (int j = 0; j < 2; j++) {
            s.sev("chroma_weight" + x);
            s.sev("chroma_offset" + x);
          }
        }
      }
    }
  }
}

inline void dec_ref_marking(Syn& s, bool idr) {
  Scope sc(s, "dec_ref_pic_marking");
  if (idr) {
    s.u(1, "no_output_of_prior_pics_flag");
    s.u(1, "long_term_reference_flag");
    return;
  }
  if (!s.u(1, "adaptive_ref_pic_marking_mode_flag")) return;
  int left = s.gen ? (s.chance(8) ? (s.chance(10) ? (int)s.r->range(60, 320) : 40) : (int)s.r->below(6)) : 0;
  i64 op;
  do {
    if (s.gen) s.want(left-- > 0 ? s.r->range(1, 6) : 0);
    op = s.uev("memory_management_control_operation", 0, 6);
    if (op == 1 || op == 3) s.uev("difference_of_pic_nums_minus1");
    if (op == 2) s.uev("long_term_pic_num");
    if (op == 3 || op == 6) s.uev("long_term_frame_idx");
    if (op == 4) s.uev("max_long_term_frame_idx_plus1");
  } while (op != 0 && !(s.gen && left < -3));
}

// elements common to slice_header() and slice_header_in_scalable_extension()
inline void slice_poc(Syn& s, const SpsView& sp, const PpsView& pp, i64 field) {
  if (sp.poct == 0) {
    s.u((int)sp.lsb + 4, "pic_order_cnt_lsb");
    if (pp.bfpo && !field) s.se("delta_pic_order_cnt_bottom");
  }
  if (sp.poct == 1 && !sp.dpoaz) {
    s.sev("delta_pic_order_cnt");
    if (pp.bfpo && !field) s.sev("delta_pic_order_cnt");
  }
  if (pp.red) s.ue("redundant_pic_cnt", 0, 127);
}
inline void slice_refs(Syn& s, i64 st, const PpsView& pp, i64* l0, i64* l1) {
  bool p = st % 5 == 0 || st % 5 == 3, b = st % 5 == 1;
  if (b) s.u(1, "direct_spatial_mv_pred_flag");
  if (p || b) {
    if (s.u(1, "num_ref_idx_active_override_flag")) {
      *l0 = s.ue("num_ref_idx_l0_active_minus1", 0, 31);
      if (b) *l1 = s.ue("num_ref_idx_l1_active_minus1", 0, 31);
    } else {
      *l0 = s.set("num_ref_idx_l0_active_minus1", pp.l0);
      if (b) *l1 = s.set("num_ref_idx_l1_active_minus1", pp.l1);
    }
  }
}
inline void slice_deblock(Syn& s, const PpsView& pp, i64 maxidc) {
  if (!pp.dbf) return;
  if (s.ue("disable_deblocking_filter_idc", 0, maxidc) != 1) {
    s.se("slice_alpha_c0_offset_div2");
    s.se("slice_beta_offset_div2");
  }
}
inline void slice_groups(Syn& s, const SpsView& sp, const PpsView& pp) {
  if (pp.groups > 0 && pp.map_type >= 3 && pp.map_type <= 5)
    s.u((int)change_cycle_len(sp.w, sp.h, pp.rate), "slice_group_change_cycle");
}

// the parameter set ids a generated slice may name
inline i64 pick_pps(Syn& s, const RefState& st, bool svc) {
  vector<i64> good;
  for (auto& p : st.pps) {
    auto id = p.second.v.sps_id;
    if (svc) {
      auto it = st.subset.find(id);
      if (it != st.subset.end() && it->second.v.svc) good.push_back(p.first);
    } else if (st.sps.count(id)) {
      good.push_back(p.first);
    }
  }
  if (!good.empty() && s.r->chance(96)) return s.r->pick(good);
  if (!st.pps.empty() && s.r->chance(60)) {
    auto it = st.pps.begin();
    std::advance(it, (long)s.r->below(st.pps.size()));
    return it->first;
  }
  return (i64)s.r->below(256);
}

inline void slice_header(Syn& s, const RefState& st, i64 ref_idc, i64 type) {
  Scope sc(s, "slice_header");
  s.ue("first_mb_in_slice", 0, 139263);
  i64 t = s.ue("slice_type", 0, 9);
  if (s.gen && !s.force.count(s.pre + "pic_parameter_set_id"))
    s.want(pick_pps(s, st, false));
  i64 pid = s.ue("pic_parameter_set_id", 0, 255);
  auto pi = st.pps.find(pid);
  if (pi == st.pps.end()) throw Reject();
  const PpsView& pp = pi->second.v;
  auto si = st.sps.find(pp.sps_id);
  if (si == st.sps.end()) throw Reject();
  const SpsView& sp = si->second.v;
  if (sp.sep) s.u(2, "colour_plane_id");
  s.u((int)sp.log2fn + 4, "frame_num");
  i64 field = 0;
  if (!sp.fmo) {
    field = s.u(1, "field_pic_flag");
    if (field) s.u(1, "bottom_field_flag");
  }
  if (type == 5) s.ue("idr_pic_id", 0, 65535);
  slice_poc(s, sp, pp, field);
  i64 l0 = 0, l1 = 0;
  slice_refs(s, t, pp, &l0, &l1);
  ref_list_mod(s, t);
  if ((pp.wp && (t % 5 == 0 || t % 5 == 3)) || (pp.wb == 1 && t % 5 == 1))
    pred_weights(s, t, sp.cat(), l0, l1);
  if (ref_idc != 0) dec_ref_marking(s, type == 5);
  if (pp.cabac && t % 5 != 2 && t % 5 != 4) s.ue("cabac_init_idc", 0, 2);
  i64 q = 51 + 6 * sp.bdl;
  s.se("slice_qp_delta", -q, q);
  if (t % 5 == 3 || t % 5 == 4) {
    if (t % 5 == 3) s.u(1, "sp_for_switch_flag");
    s.se("slice_qs_delta");
  }
  slice_deblock(s, pp, 2);
  slice_groups(s, sp, pp);
}

struct SvcHdr {
  i64 idr = 0, noilp = 0, quality = 0, use_base = 0;
};

inline void slice_header_svc(Syn& s, const RefState& st, i64 ref_idc,
                             const SvcHdr& hd) {
  Scope sc(s, "slice_header_in_scalable_extension");
  s.ue("first_mb_in_slice", 0, 139263);
  if (s.gen && !(s.ranged == s.fault)) {
    static const vector<i64> k = {0, 1, 2, 5, 6, 7};
    s.want(s.r->pick(k));
  }
  i64 t = s.ue("slice_type", 0, 9);
  if (!s.gen && t % 5 > 2) throw Unspec();  // reserved for SVC slices
  if (s.gen && !s.force.count(s.pre + "pic_parameter_set_id"))
    s.want(pick_pps(s, st, true));
  i64 pid = s.ue("pic_parameter_set_id", 0, 255);
  auto pi = st.pps.find(pid);
  if (pi == st.pps.end()) throw Reject();
  const PpsView& pp = pi->second.v;
  auto si = st.subset.find(pp.sps_id);
  if (si == st.subset.end() || !si->second.v.svc) throw Reject();
  const SubsetView& ss = si->second.v;
  const SpsView& sp = ss.sps;
  if (sp.sep) s.u(2, "colour_plane_id");
  s.u((int)sp.log2fn + 4, "frame_num");
  i64 field = 0;
  if (!sp.fmo) {
    field = s.u(1, "field_pic_flag");
    if (field) s.u(1, "bottom_field_flag");
  }
  if (hd.idr) s.ue("idr_pic_id", 0, 65535);
  slice_poc(s, sp, pp, field);
  if (hd.quality == 0) {
    i64 l0 = 0, l1 = 0;
    slice_refs(s, t, pp, &l0, &l1);
    ref_list_mod(s, t);
    if ((pp.wp && t % 5 == 0) || (pp.wb == 1 && t % 5 == 1)) {
      i64 base = 0;
      if (!hd.noilp) base = s.u(1, "base_pred_weight_table_flag");
      if (hd.noilp || !base) pred_weights(s, t, sp.cat(), l0, l1);
    }
    if (ref_idc != 0) {
      dec_ref_marking(s, hd.idr != 0);
      if (!ss.shr) {
        if (s.chance(70)) s.want(0);
        i64 store = s.u(1, "store_ref_base_pic_flag");
        if ((hd.use_base || store) && !hd.idr) {
          s.unimpl++;
          throw Reject();
        }
      }
    }
  }
  if (pp.cabac && t % 5 != 2) s.ue("cabac_init_idc", 0, 2);
  s.se("slice_qp_delta");
  slice_deblock(s, pp, 6);
  slice_groups(s, sp, pp);
  i64 skip = 0;
  if (!hd.noilp && hd.quality == 0) {
    s.ue("ref_layer_dq_id");
    if (ss.ildf) {
      if (s.ue("disable_inter_layer_deblocking_filter_idc") != 1) {
        s.se("inter_layer_slice_alpha_c0_offset_div2");
        s.se("inter_layer_slice_beta_offset_div2");
      }
    }
    s.u(1, "constrained_intra_resampling_flag");
    if (ss.ess == 2) {
      if (sp.cat() > 0) {
        s.u(1, "ref_layer_chroma_phase_x_plus1_flag");
        s.u(2, "ref_layer_chroma_phase_y_plus1");
      }
      s.se("scaled_ref_layer_left_offset");
      s.se("scaled_ref_layer_top_offset");
      s.se("scaled_ref_layer_right_offset");
      s.se("scaled_ref_layer_bottom_offset");
    }
  }
  if (!hd.noilp) {
    skip = s.u(1, "slice_skip_flag");
    if (skip) {
      s.ue("num_mbs_in_slice_minus1");
    } else {
      i64 def = 0;
      if (!s.u(1, "adaptive_base_mode_flag"))
        def = s.u(1, "default_base_mode_flag");
      if (!def)
        if (!s.u(1, "adaptive_motion_prediction_flag"))
          s.u(1, "default_motion_prediction_flag");
      if (!s.u(1, "adaptive_residual_prediction_flag"))
        s.u(1, "default_residual_prediction_flag");
    }
    if (ss.atl) s.u(1, "tcoeff_level_prediction_flag");
  }
  if (!ss.shr && !skip) {
    s.u(4, "scan_idx_start");
    s.u(4, "scan_idx_end");
  }
}

inline bool prefix_rbsp(Syn& s, i64 ref_idc, const SvcHdr& hd) {
  Scope a(s, "prefix_nal_unit_rbsp");
  Scope b(s, "prefix_nal_unit_svc");
  const char* df = "additional_prefix_nal_unit_extension_data_flag";
  int k = s.gen ? (int)s.r->below(20) : 0;
  if (ref_idc != 0) {
    if (s.chance(70)) s.want(0);
    i64 store = s.u(1, "store_ref_base_pic_flag");
    if ((hd.use_base || store) && !hd.idr) {
      s.unimpl++;
      throw Reject();
    }
    if (s.u(1, "additional_prefix_nal_unit_extension_flag"))
      while (s.gen ? k-- > 0 : s.more()) s.u(1, df);
    return s.trailing();
  }
  if (s.gen) {
    if (s.chance(50))
      while (k-- > 0) s.u(1, df);
    return s.trailing();
  }
  if (s.more()) {
    while (s.more()) s.u(1, df);
    return s.trailing();
  }
  return true;
}

// ---- NAL unit (7.3.1) --------------------------------------------------------
struct RefNal {
  bool hdr_ok = false;
  bool unspec = false;
  bool payload_ok = false;  // payload parsed in full
  i64 type = -1, ref_idc = 0;
  SvcHdr svc;
  int unimpl = 0;
  size_t hdr_len = 0;
  size_t parsed_len = 0;
  bool plen_valid = false;
  std::shared_ptr<Node> n = std::make_shared<Node>();
  bool attempted() const {
    return type == 1 || type == 5 || type == 7 || type == 8 || type == 14 ||
           type == 15 || type == 20;
  }
};

inline void nal_ext(Syn& s, RefNal& o) {
  if (o.type != 14 && o.type != 20 && o.type != 21) return;
  i64 f = 0;
  if (o.type != 21)
    f = s.u(1, "svc_extension_flag");
  else
    s.u(1, "avc_3d_extension_flag");
  if (!f) {
    s.unimpl++;
    throw Reject();
  }
  Scope sc(s, "nal_unit_header_svc_extension");
  o.svc.idr = s.u(1, "idr_flag");
  s.u(6, "priority_id");
  o.svc.noilp = s.u(1, "no_inter_layer_pred_flag");
  s.u(3, "dependency_id");
  if (s.chance(60)) s.want(0);
  o.svc.quality = s.u(4, "quality_id");
  s.u(3, "temporal_id");
  if (s.chance(60)) s.want(0);
  o.svc.use_base = s.u(1, "use_ref_base_pic_flag");
  s.u(1, "discardable_flag");
  s.u(1, "output_flag");
  s.u(2, "reserved_three_2bits");
}
inline void nal_hdr(Syn& s, RefNal& o) {
  Scope sc(s, "nal_unit_header");
  s.u(1, "forbidden_zero_bit");
  o.ref_idc = s.u(2, "nal_ref_idc");
  o.type = s.u(5, "nal_unit_type");
  nal_ext(s, o);
}

// payload of a NAL unit whose header is in `o`
inline void nal_payload(Syn& s, RefNal& o, const RefState& st) {
  o.plen_valid = true;
  switch (o.type) {
    case 1:
    case 5: {
      Scope sc(s, "slice_layer_without_partitioning_rbsp");
      slice_header(s, st, o.ref_idc, o.type);
      break;
    }
    case 7:
      o.plen_valid = sps_rbsp(s);
      break;
    case 8:
      o.plen_valid = pps_rbsp(s, &st);
      break;
    case 14:
      o.plen_valid = prefix_rbsp(s, o.ref_idc, o.svc);
      break;
    case 15:
      o.plen_valid = subset_sps_rbsp(s);
      break;
    case 20: {
      Scope sc(s, "slice_layer_extension_rbsp");
      slice_header_svc(s, st, o.ref_idc, o.svc);
      break;
    }
    default:
      return;
  }
}

inline void ref_apply(const RefNal& o, RefState& st) {
  if (!o.payload_ok) return;
  if (o.type == 7) {
    auto v = SpsView::of(*o.n, "sps.sps_data.");
    st.sps[v.id] = {v, o.n};
  } else if (o.type == 8) {
    auto v = PpsView::of(*o.n);
    st.pps[v.id] = {v, o.n};
  } else if (o.type == 15) {
    auto v = SubsetView::of(*o.n);
    st.subset[v.sps.id] = {v, o.n};
  }
}

// decode one NAL unit (already un-escaped) and update the history
inline RefNal ref_decode_from(Syn& s, RefNal o, RefState& st) {
  try {
    nal_payload(s, o, st);
    o.payload_ok = o.attempted();
  } catch (Reject&) {
    o.plen_valid = false;
  } catch (Unspec&) {
    o.unspec = true;
    o.plen_valid = false;
  }
  o.unimpl += s.unimpl;
  s.unimpl = 0;
  o.parsed_len = (s.pos + 7) / 8;
  ref_apply(o, st);
  return o;
}
inline RefNal ref_decode(const Bytes& b, RefState& st) {
  RefNal o;
  Syn s = Syn::dec(b, o.n.get());
  try {
    nal_hdr(s, o);
    o.hdr_ok = true;
    o.hdr_len = s.pos / 8;
  } catch (Reject&) {
    o.unimpl = s.unimpl;
    return o;
  }
  return ref_decode_from(s, o, st);
}

// ---- emulation prevention (7.4.1.1), checksum --------------------------------
inline Bytes escape(const Bytes& in) {
  Bytes out;
  int z = 0;
  for (u8 b : in) {
    if (z >= 2 && b <= 3) {
      out.push_back(3);
      z = 0;
    }
    out.push_back(b);
    z = b == 0 ? z + 1 : 0;
  }
  return out;
}
inline Bytes unescape(const Bytes& in) {
  Bytes out;
  int z = 0;
  for (u8 b : in) {
    if (z >= 2 && b == 3) {
      z = 0;
      continue;
    }
    out.push_back(b);
    z = b == 0 ? z + 1 : 0;
  }
  return out;
}
// 32 bit ones'-complement sum (as in RFC 1071, with 32 bit words)
inline uint32_t ref_checksum(const Bytes& b) {
  u64 sum = 0;
  for (size_t i = 0; i < b.size(); i += 4) {
    u64 w = 0;
    for (size_t j = 0; j < 4; j++) w = (w << 8) | (i + j < b.size() ? b[i + j] : 0);
    sum += w;
  }
  while (sum >> 32) sum = (sum >> 32) + (sum & 0xffffffffull);
  return ~(uint32_t)sum;
}
