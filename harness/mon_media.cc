// P25: streams of real encoders, whole and as a network or an editor leaves
// them. Oracles: the trace another parser recorded for the streams that come
// with the library, and the model.
#include "session.h"
#include "h264_rtp_parser.h"

#include <dirent.h>

#include <algorithm>

namespace {
struct Elem {
  size_t pos, bits;
  string name;
  i64 value;
};
struct Section {
  string title;
  vector<Elem> e;
};
struct Media {
  string name;
  vector<Bytes> units;  // as in the file
  vector<size_t> sets;  // which of them are parameter sets
  vector<Section> trace;
};

static Bytes slurp(const string& p) {
  Bytes b;
  if (FILE* f = fopen(p.c_str(), "rb")) {
    u8 t[65536];
    size_t n;
    while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n);
    fclose(f);
  }
  return b;
}
static vector<Section> read_trace(const string& path) {
  vector<Section> v;
  Bytes b = slurp(path);
  string all(b.begin(), b.end());
  bool stream = false;  // the part before the first packet repeats the sets
  for (size_t i = 0; i < all.size();) {
    size_t nl = all.find('\n', i);
    if (nl == string::npos) nl = all.size();
    string l = all.substr(i, nl - i);
    i = nl + 1;
    size_t k = l.find("[trace_headers @");
    if (k == string::npos || (k = l.find("] ", k)) == string::npos) continue;
    l = l.substr(k + 2);
    if (!l.compare(0, 7, "Packet:")) stream = true;
    if (!stream) continue;
    char name[200], bits[400];
    unsigned long pos;
    long long val;
    if (sscanf(l.c_str(), "%lu %199s %399s = %lld", &pos, name, bits, &val) == 4) {
      if (!v.empty()) v.back().e.push_back({(size_t)pos, strlen(bits), name, (i64)val});
    } else {
      v.push_back({l, {}});
    }
  }
  return v;
}
static const vector<Media>& media() {
  static vector<Media> m;
  static bool once = false;
  if (once) return m;
  once = true;
  const char* dir = getenv("P25_DIR");
  DIR* d = dir ? opendir(dir) : nullptr;
  if (!d) return m;
  vector<string> names;
  while (dirent* e = readdir(d)) {
    string n = e->d_name;
    if (n.size() > 4 && n.substr(n.size() - 4) == ".264") names.push_back(n);
  }
  closedir(d);
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    Media x;
    x.name = n;
    Bytes b = slurp(string(dir) + "/" + n);
    bool dang;
    for (auto& s : naive_split(b, &dang)) {
      if (!s.size) continue;
      x.units.emplace_back(b.begin() + (long)s.payload, b.begin() + (long)(s.payload + s.size));
      int t = x.units.back()[0] & 31;
      if (t == 7 || t == 8 || t == 15) x.sets.push_back(x.units.size() - 1);
    }
    x.trace = read_trace(string(dir) + "/" + n + ".bsf");
    if (!x.units.empty()) m.push_back(x);
  }
  return m;
}

// the one coded element of that name, or nothing
static const string* named(const Node& n, const string& name, bool* list) {
  const string* f = nullptr;
  int k = 0;
  for (auto& c : n.coded)
    if (leaf(c) == name) {
      f = &c;
      k++;
    }
  *list = f && n.vec.count(*f);
  return k == 1 ? f : nullptr;
}

// A whole stream against the recorded trace: same units, same elements, same
// values, and as many bits.
static void against_trace(const Media& m) {
  Session s;
  s.opt.add_checksum = true;
  size_t at = 0, compared = 0;
  for (auto& w : m.units) {
    int type = w[0] & 31;
    Obs o = s.feed_wire(w);
    const char* want = type == 7 ? "Sequence Parameter Set" : type == 8 ? "Picture Parameter Set" : type == 1 || type == 5 ? "Slice Header" : nullptr;
    if (!want) continue;
    while (at < m.trace.size() && m.trace[at].title != want && m.trace[at].title != "Sequence Parameter Set" &&
           m.trace[at].title != "Picture Parameter Set" && m.trace[at].title != "Slice Header")
      at++;
    CHECK_(at < m.trace.size() && m.trace[at].title == want, "P25:trace:units", "%s: unit of type %d where the trace has %s", m.name.c_str(), type,
           at < m.trace.size() ? m.trace[at].title.c_str() : "nothing");
    if (g->violations) return;
    const Section& t = m.trace[at++];
    CHECK_(lib_parsed(o.nal.get()), "P25:trace:refused", "%s: unit of type %d refused: %s", m.name.c_str(), type, hex(w, 60).c_str());
    if (g->violations) return;
    Node lib = flat_nal(*o.nal);
    size_t end = 0;
    for (auto& e : t.e) {
      if (!e.name.compare(0, 16, "cabac_alignment_")) continue;  // slice data
      end = e.pos + e.bits;
      string base = e.name;
      size_t idx = 0, br = base.find('[');
      if (br != string::npos) {
        idx = (size_t)atoi(base.c_str() + br + 1);
        base.resize(br);
      }
      bool list;
      const string* k = named(*o.ref.n, base, &list);
      if (!k) {
        g->count("trace_only " + base);
        continue;
      }
      i64 got;
      bool have;
      if (list) {
        auto i = lib.vec.find(*k);
        have = i != lib.vec.end() && idx < i->second.size();
        got = have ? i->second[idx] : 0;
      } else {
        auto i = lib.val.find(*k);
        have = i != lib.val.end();
        got = have ? i->second : 0;
      }
      CHECK_(have && got == e.value, "P25:trace:" + base, "%s: unit of type %d: %s is %s%" PRId64 ", traced as %" PRId64 ": %s", m.name.c_str(), type,
             e.name.c_str(), have ? "" : "missing ", got, e.value, hex(w, 60).c_str());
      compared++;
    }
    CHECK_(o.nal->parsed_length == (end + 7) / 8, "P25:trace:length", "%s: unit of type %d parsed up to byte %zu, traced up to bit %zu", m.name.c_str(), type,
           o.nal->parsed_length, end);
    if (g->violations) return;
  }
  while (at < m.trace.size() && m.trace[at].title != "Slice Header") at++;
  CHECK_(at == m.trace.size(), "P25:trace:units", "%s: the trace has more units", m.name.c_str());
  g->count("traced_streams");
  g->count("traced_elements", compared);
  g->seen(mix(fnvs(m.name), compared));
}

static Node flat_pay(const H264NalUnitPayloadParser::NalUnitPayloadState* p) {
  Node n;
  Out o{&n, ""};
  if (p) flat(*p, o);
  return n;
}

static void damaged(Rng& r, const vector<Media>& all) {
  const Media& a = r.pick(all);
  const Media& b = r.pick(all);
  Session s;
  s.opt.add_checksum = r.chance(50);
  struct Sent {
    Bytes w;
    int type;
    bool whole;     // returned
    u64 nal, pay;   // digests of what was returned
    size_t parsed;  // length
  };
  vector<Sent> sent;
  // sending order: a stretch of the stream behind (most of) its parameter sets
  struct Plan {
    const Bytes* real;
    int how;
  };
  vector<Plan> plan;
  int level = (int)r.below(4);  // how bad the line is
  auto damage = [&](int pct) { return level && r.chance(pct * level); };
  if (r.chance(80))
    for (size_t i = 0; i < a.sets.size() && i < 4; i++) plan.push_back({&a.units[a.sets[i]], 0});
  size_t at = r.chance(30) ? 0 : r.below(a.units.size()), len = (size_t)r.range(6, 40);
  if (r.chance(30)) at = a.sets[r.below(a.sets.size())];
  for (size_t i = 0; i < len && at + i < a.units.size(); i++) {
    if (damage(4)) {
      g->count("dropped");
      continue;
    }
    plan.push_back({&a.units[at + i], damage(2) ? 1 : damage(2) ? 2 : 0});
    if (damage(2)) plan.push_back({&a.units[at + i], 0}), g->count("repeated");
    if (damage(2) && plan.size() > 1) std::swap(plan[plan.size() - 1], plan[plan.size() - 2]), g->count("reordered");
    if (damage(2)) plan.push_back({&r.pick(b.units), 0}), g->count("spliced");
    if (damage(1)) plan.push_back({&b.units[r.pick(b.sets)], 0}), g->count("spliced_sets");
    if (damage(2)) plan.push_back({nullptr, 0}), g->count("generated");
  }
  bool alive = true;
  for (auto& p : plan) {
    Bytes raw;
    if (p.real) {
      raw = unescape(*p.real);
      if (p.how == 1) {
        // bit errors, mostly where the headers are
        Bytes head(raw.begin(), raw.begin() + (long)std::min<size_t>(raw.size(), 24));
        if (r.chance(80)) {
          mutate(r, head);
          head.insert(head.end(), raw.begin() + (long)std::min<size_t>(raw.size(), 24), raw.end());
          raw = head;
        } else {
          mutate(r, raw);
        }
        g->count("damaged");
      } else if (p.how == 2) {
        raw.resize(r.below(r.chance(70) ? std::min<size_t>(raw.size(), 16) : raw.size()));
        g->count("cut");
      }
    } else {
      // a set of another origin that may take the place of a real one, or a
      // slice that uses a real one
      GenOpt o;
      o.pool = 1;
      o.weights = weights({{7, 4}, {8, 6}, {15, 3}, {1, 2}, {5, 2}, {14, 1}, {20, 2}, {6, 1}, {9, 1}});
      raw = gen_nal(r, s.ref, o).raw;
    }
    Bytes w = wire(raw);
    if (raw.empty() || unescape(w) != raw) continue;
    uint32_t before = get_unimplemented_count();
    Obs o = s.feed_wire(w);
    uint32_t delta = get_unimplemented_count() - before;
    const RefNal& f = o.ref;
    int type = (int)f.type;
    if (dead(f)) {
      alive = false;
      break;
    }
    if (!f.unspec) {
      CHECK_((o.nal != nullptr) == f.hdr_ok, "P25:header", "unit with a %s header is %s: %s", f.hdr_ok ? "good" : "broken", o.nal ? "returned" : "dropped",
             hex(w, 60).c_str());
      if (o.nal && f.attempted()) {
        bool got = lib_parsed(o.nal.get());
        CHECK_(got == f.payload_ok, fmt("P25:%s:type%d", got ? "accepted" : "refused", type), "unit of type %d of %s wrongly %s: %s", type, a.name.c_str(),
               got ? "accepted" : "refused", hex(w, 80).c_str());
        if (got && f.payload_ok) {
          string k, e = compare(*f.n, flat_nal(*o.nal), &k);
          CHECK_(e.empty(), "P25:value:" + k, "%s: %s", e.c_str(), hex(w, 80).c_str());
          if (f.plen_valid)
            CHECK_(o.nal->parsed_length == f.parsed_len, "P25:parsed-length", "%zu bytes parsed, %zu used: %s", o.nal->parsed_length, f.parsed_len,
                   hex(w, 80).c_str());
        }
      }
      CHECK_(delta == (uint32_t)f.unimpl, "P25:unimplemented", "unimplemented count moved by %u, not %d: %s", delta, f.unimpl, hex(w, 80).c_str());
      g->count(fmt("type_%d_%s", type, !f.hdr_ok ? "unreadable" : f.payload_ok ? "parsed" : f.attempted() ? "refused" : "other"));
    }
    string k, e = compare_state(s.ref, s.st, &k);
    CHECK_(e.empty(), "P25:state:" + k, "%s after a unit of type %d: %s", e.c_str(), type, hex(w, 80).c_str());
    if (g->violations) return;
    if (o.nal && s.opt.add_checksum) {
      uint32_t c = ref_checksum(raw);
      u8 want[4] = {(u8)(c >> 24), (u8)(c >> 16), (u8)(c >> 8), (u8)c};
      CHECK_(o.nal->checksum && !memcmp(o.nal->checksum->GetChecksum(), want, 4), "P25:checksum", "wrong checksum: %s", hex(w, 80).c_str());
    }
    sent.push_back({w, raw[0] & 31, o.nal != nullptr, o.nal ? digest(flat_nal(*o.nal)) : 0,
                    o.nal ? digest(flat_pay(o.nal->nal_unit_payload.get())) : 0, f.plen_valid ? f.parsed_len : raw.size()});
    g->seen(mix(mix(f.payload_ok ? shape(*f.n) : 1, (u64)type), (u64)s.ref.sps.size() * 64 + s.ref.pps.size() * 8 + s.ref.subset.size()));
  }
  if (!alive || sent.empty()) return;
  if (r.chance(1)) g->sample(fmt("%s at unit %zu: %zu units, damage level %d", a.name.c_str(), at, sent.size(), level));
  // the same units over a transport
  int transport = (int)r.below(3);
  H264BitstreamParserState st;
  static const char* tn[] = {"stream", "length framing", "RTP"};
  if (transport < 2) {
    vector<Bytes> v;
    for (auto& x : sent) v.push_back(x.w);
    Bytes b = transport ? length_framed(v, 4, nullptr) : annexb(r, v, nullptr);
    Exact e(b);
    auto bs = transport ? H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, 4, &st, s.opt)
                        : H264BitstreamParser::ParseBitstream(e.data(), e.n, &st, s.opt);
    size_t j = 0;
    for (auto& x : sent) {
      if (!x.whole) continue;
      bool ok = bs && j < bs->nal_units.size() && digest(flat_nal(*bs->nal_units[j])) == x.nal;
      CHECK_(ok, string("P25:transport:") + tn[transport], "unit %zu differs in a %s: %s", j, tn[transport], hex(x.w, 80).c_str());
      if (!ok) return;
      j++;
    }
    CHECK_(bs->nal_units.size() == j, string("P25:transport:") + tn[transport], "%zu units in a %s, %zu one by one", bs->nal_units.size(), tn[transport], j);
  } else {
    for (size_t i = 0; i < sent.size();) {
      auto& x = sent[i];
      if (x.type == 0 || x.type > 23) {  // not for RTP: deliver it another way
        Exact e(x.w);
        H264NalUnitParser::ParseNalUnit(e.data(), e.n, &st, s.opt);
        i++;
        continue;
      }
      auto same = [&](const H264NalUnitPayloadParser::NalUnitPayloadState* p, const Sent& y, const char* kind) {
        CHECK_(p && digest(flat_pay(p)) == y.pay, string("P25:transport:") + kind, "unit of type %d differs in a %s packet: %s", y.type, kind,
               hex(y.w, 80).c_str());
      };
      bool set = x.type == 7 || x.type == 8 || x.type == 15 || x.type == 14;
      if (x.whole && !set && x.w.size() > x.parsed * 2 + 16 && r.chance(60)) {
        // fragments; the first one holds all that is parsed
        size_t cut = x.parsed * 2 + 8 + r.below(x.w.size() - x.parsed * 2 - 8), step = 1 + r.below(1200), done = 1;
        int k = 0;
        while (done < x.w.size()) {
          size_t n = k ? std::min(step, x.w.size() - done) : cut - 1;
          Bytes p = {(u8)((x.w[0] & 0xe0) | 28), (u8)((k ? 0 : 0x80) | (done + n == x.w.size() && k ? 0x40 : 0) | (x.w[0] & 31))};
          p.insert(p.end(), x.w.begin() + (long)done, x.w.begin() + (long)(done + n));
          Exact e(p);
          auto y = H264RtpParser::ParseRtp(e.data(), e.n, &st);
          bool ok = y && y->rtp_fua;
          CHECK_(ok, "P25:transport:fragment", "fragment %d refused: %s", k, hex(p, 60).c_str());
          if (!ok) return;
          if (!k) same(y->rtp_fua->nal_unit_payload.get(), x, "fragment");
          else CHECK_(!y->rtp_fua->nal_unit_payload, "P25:transport:fragment", "later fragment has a payload: %s", hex(p, 60).c_str());
          done += n;
          k++;
        }
        g->count("fragments", (u64)k);
        i++;
      } else if (x.whole && r.chance(40)) {
        Bytes p = {0x78};
        size_t k = i, n = 1 + r.below(5);
        while (k < sent.size() && k - i < n && sent[k].whole && sent[k].type && sent[k].type < 24 && sent[k].w.size() < 65536) {
          p.push_back((u8)(sent[k].w.size() >> 8));
          p.push_back((u8)sent[k].w.size());
          p.insert(p.end(), sent[k].w.begin(), sent[k].w.end());
          k++;
        }
        if (k == i) {
          Exact e(x.w);
          H264NalUnitParser::ParseNalUnit(e.data(), e.n, &st, s.opt);
          i++;
          continue;
        }
        Exact e(p);
        auto y = H264RtpParser::ParseRtp(e.data(), e.n, &st);
        bool ok = y && y->rtp_stapa && y->rtp_stapa->nal_unit_payloads.size() == k - i;
        CHECK_(ok, "P25:transport:aggregate", "aggregate of %zu units refused or cut: %s", k - i, hex(p, 80).c_str());
        if (!ok) return;
        for (size_t q = i; q < k; q++) same(y->rtp_stapa->nal_unit_payloads[q - i].get(), sent[q], "aggregate");
        g->count("aggregates");
        i = k;
      } else {
        Exact e(x.w);
        auto y = H264RtpParser::ParseRtp(e.data(), e.n, &st);
        bool ok = y && y->rtp_single;
        CHECK_(ok == x.whole, "P25:transport:single", "unit of type %d %s in a single packet: %s", x.type, ok ? "accepted" : "refused", hex(x.w, 80).c_str());
        if (ok && x.whole) same(y->rtp_single->nal_unit_payload.get(), x, "single");
        g->count("singles");
        i++;
      }
      if (g->violations) return;
    }
  }
  g->count(string("transport ") + tn[transport]);
  string k, e = compare_state(s.ref, st, &k);
  CHECK_(e.empty(), string("P25:transport-state:") + tn[transport], "%s after a %s", e.c_str(), tn[transport]);
}
}  // namespace

MODULE(P25, "a unit in a history made from real streams, distinct by type, coded shape and number of remembered sets; a whole stream against its trace") {
  auto& all = media();
  if (all.empty()) return;
  if (g->index % 256 < all.size()) {
    const Media& m = all[g->index % 256];
    if (!m.trace.empty()) {
      against_trace(m);
      return;
    }
  }
  damaged(r, all);
}
