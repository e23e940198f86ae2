// A parse session: the library and the model fed with the same NAL units.
#pragma once
#include "flatten.h"
#include "streamgen.h"

typedef H264NalUnitParser::NalUnitState NalU;

struct Obs {
  std::unique_ptr<NalU> nal;  // what the library returned
  RefNal ref;                 // what the model expects
  Bytes raw;                  // un-escaped bytes
};

struct Session {
  RefState ref;
  H264BitstreamParserState st;
  ParsingOptions opt;
  bool exact_entry = false;

  // `wirebytes` as in a stream (escaped)
  Obs feed_wire(const Bytes& w) {
    Obs o;
    o.raw = unescape(w);
    o.ref = ref_decode(o.raw, ref);
    Exact e(w);
    o.nal = H264NalUnitParser::ParseNalUnit(e.data(), e.n, &st, opt);
    return o;
  }
  Obs feed_raw(const Bytes& raw) {
    Obs o;
    o.raw = raw;
    o.ref = ref_decode(o.raw, ref);
    Exact e(raw);
    o.nal = H264NalUnitParser::ParseNalUnitUnescaped(e.data(), e.n, &st, opt);
    return o;
  }
  Obs feed(Rng& r, const Bytes& raw) {
    return r.chance(60) ? feed_wire(wire(raw)) : feed_raw(raw);
  }
};

inline bool lib_parsed(const NalU* n) {
  return n && n->nal_unit_payload && payload_any(*n->nal_unit_payload);
}
inline string norm(const string& k) {  // no indices in violation keys
  string o;
  for (char c : k)
    if (c < '0' || c > '9' || true) o += c;
  return o;
}
// keep only the part of a node below one of the prefixes
inline Node only_prefix(const Node& n, const string& p) {
  Node o;
  auto keep = [&](const string& k) {
    return k.compare(0, p.size(), p) == 0 &&
           (k.size() == p.size() || k[p.size()] == '.');
  };
  for (auto& x : n.val) if (keep(x.first)) o.val.insert(x);
  for (auto& x : n.vec) if (keep(x.first)) o.vec.insert(x);
  for (auto& x : n.coded) if (keep(x)) o.coded.insert(x);
  for (auto& x : n.block) if (keep(x)) o.block.insert(x);
  return o;
}
inline bool dead(const RefNal& f) {  // history no longer known
  return f.unspec && (f.type == 7 || f.type == 8 || f.type == 15);
}
// Straight from the definition: every 00 00 01 followed by at least one byte.
inline vector<Span> naive_split(const Bytes& b, bool* dangling) {
  vector<size_t> at;
  for (size_t i = 0; i + 2 < b.size(); i++)
    if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) at.push_back(i);
  *dangling = !at.empty() && at.back() + 3 == b.size();
  vector<Span> v;
  for (size_t k = 0; k < at.size(); k++) {
    size_t i = at[k];
    if (i + 3 >= b.size()) break;
    size_t st = i > 0 && b[i - 1] == 0 ? i - 1 : i;
    size_t end = k + 1 < at.size() ? at[k + 1] : b.size();
    while (end > i + 3 && b[end - 1] == 0) end--;
    v.push_back({st, i + 3, end - (i + 3)});
  }
  return v;
}
// ---- P15 ---------------------------------------------------------------------
inline const char* profile_name(i64 idc, const Node& n, const string& p) {
  auto c = [&](int i) { return n.get(p + fmt("constraint_set%d_flag", i)) == 1; };
  switch (idc) {  // A.2.1 - A.2.11
    case 66: return c(1) ? "Constrained Baseline" : "Baseline";
    case 77: return "Main";
    case 88: return "Extended";
    case 100: return c(4) ? (c(5) ? "Constrained High" : "Progressive High") : "High";
    case 110: return c(3) ? "High 10 Intra" : c(4) ? "Progressive High 10" : "High 10";
    case 122: return c(3) ? "High 4:2:2 Intra" : "High 4:2:2";
    case 144: return c(3) ? "High 4:4:4 Intra" : "High 4:4:4";
    case 244: return c(3) ? "High 4:4:4 Predictive Intra" : "High 4:4:4 Predictive";
    case 44: return "CAVLC 4:4:4 Intra";
    default: return "Unspecified";
  }
}
