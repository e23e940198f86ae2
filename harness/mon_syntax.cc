// P05-P08: decoded values equal coded values. P09: rejection. P10: history.
// P19: unimplemented count.
#include "session.h"

// count which syntax elements were observed
static void note_elems(const Node& n) {
  for (auto& c : n.coded) g->count("elem:" + c);
}

struct Focus {
  const char* id;
  set<int> types;
};

// check one NAL unit whose type is in focus; the model says it is valid
static void judge(const char* id, const Obs& o, const string& prefix) {
  const RefNal& f = o.ref;
  if (!f.payload_ok) return;
  g->count(fmt("valid_type_%d", (int)f.type));
  if (!lib_parsed(o.nal.get())) {
    g->evals++;
    violation(fmt("%s:valid-rejected:type%d", id, (int)f.type),
              fmt("valid NAL unit of type %d not parsed: %s", (int)f.type, hex(o.raw).c_str()));
    return;
  }
  Node ln = flat_nal(*o.nal);
  string field, e;
  if (prefix.empty())
    e = compare(*f.n, ln, &field);
  else
    e = compare(only_prefix(*f.n, prefix), only_prefix(ln, prefix), &field);
  CHECK_(e.empty(), string(id) + ":value:" + field, "%s in NAL unit %s", e.c_str(),
         hex(o.raw).c_str());
  u64 sh = shape(*f.n);
  g->seen(sh);
  note_elems(*f.n);
  g->sample(fmt("type %d %zu elements compared, bytes %s", (int)f.type, f.n->val.size(),
                hex(o.raw, 40).c_str()));
}



// drive a history; call `f` on each observation
template <class F>
static void drive(Rng& r, const GenOpt& base, int len, int faultpct, int mutpct, F f) {
  Session s;
  for (int i = 0; i < len; i++) {
    GenOpt o = base;
    o.fault = r.chance(faultpct);
    GenNal n = gen_nal(r, s.ref, o);
    if (r.chance(mutpct)) mutate(r, n.raw);
    Obs ob = s.feed(r, n.raw);
    g->count("nal_units");
    if (ob.ref.unspec) g->count("unspecified_skipped");
    f(s, ob);
    if (dead(ob.ref) || g->violations) break;
  }
}

// direct entry points: generate, decode with the model, parse with the library
template <class Gen, class Parse>
static void direct(Rng& r, const char* id, const string& name, Gen gen, Parse parse,
                   const map<string, i64>& force = {}) {
  Node gn, rn;
  Syn s = Syn::mk(r, &gn);
  s.force = force;
  try {
    gen(s);
  } catch (Reject&) {
    return;
  }
  Bytes raw = s.out;
  size_t bits = s.pos;
  if (r.chance(40)) {
    s.put(r.next() & 0xffff, 16);  // bytes that follow do not matter
    raw = s.out;
  }
  bool unspec = false, ok = true;
  Syn d = Syn::dec(raw, &rn);
  try {
    gen(d);
  } catch (Reject&) {
    ok = false;
  } catch (Unspec&) {
    unspec = true;
  }
  if (!ok || unspec) return;
  (void)bits;
  bool esc = r.chance(50);
  Exact e(esc ? escape(raw) : raw);
  Node ln;
  bool got;
  if (esc) {
    got = parse(&ln, e.data(), e.n, nullptr);
  } else {
    BitBuffer bb(e.data(), e.n);
    got = parse(&ln, nullptr, 0, &bb);
  }
  g->count("direct:" + name);
  CHECK_(got, string(id) + ":direct-rejected:" + name, "valid %s not parsed (%s entry): %s",
         name.c_str(), esc ? "bytes" : "bit buffer", hex(raw).c_str());
  if (!got) return;
  string field;
  string x = compare(rn, ln, &field);
  CHECK_(x.empty(), string(id) + ":direct-value:" + field, "%s via %s: %s", x.c_str(),
         name.c_str(), hex(raw).c_str());
  g->seen(shape(rn));
  note_elems(rn);
}
#define ENTRY(call_bytes, call_bits, nm)                                   \
  [&](Node* out, const u8* p, size_t n, BitBuffer* bb) {                    \
    auto x = bb ? call_bits : call_bytes;                                   \
    if (!x) return false;                                                   \
    *out = flat_one(*x, nm);                                                \
    return true;                                                            \
  }

MODULE(P05, "a sequence parameter set (or VUI/HRD part of one) the model accepts, distinct by "
            "the set of coded elements and list lengths") {
  GenOpt o;
  o.weights = weights({{7, 20}, {15, 6}});
  o.bigpct = 6;
  drive(r, o, 6, 0, 0, [&](Session&, Obs& ob) {
    if (ob.ref.type == 7) judge("P05", ob, "");
    if (ob.ref.type == 15) judge("P05", ob, "subset_sps.sps_data");
  });
  direct(r, "P05", "sps", [](Syn& s) { sps_rbsp(s); },
         ENTRY(H264SpsParser::ParseSps(p, n), H264SpsParser::ParseSps(bb), "sps"));
  direct(r, "P05", "sps_data", [](Syn& s) { sps_data(s); },
         ENTRY(H264SpsDataParser::ParseSpsData(p, n), H264SpsDataParser::ParseSpsData(bb),
               "sps_data"));
  direct(r, "P05", "vui_parameters", [](Syn& s) { vui(s); },
         ENTRY(H264VuiParametersParser::ParseVuiParameters(p, n),
               H264VuiParametersParser::ParseVuiParameters(bb), "vui_parameters"));
  direct(r, "P05", "hrd_parameters", [](Syn& s) { hrd(s, "hrd_parameters"); },
         ENTRY(H264HrdParametersParser::ParseHrdParameters(p, n),
               H264HrdParametersParser::ParseHrdParameters(bb), "hrd_parameters"));
  direct(r, "P05", "sps_extension", [](Syn& s) { sps_ext_rbsp(s); },
         ENTRY(H264SpsExtensionParser::ParseSpsExtension(p, n),
               H264SpsExtensionParser::ParseSpsExtension(bb), "sps_extension"));
}

MODULE(P06, "a picture parameter set the model accepts, distinct by the set of coded elements "
            "and list lengths") {
  GenOpt o;
  o.weights = weights({{7, 3}, {15, 1}, {8, 16}});
  o.bigpct = 6;
  drive(r, o, 8, 0, 0, [&](Session&, Obs& ob) {
    if (ob.ref.type == 8) judge("P06", ob, "");
  });
  for (int k = 0; k < 3; k++) {
    i64 cf = r.range(0, 3);
    direct(r, "P06", "pps", [&](Syn& s) { pps_rbsp(s, nullptr, cf); },
           ENTRY(H264PpsParser::ParsePps(p, n, (uint32_t)cf),
                 H264PpsParser::ParsePps(bb, (uint32_t)cf), "pps"));
  }
}

MODULE(P07, "a slice of type 1 or 5 the model accepts, distinct by the set of coded elements and "
            "list lengths") {
  GenOpt o;
  o.weights = weights({{7, 3}, {15, 1}, {8, 5}, {1, 14}, {5, 10}});
  drive(r, o, 24, 0, 0, [&](Session& s, Obs& ob) {
    if (ob.ref.type != 1 && ob.ref.type != 5) return;
    judge("P07", ob, "");
    if (!ob.ref.payload_ok || g->violations) return;
    // the same slice through the stand-alone entry points
    if (!r.chance(25)) return;
    Bytes body(ob.raw.begin() + 1, ob.raw.end());
    uint32_t idc = (uint32_t)ob.ref.ref_idc, ty = (uint32_t)ob.ref.type;
    Exact e(escape(body)), u(body);
    const string P = "slice_layer_without_partitioning_rbsp";
    string f;
    auto a = H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(
        e.data(), e.n, idc, ty, &s.st);
    auto b = H264SliceHeaderParser::ParseSliceHeader(e.data(), e.n, idc, ty, &s.st);
    BitBuffer bb(u.data(), u.n);
    auto c = H264SliceHeaderParser::ParseSliceHeader(&bb, idc, ty, &s.st);
    CHECK_(a && a->slice_header && b && c, "P07:direct-rejected:slice_header",
           "slice accepted as NAL unit, not stand-alone: %s", hex(ob.raw).c_str());
    if (!a || !a->slice_header || !b || !c) return;
    Node want;
    Node full = only_prefix(*ob.ref.n, P + ".slice_header");
    auto strip = [&](const string& k) { return k.substr(P.size() + 1); };
    for (auto& x : full.val) want.val[strip(x.first)] = x.second;
    for (auto& x : full.vec) want.vec[strip(x.first)] = x.second;
    for (auto& x : full.block) want.block.insert(strip(x));
    for (auto* h : {a->slice_header.get(), b.get(), c.get()}) {
      string x = compare(want, flat_one(*h, "slice_header"), &f);
      CHECK_(x.empty(), "P07:direct-value:" + f, "%s: %s", x.c_str(), hex(ob.raw).c_str());
    }
    g->count("direct:slice_header", 3);
  });
  i64 t = r.range(0, 9);
  direct(r, "P07", "ref_pic_list_modification", [&](Syn& s) { ref_list_mod(s, t); },
         ENTRY(H264RefPicListModificationParser::ParseRefPicListModification(p, n, (uint32_t)t),
               H264RefPicListModificationParser::ParseRefPicListModification(bb, (uint32_t)t),
               "ref_pic_list_modification"));
  i64 cat = r.range(0, 3), l0 = r.range(0, 31), l1 = r.range(0, 31);
  direct(r, "P07", "pred_weight_table", [&](Syn& s) { pred_weights(s, t, cat, l0, l1); },
         ENTRY(H264PredWeightTableParser::ParsePredWeightTable(p, n, (uint32_t)cat, (uint32_t)t,
                                                               (uint32_t)l0, (uint32_t)l1),
               H264PredWeightTableParser::ParsePredWeightTable(bb, (uint32_t)cat, (uint32_t)t,
                                                               (uint32_t)l0, (uint32_t)l1),
               "pred_weight_table"));
  bool idr = r.chance(30);
  direct(r, "P07", "dec_ref_pic_marking", [&](Syn& s) { dec_ref_marking(s, idr); },
         ENTRY(H264DecRefPicMarkingParser::ParseDecRefPicMarking(p, n, idr),
               H264DecRefPicMarkingParser::ParseDecRefPicMarking(bb, idr),
               "dec_ref_pic_marking"));
}

MODULE(P08, "an SVC NAL unit (types 14, 15, 20, or a type 21 header) the model accepts, distinct "
            "by the set of coded elements and list lengths") {
  GenOpt o;
  o.weights = weights({{7, 1}, {15, 5}, {8, 6}, {14, 5}, {20, 18}, {21, 1}});
  drive(r, o, 22, 0, 0, [&](Session&, Obs& ob) {
    if (ob.ref.type == 14 || ob.ref.type == 15 || ob.ref.type == 20) judge("P08", ob, "");
    // extension headers are reported whatever becomes of the payload
    if ((ob.ref.type == 14 || ob.ref.type == 20) && ob.ref.hdr_ok) {
      CHECK_(ob.nal != nullptr, "P08:header-rejected", "SVC NAL unit dropped: %s",
             hex(ob.raw).c_str());
      if (!ob.nal) return;
      string f, e = compare(only_prefix(*ob.ref.n, "nal_unit_header"),
                            only_prefix(flat_nal(*ob.nal), "nal_unit_header"), &f);
      CHECK_(e.empty(), "P08:header:" + f, "%s in %s", e.c_str(), hex(ob.raw).c_str());
    }
  });
  i64 cat = r.range(0, 3);
  direct(r, "P08", "seq_parameter_set_svc_extension", [&](Syn& s) { svc_ext(s, cat); },
         ENTRY(H264SpsSvcExtensionParser::ParseSpsSvcExtension(p, n, (uint32_t)cat),
               H264SpsSvcExtensionParser::ParseSpsSvcExtension(bb, (uint32_t)cat),
               "seq_parameter_set_svc_extension"));
  direct(r, "P08", "subset_sps", [&](Syn& s) { subset_sps_rbsp(s); },
         ENTRY(H264SubsetSpsParser::ParseSubsetSps(p, n), H264SubsetSpsParser::ParseSubsetSps(bb),
               "subset_sps"));
  i64 idc = r.range(0, 3);
  SvcHdr h;
  h.idr = r.range(0, 1);
  h.use_base = r.range(0, 1);
  direct(r, "P08", "prefix_nal_unit_rbsp", [&](Syn& s) { prefix_rbsp(s, idc, h); },
         ENTRY(H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(
                   p, n, 1, (uint32_t)idc, (uint32_t)h.use_base, (uint32_t)h.idr),
               H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(
                   bb, 1, (uint32_t)idc, (uint32_t)h.use_base, (uint32_t)h.idr),
               "prefix_nal_unit_rbsp"));
}

// ---- P09 ---------------------------------------------------------------------
// One NAL unit judged for acceptance; `what` names the injected fault.
static void judge_reject(Session& s, const Obs& o, const Node& before, const string& what) {
  const RefNal& f = o.ref;
  if (f.unspec) return;
  if (!f.hdr_ok) {
    g->count("header_rejected");
    CHECK_(!o.nal, "P09:broken-header-accepted", "NAL unit with unreadable header returned: %s",
           hex(o.raw).c_str());
    return;
  }
  if (!f.attempted()) return;
  bool got = lib_parsed(o.nal.get());
  if (f.payload_ok) {
    g->count("boundary_accepted");
    CHECK_(got, fmt("P09:in-range-rejected:type%d", (int)f.type), "in-range structure refused: %s",
           hex(o.raw).c_str());
    if (!got) return;
    // the library's own notion of "parsed"
    CHECK_(o.nal->nal_unit_payload->IsPayloadParsed((uint32_t)f.type),
           "P09:parsed-flag", "parsed payload reported as not parsed: %s", hex(o.raw).c_str());
    return;
  }
  g->count("reject:" + (what.empty() ? string("other") : what));
  g->seen(fnvs(what, (u64)f.type * 1000 + shape(*f.n) % 997));
  g->sample(fmt("%s, type %d: %s", what.c_str(), (int)f.type, hex(o.raw).c_str()));
  CHECK_(!got, "P09:accepted:" + what, "%s: structure of type %d that must be refused was reported: %s",
         what.c_str(), (int)f.type, hex(o.raw).c_str());
  if (got) return;
  CHECK_(o.nal != nullptr, "P09:nal-dropped", "NAL unit with a good header and a bad payload not returned: %s",
         hex(o.raw).c_str());
  if (o.nal)
    CHECK_(!o.nal->nal_unit_payload->IsPayloadParsed((uint32_t)f.type), "P09:parsed-flag",
           "rejected payload reported as parsed: %s", hex(o.raw).c_str());
  Node after = flat_state(s.st);
  CHECK_(digest(before) == digest(after), "P09:state-after-reject:" + what,
         "%s: rejected structure changed the remembered parameter sets: %s", what.c_str(),
         hex(o.raw).c_str());
}

// direct entry points must refuse as well
template <class Gen, class Parse>
static void direct_fault(Rng& r, const string& name, Gen gen, Parse parse) {
  Node gn, rn;
  Rng save = r;
  int ranged, codes;
  {
    Syn s = Syn::mk(r, &gn);
    try {
      gen(s);
    } catch (Reject&) {
    }
    ranged = s.ranged;
    codes = s.codes;
  }
  bool over = r.chance(25) && codes;
  bool trunc = !over && (r.chance(40) || ranged == 0);
  r = save;
  Rng r2(save.s ^ 77);
  Syn s = Syn::mk(r, &gn);
  if (over) s.overlong = (int)r2.below((u64)codes);
  else if (!trunc) s.fault = (int)r2.below((u64)ranged);
  try {
    gen(s);
  } catch (Reject&) {
  }
  Bytes raw = s.out;
  if (trunc && !raw.empty()) raw.resize(r2.below(raw.size()));
  if (!trunc) raw.resize(raw.size() + 40, 0xff);
  bool rej = false;
  Syn d = Syn::dec(raw, &rn);
  try {
    gen(d);
  } catch (Reject&) {
    rej = true;
  } catch (Unspec&) {
    return;
  }
  bool esc = r2.chance(50);
  Exact e(esc ? escape(raw) : raw);
  Node ln;
  bool got;
  if (esc) {
    got = parse(&ln, e.data(), e.n, nullptr);
  } else {
    BitBuffer bb(e.data(), e.n);
    got = parse(&ln, nullptr, 0, &bb);
  }
  string what = trunc ? name + " truncated" : s.fault_name;
  if (rej) {
    g->count("reject-direct:" + what);
    g->seen(fnvs(what));
  }
  CHECK_(got != rej, string(rej ? "P09:accepted:" : "P09:in-range-rejected:") + what, "%s: %s %s",
         what.c_str(), rej ? "accepted" : "refused", hex(raw).c_str());
}

MODULE(P09, "a structure the model rejects, distinct by the element that is out of range (or the "
            "truncation point class, or the code that is unreadable) and the coded shape before it") {
  Session s;
  // a small valid history
  static const int setup[6] = {7, 8, 15, 8, 7, 8};
  int ns = (int)r.range(2, 6);
  vector<Bytes> hist;
  for (int i = 0; i < ns; i++) {
    GenOpt o;
    o.type = setup[i];
    GenNal n = gen_nal(r, s.ref, o);
    hist.push_back(n.raw);
    s.feed(r, n.raw);
  }
  static const vector<int> types = {7, 7, 8, 1, 5, 15, 20, 14, 1, 20};
  // (a) one element out of range
  for (int k = 0; k < 8 && !g->violations; k++) {
    GenOpt o;
    o.type = r.pick(types);
    o.fault = r.chance(85);
    Node before = flat_state(s.st);
    GenNal n = gen_nal(r, s.ref, o);
    Obs ob = s.feed(r, n.raw);
    judge_reject(s, ob, before, n.fault_name);
    if (dead(ob.ref)) return;
  }
  // (b) every truncation point of one NAL unit
  {
    GenOpt o;
    o.type = r.pick(types);
    GenNal n = gen_nal(r, s.ref, o);
    size_t lim = n.raw.size();
    if (lim > 160) lim = 160;
    s.feed_raw(n.raw);
    for (size_t k = 0; k < lim && !g->violations; k++) {
      Bytes cut(n.raw.begin(), n.raw.begin() + (long)k);
      Node before = flat_state(s.st);
      Obs ob = s.feed_raw(cut);
      judge_reject(s, ob, before, fmt("type%d truncated", o.type));
      g->count("truncation_points");
      // a cut parameter set that still parses replaced the full one
      if (ob.ref.unspec || ob.ref.payload_ok) s.feed_raw(n.raw);
    }
  }
  // (c) references to parameter sets that were never received
  if (!g->violations) {
    GenOpt o;
    o.type = r.pick(vector<int>{1, 5, 20});
    i64 id = (i64)r.below(256);
    for (const char* p : {"slice_layer_without_partitioning_rbsp.slice_header.",
                          "slice_layer_extension_rbsp.slice_header_in_scalable_extension."})
      o.force[string(p) + "pic_parameter_set_id"] = id;
    Node before = flat_state(s.st);
    GenNal n = gen_nal(r, s.ref, o);
    Obs ob = s.feed(r, n.raw);
    judge_reject(s, ob, before, "reference");
    // a PPS may arrive before its SPS, a slice may not
    GenOpt q;
    q.type = 8;
    i64 sid = r.range(0, 31);
    q.force["pps.seq_parameter_set_id"] = sid;
    q.force["pps.pic_parameter_set_id"] = 200;
    before = flat_state(s.st);
    n = gen_nal(r, s.ref, q);
    ob = s.feed(r, n.raw);
    judge_reject(s, ob, before, "");
    if (!dead(ob.ref)) {
      for (const char* p : {"slice_layer_without_partitioning_rbsp.slice_header.",
                            "slice_layer_extension_rbsp.slice_header_in_scalable_extension."})
        o.force[string(p) + "pic_parameter_set_id"] = 200;
      before = flat_state(s.st);
      n = gen_nal(r, s.ref, o);
      ob = s.feed(r, n.raw);
      judge_reject(s, ob, before, "sps reference");
    }
  }
  if (g->violations) return;
  // (d) stand-alone entry points
  i64 cf = r.range(0, 3), t = r.range(0, 9), l0 = r.range(0, 31), l1 = r.range(0, 31);
  switch (r.below(9)) {
    case 0:
      return direct_fault(r, "sps", [](Syn& s) { sps_rbsp(s); },
             ENTRY(H264SpsParser::ParseSps(p, n), H264SpsParser::ParseSps(bb), "sps"));
    case 1:
      return direct_fault(r, "sps_data", [](Syn& s) { sps_data(s); },
             ENTRY(H264SpsDataParser::ParseSpsData(p, n), H264SpsDataParser::ParseSpsData(bb), "sps_data"));
    case 2:
      return direct_fault(r, "vui_parameters", [](Syn& s) { vui(s); },
             ENTRY(H264VuiParametersParser::ParseVuiParameters(p, n),
                   H264VuiParametersParser::ParseVuiParameters(bb), "vui_parameters"));
    case 3:
      return direct_fault(r, "hrd_parameters", [](Syn& s) { hrd(s, "hrd_parameters"); },
             ENTRY(H264HrdParametersParser::ParseHrdParameters(p, n),
                   H264HrdParametersParser::ParseHrdParameters(bb), "hrd_parameters"));
    case 4:
      return direct_fault(r, "pps", [&](Syn& s) { pps_rbsp(s, nullptr, cf); },
             ENTRY(H264PpsParser::ParsePps(p, n, (uint32_t)cf), H264PpsParser::ParsePps(bb, (uint32_t)cf), "pps"));
    case 5:
      return direct_fault(r, "subset_sps", [](Syn& s) { subset_sps_rbsp(s); },
             ENTRY(H264SubsetSpsParser::ParseSubsetSps(p, n), H264SubsetSpsParser::ParseSubsetSps(bb), "subset_sps"));
    case 6:
      return direct_fault(r, "ref_pic_list_modification", [&](Syn& s) { ref_list_mod(s, t); },
             ENTRY(H264RefPicListModificationParser::ParseRefPicListModification(p, n, (uint32_t)t),
                   H264RefPicListModificationParser::ParseRefPicListModification(bb, (uint32_t)t),
                   "ref_pic_list_modification"));
    case 7:
      return direct_fault(r, "pred_weight_table", [&](Syn& s) { pred_weights(s, t, cf, l0, l1); },
             ENTRY(H264PredWeightTableParser::ParsePredWeightTable(p, n, (uint32_t)cf, (uint32_t)t, (uint32_t)l0, (uint32_t)l1),
                   H264PredWeightTableParser::ParsePredWeightTable(bb, (uint32_t)cf, (uint32_t)t, (uint32_t)l0, (uint32_t)l1),
                   "pred_weight_table"));
    default: {
      bool idr = r.chance(20);
      return direct_fault(r, "dec_ref_pic_marking", [&](Syn& s) { dec_ref_marking(s, idr); },
             ENTRY(H264DecRefPicMarkingParser::ParseDecRefPicMarking(p, n, idr),
                   H264DecRefPicMarkingParser::ParseDecRefPicMarking(bb, idr), "dec_ref_pic_marking"));
    }
  }
}

// ---- P10 ---------------------------------------------------------------------
static bool is_slice(i64 t) { return t == 1 || t == 5 || t == 20; }

static void check_accessors(Rng& r, Session& s) {
  for (int k = 0; k < 3; k++) {
    uint32_t id = (uint32_t)(r.chance(70) ? r.below(6) : r.below(300));
    auto a = s.st.GetSps(id);
    auto b = s.st.GetPps(id);
    auto c = s.st.GetSubsetSps(id);
    bool ok = (bool)a == (bool)s.ref.sps.count(id) && (bool)b == (bool)s.ref.pps.count(id) &&
              (bool)c == (bool)s.ref.subset.count(id);
    if (ok && a) ok = a.get() == s.st.sps.at(id).get();
    if (ok && b) ok = b.get() == s.st.pps.at(id).get();
    if (ok && c) ok = c.get() == s.st.subset_sps.at(id).get();
    CHECK_(ok, "P10:accessor", "accessor for id %u disagrees with the history", id);
  }
}
// what happened to the history so far, as a coarse state
static u64 hist_state(const RefState& s, i64 type, bool ok) {
  u64 h = (u64)type * 2 + ok;
  for (auto& x : s.sps) h = h * 131 + (u64)x.first + 1;
  h = h * 31 + 7;
  for (auto& x : s.pps) h = h * 131 + (u64)x.first + 1 + 40 * (u64)x.second.v.sps_id;
  h = h * 31 + 7;
  for (auto& x : s.subset) h = h * 131 + (u64)x.first + 1;
  return h;
}
MODULE(P10, "the history state after a NAL unit: stored ids of each kind, which SPS each PPS names, "
            "type and fate of the last NAL unit") {
  Session s;
  GenOpt o;
  o.pool = (int)r.range(1, 4);
  o.weights = weights({{0, 1}, {1, 8}, {5, 5}, {6, 1}, {7, 14}, {8, 16}, {9, 1}, {13, 1}, {14, 2},
                       {15, 10}, {19, 1}, {20, 8}, {21, 1}, {24, 1}, {31, 1}});
  struct Kept {
    std::unique_ptr<NalU> n;
    u64 d;
  };
  vector<Kept> kept;
  vector<Bytes> sent;
  vector<std::pair<i64, std::shared_ptr<Node>>> sets;
  int len = (int)r.range(6, 36);
  // every id in use: as many sets of each kind as there can be
  bool crowd = r.chance(1) && r.chance(50);
  int crowd_from = (int)r.below(4);
  if (crowd) {
    len = (int)r.range(200, 420);
    o.pool = 0;
    g->count("crowded_histories");
  }
  bool alive = true;
  for (int i = 0; i < len && alive; i++) {
    GenOpt x = o;
    x.fault = r.chance(20);
    bool near = !sets.empty() && r.chance(25), again = false;
    if (crowd && i >= crowd_from && r.chance(96)) {
      int k = i - crowd_from;
      near = false;
      x.fault = false;
      x.type = k < 64 ? (k & 1 ? 15 : 7) : 8;
      x.bigpct = 0;
      x.force["sps.sps_data.seq_parameter_set_id"] = (k / 2) % 32;
      x.force["subset_sps.sps_data.seq_parameter_set_id"] = (k / 2) % 32;
      x.force["pps.pic_parameter_set_id"] = (k - 64) % 256;
      x.force["pps.seq_parameter_set_id"] = (i64)r.below(32);
      if (k >= 64 && r.chance(90)) x.force["pps.num_slice_groups_minus1"] = 0;
    }
    if (near) {  // an earlier parameter set again, the same or with one or two elements changed
      auto& q = r.pick(sets);
      x.type = (int)q.first;
      x.pool = 0;
      x.fault = false;
      x.force.clear();
      for (auto& c : q.second->coded)
        if (q.second->val.count(c)) x.force[c] = q.second->val[c];
      again = r.chance(15);
      for (int k = again ? 0 : 1 + (int)r.below(2); k && !x.force.empty(); k--) {
        auto it = x.force.begin();
        std::advance(it, (long)r.below(x.force.size()));
        if (it->first.find("set_id") == string::npos || r.chance(10)) x.force.erase(it);
      }
    }
    GenNal n = gen_nal(r, s.ref, x);
    if (!near && r.chance(10)) mutate(r, n.raw);
    Bytes w = wire(n.raw);
    Obs ob = s.feed_wire(w);
    sent.push_back(w);
    g->count(fmt("%s_type_%d", ob.ref.payload_ok ? "good" : "other", (int)ob.ref.type));
    if (ob.ref.payload_ok && (ob.ref.type == 7 || ob.ref.type == 8 || ob.ref.type == 15)) {
      sets.push_back({ob.ref.type, ob.ref.n});
      if (near) g->count(again ? "parameter_set_repeated" : "parameter_set_slightly_changed");
    }
    if (dead(ob.ref)) {
      alive = false;
      break;
    }
    g->seen(hist_state(s.ref, ob.ref.type, ob.ref.payload_ok));
    if (i > 5)
      g->sample(fmt("after %d NAL units: %zu SPS, %zu subset SPS, %zu PPS remembered", i + 1, s.ref.sps.size(),
                    s.ref.subset.size(), s.ref.pps.size()));
    string f, e = compare_state(s.ref, s.st, &f);
    CHECK_(e.empty(), "P10:state:" + f, "after NAL unit %d of %d (type %d, %s): %s; NAL unit %s", i,
           len, (int)ob.ref.type, ob.ref.payload_ok ? "valid" : "not a valid parameter set",
           e.c_str(), hex(ob.raw).c_str());
    check_accessors(r, s);
    if (is_slice(ob.ref.type) && ob.ref.payload_ok && !ob.ref.unspec) {
      e = lib_parsed(ob.nal.get()) ? compare(*ob.ref.n, flat_nal(*ob.nal), &f) : "not parsed";
      CHECK_(e.empty(), "P10:slice-context:" + f, "slice against the current sets: %s; %s", e.c_str(),
             hex(ob.raw).c_str());
    }
    // an SPS the caller got is the one that is remembered
    if (ob.nal) {
      u64 d = digest(flat_nal(*ob.nal));
      kept.push_back({std::move(ob.nal), d});
    }
    if (g->violations) return;
  }
  for (size_t i = 0; i < kept.size(); i++)
    CHECK_(digest(flat_nal(*kept[i].n)) == kept[i].d, "P10:earlier-result-changed",
           "result of NAL unit %zu changed after later ones were parsed", i);
  g->count("kept_results", kept.size());
  // the parameter sets outlive the parser state they were learned in
  // the same NAL units in stream chunks with a persistent state
  if (!alive || sent.empty()) return;
  Session t;
  size_t i = 0, j = 0;
  while (i < sent.size()) {
    size_t c = 1 + r.below(sent.size() - i);
    if (r.chance(50)) c = 1;
    vector<Bytes> part;
    for (size_t k = i; k < i + c; k++)
      if (!sent[k].empty()) part.push_back(sent[k]);
    i += c;
    if (part.empty()) continue;
    Bytes b = annexb(r, part, nullptr);
    Exact e(b);
    auto bs = H264BitstreamParser::ParseBitstream(e.data(), e.n, &t.st, t.opt);
    CHECK_(bs != nullptr, "P10:chunk-null", "no result for a chunk");
    if (!bs) return;
    for (auto& n : bs->nal_units) {
      if (j >= kept.size()) {
        violation("P10:chunked", "more NAL units than when fed one at a time");
        return;
      }
      CHECK_(digest(flat_nal(*n)) == kept[j].d, "P10:chunked",
             "NAL unit %zu differs between chunked and one-at-a-time parsing", j);
      j++;
    }
    g->count("chunks");
  }
  CHECK_(j == kept.size(), "P10:chunked", "%zu NAL units chunked, %zu one at a time", j, kept.size());
  string f, e = compare_state(s.ref, t.st, &f);
  CHECK_(e.empty(), "P10:chunked-state:" + f, "%s", e.c_str());
}

// ---- P19 ---------------------------------------------------------------------
MODULE(P19, "a NAL unit for which the model knows the unimplemented structures it needs, distinct by "
            "type, need, and profile or header extension") {
  Session s;
  GenOpt o;
  o.weights = weights({{0, 1},  {1, 4},  {2, 1},  {5, 3},  {6, 1},  {7, 4},  {8, 5},
                       {9, 1},  {12, 1}, {13, 1}, {14, 9}, {15, 10}, {16, 1}, {19, 1},
                       {20, 12}, {21, 5}, {23, 1}, {24, 1}, {28, 1}, {31, 1}});
  int len = (int)r.range(6, 26);
  vector<Bytes> sent;
  uint32_t total = 0;
  Bytes one;  // one that depends on nothing before it
  int one_needs = 0;
  bool clean = true;
  for (int i = 0; i < len; i++) {
    GenOpt x = o;
    x.fault = r.chance(10);
    if (r.chance(35)) x.force["nal_unit_header.svc_extension_flag"] = r.range(0, 1);
    if (r.chance(50)) {
      static const vector<i64> p = {83, 86, 118, 128, 134, 135, 138, 139, 100, 66};
      x.force["subset_sps.sps_data.profile_idc"] = r.pick(p);
    }
    GenNal n = gen_nal(r, s.ref, x);
    if (r.chance(5)) mutate(r, n.raw);
    if (r.chance(10)) {
      reset_unimplemented_count();
      CHECK_(get_unimplemented_count() == 0, "P19:reset", "count is not 0 after a reset");
    }
    uint32_t before = get_unimplemented_count();
    Bytes w = wire(n.raw);
    Obs ob = s.feed_wire(w);
    uint32_t delta = get_unimplemented_count() - before;
    if (ob.ref.unspec) {
      clean = false;
      if (dead(ob.ref)) break;
      continue;
    }
    if (!w.empty()) {
      sent.push_back(w);
      total += (uint32_t)ob.ref.unimpl;
      if (ob.ref.unimpl && (ob.ref.type == 14 || ob.ref.type == 15)) {
        one = w;
        one_needs = ob.ref.unimpl;
      }
    }
    if (ob.ref.unimpl) g->sample(fmt("count moved by %u on type %d: %s", delta, (int)ob.ref.type, hex(ob.raw).c_str()));
    g->count(fmt("%s_type_%d", ob.ref.unimpl ? "needs_unimplemented" : "supported", (int)ob.ref.type));
    g->seen(fnvs(fmt("%d %d %d %d %d", (int)ob.ref.type, ob.ref.unimpl, (int)ob.ref.hdr_ok,
                     (int)ob.ref.payload_ok,
                     (int)ob.ref.n->get("subset_sps.sps_data.profile_idc", -1))));
    CHECK_(delta == (uint32_t)ob.ref.unimpl,
           fmt("P19:count:type%d:%s", (int)ob.ref.type, ob.ref.unimpl ? "missed" : "spurious"),
           "unimplemented count changed by %u instead of %d for %s", delta, ob.ref.unimpl,
           hex(ob.raw).c_str());
    if (ob.ref.unimpl) {
      if (!ob.ref.hdr_ok) {
        CHECK_(!ob.nal, "P19:misread-header", "NAL unit with unsupported header extension returned: %s",
               hex(ob.raw).c_str());
      } else if (!ob.ref.payload_ok) {
        CHECK_(!lib_parsed(ob.nal.get()), fmt("P19:misread:type%d", (int)ob.ref.type),
               "payload needing unimplemented syntax reported as parsed: %s", hex(ob.raw).c_str());
      } else if (lib_parsed(ob.nal.get())) {
        string f, e = compare(*ob.ref.n, flat_nal(*ob.nal), &f);
        CHECK_(e.empty(), "P19:misread:" + f, "%s after unimplemented syntax in %s", e.c_str(),
               hex(ob.raw).c_str());
      }
    }
    if (g->violations) return;
  }
  // the whole stream at once counts the same
  if (clean && !sent.empty()) {
    Bytes b = annexb(r, sent, nullptr);
    Exact e(b);
    uint32_t before = get_unimplemented_count();
    auto bs = H264BitstreamParser::ParseBitstream(e.data(), e.n, ParsingOptions());
    uint32_t delta = get_unimplemented_count() - before;
    CHECK_(bs && delta == total, "P19:stream-count", "stream of %zu NAL units counted %u, expected %u",
           sent.size(), delta, total);
    g->count("streams");
  }
  // many of them: no counter is too small, and the last one counts as the first
  if (!one.empty() && r.chance(3)) {
    static const vector<int> sizes = {127, 128, 255, 256, 257, 512, 1024, 4096};
    int k = r.chance(2) ? (int)r.pick(vector<int>{32768, 65535, 65536, 65537}) : (int)r.pick(sizes);
    Bytes b;
    for (int i = 0; i < k; i++) {
      for (u8 x : {0, 0, 1}) b.push_back(x);
      b.insert(b.end(), one.begin(), one.end());
    }
    Exact e(b);
    reset_unimplemented_count();
    auto bs = H264BitstreamParser::ParseBitstream(e.data(), e.n, ParsingOptions());
    uint32_t n = get_unimplemented_count();
    CHECK_(bs && n == (uint32_t)(k * one_needs), "P19:many", "%d NAL units that need %d unimplemented structures each counted as %u: %s", k, one_needs, n,
           hex(one).c_str());
    g->count(k > 30000 ? "streams_of_32768_and_more" : "streams_of_many");
    bs = H264BitstreamParser::ParseBitstream(e.data(), one.size() + 3, ParsingOptions());
    n = get_unimplemented_count() - n;
    CHECK_(bs && n == (uint32_t)one_needs, "P19:many-more", "one more NAL unit after %d counted as %u, expected %d: %s", k, n, one_needs, hex(one).c_str());
  }
}

static void derived(const Node& n, const string& p, const H264SpsDataParser::SpsDataState& d,
                    const Bytes& raw) {
  SpsView v = SpsView::of(n, p);
  int w = -7, h = -7;
  int rc = d.getResolution(&w, &h);
  CHECK_(rc == 0 && w == v.width() && h == v.height(), "P15:resolution",
         "resolution %dx%d (rc %d), equations give %" PRId64 "x%" PRId64 ": %s", w, h, rc, v.width(),
         v.height(), hex(raw).c_str());
  CHECK_((i64)d.getChromaArrayType() == v.cat(), "P15:ChromaArrayType", "%u for %s",
         d.getChromaArrayType(), hex(raw).c_str());
  CHECK_(d.getSubWidthC() == v.subw() && d.getSubHeightC() == v.subh(), "P15:subsampling",
         "%d %d, expected %d %d: %s", d.getSubWidthC(), d.getSubHeightC(), v.subw(), v.subh(),
         hex(raw).c_str());
  CHECK_(d.getCropUnitX() == v.cux() && d.getCropUnitY() == v.cuy(), "P15:crop-unit",
         "%d %d, expected %" PRId64 " %" PRId64 ": %s", d.getCropUnitX(), d.getCropUnitY(), v.cux(),
         v.cuy(), hex(raw).c_str());
  string name = "?", want = profile_name(v.profile, n, p);
  profileTypeToString(d.GetProfileType(), name);
  // constraint_set4 and 5 together: either High variant describes the stream
  bool either = want.empty() && (name == "Progressive High" || name == "Constrained High");
  CHECK_(name == want || either, "P15:profile", "profile '%s', expected '%s': %s", name.c_str(),
         want.c_str(), hex(raw).c_str());
  if (n.get(p + "vui_parameters.timing_info_present_flag") && d.vui_parameters) {
    double e = (double)n.get(p + "vui_parameters.time_scale") /
               (2.0 * (double)n.get(p + "vui_parameters.num_units_in_tick"));
    float got = d.vui_parameters->getFramerate();
    double rel = ((double)got - e) / e;
    CHECK_(rel < 1e-6 && rel > -1e-6, "P15:framerate", "frame rate %g, expected %g", (double)got, e);
    g->count("framerates");
  }
  g->seen(fnvs(fmt("%d %d %d %d %d %d %s", (int)v.cf, (int)v.sep, (int)v.fmo, (int)(v.w % 7), (int)(v.h % 5),
                   (v.crop[0] > 0) + 2 * (v.crop[1] > 0) + 4 * (v.crop[2] > 0) + 8 * (v.crop[3] > 0),
                   name.c_str())));
  g->count("sps_checked");
  g->sample(fmt("chroma %d planes %d: %dx%d macroblocks, crop %d %d %d %d", (int)v.cf, (int)v.sep, (int)v.w + 1, (int)v.h + 1,
                (int)v.crop[0], (int)v.crop[1], (int)v.crop[2], (int)v.crop[3]));
}
MODULE(P15, "an SPS or SPS/PPS pair, distinct by chroma format, planes, field coding, cropped sides, "
            "profile, size classes") {
  Session s;
  for (int k = 0; k < 6 && !g->violations; k++) {
    GenOpt o;
    o.type = r.chance(80) ? 7 : 15;
    if (r.chance(60)) {
      o.force["sps.sps_data.frame_cropping_flag"] = 1;
      o.force["subset_sps.sps_data.frame_cropping_flag"] = 1;
    }
    if (r.chance(50)) {
      o.force["sps.sps_data.vui_parameters_present_flag"] = 1;
      o.force["sps.sps_data.vui_parameters.timing_info_present_flag"] = 1;
      if (r.chance(50)) {
        static const vector<i64> ts = {50, 60, 30000, 60000, 24000, 48000, 25, 30, 120};
        o.force["sps.sps_data.vui_parameters.time_scale"] = r.pick(ts);
        o.force["sps.sps_data.vui_parameters.num_units_in_tick"] = r.chance(50) ? 1001 : 1;
      }
    }
    GenNal n = gen_nal(r, s.ref, o);
    Obs ob = s.feed(r, n.raw);
    if (!ob.ref.payload_ok || !lib_parsed(ob.nal.get())) continue;
    auto& p = *ob.nal->nal_unit_payload;
    if (o.type == 7 && p.sps && p.sps->sps_data) {
      derived(*ob.ref.n, "sps.sps_data.", *p.sps->sps_data, ob.raw);
      CHECK_((i64)p.sps->getChromaArrayType() == SpsView::of(*ob.ref.n, "sps.sps_data.").cat(),
             "P15:ChromaArrayType", "SpsState");
      // impossible sizes must not be reported, whoever made them
      auto x = H264SpsDataParser::SpsDataState();
      x.chroma_format_idc = (uint32_t)r.below(4);
      x.frame_mbs_only_flag = (uint32_t)r.below(2);
      x.pic_width_in_mbs_minus1 = (uint32_t)r.below(60);
      x.pic_height_in_map_units_minus1 = (uint32_t)r.below(60);
      x.frame_crop_left_offset = (uint32_t)r.below(1000);
      x.frame_crop_right_offset = (uint32_t)r.below(600);
      x.frame_crop_top_offset = (uint32_t)r.below(900);
      x.frame_crop_bottom_offset = (uint32_t)r.below(500);
      SpsView v;
      v.cf = x.chroma_format_idc;
      v.fmo = x.frame_mbs_only_flag;
      v.w = x.pic_width_in_mbs_minus1;
      v.h = x.pic_height_in_map_units_minus1;
      v.crop[0] = x.frame_crop_left_offset;
      v.crop[1] = x.frame_crop_right_offset;
      v.crop[2] = x.frame_crop_top_offset;
      v.crop[3] = x.frame_crop_bottom_offset;
      int w = -7, h = -7, rc = x.getResolution(&w, &h);
      bool bad = v.width() <= 0 || v.height() <= 0;
      CHECK_(bad ? (rc != 0 && w <= 0 && h <= 0) : (rc == 0 && w == v.width() && h == v.height()),
             "P15:resolution-made-up", "rc %d %dx%d, equations give %" PRId64 "x%" PRId64, rc, w, h,
             v.width(), v.height());
      g->count(bad ? "impossible_resolution" : "possible_resolution");
    } else if (o.type == 15 && p.subset_sps && p.subset_sps->seq_parameter_set_data) {
      derived(*ob.ref.n, "subset_sps.sps_data.", *p.subset_sps->seq_parameter_set_data, ob.raw);
    }
  }
  for (int k = 0; k < 40 && g->index % 16 == 0; k++) {  // Table 7-1, also beyond its end
    uint32_t t = k < 32 ? (uint32_t)k : r.chance(30) ? (uint32_t)(32 * r.range(1, 9) + r.below(32)) : (uint32_t)r.next();
    bool sl = (t >= 1 && t <= 5) || t == 19 || t == 20, rsv = (t >= 16 && t <= 18) || (t >= 21 && t <= 23), un = t >= 24 && t <= 31;
    CHECK_(IsSliceSegment(t) == sl && IsNalUnitTypeReserved(t) == rsv && (t == 0 || IsNalUnitTypeUnspecified(t) == un), "P15:type-class",
           "type %u: slice %d reserved %d unspecified %d", t, IsSliceSegment(t), IsNalUnitTypeReserved(t), IsNalUnitTypeUnspecified(t));
    CHECK_(NalUnitTypeToString(t) == nut_name(t), "P15:type-name", "type %u is called '%s'", t, NalUnitTypeToString(t).c_str());
    g->count("type_queries");
  }
  for (int k = 0; k < 12; k++) {
    uint32_t w = (uint32_t)(r.chance(30) ? r.below(1056) : r.below(64)),
             h = (uint32_t)(r.chance(30) ? r.below(1056) : r.below(64));
    u64 size = (u64)(w + 1) * (h + 1);
    uint32_t rate = (uint32_t)(r.chance(30) ? r.next() % 4294967295ull : r.below(size + 2));
    if (r.chance(40)) {  // at a power of two: size = rate * (2^k - 1)
      u64 q = (1ull << r.range(1, 12)) - 1;
      rate = (uint32_t)(size / q ? size / q - 1 : 0);
      if (r.chance(40)) rate += r.chance(50) ? 1 : (rate ? -1 : 0);
    }
    uint32_t want = (uint32_t)change_cycle_len(w, h, rate);
    typedef H264SliceHeaderParser::SliceHeaderState A;
    typedef H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState B;
    CHECK_(A::getSliceGroupChangeCycleLen(w, h, rate) == want && B::getSliceGroupChangeCycleLen(w, h, rate) == want,
           "P15:slice_group_change_cycle-width", "width %u/%u, expected %u for %u x %u rate %u",
           A::getSliceGroupChangeCycleLen(w, h, rate), B::getSliceGroupChangeCycleLen(w, h, rate), want,
           w + 1, h + 1, rate + 1);
    uint32_t l = (uint32_t)r.below(13);
    CHECK_(A::getFrameNumLen(l) == l + 4 && B::getFrameNumLen(l) == l + 4, "P15:frame_num-width", "%u", l);
    CHECK_(A::getPicOrderCntLsbLen(l) == l + 4 && B::getPicOrderCntLsbLen(l) == l + 4,
           "P15:pic_order_cnt_lsb-width", "%u", l);
    CHECK_(A::getPicWidthInMbs(w) == w + 1 && B::getPicWidthInMbs(w) == w + 1 &&
               A::getPicHeightInMapUnits(h) == h + 1 && B::getPicHeightInMapUnits(h) == h + 1 &&
               A::getPicSizeInMapUnits(w, h) == size && B::getPicSizeInMapUnits(w, h) == size &&
               A::getSliceGroupChangeRate(rate) == rate + 1 && B::getSliceGroupChangeRate(rate) == rate + 1,
           "P15:picture-size", "%u %u %u", w, h, rate);
    H264PpsParser::PpsState pps;
    pps.num_slice_groups_minus1 = (uint32_t)r.below(8);
    CHECK_((i64)pps.getSliceGroupIdLen() == ceil_log2(pps.num_slice_groups_minus1 + 1ull),
           "P15:slice_group_id-width", "%u groups", pps.num_slice_groups_minus1 + 1);
    g->count("width_checks");
    g->seen(mix(want, (u64)w * 64 + h % 64));
  }
}
