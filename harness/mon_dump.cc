// P14: the text dump shows what was parsed.
#include "session.h"
#include "dumptree.h"
#include "h264_rtp_parser.h"

// path below the dump root for a model path
static vector<string> split(const string& p) {
  vector<string> v(1);
  for (char c : p)
    if (c == '.') v.emplace_back();
    else v.back() += c;
  return v;
}
static bool exempt(const string& path) {
  string l = leaf(path);
  // loops over extension data: the element has no single value
  return l.find("additional_") == 0 && l.find("_data_flag") != string::npos;
}

// Find the dump node of a model path below `top` (whose children are
// nal_unit_header and nal_unit_payload). *dup is set when a name on the way is
// repeated.
static const DNode* locate(const DNode& hdr, const DNode& payload, const string& path, const Node& lib, bool* dup) {
  vector<string> v = split(path);
  const DNode* n = nullptr;
  size_t i = 0;
  if (v[0] == "nal_unit_header") {
    n = &hdr;
    i = 1;
  } else {
    n = &payload;
  }
  for (; i < v.size() && n; i++) {
    string name = v[i];
    size_t nth = 0, expect = 1, total = 0;
    if (name == "nal_hrd_parameters" || name == "vcl_hrd_parameters") {
      string pre = path.substr(0, path.find(name));
      bool nal = lib.block.count(pre + "nal_hrd_parameters") > 0, vcl = lib.block.count(pre + "vcl_hrd_parameters") > 0;
      nth = name == "vcl_hrd_parameters" && nal ? 1 : 0;
      expect = (size_t)nal + (size_t)vcl;
      name = "hrd_parameters";
    }
    n = kid(*n, name, nth, &total);
    if (total > expect) *dup = true;
  }
  return n;
}

static bool list_of(const DNode& n, bool pairs, vector<i64>* out) {
  i64 x;
  for (auto& s : n.text) {
    if (pairs || !num(s, &x)) return false;
    out->push_back(x);
  }
  for (auto& k : n.kids) {
    if (!pairs || !k.name.empty() || !k.kids.empty() || k.text.size() != 2) return false;
    for (auto& s : k.text) {
      if (!num(s, &x)) return false;
      out->push_back(x);
    }
  }
  return true;
}
static bool is_pairs(const string& l) {
  return l == "chroma_weight_l0" || l == "chroma_offset_l0" || l == "chroma_weight_l1" || l == "chroma_offset_l1";
}

// every element in the dump that names a parsed element shows its value
// and, when `coded` says what was coded, shows nothing besides, apart from the
// elements that are inferred or listed whether or not they are there
static bool always_listed(const string& path, const Node& lib) {
  static const set<string> ok = {
      "delta_scale", "pic_scaling_matrix_present_flag", "second_chroma_qp_index_offset", "transform_8x8_mode_flag",
      "ref_pic_list_modification_flag_l0", "ref_pic_list_modification_flag_l1",
      "ScalingList4x4", "ScalingList8x8", "UseDefaultScalingMatrix4x4Flag", "UseDefaultScalingMatrix8x8Flag",
      "pic_scaling_list_present_flag", "seq_scaling_list_present_flag", "offset_for_ref_frame",
      "difference_of_pic_nums_minus1", "long_term_frame_idx", "long_term_pic_num", "max_long_term_frame_idx_plus1"};
  string l = leaf(path);
  if (ok.count(l) || exempt(path)) return true;
  return path.find("pred_weight_table.") != string::npos && lib.vec.count(path);
}
static void no_lies(const DNode& n, const string& pre, const Node& lib, const set<string>* coded, const string& what) {
  map<string, int> hrd;
  for (auto& k : n.kids) {
    if (k.name.empty()) continue;
    string p = pre + k.name;
    if (k.name == "hrd_parameters") {
      bool nal = lib.block.count(pre + "nal_hrd_parameters") > 0;
      int c = hrd[pre]++;
      p = pre + (nal && c == 0 ? "nal_hrd_parameters" : "vcl_hrd_parameters");
    }
    if (coded && !coded->count(p) && (lib.val.count(p) || lib.vec.count(p))) {
      bool listed = always_listed(p, lib);
      CHECK_(listed, "P14:not-coded:" + p, "%s: dump shows %s: %s, which the NAL unit does not code", what.c_str(), p.c_str(),
             k.text.empty() ? "" : k.text[0].c_str());
      g->count("listed_uncoded." + k.name);
    }
    auto it = lib.val.find(p);
    if (it != lib.val.end()) {
      i64 x = 0;
      bool ok = k.text.size() == 1 && num(k.text[0], &x) && x == it->second;
      CHECK_(ok, "P14:value:" + p, "%s: dump shows %s: %s, parsed value is %" PRId64, what.c_str(), p.c_str(),
             k.text.empty() ? "(nothing)" : k.text[0].c_str(), it->second);
      continue;
    }
    auto iv = lib.vec.find(p);
    if (iv != lib.vec.end()) {
      vector<i64> x;
      bool ok = k.brace && list_of(k, is_pairs(k.name), &x) && x == iv->second;
      CHECK_(ok, "P14:list:" + p, "%s: dump shows %s %s, parsed list is %s", what.c_str(), p.c_str(), lst(x).c_str(),
             lst(iv->second).c_str());
      continue;
    }
    if (k.brace) no_lies(k, p + ".", lib, coded, what);
  }
}

// what a NAL unit's header and payload show; `f` says what was coded
static void check_unit(const DNode& hdr, const DNode& payload, const RefNal* f, const Node& lib, const string& what) {
  auto* coded = f && !f->unspec && f->payload_ok ? &f->n->coded : nullptr;
  no_lies(hdr, "nal_unit_header.", lib, coded, what);
  no_lies(payload, "", lib, coded, what);
  if (!f || f->unspec) return;
  for (auto& c : f->n->coded) {
    if (exempt(c)) continue;
    bool header = c.compare(0, 16, "nal_unit_header.") == 0;
    if (!header && !f->payload_ok && f->attempted()) continue;  // not parsed, nothing to show
    auto isv = lib.val.find(c);
    auto isl = lib.vec.find(c);
    if (isv == lib.val.end() && isl == lib.vec.end()) continue;  // not reported: not the dump's business
    if (isl != lib.vec.end() && isl->second.empty()) continue;
    bool dup = false;
    const DNode* n = locate(hdr, payload, c, lib, &dup);
    CHECK_(n != nullptr, "P14:missing:" + c, "%s: %s was coded and parsed but is not in the dump", what.c_str(), c.c_str());
    CHECK_(!dup, "P14:twice:" + c, "%s: %s is in the dump more than once", what.c_str(), c.c_str());
    g->count("elem." + leaf(c));
  }
  for (auto& b : f->n->block) {
    bool header = b.compare(0, 16, "nal_unit_header.") == 0;
    if (b == "nal_unit_header" || (!header && !f->payload_ok)) continue;
    if (!lib.block.count(b)) continue;
    bool dup = false;
    const DNode* n = locate(hdr, payload, b, lib, &dup);
    CHECK_(n != nullptr && n->brace, "P14:missing-block:" + b, "%s: structure %s is not in the dump", what.c_str(), b.c_str());
    CHECK_(!dup, "P14:block-twice:" + b, "%s: structure %s is in the dump twice", what.c_str(), b.c_str());
  }
}

static ParsingOptions draw_options(Rng& r) {
  ParsingOptions po;
  po.add_offset = r.chance(50);
  po.add_length = r.chance(50);
  po.add_parsed_length = r.chance(50);
  po.add_checksum = r.chance(50);
  po.add_resolution = r.chance(50);
  return po;
}
static int opt_bits(const ParsingOptions& p) {
  return p.add_offset | p.add_length << 1 | p.add_parsed_length << 2 | p.add_checksum << 3 | p.add_resolution << 4;
}

// resolution and profile lines of the (subset) SPS in a payload
static void check_sps_lines(const DNode& payload, const RefNal* f, const ParsingOptions& po,
                            const H264NalUnitPayloadParser::NalUnitPayloadState& p, const string& what) {
  const H264SpsDataParser::SpsDataState* sd = nullptr;
  const DNode* n = nullptr;
  string pre;
  if (p.sps && p.sps->sps_data) {
    sd = p.sps->sps_data.get();
    n = kid(payload, "sps");
    pre = "sps.sps_data.";
  } else if (p.subset_sps && p.subset_sps->seq_parameter_set_data) {
    sd = p.subset_sps->seq_parameter_set_data.get();
    n = kid(payload, "subset_sps");
    pre = "subset_sps.sps_data.";
  }
  if (!sd || !n) return;
  n = kid(*n, "sps_data");
  if (!n) return;
  size_t cw = 0, ch = 0;
  const DNode* w = kid(*n, "width", 0, &cw);
  const DNode* h = kid(*n, "height", 0, &ch);
  CHECK_(cw == (size_t)po.add_resolution && ch == (size_t)po.add_resolution, "P14:resolution-option",
         "%s: %zu width and %zu height lines with add_resolution %d", what.c_str(), cw, ch, po.add_resolution);
  if (f && f->payload_ok && w && h) {
    SpsView v = SpsView::of(*f->n, pre);
    i64 a = -2, b = -2;
    bool ok = w->text.size() == 1 && h->text.size() == 1 && num(w->text[0], &a) && num(h->text[0], &b);
    // sizes that do not fit an int have no defined result
    if (v.width() < 0x7fffffff && v.height() < 0x7fffffff) {
      CHECK_(ok && a == v.width() && b == v.height(), "P14:resolution", "%s: dump shows %" PRId64 "x%" PRId64 ", resolution is %" PRId64 "x%" PRId64,
             what.c_str(), a, b, v.width(), v.height());
      g->count("resolution_lines");
    }
  }
  string name;
  profileTypeToString(sd->profile_type, name);
  const DNode* pr = kid(*n, "profile");
  string shown;
  if (pr) for (auto& t : pr->text) shown += (shown.empty() ? "" : " ") + t;
  CHECK_(pr && shown == name, "P14:profile", "%s: dump shows profile %s, profile is %s", what.c_str(), shown.c_str(), name.c_str());
}

// Indented dumps: a line per element, indented by two blanks per open brace.
// Returns what is wrong with the layout, if anything.
static string bad_layout(const string& many, int base) {
  int depth = 0;
  size_t at = 0;
  bool first = true;
  while (at <= many.size()) {
    size_t nl = many.find('\n', at);
    if (nl == string::npos) nl = many.size();
    string l = many.substr(at, nl - at);
    at = nl + 1;
    size_t sp = l.find_first_not_of(' ');
    if (sp == string::npos) continue;  // a payload without anything to show
    int want = first ? 0 : 2 * (base + depth - (l[sp] == '}'));
    if ((int)sp != want) return fmt("%d blanks instead of %d before '%s'", (int)sp, want, l.substr(sp, 60).c_str());
    auto t = tokens(l);
    for (size_t i = 1; i < t.size(); i++)
      if (DParse::key(t[i])) return fmt("two elements in one line: '%s'", l.substr(sp, 80).c_str());
    for (auto& x : t) depth += x == "{" ? 1 : x == "}" ? -1 : 0;
    first = false;
  }
  return "";
}
static bool well_formed(const string& one, const string& many, DNode* root, vector<string>* toks, const string& what, int base = 0) {
  *toks = tokens(one);
  string e = parse_dump(*toks, *root);
  CHECK_(e.empty(), "P14:braces", "%s: one-line dump: %s", what.c_str(), e.c_str());
  if (!e.empty()) return false;
  CHECK_(one.find('\n') == string::npos, "P14:one-line", "%s: the one-line dump has a line break", what.c_str());
  if (&many != &one) {
    auto t2 = tokens(many);
    CHECK_(t2 == *toks, "P14:layout", "%s: the one-line and the indented dump differ in more than white space", what.c_str());
    CHECK_(many.find('\n') != string::npos, "P14:indented", "%s: the indented dump has no line break", what.c_str());
    string lay = bad_layout(many, base);
    CHECK_(lay.empty(), "P14:indentation", "%s: %s", what.c_str(), lay.c_str());
    g->count("layout_pairs");
  }
  return true;
}

static void check_meta(const DNode& unit, const NalU& n, const ParsingOptions& po, const Bytes* raw, const string& what) {
  struct M { const char* name; bool on; string want; };
  vector<M> ms = {
      {"offset", po.add_offset, fmt("0x%08zx", n.offset)},
      {"length", po.add_length, fmt("%zu", n.length)},
      {"parsed_length", po.add_parsed_length, fmt("0x%08zx", n.parsed_length)},
      {"checksum", po.add_checksum && n.checksum, raw && n.checksum ? fmt("0x%08x", ref_checksum(*raw)) : ""},
  };
  for (auto& m : ms) {
    size_t c = 0;
    const DNode* k = kid(unit, m.name, 0, &c);
    CHECK_(c == (size_t)m.on, string("P14:option:") + m.name, "%s: %zu %s lines, option is %s", what.c_str(), c, m.name,
           m.on ? "on" : "off");
    if (k && m.on && !m.want.empty()) {
      // the value, whatever its base and padding
      u64 a = k->text.size() == 1 ? strtoull(k->text[0].c_str(), nullptr, 0) : ~0ull, b = strtoull(m.want.c_str(), nullptr, 0);
      CHECK_(a == b, string("P14:meta:") + m.name, "%s: dump shows %s: %s, expected %s", what.c_str(), m.name,
             k->text.empty() ? "" : k->text[0].c_str(), m.want.c_str());
      g->count(string("meta_") + m.name);
    }
  }
}

MODULE(P14, "a dumped NAL unit or RTP packet, distinct by kind, coded shape of the structure and options") {
  GenOpt go;
  RefState gs;
  int flavour = (int)r.below(4), len_ = (int)r.range(3, 10);
  if (flavour == 1) {
    go.weights = weights({{7, 2}, {15, 5}, {8, 5}, {14, 3}, {20, 18}});
    go.pool = 1;
    len_ = (int)r.range(8, 16);
  } else if (flavour == 2) {
    go.weights = weights({{7, 5}, {8, 5}, {1, 10}, {5, 8}});
    go.pool = 2;
    len_ = (int)r.range(6, 14);
  }
  auto raws = gen_history(r, len_, gs, flavour == 0 ? 6 : 1, flavour == 0 ? 6 : 1, go);
  Session s;
  if (r.chance(10)) {  // no NAL unit type leads to this one
    RefNal f;
    Syn gsyn = Syn::mk(r, f.n.get());
    sps_ext_rbsp(gsyn);
    Exact e(gsyn.out);
    auto x = H264SpsExtensionParser::ParseSpsExtension(e.data(), e.n);
    if (x) {
      DNode root;
      vector<string> tk;
      string one = capture([&](FILE* fp) { x->fdump(fp, -1); }), many = capture([&](FILE* fp) { x->fdump(fp, 0); });
      if (!well_formed(one, many, &root, &tk, "sps_extension")) return;
      f.payload_ok = true;
      f.type = 7;
      DNode none;
      check_unit(none, root, &f, flat_one(*x, "sps_extension"), "sps_extension");
      g->count("dumped_sps_extension");
      g->seen(mix(shape(*f.n), 13));
    }
  }
  int mode = (int)r.below(10);
  if (mode < 6) {
    // NAL unit by NAL unit
    for (auto& raw : raws) {
      ParsingOptions parse = draw_options(r), dump = r.chance(70) ? parse : draw_options(r);
      s.opt = parse;
      Obs o = s.feed(r, raw);
      if (!o.nal || !o.nal->nal_unit_header || !o.nal->nal_unit_payload) {
        if (dead(o.ref)) return;
        continue;
      }
      int base = (int)r.below(3);
      string one = capture([&](FILE* f) { o.nal->fdump(f, -1, dump); });
      string many = capture([&](FILE* f) { o.nal->fdump(f, base, dump); });
      string what = fmt("NAL unit of type %d", (int)o.ref.type);
      DNode root;
      vector<string> tk;
      if (!well_formed(one, many, &root, &tk, what, base)) return;
      Node lib = flat_nal(*o.nal);
      size_t c = 0;
      const DNode* u = kid(root, "nal_unit", 0, &c);
      CHECK_(u && c == 1 && root.kids.size() == 1 && root.text.empty(), "P14:frame", "%s: dump is not one nal_unit", what.c_str());
      if (!u) return;
      size_t ch = 0, cp = 0;
      const DNode *h = kid(*u, "nal_unit_header", 0, &ch), *p = kid(*u, "nal_unit_payload", 0, &cp);
      CHECK_(h && p && ch == 1 && cp == 1, "P14:frame", "%s: header or payload missing or doubled", what.c_str());
      if (!h || !p) return;
      check_meta(*u, *o.nal, dump, &o.raw, what);
      check_unit(*h, *p, &o.ref, lib, what);
      check_sps_lines(*p, o.ref.unspec ? nullptr : &o.ref, dump, *o.nal->nal_unit_payload, what);
      g->count(fmt("dumped_type_%d%s", (int)o.ref.type, o.ref.payload_ok ? "" : "_unparsed"));
      g->seen(mix(mix(shape(*o.ref.n), (u64)o.ref.type), (u64)opt_bits(dump)));
      if (r.chance(2)) g->sample(one);
      if (dead(o.ref) || g->violations) return;
    }
  } else if (mode < 8) {
    // whole stream
    vector<Bytes> nals;
    for (auto& x : raws) {
      Bytes w = wire(x);
      if (!w.empty()) nals.push_back(w);
    }
    if (nals.empty()) return;
    ParsingOptions po = draw_options(r);
    bool len = r.chance(40);
    size_t width = len ? (size_t)r.range(3, 5) : 0;
    Bytes b = len ? length_framed(nals, width, nullptr) : annexb(r, nals, nullptr);
    Exact e(b);
    H264BitstreamParserState ls;
    std::unique_ptr<H264BitstreamParser::BitstreamState> bs;
    bool stateless = r.chance(40);
    if (len)
      bs = stateless ? H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, width, po)
                     : H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, width, &ls, po);
    else
      bs = stateless ? H264BitstreamParser::ParseBitstream(e.data(), e.n, po)
                     : H264BitstreamParser::ParseBitstream(e.data(), e.n, &ls, po);
    if (!bs) return;
    string one = capture([&](FILE* f) { bs->fdump(f, -1, po); });
    string many = capture([&](FILE* f) { bs->fdump(f, 0, po); });
    auto tk = tokens(one);
    DNode root;
    string err = parse_dump(tk, root);
    CHECK_(err.empty(), "P14:braces", "stream dump: %s", err.c_str());
    CHECK_(tokens(many) == tk, "P14:layout", "stream dumps differ in more than white space");
    CHECK_(root.kids.size() == bs->nal_units.size() && root.text.empty(), "P14:stream-count", "%zu entries dumped, %zu NAL units parsed",
           root.kids.size(), bs->nal_units.size());
    // one line per NAL unit
    size_t lines = 0;
    for (char ch : one) lines += ch == '\n';
    CHECK_(lines == bs->nal_units.size(), "P14:stream-lines", "%zu lines for %zu NAL units", lines, bs->nal_units.size());
    for (size_t i = 0; i < root.kids.size() && i < bs->nal_units.size(); i++) {
      auto& n = *bs->nal_units[i];
      const DNode& u = root.kids[i];
      const DNode *h = kid(u, "nal_unit_header"), *p = kid(u, "nal_unit_payload");
      CHECK_(u.name == "nal_unit" && h && p, "P14:frame", "entry %zu of the stream dump is not a NAL unit", i);
      if (!h || !p) return;
      check_meta(u, n, po, nullptr, "stream entry");
      check_unit(*h, *p, nullptr, flat_nal(n), "stream entry");
      check_sps_lines(*p, nullptr, po, *n.nal_unit_payload, "stream entry");
      g->count("stream_entries");
    }
    g->seen(mix(mix(77, (u64)opt_bits(po)), (u64)(len * 2 + stateless) * 100 + bs->nal_units.size()));
  } else {
    // RTP packets
    ParsingOptions po = draw_options(r);
    size_t k = 0;
    H264BitstreamParserState ls;
    RefState rs;
    while (k < raws.size()) {
      Bytes pkt;
      int kind = (int)r.below(3);
      vector<Bytes> in;
      if (kind == 1) {
        int c = (int)r.range(1, 4);
        while (c-- && k < raws.size()) in.push_back(raws[k++]);
        pkt.push_back((u8)(0x60 | 24));
        for (auto& x : in) {
          Bytes w = wire(x);
          pkt.push_back((u8)(w.size() >> 8));
          pkt.push_back((u8)w.size());
          pkt.insert(pkt.end(), w.begin(), w.end());
        }
      } else {
        in.push_back(raws[k++]);
        Bytes w = wire(in[0]);
        if (kind == 2 && w.size() > 2) {
          bool start = r.chance(75);
          pkt.push_back((u8)((w[0] & 0xe0) | 28));
          pkt.push_back((u8)((start ? 0x80 : (r.chance(50) ? 0x40 : 0)) | (r.chance(10) ? 0x20 : 0) | (w[0] & 31)));
          pkt.insert(pkt.end(), w.begin() + 1, w.end());
        } else {
          pkt = w;
        }
      }
      if (pkt.empty()) continue;
      Exact e(pkt);
      auto st = H264RtpParser::ParseRtp(e.data(), e.n, &ls);
      if (!st || !st->nal_unit_header) return;  // the model has not seen the units before the refused one
      uint32_t ty = st->nal_unit_header->nal_unit_type;
      bool dumpable = (ty <= 23 && st->rtp_single) || (ty == 24 && st->rtp_stapa) || (ty == 28 && st->rtp_fua);
      if (!dumpable) return;
      string one = capture([&](FILE* f) { st->fdump(f, -1, po); });
      string many = capture([&](FILE* f) { st->fdump(f, 1, po); });
      DNode root;
      vector<string> tk;
      string what = fmt("RTP packet of type %u", ty);
      if (!well_formed(one, many, &root, &tk, what, 1)) return;
      const DNode* top = kid(root, "rtp");
      CHECK_(top && root.kids.size() == 1, "P14:frame", "%s: dump is not one rtp block", what.c_str());
      if (!top) return;
      // units in the packet: header, payload, size
      struct U { const DNode *h, *p; const H264NalUnitHeaderParser::NalUnitHeaderState* lh; const H264NalUnitPayloadParser::NalUnitPayloadState* lp; };
      vector<U> us;
      bool shape_ok = true;
      auto hdr_shown = [&](const DNode* d, const H264NalUnitHeaderParser::NalUnitHeaderState* x) {
        if (!d || !x) return;
        Node n;
        Out o{&n, ""};
        flat(*x, o.sub("nal_unit_header"));
        no_lies(*d, "nal_unit_header.", n, nullptr, what);
        for (const char* c : {"forbidden_zero_bit", "nal_ref_idc", "nal_unit_type"})
          CHECK_(kid(*d, c) != nullptr, string("P14:missing:nal_unit_header.") + c, "%s: header lacks %s", what.c_str(), c);
      };
      hdr_shown(kid(*top, "nal_unit_header"), st->nal_unit_header.get());
      CHECK_(kid(*top, "nal_unit_header") != nullptr, "P14:rtp-header", "%s: no header in the dump", what.c_str());
      if (ty <= 23) {
        const DNode* d = kid(*top, "rtp_single");
        shape_ok = d && kid(*d, "nal_unit_header") && kid(*d, "nal_unit_payload");
        if (shape_ok) us.push_back({kid(*d, "nal_unit_header"), kid(*d, "nal_unit_payload"), st->rtp_single->nal_unit_header.get(), st->rtp_single->nal_unit_payload.get()});
      } else if (ty == 24) {
        const DNode* d = kid(*top, "rtp_stapa");
        size_t cs = 0, ch = 0, cp = 0;
        if (d) {
          kid(*d, "nal_unit_size", 0, &cs);
          kid(*d, "nal_unit_header", 0, &ch);
          kid(*d, "nal_unit_payload", 0, &cp);
        }
        size_t n = st->rtp_stapa->nal_unit_sizes.size();
        shape_ok = d && cs == n && ch == n + 1 && cp == n;
        if (shape_ok) {
          hdr_shown(kid(*d, "nal_unit_header"), st->nal_unit_header.get());
          for (size_t i = 0; i < n; i++) {
            const DNode* z = kid(*d, "nal_unit_size", i);
            i64 x = -1;
            CHECK_(z->text.size() == 1 && num(z->text[0], &x) && x == (i64)st->rtp_stapa->nal_unit_sizes[i], "P14:nal_unit_size",
                   "%s: unit %zu shown with size %" PRId64 ", has %zu", what.c_str(), i, x, (size_t)st->rtp_stapa->nal_unit_sizes[i]);
            us.push_back({kid(*d, "nal_unit_header", i + 1), kid(*d, "nal_unit_payload", i), st->rtp_stapa->nal_unit_headers[i].get(),
                          st->rtp_stapa->nal_unit_payloads[i].get()});
          }
        }
      } else {
        const DNode* d = kid(*top, "rtp_fua");
        shape_ok = d && kid(*d, "nal_unit_header");
        if (shape_ok) {
          auto& x = *st->rtp_fua;
          struct B { const char* n; i64 v; };
          for (const B& b : {B{"s_bit", x.s_bit}, B{"e_bit", x.e_bit}, B{"r_bit", x.r_bit}, B{"fu_type", x.fu_type}}) {
            const DNode* z = kid(*d, b.n);
            i64 v = -1;
            CHECK_(z && z->text.size() == 1 && num(z->text[0], &v) && v == b.v, string("P14:fua:") + b.n, "%s: %s shown as %" PRId64 ", is %" PRId64,
                   what.c_str(), b.n, v, b.v);
          }
          const DNode* p = kid(*d, "nal_unit_payload");
          CHECK_((p != nullptr) == (x.s_bit == 1 && x.nal_unit_payload != nullptr), "P14:fua:payload", "%s: payload block %d with s_bit %u",
                 what.c_str(), p != nullptr, x.s_bit);
          if (p && x.nal_unit_payload) us.push_back({kid(*d, "nal_unit_header"), p, nullptr, x.nal_unit_payload.get()});
        }
      }
      CHECK_(shape_ok, "P14:rtp-frame", "%s: blocks of the packet are missing or doubled in the dump", what.c_str());
      bool whole = ty <= 23 || ty == 24;
      for (size_t i = 0; i < us.size(); i++) {
        Node n;
        Out o{&n, ""};
        if (us[i].lh) flat(*us[i].lh, o.sub("nal_unit_header"));
        if (us[i].lp) flat(*us[i].lp, o);
        RefNal f;
        bool have = whole && us.size() == in.size();
        if (have) f = ref_decode(unescape(wire(in[i])), rs);
        check_unit(*us[i].h, *us[i].p, have ? &f : nullptr, n, what);
        if (us[i].lp) check_sps_lines(*us[i].p, have && !f.unspec ? &f : nullptr, po, *us[i].lp, what);
        if (have) g->seen(mix(mix(shape(*f.n), 1000 + ty), (u64)opt_bits(po)));
        g->count(fmt("rtp_units_type_%u", ty));
        if (have && dead(f)) return;
      }
      if (!whole) return;  // the model does not follow fragments
      if (us.size() != in.size() || g->violations) return;
    }
  }
}
