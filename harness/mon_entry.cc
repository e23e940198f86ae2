// P23: every way into the library gives the same result for the same bits.
// P24: a parsed structure carries the context it was interpreted in.
#include "session.h"
#include "h264_nal_unit_header_svc_extension_parser.h"
#include "h264_rtp_parser.h"

typedef H264NalUnitHeaderParser::NalUnitHeaderState Hdr;
typedef H264NalUnitPayloadParser::NalUnitPayloadState Pay;

// ---- P23 ---------------------------------------------------------------------
static string differs(const Node& a, const Node& b) {
  for (auto& x : a.block) if (!b.block.count(x)) return "no " + x;
  for (auto& x : b.block) if (!a.block.count(x)) return "additional " + x;
  for (auto& x : a.val) {
    auto i = b.val.find(x.first);
    if (i == b.val.end()) return "no " + x.first;
    if (i->second != x.second) return fmt("%s is %" PRId64 ", not %" PRId64, x.first.c_str(), i->second, x.second);
  }
  if (a.val.size() != b.val.size()) return "additional elements";
  for (auto& x : a.vec) {
    auto i = b.vec.find(x.first);
    if (i == b.vec.end()) return "no " + x.first;
    if (i->second != x.second) return fmt("%s is %s, not %s", x.first.c_str(), lst(i->second).c_str(), lst(x.second).c_str());
  }
  if (a.vec.size() != b.vec.size()) return "additional lists";
  return "";
}
static Node flat_hp(const Hdr* h, const Pay* p) {
  Node n;
  Out o{&n, ""};
  if (h) flat(*h, o.sub("nal_unit_header"));
  if (p) flat(*p, o);
  return n;
}
// A bit reader that stands behind some other bytes, as it does when a
// structure is embedded in a larger one.
struct Behind {
  Bytes all;
  std::unique_ptr<Exact> e;
  std::unique_ptr<BitBuffer> bb;
  size_t k;
  Behind(Rng& r, const Bytes& b, size_t skip) : k(skip) {
    for (size_t i = 0; i < k; i++) all.push_back((u8)r.next());
    all.insert(all.end(), b.begin(), b.end());
    e.reset(new Exact(all));
    bb.reset(new BitBuffer(e->data(), e->n));
    if (k) bb->ConsumeBits(k * 8);
  }
  BitBuffer* operator&() { return bb.get(); }
  i64 pos() {  // bits read
    size_t by = 0, bi = 0;
    bb->GetCurrentOffset(&by, &bi);
    return (i64)(by * 8 + bi) - (i64)k * 8;
  }
};

// One parser state per way in, each having seen the whole history, and nothing
// else, through that way (or through ParseNalUnit where the way does not take
// a NAL unit).
struct Ways {
  map<string, std::unique_ptr<H264BitstreamParserState>> m;
  set<string> used;
  vector<Bytes> hist;
  static void other(const Bytes& raw, H264BitstreamParserState* s) {
    Bytes w = wire(raw);
    Exact e(w);
    H264NalUnitParser::ParseNalUnit(e.data(), e.n, s, ParsingOptions());
  }
  H264BitstreamParserState* at(const string& way, bool use = true) {
    auto& p = m[way];
    if (!p) {
      p.reset(new H264BitstreamParserState);
      for (auto& h : hist) other(h, p.get());
    }
    if (use) used.insert(way);
    return p.get();
  }
  void done(const Bytes& raw) {
    for (auto& x : m)
      if (!used.count(x.first)) other(raw, x.second.get());
    used.clear();
    hist.push_back(raw);
  }
};

MODULE(P23, "a NAL unit taken through all entry points, distinct by type, outcome and coded shape") {
  GenOpt go;
  RefState gs;
  int flavour = (int)r.below(4);
  if (flavour == 1) {
    go.weights = weights({{7, 2}, {15, 5}, {8, 5}, {14, 3}, {20, 14}});
    go.pool = 1;
  } else if (flavour == 2) {
    go.weights = weights({{7, 5}, {8, 5}, {1, 10}, {5, 8}});
    go.pool = 2;
  }
  auto raws = gen_history(r, (int)r.range(5, 14), gs, flavour ? 4 : 12, flavour ? 8 : 25, go);
  H264BitstreamParserState st;
  Ways ways;
  for (auto& raw : raws) {
    Bytes w = wire(raw);
    if (raw.empty() || unescape(w) != raw) continue;
    ParsingOptions po;
    po.add_checksum = true;
    Exact e(raw), ew(w);
    auto a = H264NalUnitParser::ParseNalUnitUnescaped(e.data(), e.n, &st, po);
    struct Done {  // on every way out of this round
      Ways& w;
      const Bytes& raw;
      ~Done() { w.done(raw); }
    } done{ways, raw};
    const Node after = flat_state(st), na = a ? flat_nal(*a) : Node();
    int type = raw[0] & 31;
    string what;
    // `n` came from another way in, with a state of its own
    auto agree = [&](const char* way, bool got, const Node& want, const Node& n, bool state = true) {
      g->count(string("way_") + way + (got ? "" : "_refused"));
      CHECK_(got == (a != nullptr), string("P23:accept:") + way, "NAL unit of type %d is %s by %s, %s by ParseNalUnitUnescaped: %s", type,
             got ? "accepted" : "refused", way, a ? "accepted" : "refused", hex(raw, 200).c_str());
      if (got && a) {
        string d = differs(want, n);
        CHECK_(d.empty(), string("P23:result:") + way, "NAL unit of type %d through %s: %s (%s)", type, way, d.c_str(), hex(raw, 200).c_str());
      }
      if (state) {
        string d = differs(after, flat_state(*ways.at(way, false)));
        CHECK_(d.empty(), string("P23:state:") + way, "NAL unit of type %d through %s leaves other parameter sets: %s", type, way, d.c_str());
      }
    };
    // whole NAL units
    auto b = H264NalUnitParser::ParseNalUnit(ew.data(), ew.n, ways.at("ParseNalUnit(bytes)"), po);
    agree("ParseNalUnit(bytes)", b != nullptr, na, b ? flat_nal(*b) : Node());
    if (a && b)
      CHECK_(a->parsed_length == b->parsed_length && a->checksum && b->checksum && a->checksum->GetLength() == b->checksum->GetLength() &&
                 !memcmp(a->checksum->GetChecksum(), b->checksum->GetChecksum(), (size_t)a->checksum->GetLength()),
             "P23:result:lengths", "parsed length or checksum differ: %zu, %zu", a->parsed_length, b->parsed_length);
    {
      Behind bb(r, raw, r.below(4));
      auto x = H264NalUnitParser::ParseNalUnit(&bb, ways.at("ParseNalUnit(bits)"), po);
      agree("ParseNalUnit(bits)", x != nullptr, na, x ? flat_nal(*x) : Node());
    }
    if (w.back() != 0 && a) {
      for (int framing = 0; framing < 2; framing++) {
        const char* way = framing ? "ParseBitstreamNALULength" : "ParseBitstream";
        bool own = ways.hist.empty() && r.chance(50);
        H264BitstreamParserState* c = own ? nullptr : ways.at(way);
        Bytes s = framing ? length_framed({w}, 4, nullptr) : annexb(r, {w}, nullptr);
        Exact es(s);
        auto x = framing ? (own ? H264BitstreamParser::ParseBitstreamNALULength(es.data(), es.n, 4, po)
                                : H264BitstreamParser::ParseBitstreamNALULength(es.data(), es.n, 4, c, po))
                         : (own ? H264BitstreamParser::ParseBitstream(es.data(), es.n, po)
                                : H264BitstreamParser::ParseBitstream(es.data(), es.n, c, po));
        bool one = x && x->nal_units.size() == 1 && x->nal_units[0];
        agree(way, one, na, one ? flat_nal(*x->nal_units[0]) : Node(), !own);
      }
    }
    // header
    auto hb = H264NalUnitHeaderParser::ParseNalUnitHeader(ew.data(), ew.n);
    Behind hbits(r, raw, r.below(4));
    auto hd = H264NalUnitHeaderParser::ParseNalUnitHeader(&hbits);
    Node nh = a ? flat_hp(a->nal_unit_header.get(), nullptr) : Node();
    agree("ParseNalUnitHeader(bytes)", hb != nullptr, nh, flat_hp(hb.get(), nullptr), false);
    agree("ParseNalUnitHeader(bits)", hd != nullptr, nh, flat_hp(hd.get(), nullptr), false);
    NalUnitType nut = (NalUnitType)99;
    bool gt = H264NalUnitHeaderParser::GetNalUnitType(e.data(), e.n, nut);
    CHECK_(gt == (a != nullptr) && (!gt || (int)nut == type), "P23:GetNalUnitType", "GetNalUnitType says %d (%d) for a NAL unit of type %d", gt,
           (int)nut, type);
    if (!hd || !a) {
      g->count(hd ? "refused_payload" : "refused_header");
      g->seen(mix(fnvs("refused"), (u64)type));
      continue;
    }
    size_t hlen = (size_t)hbits.pos() / 8;
    CHECK_(hbits.pos() % 8 == 0 && hlen == (type == 14 || type == 20 ? 4u : 1u), "P23:header-length", "%" PRId64 " bits of header for type %d",
           hbits.pos(), type);
    if (hlen > raw.size()) continue;
    Bytes body(raw.begin() + (long)hlen, raw.end());
    if (hlen == 4) {
      Bytes x3(raw.begin() + 1, raw.begin() + 4);
      auto cmp = [&](const char* way, auto x) {
        Node n = nh;
        bool ok = x != nullptr;
        if (ok) {
          Hdr h;
          h.forbidden_zero_bit = hd->forbidden_zero_bit;
          h.nal_ref_idc = hd->nal_ref_idc;
          h.nal_unit_type = hd->nal_unit_type;
          h.svc_extension_flag = hd->svc_extension_flag;
          h.avc_3d_extension_flag = hd->avc_3d_extension_flag;
          h.nal_unit_header_svc_extension = std::move(x);
          n = flat_hp(&h, nullptr);
        }
        agree(way, ok, nh, n, false);
      };
      Behind xb(r, x3, r.below(4));
      xb.bb->ConsumeBits(1);
      cmp("ParseNalUnitHeaderSvcExtension(bits)", H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(&xb));
      // the same 23 bits at the start of a buffer
      Bytes sh = {(u8)(x3[0] << 1 | x3[1] >> 7), (u8)(x3[1] << 1 | x3[2] >> 7), (u8)(x3[2] << 1)};
      Bytes shw = wire(sh);
      if (unescape(shw) != sh) shw = sh;
      Exact esh(shw);
      cmp("ParseNalUnitHeaderSvcExtension(bytes)", H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(esh.data(), esh.n));
    }
    // payload
    Node np = flat_hp(nullptr, a->nal_unit_payload.get());
    Bytes wb = wire(body);
    if (unescape(wb) != body) wb = body;  // a final zero byte, which a NAL unit cannot have
    if (unescape(wb) != body) continue;
    bool parsed = lib_parsed(a.get());
    auto pay = [&](const char* way, const std::unique_ptr<Pay>& x, const Node& want, bool state = true) {
      agree(way, x != nullptr, want, flat_hp(nullptr, x.get()), state);
    };
    size_t skip = r.chance(50) ? 0 : r.below(6);
    i64 used = -1;
    {
      Exact eb(wb);
      pay("ParseNalUnitPayload(bytes)",
          H264NalUnitPayloadParser::ParseNalUnitPayload(eb.data(), eb.n, *hd, ways.at("ParseNalUnitPayload(bytes)")), np);
      Behind bb(r, body, skip);
      pay("ParseNalUnitPayload(bits)", H264NalUnitPayloadParser::ParseNalUnitPayload(&bb, *hd, ways.at("ParseNalUnitPayload(bits)")), np);
      used = bb.pos();
      CHECK_((size_t)((used + 7) / 8) + hlen == a->parsed_length || (size_t)(used / 8) + hlen == a->parsed_length, "P23:position",
             "%" PRId64 " payload bits read, parsed length is %zu", used, a->parsed_length);
      if (hlen == 1) {
        Behind b2(r, body, skip);
        pay("ParseNalUnitPayload(idc,type)",
            H264NalUnitPayloadParser::ParseNalUnitPayload(&b2, hd->nal_ref_idc, hd->nal_unit_type, ways.at("ParseNalUnitPayload(idc,type)")), np);
        CHECK_(b2.pos() == used, "P23:position:idc", "%" PRId64 " bits read instead of %" PRId64, b2.pos(), used);
      }
    }
    // the structure itself
    auto stru = [&](const char* way, bool got, const Node& n) {
      g->count(string("way_") + way + (got ? "" : "_refused"));
      CHECK_(got == parsed, string("P23:accept:") + way, "structure of type %d is %s by %s, %s as a NAL unit: %s", type,
             got ? "accepted" : "refused", way, parsed ? "accepted" : "refused", hex(raw, 200).c_str());
      if (!got || !parsed) return;
      string d = differs(np, n);
      CHECK_(d.empty(), string("P23:result:") + way, "structure of type %d through %s: %s (%s)", type, way, d.c_str(), hex(raw, 200).c_str());
    };
    H264BitstreamParserState& c = *ways.at("structures", false);  // not fed by these
    const Node was = flat_state(c);
    Exact eb(wb);
    Behind bb(r, body, skip);
    Behind bh(r, body, skip);
    const u8* p = eb.data();
    size_t n = eb.n;
    bool checked = true;
    auto wrap = [&](auto member, auto x) {
      Pay y;
      y.*member = std::move(x);
      return flat_hp(nullptr, &y);
    };
#define WAYS(NAME, member, by, bi)                                   \
  {                                                                  \
    auto x = by;                                                     \
    bool ok = x != nullptr;                                          \
    stru(NAME "(bytes)", ok, wrap(&Pay::member, std::move(x)));      \
    auto y = bi;                                                     \
    ok = y != nullptr;                                               \
    stru(NAME "(bits)", ok, wrap(&Pay::member, std::move(y)));       \
  }                                                                  \
  break
    switch (type) {
      case 1:
      case 5: {
        typedef H264SliceLayerWithoutPartitioningRbspParser L;
        typedef H264SliceHeaderParser H;
        auto x = H::ParseSliceHeader(p, n, hd->nal_ref_idc, (uint32_t)type, &c);
        auto y = H::ParseSliceHeader(&bh, hd->nal_ref_idc, (uint32_t)type, &c);
        for (auto* z : {&x, &y}) {
          bool ok = *z != nullptr;
          auto l = std::make_unique<L::SliceLayerWithoutPartitioningRbspState>();
          l->slice_header = std::move(*z);
          stru("ParseSliceHeader", ok, wrap(&Pay::slice_layer_without_partitioning_rbsp, std::move(l)));
        }
        WAYS("ParseSliceLayerWithoutPartitioningRbsp", slice_layer_without_partitioning_rbsp,
             L::ParseSliceLayerWithoutPartitioningRbsp(p, n, hd->nal_ref_idc, (uint32_t)type, &c),
             L::ParseSliceLayerWithoutPartitioningRbsp(&bb, hd->nal_ref_idc, (uint32_t)type, &c));
      }
      case 7: WAYS("ParseSps", sps, H264SpsParser::ParseSps(p, n), H264SpsParser::ParseSps(&bb));
      case 8: {
        // with the chroma format that the NAL unit level looks up
        uint32_t cf = 1;
        if (a->nal_unit_payload->pps) {
          uint32_t id = a->nal_unit_payload->pps->seq_parameter_set_id;
          auto s1 = c.sps.find(id);
          auto s2 = c.subset_sps.find(id);
          if (s1 != c.sps.end()) cf = s1->second->sps_data->chroma_format_idc;
          else if (s2 != c.subset_sps.end()) cf = s2->second->seq_parameter_set_data->chroma_format_idc;
        } else {
          checked = false;
          break;
        }
        WAYS("ParsePps", pps, H264PpsParser::ParsePps(p, n, cf), H264PpsParser::ParsePps(&bb, cf));
      }
      case 14: {
        auto& s = *hd->nal_unit_header_svc_extension;
        typedef H264PrefixNalUnitRbspParser R;
        typedef H264PrefixNalUnitSvcParser S;
        auto x = S::ParsePrefixNalUnitSvc(p, n, hd->nal_ref_idc, s.use_ref_base_pic_flag, s.idr_flag);
        auto y = S::ParsePrefixNalUnitSvc(&bh, hd->nal_ref_idc, s.use_ref_base_pic_flag, s.idr_flag);
        CHECK_((x != nullptr) == (y != nullptr), "P23:accept:ParsePrefixNalUnitSvc", "prefix structure taken from bytes %d, from bits %d: %s",
               x != nullptr, y != nullptr, hex(raw, 100).c_str());
        for (auto* z : {&x, &y})
          if (*z && parsed) {
            auto l = std::make_unique<R::PrefixNalUnitRbspState>();
            l->prefix_nal_unit_svc = std::move(*z);
            stru("ParsePrefixNalUnitSvc", true, wrap(&Pay::prefix_nal_unit, std::move(l)));
          } else {
            CHECK_(!parsed, "P23:accept:ParsePrefixNalUnitSvc", "prefix structure refused, accepted as a NAL unit: %s", hex(raw, 100).c_str());
          }
        WAYS("ParsePrefixNalUnitRbsp", prefix_nal_unit, R::ParsePrefixNalUnitRbsp(p, n, 1, hd->nal_ref_idc, s.use_ref_base_pic_flag, s.idr_flag),
             R::ParsePrefixNalUnitRbsp(&bb, 1, hd->nal_ref_idc, s.use_ref_base_pic_flag, s.idr_flag));
      }
      case 15: WAYS("ParseSubsetSps", subset_sps, H264SubsetSpsParser::ParseSubsetSps(p, n), H264SubsetSpsParser::ParseSubsetSps(&bb));
      case 20: {
        typedef H264SliceLayerExtensionRbspParser L;
        typedef H264SliceHeaderInScalableExtensionParser H;
        auto x = H::ParseSliceHeaderInScalableExtension(p, n, *hd, &c);
        auto y = H::ParseSliceHeaderInScalableExtension(&bh, *hd, &c);
        for (auto* z : {&x, &y}) {
          bool ok = *z != nullptr;
          auto l = std::make_unique<L::SliceLayerExtensionRbspState>();
          l->slice_header_in_scalable_extension = std::move(*z);
          stru("ParseSliceHeaderInScalableExtension", ok, wrap(&Pay::slice_layer_extension_rbsp, std::move(l)));
        }
        WAYS("ParseSliceLayerExtensionRbsp", slice_layer_extension_rbsp, L::ParseSliceLayerExtensionRbsp(p, n, *hd, &c),
             L::ParseSliceLayerExtensionRbsp(&bb, *hd, &c));
      }
      default: checked = false;
    }
#undef WAYS
    if (checked && parsed) {
      CHECK_(bb.pos() == used, "P23:position:structure", "type %d: %" PRId64 " bits read by the structure's parser, %" PRId64 " by the NAL unit's", type,
             bb.pos(), used);
      string d = differs(was, flat_state(c));
      CHECK_(d.empty(), "P23:state:structure", "parsing a structure of type %d alone changed the parameter sets: %s", type, d.c_str());
    }
    // RTP
    if (type <= 23) {
      for (int k = 0; k < 4; k++) {
        std::unique_ptr<H264RtpParser::RtpState> x;
        std::unique_ptr<H264RtpSingleParser::RtpSingleState> y;
        Behind rb(r, raw, r.below(4));
        static const char* nm[] = {"ParseRtp(bytes)", "ParseRtp(bits)", "ParseRtpSingle(bytes)", "ParseRtpSingle(bits)"};
        H264BitstreamParserState* c = ways.at(nm[k]);
        if (k == 0) x = H264RtpParser::ParseRtp(ew.data(), ew.n, c);
        else if (k == 1) x = H264RtpParser::ParseRtp(&rb, c);
        else if (k == 2) y = H264RtpSingleParser::ParseRtpSingle(ew.data(), ew.n, c);
        else y = H264RtpSingleParser::ParseRtpSingle(&rb, c);
        auto* s = x ? x->rtp_single.get() : y.get();
        agree(nm[k], s != nullptr, na, s ? flat_hp(s->nal_unit_header.get(), s->nal_unit_payload.get()) : Node());
      }
      if (w.size() < 65536) {
        Bytes pkt = {(u8)(0x60 | 24), (u8)(w.size() >> 8), (u8)w.size()};
        pkt.insert(pkt.end(), w.begin(), w.end());
        Exact ep(pkt);
        for (int k = 0; k < 4; k++) {
            std::unique_ptr<H264RtpParser::RtpState> x;
          std::unique_ptr<H264RtpStapAParser::RtpStapAState> y;
          Behind rb(r, pkt, r.below(4));
          static const char* nm[] = {"ParseRtp(STAP-A bytes)", "ParseRtp(STAP-A bits)", "ParseRtpStapA(bytes)", "ParseRtpStapA(bits)"};
          H264BitstreamParserState* c = ways.at(nm[k]);
          if (k == 0) x = H264RtpParser::ParseRtp(ep.data(), ep.n, c);
          else if (k == 1) x = H264RtpParser::ParseRtp(&rb, c);
          else if (k == 2) y = H264RtpStapAParser::ParseRtpStapA(ep.data(), ep.n, c);
          else y = H264RtpStapAParser::ParseRtpStapA(&rb, c);
          auto* s = x ? x->rtp_stapa.get() : y.get();
          bool one = s && s->nal_unit_headers.size() == 1 && s->nal_unit_payloads.size() == 1;
          agree(nm[k], one, na, one ? flat_hp(s->nal_unit_headers[0].get(), s->nal_unit_payloads[0].get()) : Node());
        }
      }
      Bytes pkt = {(u8)((raw[0] & 0xe0) | 28), (u8)(0x80 | (raw[0] & 31))};
      pkt.insert(pkt.end(), raw.begin() + 1, raw.end());
      Bytes pw = wire(pkt);
      Exact ep(pw);
      for (int k = 0; k < 4; k++) {
        std::unique_ptr<H264RtpParser::RtpState> x;
        std::unique_ptr<H264RtpFuAParser::RtpFuAState> y;
        Behind rb(r, pkt, r.below(4));
        uint32_t idc = raw[0] >> 5 & 3;
        static const char* nm[] = {"ParseRtp(FU-A bytes)", "ParseRtp(FU-A bits)", "ParseRtpFuA(bytes)", "ParseRtpFuA(bits)"};
        H264BitstreamParserState* c = ways.at(nm[k]);
        if (k == 0) x = H264RtpParser::ParseRtp(ep.data(), ep.n, c);
        else if (k == 1) x = H264RtpParser::ParseRtp(&rb, c);
        else if (k == 2) y = H264RtpFuAParser::ParseRtpFuA(ep.data(), ep.n, idc, c);
        else y = H264RtpFuAParser::ParseRtpFuA(&rb, idc, c);
        auto* s = x ? x->rtp_fua.get() : y.get();
        agree(nm[k], s != nullptr, np, s ? flat_hp(nullptr, s->nal_unit_payload.get()) : Node());
      }
    }
    g->seen(mix(mix(shape(na), (u64)type), parsed));
    if (r.chance(1)) g->sample(fmt("type %d, %zu bytes, payload %s", type, raw.size(), parsed ? "parsed" : "not parsed"));
    if (g->violations) return;
  }
}

// ---- P24 ---------------------------------------------------------------------
struct Ctxt {
  string name;
  i64 want, got;
};
template <class H>
static void slice_ctx(vector<Ctxt>& v, const H& h, const SpsView& s, const PpsView& p, i64 ref_idc, i64 type) {
#define C_(f, w) v.push_back({#f, (i64)(w), (i64)h.f})
  C_(nal_ref_idc, ref_idc);
  C_(nal_unit_type, type);
  C_(separate_colour_plane_flag, s.sep);
  C_(log2_max_frame_num_minus4, s.log2fn);
  C_(frame_mbs_only_flag, s.fmo);
  C_(pic_order_cnt_type, s.poct);
  C_(bottom_field_pic_order_in_frame_present_flag, p.bfpo);
  C_(delta_pic_order_always_zero_flag, s.dpoaz);
  C_(redundant_pic_cnt_present_flag, p.red);
  C_(entropy_coding_mode_flag, p.cabac);
  C_(deblocking_filter_control_present_flag, p.dbf);
  C_(num_slice_groups_minus1, p.groups);
  C_(slice_group_map_type, p.map_type);
  if (p.groups > 0 && p.map_type >= 3 && p.map_type <= 5) {
    C_(pic_width_in_mbs_minus1, s.w);
    C_(pic_height_in_map_units_minus1, s.h);
    C_(slice_group_change_rate_minus1, p.rate);
  }
}
template <class H>
static void sub_ctx(vector<Ctxt>& v, const H& h, i64 cat, i64 idr) {
  if (h.ref_pic_list_modification)
    v.push_back({"ref_pic_list_modification.slice_type", (i64)h.slice_type, (i64)h.ref_pic_list_modification->slice_type});
  if (h.pred_weight_table) {
    auto& w = *h.pred_weight_table;
    v.push_back({"pred_weight_table.chroma_array_type", cat, (i64)w.chroma_array_type});
    v.push_back({"pred_weight_table.slice_type", (i64)h.slice_type, (i64)w.slice_type});
    v.push_back({"pred_weight_table.num_ref_idx_l0_active_minus1", (i64)h.num_ref_idx_l0_active_minus1, (i64)w.num_ref_idx_l0_active_minus1});
    v.push_back({"pred_weight_table.num_ref_idx_l1_active_minus1", (i64)h.num_ref_idx_l1_active_minus1, (i64)w.num_ref_idx_l1_active_minus1});
  }
  if (h.dec_ref_pic_marking) v.push_back({"dec_ref_pic_marking.IdrPicFlag", idr, (i64)h.dec_ref_pic_marking->IdrPicFlag});
}
// the context of a parsed NAL unit, given the parameter sets before it
static vector<Ctxt> context(const NalU& n, const RefNal& f, const RefState& st) {
  vector<Ctxt> v;
  auto& p = *n.nal_unit_payload;
  if (p.slice_layer_without_partitioning_rbsp && p.slice_layer_without_partitioning_rbsp->slice_header) {
    auto& l = *p.slice_layer_without_partitioning_rbsp;
    auto& h = *l.slice_header;
    const PpsView& pv = st.pps.at((i64)h.pic_parameter_set_id).v;
    const SpsView& sv = st.sps.at(pv.sps_id).v;
    v.push_back({"layer.nal_ref_idc", f.ref_idc, (i64)l.nal_ref_idc});
    v.push_back({"layer.nal_unit_type", f.type, (i64)l.nal_unit_type});
    slice_ctx(v, h, sv, pv, f.ref_idc, f.type);
    C_(weighted_pred_flag, pv.wp);
    C_(weighted_bipred_idc, pv.wb);
    sub_ctx(v, h, sv.cat(), f.type == 5);
  }
  if (p.slice_layer_extension_rbsp && p.slice_layer_extension_rbsp->slice_header_in_scalable_extension) {
    auto& l = *p.slice_layer_extension_rbsp;
    auto& h = *l.slice_header_in_scalable_extension;
    const PpsView& pv = st.pps.at((i64)h.pic_parameter_set_id).v;
    const SubsetView& ss = st.subset.at(pv.sps_id).v;
    v.push_back({"layer.nal_ref_idc", f.ref_idc, (i64)l.nal_ref_idc});
    v.push_back({"layer.nal_unit_type", f.type, (i64)l.nal_unit_type});
    v.push_back({"layer.svc_extension_flag", 1, (i64)l.svc_extension_flag});
    v.push_back({"layer.avc_3d_extension_flag", 0, (i64)l.avc_3d_extension_flag});
    slice_ctx(v, h, ss.sps, pv, f.ref_idc, f.type);
    C_(no_inter_layer_pred_flag, f.svc.noilp);
    C_(quality_id, f.svc.quality);
    C_(idr_flag, f.svc.idr);
    C_(slice_header_restriction_flag, ss.shr);
    if (f.svc.quality == 0) {
      C_(weighted_pred_flag, pv.wp);
      C_(weighted_bipred_idc, pv.wb);
      if (f.ref_idc != 0 && !ss.shr) C_(use_ref_base_pic_flag, f.svc.use_base);
    }
    if (!f.svc.noilp && f.svc.quality == 0) {
      C_(inter_layer_deblocking_filter_control_present_flag, ss.ildf);
      C_(extended_spatial_scalability_idc, ss.ess);
      if (ss.ess == 2) C_(ChromaArrayType, ss.sps.cat());
    }
    if (h.pred_weight_table) C_(ChromaArrayType, ss.sps.cat());
    sub_ctx(v, h, ss.sps.cat(), f.svc.idr);
  }
  if (p.pps) {
    i64 id = (i64)p.pps->seq_parameter_set_id, cf = 1;
    if (st.sps.count(id)) cf = st.sps.at(id).v.cf;
    else if (st.subset.count(id)) cf = st.subset.at(id).v.sps.cf;
    v.push_back({"pps.chroma_format_idc", cf, (i64)p.pps->chroma_format_idc});
  }
  if (p.prefix_nal_unit) {
    auto& q = *p.prefix_nal_unit;
    v.push_back({"prefix.svc_extension_flag", 1, (i64)q.svc_extension_flag});
    v.push_back({"prefix.nal_ref_idc", f.ref_idc, (i64)q.nal_ref_idc});
    v.push_back({"prefix.use_ref_base_pic_flag", f.svc.use_base, (i64)q.use_ref_base_pic_flag});
    v.push_back({"prefix.idr_flag", f.svc.idr, (i64)q.idr_flag});
    if (q.prefix_nal_unit_svc) {
      v.push_back({"prefix_svc.nal_ref_idc", f.ref_idc, (i64)q.prefix_nal_unit_svc->nal_ref_idc});
      v.push_back({"prefix_svc.use_ref_base_pic_flag", f.svc.use_base, (i64)q.prefix_nal_unit_svc->use_ref_base_pic_flag});
      v.push_back({"prefix_svc.idr_flag", f.svc.idr, (i64)q.prefix_nal_unit_svc->idr_flag});
    }
  }
  return v;
}
#undef C_

MODULE(P24, "a parsed NAL unit with context, distinct by type, coded shape and the context's values") {
  GenOpt go;
  RefState gs;
  int flavour = (int)r.below(3);
  if (flavour == 1) {
    go.weights = weights({{7, 1}, {15, 5}, {8, 5}, {14, 3}, {20, 14}});
    go.pool = r.chance(50) ? 1 : 2;
  } else if (flavour == 2) {
    go.weights = weights({{7, 5}, {8, 5}, {1, 10}, {5, 8}});
    go.pool = 2;
  }
  auto raws = gen_history(r, (int)r.range(6, 18), gs, 3, 3, go);
  Session s;
  struct Kept {
    std::unique_ptr<NalU> nal;
    RefNal ref;
    RefState st;  // shares the model's nodes
    u64 dig;
  };
  vector<Kept> kept;
  auto check = [&](const NalU& n, const RefNal& f, const RefState& st, const char* when) {
    u64 h = 0;
    for (auto& c : context(n, f, st)) {
      CHECK_(c.want == c.got, "P24:" + c.name, "NAL unit of type %d carries %s %" PRId64 ", was parsed with %" PRId64 " (%s)", (int)f.type,
             c.name.c_str(), c.got, c.want, when);
      g->count("ctx." + c.name);
      h = mix(h, (u64)c.want);
    }
    return h;
  };
  for (auto& raw : raws) {
    RefState before = s.ref;
    Obs o = s.feed(r, raw);
    if (o.nal && o.nal->nal_unit_payload && o.ref.hdr_ok && !o.ref.unspec && o.ref.payload_ok && lib_parsed(o.nal.get())) {
      u64 h = check(*o.nal, o.ref, before, "at once");
      g->count(fmt("checked_type_%d", (int)o.ref.type));
      g->seen(mix(mix(shape(*o.ref.n), (u64)o.ref.type), h));
      u64 d = digest(flat_nal(*o.nal));
      kept.push_back({std::move(o.nal), o.ref, before, d});
    }
    if (dead(o.ref) || g->violations) break;
  }
  // what came later changes nothing in what was returned
  for (auto& k : kept) {
    check(*k.nal, k.ref, k.st, "at the end of the history");
    CHECK_(digest(flat_nal(*k.nal)) == k.dig, "P24:later-change", "a returned NAL unit of type %d changed while others were parsed", (int)k.ref.type);
    g->count("rechecked");
  }
  if (kept.size() > 3 && r.chance(2)) g->sample(fmt("%zu units kept through a history of %zu", kept.size(), raws.size()));
}
