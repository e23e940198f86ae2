// P01: every public entry point under hostile input. The oracle is the
// sanitizer runtime (this file is meant for the ASan+UBSan build), plus: input
// buffers are never written, and whatever a case allocates it gives back.
#include <unistd.h>

#include "session.h"
#include "h264_rtp_parser.h"
#include "h264_utils.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
static size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif

static FILE* nul() {
  static FILE* f = fopen("/dev/null", "w");
  return f;
}
static u64 sink;

static ParsingOptions any_options(Rng& r) {
  ParsingOptions po;
  u64 b = r.next();
  po.add_offset = b & 1;
  po.add_length = b & 2;
  po.add_parsed_length = b & 4;
  po.add_checksum = b & 8;
  po.add_resolution = b & 16;
  return po;
}
static int indent(Rng& r) { return r.chance(50) ? -1 : (int)r.below(5); }

static void use(const H264SpsDataParser::SpsDataState& s) {
  int w = 0, h = 0;
  sink += (u64)s.getResolution(&w, &h) + (u64)w + (u64)h;
  sink += (u64)s.getResolution(nullptr, &h) + (u64)s.getResolution(&w, nullptr);
  sink += s.getChromaArrayType() + (u64)s.getSubWidthC() + (u64)s.getSubHeightC() + (u64)s.getCropUnitX() + (u64)s.getCropUnitY();
  string n;
  profileTypeToString(s.profile_type, n);
  sink += n.size();
  if (s.vui_parameters) {
    float fr = s.vui_parameters->getFramerate();
    sink += fr > 30;
  }
}
static void use(H264NalUnitPayloadParser::NalUnitPayloadState& p, Rng& r) {
  if (p.sps) {
    if (p.sps->sps_data) use(*p.sps->sps_data);
    sink += p.sps->getChromaArrayType();
  }
  if (p.subset_sps && p.subset_sps->seq_parameter_set_data) use(*p.subset_sps->seq_parameter_set_data);
  if (p.pps) sink += p.pps->getSliceGroupIdLen();
  sink += p.IsPayloadParsed((uint32_t)r.below(33));
}
static void use(NalU& n, Rng& r) {
  if (n.nal_unit_payload) use(*n.nal_unit_payload, r);
  if (n.nal_unit_header) {
    sink += IsSliceSegment(n.nal_unit_header->nal_unit_type) + IsNalUnitTypeReserved(n.nal_unit_header->nal_unit_type) +
            IsNalUnitTypeUnspecified(n.nal_unit_header->nal_unit_type);
    sink += NalUnitTypeToString(n.nal_unit_header->nal_unit_type).size();
  }
  if (n.checksum) {
    int l = (int)r.below(r.chance(50) ? 12 : 64);
    std::unique_ptr<char[]> buf(new char[(size_t)l]);  // exactly that long
    n.checksum->fdump(buf.get(), l);
    sink += (u64)n.checksum->GetLength() + n.checksum->GetPrintableChecksum().size();
  }
  n.fdump(nul(), indent(r), any_options(r));
}
static void use(H264BitstreamParserState& st, Rng& r) {
  for (auto& x : st.sps)
    if (x.second) {
      if (x.second->sps_data) use(*x.second->sps_data);
      x.second->fdump(nul(), indent(r), any_options(r));
    }
  for (auto& x : st.subset_sps)
    if (x.second) {
      if (x.second->seq_parameter_set_data) use(*x.second->seq_parameter_set_data);
      x.second->fdump(nul(), indent(r), any_options(r));
    }
  for (auto& x : st.pps)
    if (x.second) {
      sink += x.second->getSliceGroupIdLen();
      x.second->fdump(nul(), indent(r));
    }
}

static Bytes junk(Rng& r, size_t n) {
  static const vector<vector<u8>> al = {{0}, {0xff}, {0, 1}, {0, 0, 0, 1, 3}, {0x80, 0, 0xff}, {0x67, 0x68, 0x65, 0x41, 0, 0, 1}};
  Bytes b(n);
  if (r.chance(50)) {
    for (auto& x : b) x = (u8)r.next();
  } else {
    auto& a = al[r.below(al.size())];
    for (auto& x : b) x = r.chance(93) ? a[r.below(a.size())] : (u8)r.next();
  }
  return b;
}
static size_t small(Rng& r) { return r.chance(85) ? r.below(40) : r.below(700); }

struct Tally {
  size_t entries = 0, results = 0, dumps = 0;
  u64 kinds = 0;
};

static vector<Bytes> hostile_units(Rng& r, RefState& st) {
  vector<Bytes> v;
  GenOpt go;
  go.pool = r.chance(60) ? 2 : 0;
  go.bigpct = r.chance(10) ? 15 : 1;
  if (r.chance(20)) go.weights = weights({{7, 2}, {15, 5}, {8, 5}, {14, 3}, {20, 18}, {21, 1}});
  int mut = (int)r.pick(vector<int>{0, 10, 30, 60, 90});
  int n = (int)r.range(1, 14);
  v = gen_history(r, n, st, r.chance(50) ? 0 : 30, mut, go);
  if (r.chance(20)) v.insert(v.begin() + (long)r.below(v.size() + 1), junk(r, small(r)));
  return v;
}
static u64 odd(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(4);
    case 1: return r.below(33);
    case 2: return 0xffffffffull;
    case 3: return 0x7fffffffull + r.below(2);
    case 4: return 1ull << r.below(32);
    default: return r.next() & 0xffffffffull;
  }
}

// ---- direct structure parsers, from bytes or from a bit position ------------
template <class T>
static void dumpit(const T& x, Rng& r) {
  x.fdump(nul(), indent(r));
}
template <class T>
static void dumpito(const T& x, Rng& r) {
  x.fdump(nul(), indent(r), any_options(r));
}
static void direct_parsers(Rng& r, Tally& t) {
  // a history, so that slices can be interpreted
  RefState rs;
  H264BitstreamParserState st;
  auto hist = hostile_units(r, rs);
  for (auto& h : hist) {
    Exact e(h);
    H264NalUnitParser::ParseNalUnitUnescaped(e.data(), e.n, &st, any_options(r));
  }
  for (int k = 0; k < 6; k++) {
    Bytes b = junk(r, small(r));
    if (r.chance(60)) {
      // a valid structure, header cut off
      GenOpt go;
      go.pool = 2;
      GenNal n = gen_nal(r, rs, go);
      size_t cut = r.chance(80) ? 1 : r.below(5);
      b.assign(n.raw.begin() + (long)std::min(cut, n.raw.size()), n.raw.end());
      if (r.chance(60)) mutate(r, b);
    }
    Exact e(b);
    u64 before = fnv(e.data(), e.n);
    bool bits = r.chance(40);
    BitBuffer bb(e.data(), e.n);
    if (bits && e.n) bb.ConsumeBits(r.below(e.n * 8 + 1));
    uint32_t a1 = (uint32_t)odd(r), a2 = (uint32_t)odd(r), a3 = (uint32_t)r.below(4), a4 = (uint32_t)odd(r);
    H264NalUnitHeaderParser::NalUnitHeaderState hd;
    hd.nal_unit_type = (uint32_t)r.below(32);
    hd.nal_ref_idc = (uint32_t)r.below(4);
    if (r.chance(60)) {
      Bytes hb = junk(r, 3);
      BitBuffer hbb(hb.data(), hb.size());
      hd.nal_unit_type = 20;
      H264NalUnitHeaderParser::ParseNalUnitHeaderExtension(&hbb, hd);
    }
    int which = (int)r.below(24);
    t.kinds |= 1ull << which;
    t.entries++;
#define TRY(call_b, call_bb, D)            \
  {                                        \
    auto x = bits ? call_bb : call_b;      \
    if (x) {                               \
      t.results++;                         \
      D(*x, r);                            \
      t.dumps++;                           \
    }                                      \
  }                                        \
  break
    const u8* p = e.data();
    size_t n = e.n;
    switch (which) {
      case 0: TRY(H264SpsParser::ParseSps(p, n), H264SpsParser::ParseSps(&bb), dumpito);
      case 1: TRY(H264SpsDataParser::ParseSpsData(p, n), H264SpsDataParser::ParseSpsData(&bb), dumpito);
      case 2: TRY(H264PpsParser::ParsePps(p, n, a3), H264PpsParser::ParsePps(&bb, r.chance(20) ? a1 : a3), dumpit);
      case 3: TRY(H264SubsetSpsParser::ParseSubsetSps(p, n), H264SubsetSpsParser::ParseSubsetSps(&bb), dumpito);
      case 4: TRY(H264SpsExtensionParser::ParseSpsExtension(p, n), H264SpsExtensionParser::ParseSpsExtension(&bb), dumpit);
      case 5: TRY(H264SpsSvcExtensionParser::ParseSpsSvcExtension(p, n, a3), H264SpsSvcExtensionParser::ParseSpsSvcExtension(&bb, a1), dumpit);
      case 6: TRY(H264HrdParametersParser::ParseHrdParameters(p, n), H264HrdParametersParser::ParseHrdParameters(&bb), dumpit);
      case 7: {
        auto x = bits ? H264VuiParametersParser::ParseVuiParameters(&bb) : H264VuiParametersParser::ParseVuiParameters(p, n);
        if (x) {
          t.results++;
          sink += x->getFramerate() > 1;
          dumpit(*x, r);
          t.dumps++;
        }
        break;
      }
      case 8: TRY(H264DecRefPicMarkingParser::ParseDecRefPicMarking(p, n, a3 & 1), H264DecRefPicMarkingParser::ParseDecRefPicMarking(&bb, a3 & 1), dumpit);
      case 9: TRY(H264RefPicListModificationParser::ParseRefPicListModification(p, n, (uint32_t)r.below(12)), H264RefPicListModificationParser::ParseRefPicListModification(&bb, a1), dumpit);
      case 10: TRY(H264PredWeightTableParser::ParsePredWeightTable(p, n, a3, (uint32_t)r.below(10), (uint32_t)r.below(34), (uint32_t)r.below(34)),
                   H264PredWeightTableParser::ParsePredWeightTable(&bb, a3, a1, a2, a4), dumpit);
      case 11: TRY(H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(p, n, a3, a1 & 1, a2 & 1), H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(&bb, a3, a1, a2), dumpit);
      case 12: TRY(H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(p, n, 1, a3, a1 & 1, a2 & 1), H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(&bb, a4 & 1, a3, a1 & 1, a2 & 1), dumpit);
      case 13: TRY(H264NalUnitHeaderParser::ParseNalUnitHeader(p, n), H264NalUnitHeaderParser::ParseNalUnitHeader(&bb), dumpit);
      case 14: TRY(H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(p, n), H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(&bb), dumpit);
      case 15: TRY(H264SliceHeaderParser::ParseSliceHeader(p, n, a3, r.chance(50) ? 1 : 5, &st), H264SliceHeaderParser::ParseSliceHeader(&bb, a3, (uint32_t)r.below(32), &st), dumpit);
      case 16: TRY(H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(p, n, a3, r.chance(50) ? 1 : 5, &st),
                   H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(&bb, a3, 5, &st), dumpit);
      case 17: TRY(H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(p, n, hd, &st),
                   H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(&bb, hd, &st), dumpit);
      case 18: TRY(H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(p, n, hd, &st),
                   H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(&bb, hd, &st), dumpit);
      case 19: {
        if (!hd.nal_unit_header_svc_extension && (hd.nal_unit_type == 14 || hd.nal_unit_type == 20)) hd.nal_unit_type = 7;
        auto x = bits ? H264NalUnitPayloadParser::ParseNalUnitPayload(&bb, hd, &st) : H264NalUnitPayloadParser::ParseNalUnitPayload(p, n, hd, &st);
        if (x) {
          t.results++;
          use(*x, r);
          x->fdump(nul(), indent(r), hd.nal_unit_type, any_options(r));
        }
        break;
      }
      case 20: {
        NalUnitType ty;
        sink += H264NalUnitHeaderParser::GetNalUnitType(p, n, ty);
        break;
      }
      case 21: {
        auto x = bits ? H264RtpFuAParser::ParseRtpFuA(&bb, a3, &st) : H264RtpFuAParser::ParseRtpFuA(p, n, a3, &st);
        if (x) {
          t.results++;
          dumpito(*x, r);
        }
        break;
      }
      case 22: {
        auto x = bits ? H264RtpStapAParser::ParseRtpStapA(&bb, &st) : H264RtpStapAParser::ParseRtpStapA(p, n, &st);
        if (x) {
          t.results++;
          dumpito(*x, r);
        }
        break;
      }
      default: {
        auto x = bits ? H264RtpSingleParser::ParseRtpSingle(&bb, &st) : H264RtpSingleParser::ParseRtpSingle(p, n, &st);
        if (x) {
          t.results++;
          dumpito(*x, r);
        }
      }
    }
#undef TRY
    CHECK_(fnv(e.data(), e.n) == before, "P01:input-written", "entry point %d wrote to its input buffer", which);
  }
  if (r.chance(30)) use(st, r);
}

static void whole_streams(Rng& r, Tally& t) {
  RefState rs;
  auto units = hostile_units(r, rs);
  vector<Bytes> nals;
  for (auto& u : units) nals.push_back(r.chance(80) ? wire(u) : u);
  std::unique_ptr<H264BitstreamParserState> st(new H264BitstreamParserState);
  int rounds = (int)r.range(1, 3);
  vector<std::unique_ptr<H264BitstreamParser::BitstreamState>> keep;
  for (int k = 0; k < rounds; k++) {
    Bytes b;
    int framing = (int)r.below(4);
    size_t width = 0;
    if (framing == 0) {
      b = annexb(r, nals, nullptr);
    } else if (framing == 1) {
      width = (size_t)r.range(1, 8);
      b = length_framed(nals, width, nullptr);
      if (r.chance(40) && b.size() >= width)  // lie about a length
        for (size_t i = 0; i < width; i++) b[i] = (u8)(r.chance(50) ? 0xff : r.next());
    } else if (framing == 2) {
      b = nals.empty() ? Bytes() : nals[r.below(nals.size())];
    } else {
      b = junk(r, r.chance(90) ? r.below(300) : r.below(20000));
    }
    if (r.chance(40)) mutate(r, b);
    if (r.chance(15)) width = (size_t)r.pick(vector<u64>{9, 16, 64, 1000, 0xffffffffull, ~0ull, ~0ull - 7, 1ull << 63});
    Exact e(b);
    u64 before = fnv(e.data(), e.n);
    auto po = any_options(r);
    bool own = r.chance(30);
    std::unique_ptr<H264BitstreamParser::BitstreamState> bs;
    t.entries++;
    if ((framing == 1 || framing == 2 || r.chance(20)))
      bs = own ? H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, width, po)
               : H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, width, st.get(), po);
    else
      bs = own ? H264BitstreamParser::ParseBitstream(e.data(), e.n, po)
               : H264BitstreamParser::ParseBitstream(e.data(), e.n, st.get(), po);
    sink += H264BitstreamParser::FindNaluIndices(e.data(), e.n).size();
    sink += H264BitstreamParser::FindNaluIndicesExplicitFraming(e.data(), e.n).size();
    sink += UnescapeRbsp(e.data(), e.n).size();
    if (bs) {
      t.results++;
      t.kinds |= 1ull << (24 + framing);
      keep.push_back(std::move(bs));
    }
    CHECK_(fnv(e.data(), e.n) == before, "P01:input-written", "a stream parse wrote to its input buffer");
  }
  // the results outlive the buffers, and may outlive the parser state
  if (r.chance(50)) {
    use(*st, r);
    st.reset();
  }
  for (auto& bs : keep) {
    for (auto& n : bs->nal_units)
      if (n) {
        use(*n, r);
        t.dumps++;
      }
    bs->fdump(nul(), indent(r), any_options(r));
    if (r.chance(50)) bs.reset();
  }
  if (st && r.chance(50)) use(*st, r);
}

static void unit_by_unit(Rng& r, Tally& t) {
  RefState rs;
  auto units = hostile_units(r, rs);
  H264BitstreamParserState st;
  vector<std::unique_ptr<NalU>> keep;
  for (auto& u : units) {
    Bytes w = r.chance(50) ? wire(u) : u;
    Exact e(w);
    auto po = any_options(r);
    std::unique_ptr<NalU> n;
    t.entries++;
    switch (r.below(3)) {
      case 0: n = H264NalUnitParser::ParseNalUnit(e.data(), e.n, &st, po); break;
      case 1: n = H264NalUnitParser::ParseNalUnitUnescaped(e.data(), e.n, &st, po); break;
      default: {
        BitBuffer bb(e.data(), e.n);
        if (r.chance(30) && e.n) bb.ConsumeBits(r.below(e.n * 8));
        n = H264NalUnitParser::ParseNalUnit(&bb, &st, po);
      }
    }
    if (n) {
      t.results++;
      t.kinds |= 1ull << 28;
      if (r.chance(60)) {
        use(*n, r);
        t.dumps++;
      }
      if (r.chance(70)) keep.push_back(std::move(n));
    }
    if (r.chance(10) && !keep.empty()) keep.erase(keep.begin() + (long)r.below(keep.size()));
  }
  // a stored set may be dropped by the caller at any time
  if (r.chance(20)) {
    if (!st.sps.empty()) st.sps.erase(st.sps.begin());
    if (!st.pps.empty() && r.chance(50)) st.pps.clear();
    Bytes w = units.empty() ? Bytes() : units.back();
    Exact e(w);
    auto n = H264NalUnitParser::ParseNalUnitUnescaped(e.data(), e.n, &st, any_options(r));
    if (n) use(*n, r);
  }
  for (auto& n : keep) use(*n, r);
  use(st, r);
}

static void rtp(Rng& r, Tally& t) {
  RefState rs;
  auto units = hostile_units(r, rs);
  H264BitstreamParserState st;
  for (size_t k = 0; k < units.size();) {
    Bytes pkt;
    int kind = (int)r.below(5);
    if (kind == 0) {
      pkt = wire(units[k++]);
    } else if (kind == 1) {
      pkt.push_back((u8)(0x60 | 24));
      int c = (int)r.range(0, 4);
      while (c-- && k < units.size()) {
        Bytes w = wire(units[k++]);
        size_t z = w.size();
        if (r.chance(15)) z = r.chance(50) ? r.below(6) : r.below(65536);
        pkt.push_back((u8)(z >> 8));
        pkt.push_back((u8)z);
        pkt.insert(pkt.end(), w.begin(), w.end());
      }
      if (c >= 0) k++;
    } else if (kind == 2) {
      Bytes w = wire(units[k++]);
      if (w.empty()) continue;
      pkt.push_back((u8)((w[0] & 0xe0) | 28));
      pkt.push_back((u8)((r.next() & 0xe0) | (w[0] & 31)));
      size_t from = r.chance(80) ? 1 : r.below(w.size());
      pkt.insert(pkt.end(), w.begin() + (long)from, w.end());
    } else if (kind == 3) {
      pkt = junk(r, r.below(30));
      if (!pkt.empty()) pkt[0] = (u8)((pkt[0] & 0xe0) | r.range(22, 31));
      k++;
    } else {
      pkt = units[k++];
      if (!pkt.empty() && r.chance(30)) pkt[0] = (u8)r.next();
    }
    if (r.chance(25)) mutate(r, pkt);
    Exact e(pkt);
    std::unique_ptr<H264RtpParser::RtpState> x;
    t.entries++;
    if (r.chance(70)) {
      x = H264RtpParser::ParseRtp(e.data(), e.n, &st);
    } else {
      BitBuffer bb(e.data(), e.n);
      x = H264RtpParser::ParseRtp(&bb, &st);
    }
    if (x) {
      t.results++;
      t.kinds |= 1ull << (29 + (kind > 2 ? 3 : kind));
      x->fdump(nul(), indent(r), any_options(r));
      t.dumps++;
    }
  }
  use(st, r);
}

static void bits(Rng& r, Tally& t) {
  Bytes b = junk(r, r.below(40));
  Exact e(b);
  BitBuffer rd(e.data(), e.n);
  Bytes wbuf(r.below(40));
  Exact w(wbuf);
  BitBufferWriter wr(const_cast<u8*>(w.data()), w.n);
  for (int k = 0; k < 60; k++) {
    uint8_t v8;
    uint16_t v16;
    uint32_t v32;
    uint64_t v64;
    int32_t s32;
    size_t c = r.chance(80) ? r.below(70) : (size_t)r.next();
    t.entries++;
    switch (r.below(22)) {
      case 0: sink += rd.ReadUInt8(v8); break;
      case 1: sink += rd.ReadUInt16(v16); break;
      case 2: sink += rd.ReadUInt32(v32); break;
      case 3: if (c <= 32) sink += rd.ReadBits(c, v32); break;
      case 4: if (c <= 64) sink += rd.ReadBits(c, v64); break;
      case 5: if (c <= 32) sink += rd.PeekBits(c, v32); break;
      case 6: if (c <= 64) sink += rd.PeekBits(c, v64); break;
      case 7: sink += rd.ReadNonSymmetric((uint32_t)(1 + odd(r) % 0x80000000ull), v32); break;
      case 8: sink += rd.ReadExponentialGolomb(v32); break;
      case 9: sink += rd.ReadSignedExponentialGolomb(s32); break;
      case 10: if (c < (1ull << 60)) sink += rd.ConsumeBytes(c); break;
      case 11: sink += rd.ConsumeBits(c); break;
      case 12: if (c < (1ull << 60)) sink += rd.Seek(c, r.below(8)); break;
      case 13: sink += more_rbsp_data(&rd); break;
      case 14: sink += rbsp_trailing_bits(&rd); break;
      case 15: sink += byte_aligned(&rd); break;
      case 16: sink += wr.WriteUInt8((uint8_t)r.next()); break;
      case 17: sink += wr.WriteUInt32((uint32_t)r.next()); break;
      case 18: sink += wr.WriteBits(r.next(), r.below(80)); break;
      case 19: sink += wr.WriteExponentialGolomb((uint32_t)odd(r)); break;
      case 20: sink += wr.WriteSignedExponentialGolomb((int32_t)odd(r)); break;
      default: {
        uint32_t nv = (uint32_t)(1 + odd(r) % 0x80000000ull);
        sink += wr.WriteNonSymmetric((uint32_t)(r.next() % nv), nv);
      }
    }
  }
  t.results++;
  t.kinds |= 1ull << 34;
}

static void files(Rng& r, Tally& t) {
  string p = g->scratch + "/f";
  std::vector<uint8_t> out;
  t.entries++;
  if (r.chance(80)) {
    Bytes b = junk(r, r.chance(70) ? r.below(50) : r.pick(vector<size_t>{4095, 4096, 4097, 65536, 70001, 131072, 200000}));
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) return;
    if (!b.empty()) fwrite(b.data(), 1, b.size(), f);
    fclose(f);
    int rc = H264Utils::ReadFile(p.c_str(), out);
    bool same = out.size() == b.size() && (b.empty() || !memcmp(out.data(), b.data(), b.size()));
    CHECK_(rc < 0 || same, "P01:readfile", "file of %zu bytes read as %zu bytes", b.size(), out.size());
    unlink(p.c_str());
  } else {
    sink += (u64)H264Utils::ReadFile((g->scratch + "/absent").c_str(), out);
    sink += (u64)H264Utils::ReadFile(g->scratch.c_str(), out);
  }
  t.results++;
  t.kinds |= 1ull << 33;
}

MODULE(P01, "a hostile case that got results out of the library, distinct by family, entry points reached, and "
            "number of results and dumps") {
  nul();
  Rng save = r;
  int fam = 0;
  auto body = [&](Rng& q) -> Tally {
    Tally t;
    fam = (int)q.below(20);
    if (fam < 6) direct_parsers(q, t);
    else if (fam < 10) whole_streams(q, t);
    else if (fam < 14) unit_by_unit(q, t);
    else if (fam < 17) rtp(q, t);
    else if (fam < 19) bits(q, t);
    else files(q, t);
    return t;
  };
  size_t grown = 0;
  Tally t;
  for (int round = 0; round < 3; round++) {
    Rng q = save;
    size_t a = __sanitizer_get_current_allocated_bytes();
    t = body(q);
    size_t b = __sanitizer_get_current_allocated_bytes();
    grown = b > a ? b - a : 0;
    if (!grown) break;  // a first run may fill caches; a leak repeats
  }
  CHECK_(grown == 0, fmt("P01:leak:family%d", fam), "running the case again and again leaves %zu bytes allocated each time", grown);
  static const char* names[] = {"direct", "stream", "unit", "rtp", "bits", "file"};
  const char* nm = names[fam < 6 ? 0 : fam < 10 ? 1 : fam < 14 ? 2 : fam < 17 ? 3 : fam < 19 ? 4 : 5];
  g->count(string("cases_") + nm);
  g->count(string("entry_calls_") + nm, t.entries);
  g->count(string("results_") + nm, t.results);
  g->count("dumps", t.dumps);
  for (int i = 0; i < 35; i++)
    if (t.kinds >> i & 1) g->count(fmt("entry_kind_%02d", i));
  if (t.results) g->seen(fnvs(fmt("%s %" PRIx64 " %zu %zu", nm, t.kinds, t.results, t.dumps)));
  if (r.chance(1)) g->sample(fmt("%s: %zu entry point calls, %zu results, %zu dumps", nm, t.entries, t.results, t.dumps));
}
