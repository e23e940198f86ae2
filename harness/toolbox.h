// Every byte-level entry point beside the whole-NAL ones, called on the given
// bytes; returns a digest of everything that came back. Used where the question
// is not what is right but whether the answer ever changes (other threads,
// other builds, other memory).
#pragma once
#include "session.h"

typedef uint32_t u32_t;

template <class T>
inline void tb_note(u64& h, const T& x, const char* name) {
  h = x ? mix(h, digest(flat_one(*x, name))) : mix(h, 3);
}
// `b`: the unit without emulation prevention, header included; `st`: a state
// the caller owns
inline u64 toolbox(const u8* p, size_t n, u64 key, H264BitstreamParserState* st) {
  u64 h = 11;
  Rng q(key);
  u32_t a = (u32_t)q.below(4), f = (u32_t)q.below(2), c = (u32_t)q.below(2), ty = (u32_t)(q.below(2) ? 1 : 5), sl = (u32_t)q.below(10);
  H264NalUnitHeaderParser::NalUnitHeaderState hd;
  if (n) {
    auto x = H264NalUnitHeaderParser::ParseNalUnitHeader(p, n);
    tb_note(h, x, "nal_unit_header");
    NalUnitType t = NalUnitType::SPS_NUT;
    bool ok = H264NalUnitHeaderParser::GetNalUnitType(p, n, t);
    h = mix(h, ok ? (u64)t + 1 : 0);
    if (x) {
      hd.nal_unit_type = x->nal_unit_type;
      hd.nal_ref_idc = x->nal_ref_idc;
      hd.svc_extension_flag = x->svc_extension_flag;
      hd.nal_unit_header_svc_extension = std::move(x->nal_unit_header_svc_extension);
    }
  }
  size_t skip = hd.nal_unit_header_svc_extension ? 4 : 1;
  if (n < skip) return h;
  p += skip;
  n -= skip;
  tb_note(h, H264SpsParser::ParseSps(p, n), "sps");
  tb_note(h, H264SpsDataParser::ParseSpsData(p, n), "sps_data");
  tb_note(h, H264PpsParser::ParsePps(p, n, a), "pps");
  tb_note(h, H264SubsetSpsParser::ParseSubsetSps(p, n), "subset_sps");
  tb_note(h, H264SpsExtensionParser::ParseSpsExtension(p, n), "sps_extension");
  tb_note(h, H264SpsSvcExtensionParser::ParseSpsSvcExtension(p, n, a), "seq_parameter_set_svc_extension");
  tb_note(h, H264HrdParametersParser::ParseHrdParameters(p, n), "hrd_parameters");
  auto vui = H264VuiParametersParser::ParseVuiParameters(p, n);
  tb_note(h, vui, "vui_parameters");
  if (vui) {
    float fr = vui->getFramerate();
    h = fnv(&fr, sizeof fr, h);
  }
  tb_note(h, H264DecRefPicMarkingParser::ParseDecRefPicMarking(p, n, f), "dec_ref_pic_marking");
  tb_note(h, H264RefPicListModificationParser::ParseRefPicListModification(p, n, sl), "ref_pic_list_modification");
  u32_t l0 = (u32_t)q.below(32), l1 = (u32_t)q.below(32);
  tb_note(h, H264PredWeightTableParser::ParsePredWeightTable(p, n, a, sl, l0, l1), "pred_weight_table");
  auto ps = H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(p, n, a, f, c);
  h = mix(h, ps ? ps->store_ref_base_pic_flag * 4 + ps->additional_prefix_nal_unit_extension_flag * 2 + ps->additional_prefix_nal_unit_extension_data_flag : 9);
  tb_note(h, H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(p, n, f, a, c, f), "prefix_nal_unit_rbsp");
  auto hx = H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(p, n);
  h = mix(h, hx ? hx->idr_flag + 2 * hx->priority_id + 128 * hx->dependency_id + 1024 * hx->quality_id + 16384 * hx->temporal_id + 131072 * hx->output_flag : 9);
  tb_note(h, H264SliceHeaderParser::ParseSliceHeader(p, n, a, ty, st), "slice_header");
  auto sr = H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(p, n, a, ty, st);
  h = mix(h, sr != nullptr);
  if (sr) tb_note(h, sr->slice_header, "slice_header");
  if (hd.nal_unit_header_svc_extension) {
    tb_note(h, H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(p, n, hd, st), "slice_header_in_scalable_extension");
    auto er = H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(p, n, hd, st);
    h = mix(h, er != nullptr);
    if (er) {
      tb_note(h, er->slice_header_in_scalable_extension, "slice_header_in_scalable_extension");
      tb_note(h, er->slice_header, "slice_header");
    }
  }
  for (u32_t i = 0; i < 4; i++) {
    auto x = st->GetSps(i);
    auto y = st->GetPps(i);
    auto z = st->GetSubsetSps(i);
    tb_note(h, x, "sps");
    tb_note(h, y, "pps");
    tb_note(h, z, "subset_sps");
    if (x) h = mix(h, x->getChromaArrayType());
    if (y) h = mix(h, y->getSliceGroupIdLen());
  }
  for (auto& i : H264BitstreamParser::FindNaluIndices(p, n)) h = mix(h, i.payload_start_offset * 77 + i.payload_size);
  for (auto& i : H264BitstreamParser::FindNaluIndicesExplicitFraming(p, n)) h = mix(h, i.payload_start_offset * 77 + i.payload_size);
  for (u8 v : UnescapeRbsp(p, n)) h = h * 31 + v;
  u32_t t = (u32_t)q.below(40);
  h = mix(fnvs(NalUnitTypeToString(t), h), IsSliceSegment(t) + 2 * IsNalUnitTypeReserved(t) + 4 * IsNalUnitTypeUnspecified(t));
  // bits, read and written
  BitBuffer bb(p, n);
  Bytes out(n + 40, 0xaa);
  BitBufferWriter w(out.data(), out.size());
  for (int k = 0; k < 24; k++) {
    u64 v64 = 0;
    u32_t v = 0;
    int32_t s = 0;
    uint16_t v16 = 0;
    bool ok = false;
    switch (q.below(7)) {
      case 0: ok = bb.ReadBits((size_t)q.range(1, 32), v); break;
      case 1: ok = bb.ReadExponentialGolomb(v); break;
      case 2: ok = bb.ReadSignedExponentialGolomb(s); break;
      case 3: ok = bb.ReadNonSymmetric((u32_t)q.range(2, 300), v); break;
      case 4: ok = bb.PeekBits((size_t)q.range(1, 64), v64); break;
      case 5: ok = bb.ReadBits((size_t)q.range(1, 64), v64); break;
      default: ok = bb.ReadUInt16(v16);
    }
    h = mix(h, ok ? v64 + v + (u64)(i64)s + v16 + 1 : 0);
    h = mix(h, bb.RemainingBitCount());
    switch (q.below(4)) {
      case 0: ok = w.WriteBits(q.next() & 0xffff, 16); break;
      case 1: ok = w.WriteExponentialGolomb((u32_t)q.below(5000)); break;
      case 2: ok = w.WriteSignedExponentialGolomb((int32_t)q.below(900) - 450); break;
      default: ok = w.WriteNonSymmetric((u32_t)q.below(7), 7);
    }
    h = mix(h, ok);
  }
  return fnv(out.data(), out.size(), h);
}
