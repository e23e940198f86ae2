// P17: threads with their own parser states (ThreadSanitizer build).
#include <atomic>
#include <algorithm>
#include <sched.h>
#include <thread>

#include "session.h"
#include "toolbox.h"
#include "dumptree.h"
#include "h264_rtp_parser.h"

struct Item {
  vector<Bytes> units;  // NAL units, a stream, or RTP packets
  int mode = 0;         // 0 units, 1 Annex B, 2 length framed, 3 RTP, 4 every other entry point
  ParsingOptions po;
  u64 pace = 0, key = 0;
};
struct Result {
  u64 digest = 7;
  size_t dumped = 0, parsed = 0;
};
static std::atomic<uint32_t> ticket;
static const uint32_t kMaxTickets = 1 << 14;

// relaxed on purpose: the recorder must not order the threads it watches
static void tick(vector<uint32_t>* log, Rng& pace) {
  if (!log) return;
  log->push_back(ticket.fetch_add(1, std::memory_order_relaxed));
  switch (pace.below(6)) {
    case 0:
      sched_yield();
      break;
    case 1: {
      volatile int x = 0;
      for (int i = (int)pace.below(2000); i; i--) x = x + 1;
      break;
    }
    default:
      break;
  }
}
static void add(Result& o, const string& s) {
  o.digest = fnvs(s, o.digest);
  o.dumped += s.size();
}
static Result work(const Item& it, vector<uint32_t>* log) {
  Result o;
  Rng pace(it.pace), layout(it.pace + 1);
  H264BitstreamParserState st;
  auto note = [&](const NalU& n) {
    Node f = flat_nal(n);
    u64 d = digest(f);
    o.digest = fnv(&d, 8, o.digest);
    o.parsed++;
    add(o, capture([&](FILE* fp) { n.fdump(fp, layout.chance(50) ? -1 : 0, it.po); }));
    if (n.nal_unit_payload && n.nal_unit_payload->sps && n.nal_unit_payload->sps->sps_data) {
      int w = 0, h = 0;
      n.nal_unit_payload->sps->sps_data->getResolution(&w, &h);
      string p;
      profileTypeToString(n.nal_unit_payload->sps->sps_data->profile_type, p);
      add(o, fmt("%d %d %s", w, h, p.c_str()));
    }
    add(o, NalUnitTypeToString(n.nal_unit_header->nal_unit_type));
    if (n.checksum) add(o, n.checksum->GetPrintableChecksum());
  };
  if (it.mode == 1 || it.mode == 2) {
    for (auto& b : it.units) {
      Exact e(b);
      auto bs = it.mode == 1 ? H264BitstreamParser::ParseBitstream(e.data(), e.n, &st, it.po)
                             : H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, 4, &st, it.po);
      tick(log, pace);
      if (!bs) continue;
      for (auto& n : bs->nal_units) {
        note(*n);
        tick(log, pace);
      }
    }
  } else if (it.mode == 0) {
    for (auto& b : it.units) {
      Exact e(b);
      auto n = H264NalUnitParser::ParseNalUnit(e.data(), e.n, &st, it.po);
      tick(log, pace);
      if (n) note(*n);
      tick(log, pace);
    }
  } else if (it.mode == 4) {
    for (auto& b : it.units) {
      Exact e(b);
      auto n = H264NalUnitParser::ParseNalUnitUnescaped(e.data(), e.n, &st, it.po);
      tick(log, pace);
      o.parsed += n != nullptr;
      u64 d = toolbox(e.data(), e.n, it.key + b.size(), &st);
      o.digest = fnv(&d, 8, o.digest);
      tick(log, pace);
    }
  } else {
    for (auto& b : it.units) {
      Exact e(b);
      auto n = H264RtpParser::ParseRtp(e.data(), e.n, &st);
      tick(log, pace);
      if (n) {
        o.parsed++;
        add(o, capture([&](FILE* fp) { n->fdump(fp, -1, it.po); }));
      }
      tick(log, pace);
    }
  }
  u64 d = digest(flat_state(st));
  o.digest = fnv(&d, 8, o.digest);
  return o;
}

static Item draw_item(Rng& r) {
  Item it;
  RefState st;
  GenOpt go;
  go.pool = 2;
  go.bigpct = 0;
  if (r.chance(35)) go.weights = weights({{7, 3}, {15, 6}, {8, 4}, {14, 4}, {20, 10}, {21, 3}, {1, 3}});
  if (r.chance(40)) go.force["nal_unit_header.svc_extension_flag"] = r.chance(50) ? 1 : 0;
  auto raws = gen_history(r, (int)r.range(4, 14), st, 12, 8, go);
  vector<Bytes> nals;
  for (auto& x : raws)
    if (!x.empty()) nals.push_back(wire(x));
  it.mode = (int)r.below(5);
  it.key = r.next();
  it.po.add_offset = r.chance(50);
  it.po.add_length = r.chance(50);
  it.po.add_parsed_length = r.chance(50);
  it.po.add_checksum = r.chance(60);
  it.po.add_resolution = r.chance(60);
  it.pace = r.next();
  if (it.mode == 1) {
    it.units.push_back(annexb(r, nals, nullptr));
  } else if (it.mode == 2) {
    it.units.push_back(length_framed(nals, 4, nullptr));
  } else if (it.mode == 0) {
    it.units = nals;
  } else if (it.mode == 4) {
    it.units = raws;
  } else {
    for (size_t k = 0; k < nals.size();) {
      Bytes p;
      if (r.chance(40)) {
        p.push_back(0x78);
        for (int c = 0; c < 3 && k < nals.size(); c++, k++) {
          p.push_back((u8)(nals[k].size() >> 8));
          p.push_back((u8)nals[k].size());
          p.insert(p.end(), nals[k].begin(), nals[k].end());
        }
      } else if (r.chance(40) && nals[k].size() > 3) {
        p.push_back((u8)((nals[k][0] & 0xe0) | 28));
        p.push_back((u8)(0x80 | (nals[k][0] & 31)));
        p.insert(p.end(), nals[k].begin() + 1, nals[k].end());
        k++;
      } else {
        p = nals[k++];
      }
      it.units.push_back(p);
    }
  }
  return it;
}

MODULE(P17, "a concurrent run, distinct by the order in which the threads' events were observed") {
  int threads = (int)r.range(2, 6);
  vector<vector<Item>> plan((size_t)threads);
  bool same = r.chance(30);  // all threads on the same bytes
  for (auto& p : plan) {
    int k = (int)r.range(1, 3);
    if (same && &p != &plan[0]) {
      p = plan[0];
      for (auto& it : p) it.pace = r.next();
      continue;
    }
    for (int i = 0; i < k; i++) p.push_back(draw_item(r));
  }
  // what a sequential run says
  vector<vector<Result>> expect;
  uint32_t events = 0;
  auto sequential = [&] {
    reset_unimplemented_count();
    for (auto& p : plan) {
      expect.emplace_back();
      for (auto& it : p) expect.back().push_back(work(it, nullptr));
    }
    events = get_unimplemented_count();
  };
  // whatever the library sets up on first use must not depend on a quiet start
  bool threads_first = r.chance(60);
  if (!threads_first) sequential();
  // the same work, at once
  reset_unimplemented_count();
  CHECK_(get_unimplemented_count() == 0, "P17:reset", "the count is %u after a reset", get_unimplemented_count());
  vector<vector<Result>> got((size_t)threads);
  vector<vector<uint32_t>> logs((size_t)threads);
  ticket.store(0);
  std::atomic<int> ready{0};
  std::atomic<bool> go{false};
  vector<std::thread> th;
  for (int t = 0; t < threads; t++)
    th.emplace_back([&, t] {
      logs[(size_t)t].reserve(512);
      ready.fetch_add(1);
      while (!go.load(std::memory_order_relaxed)) sched_yield();
      for (auto& it : plan[(size_t)t]) got[(size_t)t].push_back(work(it, &logs[(size_t)t]));
    });
  while (ready.load() < threads) sched_yield();
  go.store(true, std::memory_order_relaxed);
  for (auto& t : th) t.join();
  uint32_t counted = get_unimplemented_count();
  if (threads_first) sequential();
  g->count(threads_first ? "threads_first" : "sequential_first");
  CHECK_(counted == events, "P17:unimplemented-count", "%u unimplemented structures counted, %u occurred", counted, events);
  g->count("unimplemented_events", events);
  for (int t = 0; t < threads; t++)
    for (size_t i = 0; i < plan[(size_t)t].size(); i++) {
      auto &a = expect[(size_t)t][i], &b = got[(size_t)t][i];
      CHECK_(a.digest == b.digest && a.parsed == b.parsed, "P17:result", "thread %d of %d, item %zu (mode %d): concurrent result differs from the sequential one",
             t, threads, i, plan[(size_t)t][i].mode);
      g->count("nal_units", b.parsed);
      g->count(fmt("items_mode_%d", plan[(size_t)t][i].mode));
    }
  // the interleaving that was observed
  vector<std::pair<uint32_t, int>> order;
  for (int t = 0; t < threads; t++)
    for (auto x : logs[(size_t)t]) order.push_back({x, t});
  std::sort(order.begin(), order.end());
  u64 h = (u64)threads;
  size_t switches = 0;
  for (size_t i = 0; i < order.size(); i++) {
    if (i && order[i].second != order[i - 1].second) switches++;
    h = fnv(&order[i].second, sizeof(int), h);
  }
  g->count("events", order.size());
  g->count("thread_switches", switches);
  if (switches > (size_t)threads) g->seen(h);
  g->count(fmt("runs_%d_threads", threads));
  if (r.chance(30)) {
    string s;
    for (size_t i = 0; i < order.size() && i < 60; i++) s += (char)('A' + order[i].second);
    g->sample(fmt("%d threads, %zu events, %zu switches: %s", threads, order.size(), switches, s.c_str()));
  }
  if (g->violations) return;

  // one finished result, read by everyone
  Item it = draw_item(r);
  Bytes b;
  {
    RefState st;
    vector<Bytes> nals;
    for (auto& x : gen_history(r, (int)r.range(3, 10), st, 5, 5)) if (!x.empty()) nals.push_back(wire(x));
    b = annexb(r, nals, nullptr);
  }
  Exact e(b);
  H264BitstreamParserState st;
  auto bs = H264BitstreamParser::ParseBitstream(e.data(), e.n, &st, it.po);
  if (!bs) return;
  const auto& shared = *bs;
  auto look = [&](Rng q) {
    u64 h2 = 3;
    for (auto& n : shared.nal_units) {
      h2 = fnvs(capture([&](FILE* fp) { n->fdump(fp, -1, it.po); }), h2);
      h2 = mix(h2, digest(flat_nal(*n)));
      if (n->nal_unit_payload) h2 = mix(h2, n->nal_unit_payload->IsPayloadParsed(n->nal_unit_header->nal_unit_type));
      if (n->nal_unit_payload && n->nal_unit_payload->sps && n->nal_unit_payload->sps->sps_data) {
        auto& sd = *n->nal_unit_payload->sps->sps_data;
        int w = 0, hh = 0;
        sd.getResolution(&w, &hh);
        h2 = mix(h2, (u64)w * 100000 + (u64)hh + sd.getChromaArrayType());
        if (sd.vui_parameters) {
          float f = sd.vui_parameters->getFramerate();
          h2 = fnv(&f, sizeof f, h2);
        }
      }
      if (n->checksum) h2 = fnvs(n->checksum->GetPrintableChecksum(), h2);
      if (q.chance(20)) sched_yield();
    }
    h2 = fnvs(capture([&](FILE* fp) { shared.fdump(fp, 0, it.po); }), h2);
    return mix(h2, digest(flat_state(st)));
  };
  vector<u64> seen((size_t)threads);
  vector<std::thread> rd;
  std::atomic<int> up{0};
  for (int t = 0; t < threads; t++)
    rd.emplace_back([&, t] {
      up.fetch_add(1, std::memory_order_relaxed);
      while (up.load(std::memory_order_relaxed) < threads) sched_yield();
      seen[(size_t)t] = look(Rng((u64)t + 5));
    });
  for (auto& t : rd) t.join();
  u64 one = look(Rng(1));  // afterwards: the threads come first to everything
  for (int t = 0; t < threads; t++)
    CHECK_(seen[(size_t)t] == one, "P17:shared-read", "thread %d reads something else from the shared result", t);
  g->count("shared_reads", (u64)threads);
}
