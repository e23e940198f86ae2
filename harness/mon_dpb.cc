// P22: the DPB simulation script, run for real over generated streams of
// frames, against the reference marking process of the standard (8.2.5) and
// the list construction of P frames (8.2.4), simulated here on the fly.
#include "tool_common.h"

namespace {
struct Pic {
  i64 fn;
  i64 ltr = -1;  // LongTermFrameIdx, -1: short-term
  int serial = 0;
};
struct Row {
  int gop, gop_frame;
  string type;
  i64 fn, ref_idc, maxfn, M;
  bool judged;  // is the list specified
  string refs, before, mmco, after;
};
struct Pps {
  i64 id, l0, l1;
  bool cabac, deblock;
};

string show(const Pic& p) { return p.ltr < 0 ? fmt("fn=%d/STR", (int)p.fn) : fmt("fn=%d/LTR[%d]", (int)p.fn, (int)p.ltr); }
string show_set(vector<Pic> v) {
  vector<string> s;
  for (auto& p : v) s.push_back(show(p));
  std::sort(s.begin(), s.end());
  string o;
  for (auto& x : s) o += (o.empty() ? "" : ";") + x;
  return o;
}
string sorted_cell(const string& c) {
  vector<string> s;
  string cur;
  for (char ch : c + ";") {
    if (ch != ';') cur += ch;
    else {
      if (!cur.empty()) s.push_back(cur);
      cur.clear();
    }
  }
  std::sort(s.begin(), s.end());
  string o;
  for (auto& x : s) o += (o.empty() ? "" : ";") + x;
  return o;
}
void tail(Rng& r, Syn& s) {
  for (int k = (int)r.below(20); k--;) s.put(r.next() & 255, 8);
  s.trailing();
}
void put_se(Syn& s, i64 v) { s.put_ue(v > 0 ? (u64)(2 * v - 1) : (u64)(-2 * v)); }

// a sequence parameter set and what belongs to it
struct Seq {
  i64 log2fn, maxfn, M, poc, log2lsb, sps_id;
  bool mbs_only;
  Bytes sps;
  map<i64, Pps> pps;
};

struct Maker : Seq {
  Rng& r;
  Node tmp;
  vector<Bytes> nals;
  vector<Row> rows;
  bool several = false;   // sequence parameter sets
  map<i64, Seq> others;   // by id, not the one in use
  int switches = 0;
  // decoder
  vector<Pic> dpb;
  i64 lt_plus1 = 0;  // MaxLongTermFrameIdx + 1
  i64 prev_ref_fn = 0;
  int gop = -1, gop_frame = 0, serial = 0;
  int seen_ops[8] = {};
  int mods = 0, wraps = 0, dupes = 0, windows = 0;

  explicit Maker(Rng& x) : r(x) {}

  i64 wrap(const Pic& p, i64 cur) const { return p.fn > cur ? p.fn - maxfn : p.fn; }
  // 8.2.5.3: a stream that predicts from no picture still holds the last one
  i64 room_for() const { return std::max<i64>(M, 1); }
  int strs() const {
    int n = 0;
    for (auto& p : dpb) n += p.ltr < 0;
    return n;
  }

  void make_sps() {
    Syn s = Syn::mk(r, &tmp);
    s.put(0x67, 8);
    s.put(r.chance(50) ? 66 : 77, 8);
    s.put(0, 8);
    s.put((u64)r.pick(vector<int>{10, 30, 40, 51}), 8);
    s.put_ue((u64)sps_id);
    s.put_ue((u64)log2fn - 4);
    s.put_ue((u64)poc);
    if (poc == 0) s.put_ue((u64)log2lsb - 4);
    if (poc == 1) {
      s.put(1, 1);
      put_se(s, r.range(-3, 3));
      put_se(s, r.range(-3, 3));
      int n = (int)r.below(3);
      s.put_ue((u64)n);
      while (n--) put_se(s, r.range(-5, 5));
    }
    s.put_ue((u64)M);
    s.put(0, 1);
    s.put_ue((u64)r.below(20));
    s.put_ue((u64)r.below(20));
    s.put(mbs_only, 1);
    if (!mbs_only) s.put(r.chance(50), 1);
    s.put(1, 1);
    s.put(0, 1);
    s.put(0, 1);
    s.trailing();
    sps = s.out;
  }
  void send_pps(i64 id) {
    Pps p;
    p.id = id;
    p.l0 = r.range(0, r.chance(50) ? 2 : 15);
    p.l1 = r.range(0, 2);
    p.cabac = r.chance(50);
    p.deblock = r.chance(50);
    pps[id] = p;
    for (auto& o : others) o.second.pps.erase(id);
    Syn s = Syn::mk(r, &tmp);
    s.put(0x68, 8);
    s.put_ue((u64)id);
    s.put_ue((u64)sps_id);
    s.put(p.cabac, 1);
    s.put(0, 1);
    s.put_ue(0);
    s.put_ue((u64)p.l0);
    s.put_ue((u64)p.l1);
    s.put(0, 1);
    s.put(0, 2);
    put_se(s, r.range(-5, 5));
    put_se(s, r.range(-5, 5));
    put_se(s, r.range(-5, 5));
    s.put(p.deblock, 1);
    s.put(0, 1);
    s.put(0, 1);
    s.trailing();
    nals.push_back(s.out);
  }
  void filler() {
    Syn s = Syn::mk(r, &tmp);
    switch (r.below(4)) {
      case 0: s.put(0x09, 8); s.put(r.below(8), 3); break;
      case 1: s.put(0x06, 8); for (int k = (int)r.range(1, 12); k--;) s.put(r.next() & 255, 8); break;
      case 2: s.put(0x0c, 8); for (int k = (int)r.below(9); k--;) s.put(255, 8); break;
      default: s.put(0x0a, 8);
    }
    s.trailing();
    nals.push_back(s.out);
  }
  void picture() {
    bool idr = gop < 0 || r.chance(several ? 12 : 6);
    i64 fn = (prev_ref_fn + 1) % maxfn;
    // a short-term picture with the same frame_num would have to go first
    for (auto& p : dpb)
      if (p.ltr < 0 && p.fn == fn) idr = true;
    if (idr) {
      fn = 0;
      dpb.clear();
      lt_plus1 = 0;
      gop++;
      gop_frame = 0;
      if (several && gop > 0 && r.chance(40)) change_sequence();
      else if (r.chance(50)) nals.push_back(sps);
      if (r.chance(40)) send_pps(r.pick(pps_ids()));
    } else if (r.chance(4)) {
      send_pps(r.pick(pps_ids()));
    }
    if (!idr && fn == 0) wraps++;
    const Pps& pp = pps[r.pick(pps_ids())];
    int base;  // 0 P, 1 B, 2 I, 3 SP, 4 SI
    if (idr || dpb.empty() || !M) base = r.chance(95) ? 2 : 4;
    else base = r.chance(70) ? 0 : r.chance(50) ? 2 : r.chance(60) ? 1 : r.chance(70) ? 3 : 4;
    i64 ref_idc = idr ? r.range(1, 3) : r.chance(22) ? 0 : r.range(1, 3);
    bool full = (i64)dpb.size() >= room_for();
    // nothing to slide out: needs an operation, or is not a reference
    bool must_adapt = ref_idc && !idr && full && strs() == 0;
    Row row;
    row.maxfn = maxfn;
    row.M = M;
    row.gop = gop;
    row.gop_frame = gop_frame++;
    static const char* names[] = {"P", "B", "I", "SP", "SI"};
    row.type = idr ? "IDR" : names[base];
    row.fn = fn;
    row.ref_idc = ref_idc;
    row.before = show_set(dpb);
    row.judged = base != 1;

    // list 0
    bool override = r.chance(40);
    i64 active = 1 + (override ? r.range(0, r.chance(70) ? 2 : 15) : pp.l0);
    vector<std::pair<int, i64>> cmds;
    if ((base == 0 || base == 3) && !dpb.empty()) {
      vector<const Pic*> l, lt;
      for (auto& p : dpb) (p.ltr < 0 ? l : lt).push_back(&p);
      std::sort(l.begin(), l.end(), [&](const Pic* a, const Pic* b) { return wrap(*a, fn) > wrap(*b, fn); });
      std::sort(lt.begin(), lt.end(), [](const Pic* a, const Pic* b) { return a->ltr < b->ltr; });
      l.insert(l.end(), lt.begin(), lt.end());
      l.resize((size_t)active + 1, nullptr);
      l[(size_t)active] = nullptr;
      if (r.chance(45)) {
        int n = (int)r.range(1, std::min<i64>(active, r.chance(80) ? 3 : 16));
        i64 pred = fn;
        vector<int> used;
        for (int k = 0; k < n; k++) {
          const Pic& t = dpb[r.below(dpb.size())];
          if (std::find(used.begin(), used.end(), t.serial) != used.end()) dupes++;
          used.push_back(t.serial);
          if (t.ltr >= 0) {
            cmds.push_back({2, t.ltr});
          } else {
            i64 to = wrap(t, fn);
            if (r.chance(60)) {
              i64 d = ((pred - to) % maxfn + maxfn) % maxfn;
              if (!d) d = maxfn;
              cmds.push_back({0, d - 1});
            } else {
              i64 d = ((to - pred) % maxfn + maxfn) % maxfn;
              if (!d) d = maxfn;
              cmds.push_back({1, d - 1});
            }
            pred = ((to % maxfn) + maxfn) % maxfn;
          }
          // 8.2.4.3: insert, shift, drop the later copy
          for (size_t c = (size_t)active; c > (size_t)k; c--) l[c] = l[c - 1];
          l[(size_t)k] = &t;
          size_t w = (size_t)k + 1;
          for (size_t c = (size_t)k + 1; c <= (size_t)active; c++)
            if (l[c] != &t) l[w++] = l[c];
          while (w <= (size_t)active) l[w++] = nullptr;
        }
        mods++;
      }
      for (i64 k = 0; k < active; k++)
        if (l[(size_t)k]) row.refs += (row.refs.empty() ? "" : ";") + show(*l[(size_t)k]);
    }

    // marking
    vector<vector<i64>> ops;
    bool adapt = false, lt_flag = false;
    Pic cur;
    cur.fn = fn;
    cur.serial = serial++;
    if (idr) {
      lt_flag = M && r.chance(25);
      if (lt_flag) {
        cur.ltr = 0;
        lt_plus1 = 1;
      }
      row.mmco = lt_flag ? "IDR:LTR[0]" : "IDR:STR";
      dpb.push_back(cur);
    } else if (ref_idc) {
      adapt = must_adapt || r.chance(35);
      if (adapt) {
        bool five = r.chance(6), had4 = false, six = false;
        auto say = [&](const string& t) { row.mmco += (row.mmco.empty() ? "" : ";") + t; };
        auto drop_idx = [&](i64 idx) {
          for (size_t i = 0; i < dpb.size();)
            if (dpb[i].ltr == idx) dpb.erase(dpb.begin() + (long)i);
            else i++;
        };
        auto op1 = [&] {
          vector<size_t> c;
          for (size_t i = 0; i < dpb.size(); i++)
            if (dpb[i].ltr < 0) c.push_back(i);
          if (c.empty()) return;
          size_t i = r.pick(c);
          ops.push_back({1, fn - wrap(dpb[i], fn) - 1});
          say(fmt("MMCO1:rm_STR(fn=%d)", (int)dpb[i].fn));
          dpb.erase(dpb.begin() + (long)i);
        };
        auto op2 = [&] {
          vector<size_t> c;
          for (size_t i = 0; i < dpb.size(); i++)
            if (dpb[i].ltr >= 0) c.push_back(i);
          if (c.empty()) return;
          size_t i = r.pick(c);
          ops.push_back({2, dpb[i].ltr});
          say("MMCO2");
          dpb.erase(dpb.begin() + (long)i);
        };
        if (five && r.chance(50)) {
          ops.push_back({5});
          say("MMCO5:clear_all");
          dpb.clear();
          lt_plus1 = 0;
        } else
          five = false;
        for (int k = (int)r.below(5); k-- && !five;) {
          switch (r.below(4)) {
            case 0: op1(); break;
            case 1: op2(); break;
            case 2:
              if (lt_plus1) {
                vector<size_t> c;
                for (size_t i = 0; i < dpb.size(); i++)
                  if (dpb[i].ltr < 0) c.push_back(i);
                if (c.empty()) break;
                size_t i = r.pick(c);
                i64 idx = r.range(0, lt_plus1 - 1);
                ops.push_back({3, fn - wrap(dpb[i], fn) - 1, idx});
                say(fmt("MMCO3:STR(fn=%d)->LTR[%d]", (int)dpb[i].fn, (int)idx));
                int keep = dpb[i].serial;
                drop_idx(idx);
                for (auto& p : dpb)
                  if (p.serial == keep) p.ltr = idx;
                break;
              }
              // fall through
            default:
              if (!had4) {
                had4 = true;
                lt_plus1 = r.range(M && r.chance(80) ? 1 : 0, M);
                ops.push_back({4, lt_plus1});
                say(fmt("MMCO4:max_ltr_idx=%d", (int)lt_plus1 - 1));
                for (size_t i = 0; i < dpb.size();)
                  if (dpb[i].ltr >= lt_plus1) dpb.erase(dpb.begin() + (long)i);
                  else i++;
              }
          }
        }
        if (five && M && r.chance(50)) {
          lt_plus1 = r.range(1, M);
          ops.push_back({4, lt_plus1});
          say(fmt("MMCO4:max_ltr_idx=%d", (int)lt_plus1 - 1));
        }
        i64 idx6 = -1;
        if (lt_plus1 && r.chance(30)) {
          six = true;
          idx6 = r.range(0, lt_plus1 - 1);
        }
        auto room = [&] {
          i64 n = 0;
          for (auto& p : dpb) n += !(six && p.ltr == idx6);
          return n + 1 <= room_for();
        };
        while (!room()) {
          if (strs() && (r.chance(70) || strs() == (int)dpb.size())) op1();
          else op2();
        }
        if (six) {
          ops.push_back({6, idx6});
          say(fmt("MMCO6:self->LTR[%d]", (int)idx6));
          drop_idx(idx6);
          cur.ltr = idx6;
        }
        if (five) cur.fn = 0;
        dpb.push_back(cur);
        for (auto& o : ops) seen_ops[o[0]]++;
        if (ops.empty()) seen_ops[0]++;
        ops.push_back({0});
        if (five) fn = 0;
      } else {
        row.mmco = "sliding_window";
        if (full) {
          size_t at = 0;
          bool have = false;
          for (size_t i = 0; i < dpb.size(); i++)
            if (dpb[i].ltr < 0 && (!have || wrap(dpb[i], fn) < wrap(dpb[at], fn))) at = i, have = true;
          dpb.erase(dpb.begin() + (long)at);
          windows++;
        }
        dpb.push_back(cur);
      }
    }
    if (ref_idc) prev_ref_fn = fn;
    row.after = show_set(dpb);
    rows.push_back(row);

    // the slices of the picture: the first one, and sometimes more
    int n = r.chance(80) ? 1 : (int)r.range(2, 3);
    bool all_same = r.chance(50);
    for (int k = 0; k < n; k++) {
      Syn s = Syn::mk(r, &tmp);
      s.put((u64)(ref_idc << 5) | (idr ? 5 : 1), 8);
      s.put_ue(k ? (u64)k * (u64)r.range(1, 9) : 0);
      s.put_ue((u64)base + (all_same ? 5 : 0));
      s.put_ue((u64)pp.id);
      s.put((u64)row.fn, (int)log2fn);
      if (!mbs_only) s.put(0, 1);
      if (idr) s.put_ue((u64)gop & 7);
      if (poc == 0) s.put(r.next() & ((1ull << log2lsb) - 1), (int)log2lsb);
      if (base == 1) s.put(r.next() & 1, 1);
      if (base == 0 || base == 1 || base == 3) {
        s.put(override, 1);
        if (override) {
          s.put_ue((u64)active - 1);
          if (base == 1) s.put_ue((u64)r.below(3));
        }
        s.put(!cmds.empty(), 1);
        if (!cmds.empty()) {
          for (auto& c : cmds) {
            s.put_ue((u64)c.first);
            s.put_ue((u64)c.second);
          }
          s.put_ue(3);
        }
        if (base == 1) {
          bool m = r.chance(30);
          s.put(m, 1);
          if (m) {
            s.put_ue(0);
            s.put_ue(r.below(4));
            s.put_ue(3);
          }
        }
      }
      if (ref_idc) {
        if (idr) {
          s.put(r.next() & 1, 1);
          s.put(lt_flag, 1);
        } else {
          s.put(adapt, 1);
          for (auto& o : ops)
            for (i64 v : o) s.put_ue((u64)v);
        }
      }
      if (pp.cabac && base != 2 && base != 4) s.put_ue(r.below(3));
      put_se(s, r.range(-3, 3));
      if (base == 3) s.put(r.next() & 1, 1);
      if (base == 3 || base == 4) put_se(s, r.range(-3, 3));
      if (pp.deblock) {
        i64 d = r.range(0, 2);
        s.put_ue((u64)d);
        if (d != 1) {
          put_se(s, r.range(-6, 6));
          put_se(s, r.range(-6, 6));
        }
      }
      tail(r, s);
      nals.push_back(s.out);
    }
    if (r.chance(10)) filler();
  }
  vector<i64> pps_ids() {
    vector<i64> v;
    for (auto& p : pps) v.push_back(p.first);
    return v;
  }
  void stream(int n) {
    sps_id = r.chance(60) ? 0 : r.range(0, 31);
    sequence();
    if (r.chance(20)) filler();
    nals.push_back(sps);
    send_pps(r.range(0, 3));
    if (r.chance(50)) send_pps(r.range(0, 255));
    if (several && r.chance(50)) {  // another one, sent and not used yet
      Seq was = *this;
      another();
      Seq other = *this;
      others.erase(was.sps_id);
      Seq::operator=(was);
      for (auto& p : other.pps) pps.erase(p.first);
      others[other.sps_id] = other;
      if (pps.empty()) send_pps(r.range(0, 255));
    }
    while (n--) picture();
  }
  // a new sequence parameter set, with an id not in use, and a picture parameter set
  void another() {
    others[sps_id] = *this;
    pps.clear();
    do sps_id = r.chance(60) ? r.range(0, 3) : r.range(0, 31);
    while (others.count(sps_id));
    sequence();
    nals.push_back(sps);
    send_pps(r.range(0, r.chance(50) ? 3 : 255));
  }
  // before an IDR picture
  void change_sequence() {
    switches++;
    if (!others.empty() && (others.size() > 2 || r.chance(60))) {  // one sent before
      auto it = others.begin();
      std::advance(it, (long)r.below(others.size()));
      Seq to = it->second;
      others.erase(it);
      others[sps_id] = *this;
      Seq::operator=(to);
      if (r.chance(30)) nals.push_back(sps);
      if (pps.empty()) send_pps(r.range(0, 255));
    } else if (r.chance(50)) {  // the same id, other contents
      sequence();
      nals.push_back(sps);
      for (i64 id : pps_ids()) send_pps(id);
    } else {
      another();
    }
  }
  void sequence() {
    log2fn = r.chance(70) ? 4 : r.range(5, 8);
    maxfn = 1 << log2fn;
    M = r.chance(5) ? 0 : r.chance(60) ? r.range(1, 4) : r.range(1, 10);  // 0: intra only
    poc = r.range(0, 2);
    log2lsb = r.range(4, 8);
    mbs_only = r.chance(80);
    make_sps();
  }
};
}  // namespace

MODULE(P22, "a picture of a stream run through the DPB script, distinct by type, reference lists, marking operations and DPB contents") {
  string tool = need("P13_TOOL"), dir = need("P21_DIR");
  Maker m(r);
  bool wild = r.chance(6);
  m.several = !wild && r.chance(35);
  m.stream((int)r.range(1, r.chance(70) ? 40 : 120));
  if (wild) {  // more reference pictures than the stream says it needs
    Bytes was = m.sps;
    m.M = r.range(0, std::max<i64>(m.M - 1, 0));
    m.make_sps();
    for (auto& x : m.nals)
      if (x == was) x = m.sps;
  }
  vector<Bytes> nals;
  for (auto& x : m.nals) nals.push_back(wire(x));
  int spoil = r.chance(6) ? (int)r.range(1, 3) : 0;
  if (spoil == 1 && !nals.empty()) {  // a slice that cannot be parsed
    for (size_t i = 0; i < nals.size(); i++)
      if (((nals[i][0] & 31) == 1 || (nals[i][0] & 31) == 5) && (r.chance(20) || i + 1 == nals.size())) {
        nals[i].resize(2);
        nals[i][1] = 0x80;
        break;
      }
  }
  Bytes b = annexb(r, nals, nullptr);
  Reading rd = read_units(b, -1);
  if (spoil == 2) b.clear();
  int v = rd.verdict(false);
  if (!spoil && v != 0) {
    fprintf(stderr, "P22 generator: verdict %d\n", v);
    abort();
  }
  if (spoil == 1 && v <= 0) return;
  string in = g->scratch + "/" + r.pick(vector<string>{"a.264", "a b.h264", "x"});
  unlink(in.c_str());
  if (spoil != 3) put_file(in, b);
  string out;
  vector<string> args = {"python3", "-B", dir + "/h264nal-dpb_parse.py", r.chance(50) ? "-i" : "--input", in, "--h264nal-path", tool};
  if (r.chance(50)) {
    out = g->scratch + "/dpb.csv";
    unlink(out.c_str());
    if (!spoil && r.chance(50)) put_file(out, Bytes(r.below(9000), 'w'));  // replaced
    args.insert(args.end(), {r.chance(50) ? "-o" : "--output", out});
  }
  Ran x = run(args);
  string text = x.out;
  bool have = out.empty() ? !x.out.empty() : get_file(out, &text);
  if (!out.empty()) unlink(out.c_str());
  unlink(in.c_str());
  if (spoil) {
    CHECK_(x.status != 0 && x.status != -2 && !have, "P22:unusable", "input the tool cannot use (%s): status %d, output %zu bytes",
           spoil == 1 ? "broken slice" : spoil == 2 ? "empty file" : "no file", x.status, have ? text.size() : 0);
    g->count(fmt("unusable_%d", spoil));
    return;
  }
  CHECK_(x.status == 0, "P22:status", "status %d: %s; input %s", x.status, x.err.substr(x.err.size() > 400 ? x.err.size() - 400 : 0).c_str(), hex(b, 1500).c_str());
  if (g->violations) return;
  vector<vector<string>> t;
  bool ok = csv(text, &t);
  CHECK_(ok && t.size() == m.rows.size() + 1, "P22:rows", "%zu rows for %zu pictures", t.size(), m.rows.size());
  if (g->violations) return;
  if (wild) {
    g->count("runs_too_many_references");
    return;
  }
  for (size_t i = 0; i < m.rows.size() && !g->violations; i++) {
    Row& w = m.rows[i];
    map<string, string> got;
    for (size_t c = 0; c < t[0].size() && c < t[i + 1].size(); c++) got[t[0][c]] = t[i + 1][c];
    auto is = [&](const char* c, const string& have, const string& want) {
      CHECK_(got.count(c), string("P22:column:") + c, "no column %s", c);
      CHECK_(have == want, string("P22:") + c, "picture %zu (%s, frame_num %d, %s): %s is '%s', expected '%s'; MaxFrameNum %d, max_num_ref_frames %d; input %s", i,
             w.type.c_str(), (int)w.fn, w.mmco.c_str(), c, have.c_str(), want.c_str(), (int)w.maxfn, (int)w.M, hex(b, 1200).c_str());
    };
    auto same = [&](const char* c, const string& want) { is(c, got[c], want); };
    same("abs_frame", fmt("%zu", i));
    same("gop", fmt("%d", w.gop));
    same("gop_frame", fmt("%d", w.gop_frame));
    same("type", w.type);
    same("frame_num", fmt("%d", (int)w.fn));
    same("nal_ref_idc", fmt("%d", (int)w.ref_idc));
    same("ref", w.ref_idc ? "Y" : "N");
    is("dpb_before_decode", sorted_cell(got["dpb_before_decode"]), w.before);
    is("dpb_after_mmco", sorted_cell(got["dpb_after_mmco"]), w.after);
    if (w.judged) same("refs_used", w.refs);
    string ops = got["mmco"];  // what is said of a removed long-term picture is left open
    string o;
    for (size_t p = 0; p < ops.size(); p++) {
      o += ops[p];
      if (o.size() >= 5 && o.compare(o.size() - 5, 5, "MMCO2") == 0)
        while (p + 1 < ops.size() && ops[p + 1] != ';') p++;
    }
    is("mmco", o, w.mmco);
    g->count("pictures_" + w.type);
    g->seen(fnvs(w.type + "|" + w.refs + "|" + w.before + "|" + w.mmco + "|" + w.after));
  }
  g->count("runs");
  for (int k = 0; k < 7; k++) g->count(k ? fmt("mmco_%d", k) : string("adaptive_without_operations"), (u64)m.seen_ops[k]);
  g->count("sequence_changes", (u64)m.switches);
  g->count("list_modifications", (u64)m.mods);
  g->count("picture_listed_twice", (u64)m.dupes);
  g->count("frame_num_wraps", (u64)m.wraps);
  g->count("sliding_window_removals", (u64)m.windows);
  if (r.chance(3)) g->sample(fmt("%zu pictures, MaxFrameNum %d, max_num_ref_frames %d: last DPB %s", m.rows.size(), (int)m.maxfn, (int)m.M, m.rows.back().after.c_str()));
}
