// P13: the h264nal command line tool, run for real, against the library's own
// dump of the same bytes and the model's verdict.
// P21: the stream splitting and conformance scripts, run for real, against
// the model's reading of the stream.
#include "tool_common.h"
#include <sstream>

static vector<string> lines(const string& s, bool* ended) {
  vector<string> v;
  string cur;
  *ended = s.empty() || s.back() == '\n';
  for (char c : s) {
    if (c == '\n') {
      v.push_back(cur);
      cur.clear();
    } else
      cur += c;
  }
  if (!cur.empty()) v.push_back(cur);
  return v;
}
static string squeeze(const string& s) {
  string o;
  bool sp = true;
  for (char c : s) {
    if (c == ' ' || c == '\t') {
      if (!sp) o += ' ';
      sp = true;
    } else {
      o += c;
      sp = false;
    }
  }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}
static string diff(const string& want, const string& got) {
  bool e1, e2;
  auto a = lines(want, &e1), b = lines(got, &e2);
  if (!e2) return "the output does not end with a newline";
  for (size_t i = 0; i < a.size() || i < b.size(); i++) {
    if (i >= a.size()) return fmt("%zu extra lines, first: ", b.size() - a.size()) + b[i].substr(0, 120);
    if (i >= b.size()) return fmt("%zu lines missing, first: ", a.size() - b.size()) + a[i].substr(0, 120);
    string x = squeeze(a[i]), y = squeeze(b[i]);
    if (x != y) {
      size_t k = 0;
      while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
      k = k > 30 ? k - 30 : 0;
      return fmt("line %zu: '%s' instead of '%s'", i, y.substr(k, 90).c_str(), x.substr(k, 90).c_str());
    }
  }
  return "";
}

// ---- streams -----------------------------------------------------------------------
static vector<Bytes> clean_or_not(Rng& r, int* clean) {
  GenOpt go;
  go.pool = r.chance(80) ? (int)r.range(1, 3) : 0;
  RefState st;
  *clean = (int)r.below(10);  // 0..4: only units that parse; 5..6 one flaw; else anything
  int n = (int)r.range(1, 14);
  vector<Bytes> v;
  if (*clean < 7) {
    if (r.chance(30)) go.weights = weights({{7, 3}, {8, 4}, {15, 4}, {14, 3}, {20, 10}, {1, 4}, {5, 3}, {6, 1}, {9, 1}});
    int tries = 0;
    while ((int)v.size() < n && tries++ < 300) {
      GenOpt x = go;
      static const int t[3] = {7, 8, 15};
      if (v.size() < 3 && r.chance(70)) x.type = t[v.size()];
      GenNal g1 = gen_nal(r, st, x);
      RefState t2 = st;
      RefNal f = ref_decode(g1.raw, t2);
      if (f.unspec || f.unimpl || !f.hdr_ok || (f.attempted() && !f.payload_ok)) continue;
      st = t2;
      v.push_back(g1.raw);
    }
    if (*clean >= 5 && !v.empty()) {  // exactly one unit is spoiled, anywhere
      size_t k = r.below(v.size());
      if (r.chance(50)) mutate(r, v[k]);
      else {
        GenOpt x = go;
        x.fault = true;
        x.type = v[k].empty() ? 7 : v[k][0] & 31;
        v[k] = gen_nal(r, st, x).raw;
      }
    }
  } else {
    v = gen_history(r, n, st, 15, 20, go);
  }
  if (r.chance(6)) {
    Bytes j;
    for (size_t k = r.below(30); k--;) j.push_back((u8)r.next());
    v.insert(v.begin() + (long)r.below(v.size() + 1), j);
  }
  return v;
}

// ---- P13 -----------------------------------------------------------------------------
static void cli_errors(Rng& r, const string& tool, bool small) {
  string d = g->scratch, good = d + "/good.264";
  put_file(good, Bytes{0, 0, 1, 0x09, 0x10, 0, 0, 1, 0x0c, 0xff});
  vector<string> a = {tool};
  string what;
  auto in = [&] {
    a.push_back("-i");
    a.push_back(good);
  };
  static const vector<int> silent = {0, 1, 2, 3, 4, 5, 8, 9};  // a build that prints nothing opens no output
  switch (small ? r.pick(silent) : (int)r.below(12)) {
    case 0: what = "missing input file"; a.insert(a.end(), {"-i", d + "/absent.264"}); break;
    case 1: what = "directory as input"; a.insert(a.end(), {"-i", d}); break;
    case 2: what = "no arguments"; break;
    case 3: what = "unknown option"; in(); a.push_back(r.chance(50) ? "--frobnicate" : "-Z"); break;
    case 4: {
      what = "bad nalu length";
      in();
      static const vector<string> bad = {"x", "4x", "-2", "-77", "99999999999", "2147483648", "1.5", "0x", "9223372036854775808"};
      string v = r.pick(bad);
      if (r.chance(50)) a.push_back("--nalu-length-bytes=" + v);
      else a.insert(a.end(), {"--nalu-length-bytes", v});
      break;
    }
    case 5: {
      what = "bad frame rate";
      in();
      static const vector<string> bad = {"x", "30fps", "-1", "99999999999", "2147483648", "29.97"};
      a.insert(a.end(), {"--frames-per-second", r.pick(bad)});
      break;
    }
    case 6: what = "unwritable output"; in(); a.insert(a.end(), {"-o", d + "/no/such/dir/out"}); break;
    case 7: what = "output is a directory"; in(); a.insert(a.end(), {"-o", d}); break;
    case 8: what = "missing value"; in(); a.push_back(r.pick(vector<string>{"-o", "--nalu-length-bytes", "--frames-per-second", "--outfile"})); break;
    case 10: what = "output device full"; in(); a.insert(a.end(), {"-o", "/dev/full"}); break;
    case 11:
      what = "standard output full";
      in();
      a.insert(a.begin(), {"/bin/sh", "-c", "exec \"$0\" \"$@\" > /dev/full"});
      break;
    default: what = "help"; if (r.chance(50)) in(); a.push_back(r.chance(50) ? "-h" : "--help"); break;
  }
  Ran x = run(a);
  CHECK_(x.status > 2 && x.status < 256, "P13:unusable:" + what, "%s: exit status %d for: %s; stderr: %s", what.c_str(), x.status, joined(a).c_str(),
         x.err.substr(0, 300).c_str());
  CHECK_(x.out.find("nal_unit") == string::npos, "P13:unusable-output:" + what, "%s: printed NAL units: %s", what.c_str(), x.out.substr(0, 100).c_str());
  g->count("unusable: " + what);
  g->seen(fnvs(what + joined(a)));
}

MODULE(P13, "a run of the tool, distinct by options, framing, exit status, number of units and their types") {
  string tool = need("P13_TOOL");
  const bool small = getenv("P13_SMALL") != nullptr;  // the build without dumps
  if (r.chance(12)) return cli_errors(r, tool, small);
  int clean;
  auto raws = clean_or_not(r, &clean);
  vector<Bytes> nals;
  for (auto& x : raws) {
    Bytes w = wire(x);
    if (!w.empty()) nals.push_back(w);
  }
  if (!nals.empty() && r.chance(2)) {  // the same unit so often that a small counter is back at zero
    size_t i = r.below(nals.size());
    for (size_t k = 0; k < nals.size() && r.chance(60); k++)
      if ((nals[k][0] & 0x1f) == 14 || (nals[k][0] & 0x1f) == 20) i = k;
    size_t k = (size_t)r.range(1, 3) * 256;
    if (r.chance(4)) k = 65536;
    if (nals[i].size() * k < 2000000) {
      nals.insert(nals.begin() + (long)i, k - 1, nals[i]);
      g->count("streams_of_one_unit_repeated");
      if (k > 60000) g->count("streams_of_one_unit_repeated_65536_times");
    }
  }
  if (!nals.empty() && r.chance(2)) {  // a unit whose length needs more than 16 bits
    size_t i = r.below(nals.size());
    for (size_t k = 0; k < nals.size() && r.chance(70); k++)
      if ((nals[k][0] & 0x1f) == 1 || (nals[k][0] & 0x1f) == 5) i = k;
    for (size_t k = (size_t)r.range(65400, r.chance(50) ? 66000 : 140000); k-- > nals[i].size();) nals[i].push_back((u8)r.range(4, 255));
    g->count("units_of_about_65536_bytes_or_more");
  }
  int width = -1;
  if (r.chance(30)) width = (int)r.range(0, 8);
  Bytes b;
  if (width < 0) b = annexb(r, nals, nullptr);
  else if (width == 0) b = nals.empty() ? Bytes() : nals[r.below(nals.size())];
  else {
    if (width == 1)
      for (auto& n : nals)
        if (n.size() > 255) n.resize(255);
    if (width == 2)
      for (auto& n : nals)
        if (n.size() > 65535) n.resize(65535);
    b = length_framed(nals, (size_t)width, nullptr);
  }
  if (clean >= 8 && r.chance(40)) mutate(r, b);
  if (b.size() > 0 && r.chance(5)) b.resize(r.below(b.size()));
  if (width < 0 && r.chance(12)) {  // a long unit, to end at or beside a whole number of read chunks
    size_t goal = (size_t)r.range(1, 4) * 4096 + (size_t)r.below(3) - 1;
    if (b.size() + 8 < goal) {
      for (u8 x : {0, 0, 1, r.chance(50) ? 12 : 6}) b.push_back((u8)x);
      while (b.size() < goal) b.push_back((u8)r.range(4, 255));
      g->count("chunk_sized_inputs");
    }
  }
  if (width != 0 && r.chance(1)) {  // more units than fit in small counters
    int c = (int)r.range(100, 700);
    Bytes extra;
    vector<Bytes> u;
    for (int k = 0; k < c; k++) u.push_back({(u8)r.pick(vector<int>{0x09, 0x0c, 0x06, 0x67}), (u8)r.range(16, 255)});
    if (width < 0) {
      for (auto& x : u) {
        for (u8 y : {0, 0, 1}) b.push_back(y);
        b.insert(b.end(), x.begin(), x.end());
      }
    } else {
      Bytes f = length_framed(u, (size_t)width, nullptr);
      b.insert(b.begin(), f.begin(), f.end());
    }
    g->count("streams_of_many_units");
  }
  Reading rd = read_units(b, width);

  // arguments
  vector<string> opt;
  struct Flag {
    const char* name;
    bool on;
  };
  vector<Flag> fl = {{"as-one-line", true}, {"add-offset", false}, {"add-length", false}, {"add-parsed-length", false},
                     {"add-checksum", false}, {"add-resolution", false}, {"add-contents", false}};
  string tag;
  for (int k = (int)r.below(8); k--;) {
    size_t i = r.below(fl.size());
    fl[i].on = r.chance(70);
    opt.push_back(string(fl[i].on ? "--" : "--no-") + fl[i].name);
  }
  int mode = 0;  // 1: lengths
  if (r.chance(30)) {
    mode = 1;
    if (r.chance(15)) opt.push_back("--dump-all");
    opt.push_back("--dump-length");
    if (r.chance(15)) {
      opt.push_back("--dump-all");
      mode = 0;
    }
  }
  i64 fps = 30;
  if (r.chance(25)) {
    fps = r.pick(vector<i64>{0, 1, 24, 25, 60, 120, 1000000, 2147483647});
    opt.push_back(fmt("--frames-per-second=%" PRId64, fps));
  }
  if (width >= 0) opt.push_back(fmt("--nalu-length-bytes=%d", width));
  else if (r.chance(15)) opt.push_back("--nalu-length-bytes=-1");
  int debug = 0;
  for (int k = (int)r.below(10); k > 6; k--) {
    opt.push_back(r.chance(50) ? "-d" : "--debug");
    debug++;
  }
  if (r.chance(10)) {
    opt.push_back("--quiet");
    debug = 0;
  }
  // files
  bool in_scratch = false;
  string in = g->scratch + "/in.264", outp, stdin_from;
  put_file(in, b);
  bool from_stdin = r.chance(15);
  if (from_stdin) {
    stdin_from = in;
    opt.insert(opt.end(), {"-i", "-"});
  } else if (r.chance(50)) opt.insert(opt.end(), {"-i", in});
  else opt.push_back("--infile=" + in);
  if (r.chance(40)) {
    string name = r.pick(vector<string>{"o.txt", "o.txt", "-o.txt", "--", "o o"});
    bool relative = name[0] == '-' || r.chance(30);
    outp = g->scratch + "/" + name;
    unlink(outp.c_str());
    if (relative) in_scratch = true;
    if (r.chance(50)) put_file(outp, Bytes(5000, 'x'));  // replaced, not appended to
    opt.insert(opt.end(), {r.chance(50) ? "-o" : "--outfile", relative ? name : outp});
  } else if (r.chance(15)) opt.insert(opt.end(), {"-o", "-"});
  vector<string> args = {tool};
  args.insert(args.end(), opt.begin(), opt.end());

  // what the library says
  ParsingOptions po;
  bool contents = fl[6].on, one = fl[0].on;
  po.add_offset = fl[1].on || contents;
  po.add_length = fl[2].on || contents || mode == 1;
  po.add_parsed_length = fl[3].on;
  po.add_checksum = fl[4].on;
  po.add_resolution = fl[5].on;
  H264BitstreamParserState st;
  Exact e(b);
  auto bs = width < 0 ? H264BitstreamParser::ParseBitstream(e.data(), e.n, &st, po)
                      : H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.n, (size_t)width, &st, po);
  if (!bs) return;
  string want = capture([&](FILE* fp) {
    if (mode == 0) {
      for (auto& n : bs->nal_units) {
        n->fdump(fp, one ? -1 : 0, po);
        if (contents) {
          fprintf(fp, " contents {");
          for (size_t i = 0; i < n->length; i++) fprintf(fp, " %02x", b[n->offset + i]);
          fprintf(fp, " }");
        }
        fprintf(fp, "\n");
      }
      return;
    }
    fprintf(fp, "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_mb_in_slice\n");
    // frames: a slice that starts at macroblock 0 begins one
    i64 bytes = 0, frame = 0, last = -1, num = 0;
    auto flush = [&] {
      if (bytes > 0) fprintf(fp, ",%" PRId64 ",%" PRId64 ",frame,,%" PRId64 ",\n", frame, last, bytes * 8 * fps);
    };
    for (auto& n : bs->nal_units) {
      i64 type = n->nal_unit_header->nal_unit_type, mb = -1;
      bool slice = (type >= 1 && type <= 5) || type == 19 || type == 20;
      if (slice) {
        auto& sl = n->nal_unit_payload->slice_layer_without_partitioning_rbsp;
        mb = sl && sl->slice_header ? (i64)(int)sl->slice_header->first_mb_in_slice : 0;
        if (mb == 0 && bytes > 0) {
          flush();
          frame++;
          bytes = 0;
        }
        last = type;
        bytes += (i64)n->length;
      }
      fprintf(fp, "%" PRId64 ",%" PRId64 ",%" PRId64 ",%s,%zu,,%s\n", num, frame, type, nut_name((u64)type), n->length,
              slice ? fmt("%" PRId64, mb).c_str() : "");
      num++;
    }
    flush();
  });

  bool piped = from_stdin && r.chance(60);
  if (in_scratch) run_in = g->scratch;
  Ran x = run(args, stdin_from, piped ? &b : nullptr, r.next());
  string line = joined(args);
  if (b.empty() && !from_stdin) {  // an empty file: nothing to print, status not specified
    CHECK_((x.status == 0 || x.status > 2) && x.status < 256 && x.out.find("nal_unit {") == string::npos, "P13:empty-file", "status %d: %s", x.status, line.c_str());
    g->count("empty_file");
    return;
  }
  CHECK_(x.status >= 0 && x.status <= 2, "P13:died", "the tool ended with status %d: %s; stderr: %s", x.status, line.c_str(), x.err.substr(0, 1500).c_str());
  if (g->violations) return;
  int v = rd.verdict(width >= 0);
  CHECK_(v < 0 || x.status == v, fmt("P13:status:%d-for-%d", x.status, v),
         "exit status %d, expected %d (%d units dropped, %d unparsed, %d unimplemented structures): %s; input %s", x.status, v, rd.dropped, rd.unparsed,
         rd.unimpl, line.c_str(), hex(b, 300).c_str());
  if (v < 0 && !rd.unknown) CHECK_(x.status != 2, "P13:status:2-for-none", "exit status 2 without unimplemented syntax: %s", line.c_str());
  string got = x.out;
  if (small) {
    CHECK_(debug > 1 || x.out.empty(), "P13:small-output", "the small build printed '%s'", x.out.substr(0, 100).c_str());
    if (x.status) CHECK_(!x.err.empty(), "P13:silent-failure", "status %d without a message: %s", x.status, line.c_str());
    g->count(fmt("small_build_status_%d", x.status));
    g->seen(fnvs(fmt("small %d %d %zu %s", width, x.status, rd.units.size(), joined(opt).c_str())));
    return;
  }
  if (!outp.empty()) {
    bool ok = get_file(outp, &got);
    CHECK_(ok, "P13:no-output-file", "no output file: %s", line.c_str());
    CHECK_(debug > 1 || x.out.empty(), "P13:stray-stdout", "stdout not empty with -o: %s", x.out.substr(0, 100).c_str());
  } else if (debug > 1) {  // debug chatter first
    size_t p = got.find("options.outfile = ");
    p = p == string::npos ? p : got.find('\n', p);
    if (p != string::npos) got = got.substr(p + 1);
  }
  string d = diff(want, got);
  CHECK_(d.empty(), mode ? "P13:length-output" : "P13:output", "%s: %s; input %s", line.c_str(), d.c_str(), hex(b, 300).c_str());
  if (x.status) CHECK_(!x.err.empty(), "P13:silent-failure", "status %d without a message: %s", x.status, line.c_str());
  g->count(fmt("status_%d", x.status));
  g->count(mode ? "runs_dump_length" : "runs_dump_all");
  if (v >= 0) g->count(fmt("verdict_checked_%d", v));
  if (v >= 0 && rd.units.size() > 1 && rd.dropped + rd.unparsed == 1) g->count("one_bad_unit_among_good");
  g->count(width < 0 ? "annexb" : width == 0 ? "single" : "lengths");
  if (from_stdin) g->count(piped ? "stdin_pipe" : "stdin_file");
  if (!outp.empty()) g->count("output_file");
  if (contents && mode == 0) g->count("contents");
  g->count("units", bs->nal_units.size());
  u64 h = fnvs(fmt("%d %d %d %zu", mode, width, x.status, bs->nal_units.size()));
  for (auto& f : fl) h = h * 3 + f.on;
  for (auto& u : rd.units) h = h * 37 + (u64)u.f.type;
  g->seen(h);
  if (r.chance(2)) g->sample(fmt("%s -> status %d, %zu units, %zu bytes of output", line.c_str(), x.status, bs->nal_units.size(), got.size()));
}

// ---- P21 -----------------------------------------------------------------------------
static vector<Bytes> sized_stream(Rng& r, int n, bool spoil) {
  GenOpt go;
  go.pool = (int)r.range(1, 3);
  RefState st;
  vector<Bytes> v;
  vector<std::pair<i64, i64>> sizes;
  for (int k = (int)r.range(1, 3); k--;) sizes.push_back({r.range(0, 119), r.range(0, 67)});
  if (r.chance(30)) sizes.push_back({sizes[0].second, sizes[0].first});
  int tries = 0;
  while ((int)v.size() < n && tries++ < 400) {
    GenOpt x = go;
    if (r.chance(35) || v.empty()) x.type = 7;
    else if (r.chance(25)) x.type = 15;
    if (r.chance(80)) {
      auto s = r.pick(sizes);
      for (const char* p : {"sps.", "subset_sps."}) {
        x.force[string(p) + "sps_data.pic_width_in_mbs_minus1"] = s.first;
        x.force[string(p) + "sps_data.pic_height_in_map_units_minus1"] = s.second;
        if (r.chance(70)) {
          x.force[string(p) + "sps_data.frame_cropping_flag"] = 0;
          x.force[string(p) + "sps_data.frame_mbs_only_flag"] = 1;
        }
      }
    }
    if (r.chance(50)) {  // levels whose name depends on the profile and a flag
      i64 pi = r.pick(vector<i64>{44, 66, 77, 83, 86, 88, 100, 110, 118, 122, 128, 244});
      i64 le = r.pick(vector<i64>{9, 10, 11, 11, 12, 19, 51, 9}), c3 = r.chance(50);
      for (const char* p : {"sps.", "subset_sps."}) {
        x.force[string(p) + "sps_data.profile_idc"] = pi;
        x.force[string(p) + "sps_data.level_idc"] = le;
        x.force[string(p) + "sps_data.constraint_set3_flag"] = c3;
      }
    }
    GenNal g1 = gen_nal(r, st, x);
    RefState t2 = st;
    RefNal f = ref_decode(g1.raw, t2);
    if (f.unspec || f.unimpl || !f.hdr_ok || (f.attempted() && !f.payload_ok)) continue;
    st = t2;
    v.push_back(g1.raw);
  }
  if (spoil && !v.empty())
    for (int k = (int)r.range(1, 2); k--;) mutate(r, v[r.below(v.size())]);
  return v;
}

static void split_case(Rng& r, const string& tool, const string& dir) {
  bool spoil = r.chance(15);
  auto raws = sized_stream(r, (int)r.range(1, 24), spoil);
  if (r.chance(3)) {  // many segments
    auto more = raws;
    for (int k = 0; k < 20; k++) raws.insert(raws.end(), more.begin(), more.end());
  }
  vector<Bytes> nals;
  for (auto& x : raws)
    if (!x.empty()) nals.push_back(wire(x));
  Bytes b = annexb(r, nals, nullptr);
  if (b.empty()) return;
  string sub = g->scratch + "/" + r.pick(vector<string>{"d", "d.x", "d e"});
  mkdir(sub.c_str(), 0755);
  string base = r.pick(vector<string>{"foo", "foo.bar", "a b", "x.01"}), ext = r.pick(vector<string>{".264", ".h264", "", ".bin"});
  if (ext.empty()) base = r.chance(50) ? "foo" : "a b";
  string in = sub + "/" + base + ext;
  auto list = [&] {
    vector<string> v;
    DIR* dp = opendir(sub.c_str());
    while (dirent* e = readdir(dp)) {
      string n = e->d_name;
      if (n != "." && n != "..") v.push_back(n);
    }
    closedir(dp);
    std::sort(v.begin(), v.end());
    return v;
  };
  if (!g->violations)   for (auto& n : list()) unlink((sub + "/" + n).c_str());
  put_file(in, b);
  Reading rd = read_units(b, -1);
  vector<string> args = {"python3", "-B", dir + "/h264nal-split.py", r.chance(50) ? "-i" : "--input", in, "--h264nal-path", tool};
  for (int k = (int)r.below(12); k > 8; k--) args.push_back(r.chance(50) ? "-d" : "--debug");
  int v = rd.verdict(false);
  vector<size_t> cut = {0};
  i64 w = -1, h = -1;
  for (auto& u : rd.units)
    if (u.f.type == 7 && u.f.payload_ok) {
      SpsView s = SpsView::of(*u.f.n, "sps.sps_data.");
      if (w >= 0 && (s.width() != w || s.height() != h)) cut.push_back(u.at.start);
      w = s.width();
      h = s.height();
    }
  vector<string> want;
  if (cut.size() > 1)
    for (size_t i = 0; i < cut.size(); i++) want.push_back(base + fmt(".%02zu", i + 1) + ext);
  if (v == 0 && r.chance(30))
    for (auto& n : want)  // left by an earlier run: replaced
      if (r.chance(50)) {
        put_file(sub + "/" + n, Bytes(r.below(3000), 'z'));
        g->count("split_replaces_a_file");
      }
  if (r.chance(30)) {
    run_in = sub;
    for (auto& a : args)
      if (a == in) a = base + ext;
  }
  Ran x = run(args);
  auto files = list();
  string orig;
  get_file(in, &orig);
  CHECK_(orig == string(b.begin(), b.end()), "P21:split-input", "the input file was changed");
  files.erase(std::remove(files.begin(), files.end(), base + ext), files.end());
  g->count("split_runs");
  if (v < 0) {
    g->count("split_unspecified");
    if (!g->violations)   for (auto& n : list()) unlink((sub + "/" + n).c_str());
    return;
  }
  if (v > 0) {
    CHECK_(x.status != 0 && x.status != -2 && files.empty(), "P21:split-broken", "stream the tool rejects (verdict %d): status %d, %zu files written", v,
           x.status, files.size());
    g->count("split_rejected");
    if (!g->violations)   for (auto& n : list()) unlink((sub + "/" + n).c_str());
    return;
  }
  CHECK_(x.status == 0, "P21:split-status", "status %d: %s", x.status, x.err.substr(0, 400).c_str());
  vector<string> sorted = want;
  std::sort(sorted.begin(), sorted.end());
  CHECK_(files == sorted, "P21:split-files", "%zu files written, %zu expected", files.size(), want.size());
  cut.push_back(b.size());
  for (size_t i = 0; i < want.size() && !g->violations; i++) {
    string c;
    get_file(sub + "/" + want[i], &c);
    CHECK_(c == string(b.begin() + (long)cut[i], b.begin() + (long)cut[i + 1]), "P21:split-content",
           "segment %zu of %zu has %zu bytes, expected bytes %zu to %zu", i + 1, want.size(), c.size(), cut[i], cut[i + 1]);
  }
  g->count("split_segments", want.size());
  // what it says about the stream, if it says it
  size_t printed = 0, nsps = 0;
  for (auto& u : rd.units)
    if (u.f.hdr_ok) {
      printed++;
      nsps += u.f.type == 7;
    }
  std::istringstream es(x.err);
  for (string ln; std::getline(es, ln);) {
    size_t a = 0, c = 0;
    if (ln.find(" SPS)") != string::npos && sscanf(ln.c_str(), "Found %zu NAL units (%zu", &a, &c) == 2) {
      CHECK_(a == printed && c == nsps, "P21:split-says", "says '%s', there are %zu units, %zu of them SPSs", ln.c_str(), printed, nsps);
      g->count("split_says");
    }
    if (ln.find(" resolution change") != string::npos && sscanf(ln.c_str(), "Found %zu", &a) == 1)
      CHECK_(a + 1 == want.size(), "P21:split-says", "says '%s', there are %zu segments", ln.c_str(), want.size());
    if (ln.find(" output file") != string::npos && sscanf(ln.c_str(), "Created %zu", &a) == 1)
      CHECK_(a == want.size(), "P21:split-says", "says '%s', there are %zu segments", ln.c_str(), want.size());
  }
  if (want.size() > 99) g->count("split_over_99_segments");
  if (!g->violations)   for (auto& n : list()) unlink((sub + "/" + n).c_str());
  u64 q = fnvs("split" + base + ext);
  for (auto& u : rd.units) q = q * 31 + (u64)u.f.type + (u.at.payload - u.at.start) * 64;
  g->seen(q);
  if (r.chance(3)) g->sample(fmt("split %zu bytes, %zu units: %zu segments", b.size(), rd.units.size(), want.size()));
}

// a tool that is not there, hangs, dies or fails is never reported as a clean file
static void conformance_fault_case(Rng& r, const string& dir) {
  string fake = g->scratch + "/fake", in = g->scratch + "/in.264";
  int kind = (int)r.below(6), sig = r.pick(vector<int>{1, 2, 9, 15});
  unlink(fake.c_str());
  string body = kind == 0 ? "" : kind == 1 ? "exec sleep 60" : kind == 2 ? "echo 'nal_unit { nal_unit_header {'; kill -9 $$" : kind == 3 ? "exit 255" : kind == 4 ? "echo oops >&2; exit 0"
                : fmt("exec python3 -c 'import os,signal,sys;n=%d;n==9 or signal.signal(n,signal.SIG_DFL);os.kill(os.getpid(),n)'", sig);
  if (kind) {
    body = "#!/bin/sh\n" + body + "\n";
    put_file(fake, Bytes(body.begin(), body.end()));
    chmod(fake.c_str(), 0755);
  }
  put_file(in, {0, 0, 1, 9, 0x10});
  int n = (int)r.range(1, 3);
  vector<string> args = {"python3", "-B", dir + "/h264nal-conformance.py", "--h264nal", fake};
  if (kind == 1) args.push_back("--timeout=1"), n = 1;
  if (r.chance(50)) args.push_back("-q");
  for (int i = 0; i < n; i++) args.push_back(in);
  Ran x = run(args);
  vector<vector<string>> t;
  bool ok = csv(x.out, &t);
  CHECK_(x.status == 0 && ok && t.size() == (size_t)n + 1, "P21:conf-fault-rows", "kind %d: status %d, %zu rows for %d files: %s", kind, x.status, t.size(), n,
         x.err.substr(0, 300).c_str());
  for (size_t i = 1; i < t.size() && !g->violations; i++) {
    string st = "0";
    for (size_t k = 0; k < t[0].size() && k < t[i].size(); k++)
      if (t[0][k] == "h264nal_status") st = t[i][k];
    CHECK_(!st.empty() && st != "0", "P21:conf-fault", "a tool that %s is reported as clean", kind == 0 ? "does not exist" : kind == 1 ? "hangs" : "fails");
    if (kind == 2 || kind == 5)
      CHECK_(st.find("invalid bitstream") == string::npos && st.find("unimplemented") == string::npos, "P21:conf-fault-blames-file",
             "a tool killed by signal %d is reported as '%s'", kind == 2 ? 9 : sig, st.c_str());
  }
  g->count(fmt("conformance_fault_%d", kind));
}

static void conformance_case(Rng& r, const string& tool, const string& dir) {
  struct Row {
    string dirn, file;
    Bytes b;
    Reading rd;
    bool empty = false, absent = false;
    string own;
  };
  vector<Row> rows;
  string sub = g->scratch + "/" + r.pick(vector<string>{"suite", "su,ite", "s \"x\""});
  mkdir(sub.c_str(), 0755);
  vector<string> args = {"python3", "-B", dir + "/h264nal-conformance.py", "--h264nal", tool};
  if (r.chance(50)) args.push_back("-q");
  string out;
  if (r.chance(60)) {
    out = g->scratch + "/sum.csv";
    put_file(out, Bytes(100, 'y'));
    args.insert(args.end(), {"-o", out});
  }
  if (r.chance(40)) args.push_back("--timeout=100");
  int n = (int)r.range(1, 6);
  vector<string> made;
  for (int k = 0; k < n; k++) {
    if (r.chance(8)) {
      args.push_back(sub);  // directories are passed over
      continue;
    }
    Row w;
    w.dirn = sub.substr(sub.rfind('/') + 1);
    w.file = fmt("f%d%s.264", k, r.chance(20) ? ",x" : "");
    string p = sub + "/" + w.file;
    if (r.chance(4)) {
      w.absent = true;
    } else if (r.chance(4)) {
      w.empty = true;
      put_file(p, Bytes());
    } else {
      int dummy;
      auto raws = r.chance(60) ? sized_stream(r, (int)r.range(1, 14), r.chance(30)) : clean_or_not(r, &dummy);
      vector<Bytes> nals;
      for (auto& x : raws)
        if (!x.empty()) nals.push_back(wire(x));
      w.b = annexb(r, nals, nullptr);
      if (w.b.empty()) w.b = {0, 0, 1, 9, 0x10};
      w.rd = read_units(w.b, -1);
      put_file(p, w.b);
    }
    made.push_back(p);
    args.push_back(p);
    rows.push_back(w);
  }
  bool any = false;
  for (auto& a : args) any = any || a.compare(0, sub.size(), sub) == 0;
  if (!any) return;
  if (r.chance(25)) {  // names without a directory
    run_in = sub;
    for (auto& a : args)
      for (auto& p : made)
        if (a == p) a = p.substr(sub.size() + 1);
  }
  Ran x = run(args);
  // what the tool itself prints for each file
  for (size_t i = 0; i < rows.size(); i++)
    if (!rows[i].absent && !rows[i].empty && !rows[i].rd.units.empty()) rows[i].own = run({tool, "-i", made[i], "--as-one-line", "--add-resolution"}).err;
  for (auto& p : made) unlink(p.c_str());
  g->count("conformance_runs");
  CHECK_(x.status == 0, "P21:conf-status", "status %d: %s", x.status, x.err.substr(0, 500).c_str());
  if (g->violations) return;
  string text = x.out;
  if (!out.empty()) get_file(out, &text);
  vector<vector<string>> t;
  bool ok = csv(text, &t);
  CHECK_(ok && t.size() == rows.size() + 1, "P21:conf-rows", "%zu rows for %zu files", t.size(), rows.size());
  if (g->violations) return;
  // the closing line, if there is one
  size_t fpos = x.err.rfind("parsed ");
  size_t nf = 0, ni = 0, nsil = 0;
  if (fpos != string::npos && sscanf(x.err.c_str() + fpos, "parsed %zu file(s), %zu with issues, %zu silently", &nf, &ni, &nsil) == 3) {
    size_t wi = 0, wsil = 0;
    for (size_t i = 1; i < t.size(); i++) {
      string a, c;
      for (size_t k = 0; k < t[0].size() && k < t[i].size(); k++) {
        if (t[0][k] == "h264nal_status") a = t[i][k];
        if (t[0][k] == "slice_header_status") c = t[i][k];
      }
      wi += a != "0";
      wsil += a == "0" && c != "0";
    }
    CHECK_(nf == rows.size() && ni == wi && nsil == wsil, "P21:conf-summary", "says %zu files, %zu with issues, %zu silent: the table has %zu, %zu, %zu", nf, ni,
           nsil, rows.size(), wi, wsil);
    g->count("conformance_summaries");
  }
  static const vector<string> cols = {"input_dir", "input_file", "resolution", "profile", "level", "number_of_nalus", "number_of_slice_nalus",
                                      "number_of_slice_header_nalus", "h264nal_status", "slice_header_status"};
  for (size_t i = 0; i < rows.size() && !g->violations; i++) {
    Row& w = rows[i];
    map<string, string> got;
    for (size_t c = 0; c < t[0].size() && c < t[i + 1].size(); c++) got[t[0][c]] = t[i + 1][c];
    for (auto& c : cols) CHECK_(got.count(c), "P21:conf-column:" + c, "no column %s", c.c_str());
    auto is = [&](const char* c, const string& want) {
      CHECK_(got[c] == want, string("P21:conf:") + c, "%s: '%s', expected '%s': %s", c, got[c].c_str(), want.c_str(), hex(w.b, 400).c_str());
    };
    is("input_dir", w.dirn);
    is("input_file", w.file);
    if (w.absent || w.empty) {
      CHECK_(got["h264nal_status"] != "0" || w.empty, "P21:conf-unreadable", "unreadable file reported as clean");
      is("number_of_nalus", "0");
      g->count("conformance_unreadable");
      continue;
    }
    if (w.rd.unknown) {
      g->count("conformance_unspecified");
      continue;
    }
    vector<string> res, prof, lev;
    bool either = false;
    i64 units = 0, slices = 0, heads = 0;
    auto add = [](vector<string>& v, const string& s) {
      if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
    };
    for (auto& u : w.rd.units) {
      auto& f = u.f;
      if (!f.hdr_ok) continue;
      units++;
      if (f.type == 1 || f.type == 5 || f.type == 20) {
        slices++;
        heads += f.payload_ok;
      }
      if ((f.type == 7 || f.type == 15) && f.payload_ok) {
        string p = f.type == 7 ? "sps.sps_data." : "subset_sps.sps_data.";
        SpsView s = SpsView::of(*f.n, p);
        add(res, fmt("%" PRId64 "x%" PRId64, s.width(), s.height()));
        string pn = profile_name(s.profile, *f.n, p);

        add(prof, pn);
        i64 l = f.n->get(p + "level_idc"), c3 = f.n->get(p + "constraint_set3_flag");
        bool high = s.profile == 44 || s.profile == 100 || s.profile == 110 || s.profile == 122 || s.profile == 244;
        g->count(fmt("level_name_%s_%s", high ? "high" : "other", l == 9 ? "9" : l == 11 && c3 ? "11_flag" : l == 11 ? "11" : "rest"));
        add(lev, (high ? l == 9 : l == 11 && c3) ? "1b" : fmt("%" PRId64 ".%" PRId64, l / 10, l % 10));
      }
    }
    auto semi = [](const vector<string>& v) {
      string s;
      for (auto& x : v) s += (s.empty() ? "" : ";") + x;
      return s;
    };
    is("resolution", semi(res));
    if (!either) is("profile", semi(prof));
    is("level", semi(lev));
    is("number_of_nalus", fmt("%" PRId64, units));
    is("number_of_slice_nalus", fmt("%" PRId64, slices));
    is("number_of_slice_header_nalus", fmt("%" PRId64, heads));
    is("slice_header_status", heads == slices ? "0" : fmt("unparsed slice headers: %" PRId64 "/%" PRId64, heads, slices));
    int v = w.rd.verdict(false);
    string st = got["h264nal_status"];
    static const char* lead[] = {"", "h264nal: invalid bitstream", "h264nal: unimplemented syntax"};
    bool fine = w.rd.units.empty() ? st != "0" && !st.empty() : v == 0 ? st == "0" : st.compare(0, strlen(lead[v]), lead[v]) == 0;
    CHECK_(fine, fmt("P21:conf:h264nal_status:%d", v), "verdict %d reported as '%s': %s", v, st.c_str(), hex(w.b, 400).c_str());
    g->count(fmt("conformance_verdict_%d", v));
    // every message the tool printed is there, once, with how often it came
    vector<std::pair<string, int>> msgs;
    std::istringstream ms(w.own);
    for (string ln; std::getline(ms, ln);) {
      while (!ln.empty() && isspace((unsigned char)ln.back())) ln.pop_back();
      while (!ln.empty() && isspace((unsigned char)ln.front())) ln.erase(0, 1);
      if (ln.empty()) continue;
      bool had = false;
      for (auto& m : msgs)
        if (m.first == ln) {
          m.second++;
          had = true;
        }
      if (!had) msgs.push_back({ln, 1});
    }
    string full = w.rd.units.empty() ? st : v == 0 ? "" : lead[v];
    if (!w.rd.units.empty()) {
      for (auto& m : msgs) full += (full.empty() ? "" : "; ") + m.first + (m.second > 1 ? fmt(" (x%d)", m.second) : "");
      if (full.empty()) full = "0";
    }
    CHECK_(st == full, "P21:conf:messages", "status '%s', expected '%s'", st.c_str(), full.c_str());
    g->count("conformance_messages", msgs.size());
    for (auto& m : msgs) g->count("conformance_repeated_messages", m.second > 1);
    g->seen(fnvs(fmt("conf %d %d %" PRId64 " %" PRId64 " %" PRId64 " %zu %zu %zu", v, (int)i, units, slices, heads, res.size(), prof.size(), lev.size())));
  }
}

MODULE(P21, "a run of a script, distinct by stream layout and outcome") {
  string tool = need("P13_TOOL"), dir = need("P21_DIR");
  if (r.chance(50)) split_case(r, tool, dir);
  else if (r.chance(3)) conformance_fault_case(r, dir);
  else conformance_case(r, tool, dir);
}
