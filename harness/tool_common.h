// Running the tools: processes, files, and what the model makes of a file.
#pragma once
#include "session.h"
#include "dumptree.h"

#include <algorithm>
#include <thread>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern char** environ;

// ---- processes and files ---------------------------------------------------------
inline void put_file(const string& p, const Bytes& b) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f) abort();
  if (!b.empty() && fwrite(b.data(), 1, b.size(), f) != b.size()) abort();
  fclose(f);
}
inline bool get_file(const string& p, string* s) {
  s->clear();
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return false;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s->append(buf, n);
  fclose(f);
  return true;
}
struct Ran {
  int status = -1;   // exit status, 1000 + signal, or -2 for a hang
  string out, err;
};
// `piped`: standard input is a pipe that delivers these bytes in uneven pieces
// where the next program runs, if not in the harness's own directory
inline string run_in;
inline Ran run(const vector<string>& args, const string& in = "", const Bytes* piped = nullptr, u64 pieces = 0) {
  string so = g->scratch + "/.out", se = g->scratch + "/.err";
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  int pp[2] = {-1, -1};
  if (piped && pipe2(pp, O_CLOEXEC) == 0) posix_spawn_file_actions_adddup2(&fa, pp[0], 0);
  else posix_spawn_file_actions_addopen(&fa, 0, in.empty() ? "/dev/null" : in.c_str(), O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (!run_in.empty()) posix_spawn_file_actions_addchdir_np(&fa, run_in.c_str());
  run_in.clear();
  vector<char*> av;
  for (auto& a : args) av.push_back((char*)a.c_str());
  av.push_back(nullptr);
  Ran x;
  pid_t pid;
  // a tool that never stops printing must not fill the disk
  struct rlimit fs = {256u << 20, 256u << 20};
  setrlimit(RLIMIT_FSIZE, &fs);
  int rc = posix_spawnp(&pid, av[0], &fa, nullptr, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (rc) {
    fprintf(stderr, "cannot run %s\n", args[0].c_str());
    abort();
  }
  std::thread feeder;
  if (pp[0] >= 0) {
    close(pp[0]);
    signal(SIGPIPE, SIG_IGN);
    feeder = std::thread([piped, pieces, pp] {
      Rng pr(pieces);
      for (size_t i = 0; i < piped->size();) {
        size_t k = 1 + (size_t)pr.below(pr.chance(50) ? 300 : 9000);
        if (k > piped->size() - i) k = piped->size() - i;
        ssize_t w = write(pp[1], piped->data() + i, k);
        if (w <= 0) break;
        i += (size_t)w;
        if (pr.chance(20)) usleep(200);
      }
      close(pp[1]);
    });
  }
  struct Join {
    std::thread& t;
    ~Join() {
      if (t.joinable()) t.join();
    }
  } join_feeder{feeder};
  struct timespec t0, t;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  int st = 0;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    clock_gettime(CLOCK_MONOTONIC, &t);
    if (t.tv_sec - t0.tv_sec > 60) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      x.status = -2;
      return x;
    }
    usleep(300);
  }
  x.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  get_file(so, &x.out);
  get_file(se, &x.err);
  return x;
}
inline string need(const char* k) {
  const char* v = getenv(k);
  if (!v) abort();
  return v;
}
inline string joined(const vector<string>& a) {
  string s;
  for (size_t i = 1; i < a.size(); i++) {
    size_t p = a[i].rfind('/');
    s += (i > 1 ? " " : "") + (p == string::npos ? a[i] : a[i].substr(p + 1));
  }
  return s;
}

// ---- what the model makes of a file ------------------------------------------------
struct Unit {
  Span at;
  RefNal f;
};
struct Reading {
  vector<Unit> units;   // every unit, also those whose header does not parse
  int dropped = 0, unparsed = 0, unimpl = 0;
  bool unknown = false;
  // exit status the tool owes; -1: not specified
  int verdict(bool lengths) const {
    if (unknown) return -1;
    if (unimpl) return 2;
    if (unparsed) return 1;
    // with length fields, units without a usable header are not counted
    if (dropped) return lengths ? -1 : 1;
    return 0;
  }
};
inline Reading read_units(const Bytes& b, int width) {
  Reading x;
  vector<Span> at;
  if (width < 0) {
    bool dang;
    at = naive_split(b, &dang);
    if (dang) x.unknown = true;
  } else if (width == 0) {
    if (!b.empty()) at.push_back({0, 0, b.size()});
  } else {
    size_t i = 0, w = (size_t)width;
    while (i < b.size() && b.size() - i >= w) {
      u64 n = 0;
      for (size_t k = 0; k < w; k++) n = n << 8 | b[i + k];
      if (n == 0 || n > b.size() - i - w) break;
      at.push_back({i, i + w, (size_t)n});
      i += w + (size_t)n;
    }
  }
  RefState st;
  for (auto& s : at) {
    Unit u;
    u.at = s;
    u.f = ref_decode(unescape(Bytes(b.begin() + (long)s.payload, b.begin() + (long)(s.payload + s.size))), st);
    x.unimpl += u.f.unimpl;
    if (u.f.unspec) x.unknown = true;
    if (!u.f.hdr_ok) x.dropped++;
    else if (u.f.attempted() && !u.f.payload_ok) x.unparsed++;
    x.units.push_back(u);
  }
  return x;
}
inline bool csv(const string& s, vector<vector<string>>* rows) {
  vector<string> row;
  string cur;
  bool q = false, any = false;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (q) {
      if (c == '"' && i + 1 < s.size() && s[i + 1] == '"') {
        cur += '"';
        i++;
      } else if (c == '"') q = false;
      else cur += c;
    } else if (c == '"') {
      q = any = true;
    } else if (c == ',') {
      row.push_back(cur);
      cur.clear();
      any = true;
    } else if (c == '\n') {
      row.push_back(cur);
      cur.clear();
      rows->push_back(row);
      row.clear();
      any = false;
    } else if (c != '\r') {
      cur += c;
      any = true;
    }
  }
  return !q && !any;
}
