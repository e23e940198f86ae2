// Case runner: h264mon MODULE SEED START COUNT OUT.json PROGRESS SCRATCH TIER
#include "common.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

Ctx* g = nullptr;
vector<Module>& modules() {
  static vector<Module> m;
  return m;
}
static volatile u64* progress = nullptr;
static FILE* vout = nullptr;

static string clean(const string& s) {
  string o;
  for (char c : s) o += (c == '\n' || c == '\t' || c == '\r') ? ' ' : c;
  return o;
}
static bool ignore_violations = false;
void violation(const string& key, const string& detail) {
  if (ignore_violations) {  // a run that only watches for crashes
    g->count("other_monitor_reports");
    return;
  }
  g->violations++;
  if (g->violations <= 20) {
    fprintf(vout, "VIOL\t%s\t%" PRIu64 "\t%s\n", clean(key).c_str(), g->index,
            clean(detail).substr(0, 1500).c_str());
    fflush(vout);
  }
  if (const char* p = getenv("MON_FLAG")) {  // tells the runner at once
    int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0644);
    string k = clean(key) + "\n";
    if (fd >= 0) {
      if (write(fd, k.data(), k.size()) < 0) k.clear();
      close(fd);
    }
  }
}
static void on_hang(int) {
  if (progress) progress[1] = 1;
  _exit(98);
}
static string js(const string& s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      o += string("\\") + (char)c;
    else if (c < 32 || c > 126)
      o += fmt("\\u%04x", c);
    else
      o += (char)c;
  }
  return o + "\"";
}

int main(int argc, char** argv) {
  if (argc < 9) {
    for (auto& m : modules()) printf("%s\t%s\n", m.name, m.rule);
    return 2;
  }
  Ctx c;
  g = &c;
  string mod = argv[1];
  c.prop = mod;
  c.seed = strtoull(argv[2], 0, 10);
  u64 start = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
  string outp = argv[5], prog = argv[6];
  c.scratch = argv[7];
  c.tier = argv[8];
  c.verbose = argc > 9 && !strcmp(argv[9], "-v");
  const Module* m = nullptr;
  for (auto& x : modules())
    if (mod == x.name) m = &x;
  if (!m) return 2;
  // what the library prints must not drown what the monitors print
  vout = fdopen(dup(1), "w");
  if (!c.verbose) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);  // the sanitizers have a log file of their own
  }
  int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, 4096)) return 2;
  progress = (volatile u64*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  signal(SIGPROF, on_hang);
  signal(SIGALRM, on_hang);
  ignore_violations = getenv("MON_IGNORE") != nullptr;
  u64 done = 0;
  for (u64 i = start; i < start + count; i++) {
    c.index = i;
    progress[0] = i;
    struct itimerval it = {};
    it.it_value.tv_sec = 60;
    setitimer(ITIMER_PROF, &it, nullptr);
    it.it_value.tv_sec = 120;  // waiting for ever is a hang too
    setitimer(ITIMER_REAL, &it, nullptr);
    u64 h = fnvs(mod);
    Rng r(mix(mix(c.seed, h), i));
    m->fn(r);
    done++;
    if (c.violations >= 3) break;
  }
  progress[2] = 1;  // finished
  FILE* f = fopen(outp.c_str(), "w");
  if (!f) return 2;
  fprintf(f, "{\"module\":%s,\"rule\":%s,\"cases\":%" PRIu64 ",\"evals\":%" PRIu64
          ",\"violations\":%d,\"events\":{", js(mod).c_str(), js(m->rule).c_str(),
          done, c.evals, c.violations);
  bool first = true;
  for (auto& kv : c.ev) {
    fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", js(kv.first).c_str(), kv.second);
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < c.samples.size(); i++)
    fprintf(f, "%s%s", i ? "," : "", js(c.samples[i]).c_str());
  fprintf(f, "],\"distinct\":[");
  first = true;
  for (u64 d : c.distinct) {
    fprintf(f, "%s\"%" PRIx64 "\"", first ? "" : ",", d);
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
  return c.violations ? 3 : 0;
}
