// Workload of P20, written to a file: every build under comparison then gets
// the very same bytes.
#include "session.h"

#include <fcntl.h>
#include <unistd.h>

static void u32(Bytes& o, u64 v) {
  for (int i = 0; i < 4; i++) o.push_back((u8)(v >> (8 * i)));
}
// one case: units (as in a stream) of a main history and of an unrelated one
MODULE(EXPORT, "") {
  Bytes o;
  u64 key = r.next();
  u32(o, g->index);
  u32(o, key & 0xffffffff);
  u32(o, key >> 32);
  for (int h = 0; h < 2; h++) {
    GenOpt go;
    go.pool = r.chance(70) ? (int)r.range(1, 3) : 0;
    if (r.chance(25)) go.weights = weights({{7, 2}, {15, 5}, {8, 5}, {14, 3}, {20, 18}, {1, 4}, {21, 1}});
    RefState st;
    int fl = (int)r.below(4);
    auto raws = gen_history(r, (int)r.range(1, h ? 5 : 14), st, fl ? 5 : 35, fl == 1 ? 50 : fl ? 5 : 20, go);
    if (r.chance(8)) {
      Bytes j;
      for (size_t k = r.below(60); k--;) j.push_back((u8)(r.chance(40) ? 0 : r.next()));
      raws.push_back(j);
    }
    vector<Bytes> nals;
    for (auto& x : raws) {
      Bytes w = wire(x);
      if (!w.empty() && w.size() < 60000) nals.push_back(w);
    }
    u32(o, nals.size());
    for (auto& n : nals) {
      u32(o, n.size());
      o.insert(o.end(), n.begin(), n.end());
    }
    if (!h) g->count("exported_units", nals.size());
  }
  FILE* f = fopen((g->scratch + "/cases.bin").c_str(), "ab");
  if (!f) abort();
  fwrite(o.data(), 1, o.size(), f);
  fclose(f);
  g->seen(fnv(o.data(), o.size()));
}
