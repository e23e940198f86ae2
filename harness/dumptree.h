// Text dumps: capturing them, tokenising them, and parsing them into a tree.
#pragma once
#include "flatten.h"

struct DNode {
  string name;            // empty for the root and for unnamed braces
  vector<string> text;    // the tokens after "name:", or plain tokens in braces
  vector<DNode> kids;
  bool brace = false;
};

template <class F>
inline string capture(F f) {
  char* p = nullptr;
  size_t n = 0;
  FILE* fp = open_memstream(&p, &n);
  f(fp);
  fclose(fp);
  string s(p, n);
  free(p);
  return s;
}

inline vector<string> tokens(const string& s) {
  vector<string> v;
  string cur;
  auto flush = [&] {
    if (!cur.empty()) v.push_back(cur);
    cur.clear();
  };
  for (char c : s) {
    if (c == ' ' || c == '\n' || c == '\t' || c == '\r') {
      flush();
    } else if (c == '{' || c == '}') {
      flush();
      v.push_back(string(1, c));
    } else {
      cur += c;
    }
  }
  flush();
  return v;
}

struct DParse {
  const vector<string>& t;
  size_t i = 0;
  string err;
  explicit DParse(const vector<string>& t_) : t(t_) {}
  static bool key(const string& s) { return s.size() > 1 && s.back() == ':'; }
  bool at_block() const { return i + 1 < t.size() && t[i + 1] == "{" && t[i] != "{" && t[i] != "}"; }
  void body(DNode& n, bool root) {
    while (i < t.size() && err.empty()) {
      const string& x = t[i];
      if (x == "}") {
        if (root) err = "closing brace without an opening one";
        return;
      }
      if (x == "{") {
        i++;
        n.kids.emplace_back();
        block(n.kids.back());
      } else if (key(x)) {
        DNode k;
        k.name = x.substr(0, x.size() - 1);
        i++;
        while (i < t.size() && t[i] != "{" && t[i] != "}" && !key(t[i]) && !at_block()) k.text.push_back(t[i++]);
        n.kids.push_back(k);
      } else if (at_block()) {
        n.kids.emplace_back();
        n.kids.back().name = x;
        i += 2;
        block(n.kids.back());
      } else {
        n.text.push_back(x);
        i++;
      }
    }
  }
  void block(DNode& n) {
    n.brace = true;
    body(n, false);
    if (!err.empty()) return;
    if (i >= t.size()) {
      err = "brace of " + n.name + " is never closed";
      return;
    }
    i++;
  }
};
inline string parse_dump(const vector<string>& t, DNode& root) {
  DParse p(t);
  p.body(root, true);
  return p.err;
}
inline const DNode* kid(const DNode& n, const string& name, size_t nth = 0, size_t* total = nullptr) {
  const DNode* f = nullptr;
  size_t c = 0;
  for (auto& k : n.kids)
    if (k.name == name) {
      if (c == nth) f = &k;
      c++;
    }
  if (total) *total = c;
  return f;
}
inline bool num(const string& s, i64* v) {
  if (s.empty()) return false;
  char* e = nullptr;
  errno = 0;
  *v = strtoll(s.c_str(), &e, 10);
  return *e == 0 && errno == 0;
}
