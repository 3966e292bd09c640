// What the drivers share: enumeration of bounded spaces, and the standard judgement.
#pragma once
#include "ref.hpp"
#include <algorithm>
#include <unistd.h>

typedef vector<string> Strs;

// every sequence over 0..n-1 of the given length, in lexicographic order
template <class F> void sequences(int n, int len, F f) {
  vector<int> s(len, 0);
  if (n <= 0 && len) return;
  for (;;) {
    f((const vector<int>&)s);
    int i = len - 1;
    while (i >= 0 && ++s[i] == n) s[i--] = 0;
    if (i < 0) return;
  }
}
// every choice of one item per list
template <class F> void product(const vector<int>& sizes, F f) {
  for (int z : sizes) if (z <= 0) return;
  vector<int> s(sizes.size(), 0);
  for (;;) {
    f((const vector<int>&)s);
    int i = (int)s.size() - 1;
    while (i >= 0 && ++s[i] == sizes[i]) s[i--] = 0;
    if (i < 0) return;
  }
}
inline string repeat(const string& s, int n) { string r; for (int i = 0; i < n; i++) r += s; return r; }
inline string replaced(const string& s, const string& what, const string& by) { string r; for (size_t i = 0; i < s.size();) { if (!s.compare(i, what.size(), what)) { r += by; i += what.size(); } else r += s[i++]; } return r; }
inline string join(const Strs& v, const string& sep) { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + v[i]; return r; }
inline string text(const Strs& alpha, const vector<int>& s) { string r; for (int i : s) r += alpha[i] + "\n"; return r; }

// those of the lines that the reference accepts between head and tail
inline Strs accepted(const string& head, const Strs& lines, const string& tail) {
  int base = std::count(head.begin(), head.end(), '\n');
  std::set<int> bad;
  for (auto& d : ref::assemble(Prog(head + join(lines, "\n") + "\n" + tail), "").diags) if (d.error) bad.insert(d.line - base - 1);
  Strs r; for (size_t i = 0; i < lines.size(); i++) if (!bad.count(i)) r.push_back(lines[i]);
  return r;
}

struct Judge {
  Cx& cx;
  string version;
  int what;                                       // aspects compared
  bool loose = false;                             // programs with errors: the listing is not compared
  std::function<string(const Prog&)> keyer;       // identifies a failing case for the known findings
  std::function<void(const Prog&, const ref::Out&, const Result&, Fails&)> extra;
  Judge(Cx& c, int w) : cx(c), version(crasm_version(c)), what(w) {}
  // fewer lines of a failing program that fail as well (only to make the report readable)
  string shrink(const Prog& p, const string& k) {
    Strs l = ref::lines_of(p.files[0].second);
    if (l.size() > 2000) return "";
    auto fails = [&](const Strs& v) {
      Prog q = p; q.files[0].second = join(v, "\n") + "\n";
      ref::Out x = ref::assemble(q, version);
      Result r = cx.run(q); Fails f;
      against_ref(q, x, r, f, loose && x.errors ? what & ~O_TEXT : what, k);
      if (extra) extra(q, x, r, f);
      return (bool)f;
    };
    if (!fails(l)) return "";
    int budget = 3000;
    for (size_t n = (l.size() + 1) / 2; n >= 1 && budget > 0; n /= 2)
      for (size_t i = 0; i < l.size() && budget-- > 0;) { Strs v(l); v.erase(v.begin() + i, v.begin() + std::min(l.size(), i + n)); if (v.size() < l.size() && fails(v)) l = v; else i += n; }
    return join(l, "\n") + "\n";
  }
  // counts one case; executes it when it is this worker's
  void operator()(const Prog& p, const string& key = "", u64 steps = 1) { if (cx.mine()) now(p, key, steps); }
  void now(const Prog& p, const string& key = "", u64 steps = 1) {
    if (getenv("MC_LAST")) { FILE* o = fopen((string(getenv("MC_LAST")) + std::to_string(getpid())).c_str(), "w"); fputs(ref::show(p).c_str(), o); fclose(o); }
    ref::Out x = ref::assemble(p, version);
    string k = !key.empty() ? key : keyer ? keyer(p) : p.files[0].second;
    for (char& c : k) if (c == '\n') c = '|';
    bool first = true; string small;
    cx.check(p, [&](const Result& r, Fails& f) {
      bool wasfirst = first;
      against_ref(p, x, r, f, loose && x.errors ? what & ~O_TEXT : what, k);
      if (extra) extra(p, x, r, f);
      if (first) { first = false; cx.state(fnv(r.code, fnv(r.out, 7 + r.have_code))); if (x.wrapped && (what & O_TEXT)) cx.count("programs_with_wrapped_lines"); if (x.errors) cx.count("programs_with_errors"); }
      if (f.v.size() && wasfirst) small = shrink(p, k);
      if (f.v.size() && f.v[0].msg.find("\nprogram:\n") == string::npos) for (auto& e : f.v) e.msg += (small.empty() ? "" : "\nsmallest failing part of it:\n" + small) + "\nprogram:\n" + excerpt(ref::show(p), 1500);
    }, steps);
    cx.sample(excerpt(ref::show(p), 300));
  }
};

// two programs that must mean the same: same code file, same number of errors and warnings
inline void same_code(Cx& cx, const Prog& a, const Prog& b, const string& key, const string& why, bool counts = true) {
  Result rb = cx.run(b);
  cx.check(a, [&](const Result& ra, Fails& f) {
    string k = key; for (char& c : k) if (c == '\n') c = '|';
    string tail = "\nprogram:\n" + excerpt(ref::show(a), 1500) + "\nits equivalent:\n" + excerpt(ref::show(b), 1500);
    if (ra.status != rb.status) f.add(k, fmt("%s: exit status %d and %d", why.c_str(), ra.status, rb.status) + tail);
    else if (ra.have_code != rb.have_code) f.add(k, why + ": " + (ra.have_code ? "only the first gives code" : "only the second gives code") + tail);
    else if (ra.code != rb.code) f.add(k, why + ": different code, " + ref::first_diff(ra.code, rb.code) + tail);
    else if (counts) for (auto n : {"ERRORS:", "WARNINGS:"}) { int x = ref::read_counter(ra.out, n), y = ref::read_counter(rb.out, n); if (x != y) { f.add(k, fmt("%s: %s %d and %d", why.c_str(), n, x, y) + tail); break; } }
    cx.state(fnv(ra.code, ra.have_code));
  });
}
