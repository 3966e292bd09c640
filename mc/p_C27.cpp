// The command line: all argument vectors over an alphabet of options and names, on several programs.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C27";
const char* RULE = "a case is one command line with one set of files; distinct = different output or files";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  J.keyer = [](const Prog& p) { return join(p.args, " ") + ": " + p.files[0].second; };
  J.extra = [](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
    string k = join(p.args, " ") + ": " + p.files[0].second; for (char& c : k) if (c == '\n') c = '|';
    bool listing = r.out.find("\n") != string::npos && r.out.find(" 1  ") != string::npos;
    if (x.usage && (listing || r.out.find("ERRORS:") != string::npos)) f.add(k, "a wrong command line is assembled");
    if (!x.usage && !x.fatal && r.status == 0 && r.out.find("ERRORS:") == string::npos) f.add(k, "no summary");
  };
  Strs src = {"* = 0\n db 1\nx = 2\n", "* = 0\n db $100,2\nx = 2\n dw x\n", "* = 0\n db nosuch\n", "", " list off\n* = 0\n db 1\n m\n"};
  auto C = [&](const string& s, const vector<string>& v) { for (size_t i = 0; i + 1 < v.size(); i++) if (v[i][0] == '-' && v[i].back() == 'o' && (v[i + 1] == "a.asm" || v[i + 1] == "b" || v[i + 1].empty())) return;   // never the sources as the code file
    Prog p(s, v); p.add("b", "* = 5\n db 3\n"); J(p); };
  // ---- 1. all vectors of words
  {
    Strs w = {"-o", "o", "a.asm", "-l", "-s", "-x", "-lo", "-ol", "-", "-z", "b", "nofile", "-sx", "-O", "", "-lso", "--", "-x-"};
    int len = cx.thorough ? 5 : 4;
    for (int k = 0; k <= len; k++) sequences(w.size(), k, [&](const vector<int>& q) { vector<string> v; for (int i : q) v.push_back(w[i]); C(src[1], v); if (k <= 3) { C(src[2], v); C(src[0], v); } });
    Strs w2 = {"-o", "o", "a.asm", "-l", "-s", "-x"};
    for (int k = 4; k <= (cx.thorough ? 7 : 6); k++) sequences(w2.size(), k, [&](const vector<int>& q) { vector<string> v; for (int i : q) v.push_back(w2[i]); C(src[1], v); });
    cx.bound(fmt("all command lines of up to %d of %zu words and up to %d of %zu", len, w.size(), cx.thorough ? 7 : 6, w2.size()));
  }
  // ---- 2. all groupings of the options, before and after the names
  {
    Strs g; for (int k = 0; k <= 5; k++) sequences(4, k, [&](const vector<int>& q) { string s = "-"; for (int i : q) s += "slxo"[i]; g.push_back(s); });
    for (auto& a : g) for (auto& s : src) { C(s, {a, "a.asm"}); C(s, {"a.asm", a}); C(s, {a, "o", "a.asm"}); C(s, {"a.asm", a, "o"}); if (a.size() < 4) for (auto& b : g) if (b.size() < 4) { C(s, {a, "a.asm", b, "o"}); C(s, {a, "o", b, "a.asm"}); C(s, {a, "o", b, "o", "a.asm"}); } }
    cx.bound(fmt("all %zu groups of up to 5 option letters before and after the names, all pairs of groups of up to 2, on %zu programs", g.size(), src.size()));
  }
  // ---- 3. every option character
  for (int c = 1; c < 256; c++) for (auto& s : src) { C(s, {string("-") + (char)c, "o", "a.asm"}); C(s, {string("-l") + (char)c, "a.asm"}); C(s, {"-o", "o", "a.asm", string("-") + (char)c}); C(s, {string(1, c) + "l", "-o", "o"}); }
  cx.bound("every character as an option letter and in front of one");
  // ---- 4. names
  for (int n = 1; n <= (cx.thorough ? 255 : 120); n++) { string m(n, 'n'); Prog p("* = 0\n db 1\n", {"-o", m + "o", m}); if (n > 253) continue; p.files[0].first = m; J(p); Prog q("* = 0\n db 1\n", {m}); q.files[0].first = m; J(q); }
  for (auto n : {"a b", "x.y.z", "A.ASM", "\xe9t\xe9", "a'b", "a;b", "-", "'", "a\\b", "%s%n", "o"}) { Prog p("* = 0\n db 1\n", {"-o", "o1", n}); p.files[0].first = n; J(p); Prog q("* = 0\n db 1\n", {"-l", "-o", string(n) + "1", "a.asm"}); J(q); }
  cx.bound("source and code file names of every length to 120 (thorough 255) and of 11 shapes");
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
