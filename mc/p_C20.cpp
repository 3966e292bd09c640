// The symbol table: all insertion orders of sets of names, all ways of defining and using them, all page
// shapes and option sets; besides the reference the table is read back and checked on its own terms.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C20";
const char* RULE = "a case is one program; distinct = different symbol table";

struct Entry { char mark; string value, kind, name; };
// the entries of the table, one per line (default width); what does not look like one is not an entry
static vector<Entry> entries(const string& out) {
  vector<Entry> v;
  size_t at = out.rfind("WARNINGS:");
  if (at == string::npos) return v;
  for (auto& l : ref::lines_of(out.substr(at))) {
    if (l.size() < 13 || !strchr("?^ ", l[0])) continue;
    size_t i = 1, h = 1; while (h < l.size() && isxdigit((unsigned char)l[h])) h++;
    Entry e{l[0], "", "", ""};
    if ((h - i == 4 || h - i == 8)) { e.value = l.substr(i, h - i); i = h; }
    while (i < l.size() && l[i] == ' ') i++;
    size_t k = l.find(' ', i);
    if (k == string::npos) continue;
    e.kind = l.substr(i, k - i);
    e.name = l.substr(k + 1); while (!e.name.empty() && e.name.back() == ' ') e.name.pop_back();
    while (!e.name.empty() && e.name[0] == ' ') e.name.erase(0, 1);
    if (k = e.kind.find("Abs"), k == 0 && e.kind.size() > 3 && e.name.empty()) { e.name = e.kind.substr(3); e.kind = "Abs"; }
    if (e.name.find(' ') == string::npos && !e.name.empty() && e.kind.find("Successful") == string::npos) v.push_back(e);
  }
  return v;
}

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  auto opts = [](const string& o) { vector<string> v; if (!o.empty()) v.push_back("-" + o); v.insert(v.end(), {"-o", "o", "a.asm"}); return v; };
  // ---- 1. all insertion orders
  {
    vector<Strs> sets = {{"a", "b", "c", "d", "e", "f", "g"}, {"A", "a1", "aa", "_a", "a_", "B", "zz"}, {"l1", "l10", "l2", "L", "l", "m.", "m1"}};
    if (cx.thorough) for (auto& s : sets) s.push_back("q9");
    for (auto& s : sets) for (size_t n = 0; n <= s.size(); n++) {
      vector<int> pm; for (size_t i = 0; i < n; i++) pm.push_back(i);
      do {
        if (!cx.mine()) continue;
        string t = "* = $1000\n"; 
        Strs want;
        for (int i : pm) { t += s[i] + (i & 1 ? " db 1\n" : " = " + std::to_string(i * 1000) + "\n"); string u; for (char c : s[i]) u += toupper(c); want.push_back(u); }
        std::sort(want.begin(), want.end());
        want.erase(std::unique(want.begin(), want.end()), want.end());
        Prog p(t + (n ? " dw " + s[0] + "\n" : ""), opts("x"));
        Judge K(cx, O_ALL);
        J.extra = [want](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
          if (x.errors) return;
          Strs got; for (auto& e : entries(r.out)) got.push_back(e.name);
          if (got != want) f.add(p.files[0].second, "the table lists " + join(got, " ") + "\n  the program defines " + join(want, " "));
        };
        J.now(p, "", n);
        J.extra = nullptr;
      } while (std::next_permutation(pm.begin(), pm.end()));
    }
    cx.bound(fmt("all insertion orders of all prefixes of %zu sets of %zu names", sets.size(), sets[0].size()));
  }
  // ---- 2. every way of defining and using each of a few names
  {
    Strs how = {"", "@ db 1", "@ = 5", "@ = 5\n db @", " db @\n@ = 5", " dw @\n@ db 1", "@ db 1\n dw @", "@ = 5\n@ = 6", "@ = 5\n db @\n@ = 7", "@ macro\n db 2\n endm", "@ macro\n db 2\n endm\n @", " db @", " if 0\n db @\n@ = 3\n endc", " if @=0\n endc\n@ = 3", "@ = *", "@ = -1", "@ = 5{3}", " dummy\n@ db 1\n code", "@", "@\n@", ".@ = 4\n dw .@", "@ = b1\n", "@ db nosuch", "@ db b1\n", " @", "@ = @+1", "@ = db", "@ = db\n @ 5", "m2 macro\n@ = 7\n endm\n m2", "m2 macro\n dw @\n endm\n m2\n@ = 9", "@ = 5\n@ = 6{2}\n db @"};
    Strs nm = {"p", "q", "a"};
    for (auto head : {"* = $1000\n", " cpu 6502\n* = $1000\n", " cpu z80\n* = $1000\n"}) {
      for (size_t i = 0; i < how.size(); i++) for (size_t j = 0; j < how.size(); j++) for (size_t k = 0; k < (cx.thorough ? how.size() : 1); k++) for (auto o : {"x", "l"}) {
        if (*o == 'l' && (k || i % 3)) continue;
        if (!cx.mine()) continue;
        string t = head; int w[3] = {(int)i, (int)j, (int)k};
        for (int z = 0; z < 3; z++) { for (char c : how[w[z]]) if (c == '@') t += nm[z]; else t += c; t += "\n"; }
        J.now(Prog(t + "b1 = 77\n", opts(o)), "", 3);
      }
    }
    Strs z = {"@ = a", "@ = hl", "@ = nz", "@ = ix\n push @", "@ = b\n ld @,1", "@ = ld", "@ = ld\n @ a,1", "@ = c", "@ = (hl)"};
    for (size_t i = 0; i < z.size(); i++) for (size_t j = 0; j < z.size(); j++) {
      string t = " cpu z80\n* = 0\n"; for (char c : z[i]) if (c == '@') t += "pp"; else t += c; t += "\n"; for (char c : z[j]) if (c == '@') t += "qq"; else t += c;
      J(Prog(t + "\n nop\n", opts("x")));
    }
    cx.bound(fmt("all pairs (thorough: triples) of %zu ways of defining and using a name on three processors, %zu ways of naming keywords", how.size(), z.size()));
  }
  // ---- 3. page shapes and numbers of symbols
  {
    for (int n = 0; n <= (cx.thorough ? 400 : 150); n++) { string t = "* = $1000\n"; for (int i = 0; i < n; i++) t += fmt("s%d = %d\n", (i * 37) % 401, i * 12345); J(Prog(t + " db 1\n", opts("x")), "", n); J(Prog(" list off\n" + t + " db 1\n", opts("x")), "", n); J(Prog(" cpu 6502\n" + t + " list off\n db 1\n", opts("")), "", n); }
    string t; for (int i = 0; i < 40; i++) t += fmt("name%d = %d\n", i, i * 999);
    for (int w = 62; w <= 999; w += cx.thorough || w < 200 ? 1 : 7) J(Prog(fmt(" page 60,%d\n* = 0\n", w) + t + " db 1\n", opts("x")));
    for (int l = 10; l <= 200; l++) J(Prog(fmt(" page %d,130\n* = 0\n", l) + t + " db 1\n", opts("x")));
    J(Prog(" page 0,130\n* = 0\n" + t + " db 1\n", opts("x")));
    for (int k = 1; k <= 60; k++) for (int w : {76, 130, 260}) { string s = fmt(" page 60,%d\n* = 0\n", w); for (char c : {'q', 'r', 's', 't', 'u'}) s += string(k, c) + " = 1\n"; J(Prog(s + " db 1\n", opts("x"))); }
    for (int v = 0; v < 33; v++) for (int s : {-1, 1}) for (auto c : {"", " cpu 6502\n"}) J(Prog(fmt("%s* = 0\nsym = %d*(1<<%d)\nsy2 = sym-1\nsy3 = ~sym\n", c, s, v), opts("x")));
    cx.bound("0 to 150 (thorough 400) symbols, all widths from 62 to 200 (thorough 999) and all page lengths, names of up to 60 characters, powers of two as values");
  }
  // ---- 3b. local labels of every scope: none is in the table, whatever the number of its scope
  for (int n = 0; n <= (cx.thorough ? 1100 : 210); n++) for (int kind = 0; kind < 4; kind++) for (auto o : {"x", ""}) {
    if (!cx.mine()) continue;
    string s = "* = $100\nm macro\n.l dw .l\n endm\n" + string(kind == 3 ? " cpu 6502\n" : "");
    for (int i = 0; i < n; i++) s += kind == 0 ? " code\n" : kind == 1 ? " m\n" : kind == 2 ? " code\n.l = 1\n" : " dummy\n";
    J.now(Prog(s + ".l = 7\n.2 = 9\n..3 = .l\nz1 = .l\n db .q\n", opts(o)), "", n);
  }
  cx.bound("local labels in the scopes 0 to 210 (thorough 1100), reached in four ways");
  // ---- 4. sequences, with every option set
  {
    Strs a = {"a db 1", "b = 2", " dw a", " dw c", "c = 3", "c = 4", "d dw d", " list off", " list on", " dummy", " code", ".l dw .l", "m macro\n\\1 = 4\n endm", " m e", " dw e", "nop = 3", " cpu 6502", "a2 nop", "x = 4", " db nosuch", "f = a{1}", " if c>3\ng = 1\n endc"};
    int len = cx.thorough ? 4 : 3;
    for (int k = 0; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { for (auto o : {"x", "l", "lx", "sx", "lsx", ""}) if (k < 3 || *o == 'x') J(Prog("* = $1000\n" + text(a, q), opts(o)), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu statements, under all option sets up to length 2", len, a.size()));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
