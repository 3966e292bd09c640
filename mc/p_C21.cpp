// Pages and widths: all page lengths and widths x numbers of lines x kinds of lines.  The output is judged
// by what a page is (a numbered header every so many lines, no line too wide, nothing lost), and
// compared with the reference where no line wraps.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C21";
const char* RULE = "a case is one program under one page setting; distinct = different listing";

static bool header(const string& l) { return !l.compare(0, 6, "Crasm ") && l.find(": ") != string::npos && l.find("page") != string::npos; }
static bool diagnostic(const string& l) { size_t i = 0; while (i < l.size() && (l[i] == '>' || l[i] == ' ')) i++; size_t k = i; while (k < l.size() && isdigit((unsigned char)l[k])) k++; return k > i && (!l.compare(k, 7, " ERROR:") || !l.compare(k, 9, " WARNING:")); }

// the output must consist of whole pages of `plen` lines, unless an earlier setting was in force for a while
static void pages(const string& out, int plen, int llen, const string& title, bool whole, const string& key, Fails& f) {
  Strs l = ref::lines_of(out);
  while (!l.empty() && l.back().empty() && plen == 0) l.pop_back();
  int no = 0;
  for (size_t i = 0; i < l.size(); i++) {
    bool first = plen ? i % plen == 0 : i == 0;
    if (header(l[i]) != first && !(first && i == l.size() - 1 && l[i].empty())) { f.add(key, fmt("output line %zu: a page header is %s (pages of %d lines): |", i + 1, first ? "missing" : "out of place", plen) + excerpt(l[i], 120) + "|"); return; }
    if (first && header(l[i])) {
      no++;
      if (l[i].find(fmt("page%3d", no)) + fmt("page%3d", no).size() != l[i].size()) { f.add(key, fmt("header of page %d: |", no) + l[i] + "|"); return; }
      if (l[i].find(title) == string::npos) { f.add(key, fmt("header of page %d lacks the title: |", no) + l[i] + "|"); return; }
      if (i + 1 < l.size() && !l[i + 1].empty()) { f.add(key, "no blank line after a header"); return; }
    }
    if (plen && (int)(i % plen) >= plen - 2 && !l[i].empty()) { f.add(key, fmt("output line %zu, in the bottom margin: |", i + 1) + excerpt(l[i], 120) + "|"); return; }
    if (!header(l[i]) && !diagnostic(l[i]) && (int)l[i].size() > llen) { f.add(key, fmt("output line %zu is %zu columns wide, the width is %d: |", i + 1, l[i].size(), llen) + excerpt(l[i], 120) + "|"); return; }
  }
  if (whole && plen && l.size() % plen && !(l.size() % plen == 1 && l.back().empty())) f.add(key, fmt("the output has %zu lines, no multiple of %d", l.size(), plen));
}

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  auto opts = [](const string& o) { vector<string> v; if (!o.empty()) v.push_back("-" + o); v.insert(v.end(), {"-o", "o", "a.asm"}); return v; };
  auto run = [&](const string& body, int pl, int ll, const string& o, u64 steps, const string& title = "") {
    if (!cx.mine()) return;
    string t = fmt(" page %d,%d\n", pl, ll);
    if (!title.empty()) t += " nam " + title + "\n";
    Prog p(t + "* = 0\n" + body + " db 99\n", opts(o));
    J.extra = [=](const Prog& p, const ref::Out& x, const Result& r, Fails& f) { if (!x.fatal && o.find('l') == string::npos) pages(r.out, pl, ll, title, !x.errors || o.find('x') != string::npos, p.files[0].second, f); };   // without a symbol table the last page is not filled up
    J.now(p, "", steps);
    J.extra = nullptr;
  };
  Strs kinds = {" db 1\n", "\n", "; comment\n", "lab@ dw lab@\n", " db nosuch\n", " db $100\n", " ds 30,1\n", " db 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16\n"};
  // ---- 1. every page length
  {
    for (int pl = 10; pl <= 200; pl++) for (int d = -6; d <= 6; d++) for (int m = 1; m <= 2; m++) for (auto o : {"", "x"}) for (size_t k = 0; k < (cx.thorough ? kinds.size() : 3); k++) {
      int n = m * (pl - 4) + d; if (n < 0) continue;
      string b; for (int i = 0; i < n; i++) for (char c : kinds[k == 2 && !cx.thorough ? 3 : k]) if (c == '@') b += std::to_string(i); else b += c;
      run(b, pl, 80, o, n);
    }
    for (int n = 0; n <= (cx.thorough ? 300 : 100); n++) for (int pl : {0, 10, 11, 12, 13, 66, 200}) for (auto o : {"", "x", "l", "lx"}) for (auto& kd : kinds) { string b; for (int i = 0; i < n; i++) for (char c : kd) if (c == '@') b += std::to_string(i); else b += c; run(b, pl, 76, o, n); }
    cx.bound("every page length 10..200 x numbers of lines around one and two pages; 7 page lengths x 0..100 (thorough 300) lines x 8 kinds of line x option sets");
  }
  // ---- 2. every width
  {
    Strs text = {" db 1 ; a comment that is long enough to be wrapped at the narrower widths, and to be wrapped again later on", "label db 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28 ; c", " asc 'a string with blanks in it that goes on for quite a while, and then some more of it'", ";" + string(200, 'x'), "                                                                   db 7", "; a\tb\tc\td\te\tf\tg\th\ti\tj\tk\tl\tm\tn\to\tp", "averyveryverylongnameforalabelindeeditis = $12345678 ; comment", " m an,operand,list,with,many,elements,in,it", " db 1                                              ;                               x", "longlonglonglonglonglong equ 2+3+4+5+6+7+8+9+10+11+12+13+14+15+16+17+18+19+20+21+22+23"};
    for (int ll = 39; ll <= 999; ll += cx.thorough || ll < 260 ? 1 : 13) for (size_t i = 0; i < text.size(); i++) for (auto o : {"", "x"}) run("m macro\n db 1\n endm\n" + text[i] + "\n" + text[(i + 1) % text.size()] + "\n", 66, ll, o, 6);
    for (int ll : {39, 50, 60, 76, 80, 91, 100, 120, 132, 160, 200, 255}) for (int n = 0; n <= 230; n++) { run(" db 1" + string(n, ' ') + ";c d e\n", 66, ll, "", 2); run("l" + string(n, 'l') + ";c\n", 66, ll, "", 2); run(" asc '" + string(n, 'x') + "';c d\n", 66, ll, "", 2); run("; " + string(n, 'c') + " d ; e\n", 66, ll, "", 2); }
    for (int ll : {39, 40, 41, 45, 59, 60, 76}) for (int n = 0; n <= 250; n++) { run(" db 1 ;" + string(n, 'c') + "\n", 66, ll, "", 2); run(" db 1" + repeat(",1", n / 2) + "\n", 66, ll, "", 2); run(string(n, ' ') + "db 1\n", 66, ll, "", 2); run(";" + repeat("abc de ", n / 7) + string(n % 7, 'z') + "\n", 20, ll, "", 2); run("l db 1" + repeat("\t", n % 40) + ";" + repeat("\tq", n / 4) + "\n", 10, ll, "", 2); }
    Strs t = {"aaaaaaaaa", " ", "\t", ";", ",", "'", "        "};
    for (int k = 1; k <= (cx.thorough ? 6 : 5); k++) sequences(t.size(), k, [&](const vector<int>& q) { string e; for (int i : q) e += t[i]; for (int ll : {39, 44}) run(e + "\n", 12, ll, "", 1); });
    cx.bound("every width 39..259 (thorough: ..999) x 10 long lines; 7 widths x lines of 0..250 characters in 5 shapes, 12 widths x 4 kinds of line whose comment begins at any column; all lines of up to 5 (thorough 6) tokens at 2 widths");
  }
  // ---- 3. which values PAGE accepts, and titles
  {
    for (int v = -3; v <= 260; v++) { J(Prog(fmt(" page %d,76\n* = 0\n db 1\n", v))); J(Prog(fmt(" page 66,%d\n* = 0\n db 1\n", v))); }
    for (int v = 985; v <= 1030; v++) J(Prog(fmt(" page 66,%d\n* = 0\n db 1\n", v)));
    for (auto v : {"", "66", "66,", ",76", "66,76,1", "x", "66,x", "$42,$4C", "66 76", "65536+66,76", "1<<32+66,76", "66,$FFFFFFFF", "-1,76", " ; c", "66 , 76"}) for (int k = 0; k < 2; k++) J(Prog((k ? "* = 0\nx = 50\n page " : " page ") + string(v) + "\n* = 0\n db 1\n"));
    for (int n = 0; n <= 60; n++) { J(Prog(" nam " + string(n, 't') + "\n* = 0\n db 1\n")); if (n && n <= 30) for (int ll : {39, 57, 58, 59, 76, 130}) run("", 20, ll, "", 1, string(n, 't')); }
    Strs tt = {"a", "b c", "'x'", ";c", "a;b", "  x", "a  b", "\ta", "a\t", "A", "title, with comma", "", "\\1", "(x)"};
    for (auto& x : tt) for (auto& y : tt) { J(Prog(" nam " + x + y + "\n* = 0\n db 1\n")); J(Prog(" nam " + x + "\n* = 0\n db 1\n page\n db 2\n nam " + y + "\n page\n db 3\n")); }
    cx.bound("PAGE with every value from -3 to 260 and from 985 to 1030, 15 other operands, titles of every length to 60 and of 196 shapes");
  }
  // ---- 4. PAGE, SKIP, NAM and LIST at all places
  {
    Strs a = {" db 1", " page", " page 10,60", " page 15,100", " page 0,76", " skip 1", " skip 3", " skip 8", " skip 200", " nam xyz", " list off", " list on", " db nosuch", "; a comment that is long enough to be wrapped by the narrower settings of the width that are used here"};
    int len = cx.thorough ? 5 : 4;
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog("* = 0\n" + text(a, q) + " db 2\n"), "", k); });
    for (int s = -2; s <= 210; s++) for (int pl : {0, 10, 66}) { J(Prog(fmt(" page %d,76\n* = 0\n db 1\n skip %d\n db 2\n", pl, s))); J(Prog(fmt("* = 0\n db 1\n skip %d\n db 2\n", s))); }
    cx.bound(fmt("all sequences of up to %d of %zu listing statements, SKIP with every value from -2 to 210", len, a.size()));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
