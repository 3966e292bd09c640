// Data directives: every list of values in every directive on every processor, every count of DS,
// every string of ASC, every alignment after every length.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C09";
const char* RULE = "a case is one program of data statements; distinct = different code or listing";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  Strs cpu = {"", " cpu 6502\n", " cpu 65c02\n", " cpu 6800\n", " cpu 6801\n", " cpu z80\n"};
  Strs dir = {"db", "dw", "dl", "ddb"};
  // a set of lines: all of them with errors in place, then only the correct ones
  auto both = [&](const string& head, const Strs& l, const string& tail) {
    if (!cx.mine()) return;
    cx.count("statements", l.size());
    Strs g = accepted(head, l, tail);
    J.now(Prog(head + join(l, "\n") + "\n" + tail), "", l.size());
    if (g.size() < l.size() && !g.empty()) J.now(Prog(head + join(g, "\n") + "\n" + tail), "", g.size());
  };
  // ---- 1. lists of values
  {
    Strs v = {"0", "1", "$7F", "$80", "$FF", "$100", "0-1", "-$80", "-$81", "$7FFF", "$8000", "$FFFF", "$10000", "-$8001", "$7FFFFFFF", "$80000000", "$FFFFFFFF", "'A'", "'AB'", "back", "fwd", "*", "*+1", "(1)", "", " ", "nosuch", "1 2", "'", "bits", "\"a,b\"", "(1,2)", "1)"};
    if (!cx.thorough) { Strs w; for (auto& x : v) if (x != "-$81" && x != "$7FFF" && x != "-$8001" && x != "*+1") w.push_back(x); v = w; }
    for (auto& c : cpu) for (auto& d : dir) {
      string head = c + "* = $12FE\nback = $1234\nbits = back{3}\n", tail = "fwd = $5678\nend dw end\n";
      Strs l;
      auto flush = [&](bool force) { if (l.size() >= 60 || (force && l.size())) { both(head, l, tail); l.clear(); } };
      for (int k = 1; k <= (cx.thorough ? 3 : 2); k++) sequences(v.size(), k, [&](const vector<int>& s) {
        string e; for (size_t i = 0; i < s.size(); i++) e += (i ? "," : "") + v[s[i]];
        l.push_back(" " + d + " " + e);
        if (k == 2) l.push_back(" " + d + " " + v[s[0]] + " ,\t" + v[s[1]]);
        flush(false);
      });
      flush(true);
    }
    cx.bound(fmt("all lists of up to %d of %zu values in %zu directives on %zu processors", cx.thorough ? 3 : 2, v.size(), dir.size(), cpu.size()));
    Strs w = {"1", "$FF", "$100", "fwd", "*"};
    int len = cx.thorough ? 6 : 4;
    for (auto& c : {cpu[0], cpu[1], cpu[3], cpu[5]}) for (auto& d : dir) { Strs l; string head = c + "* = $12FE\n", tail = "fwd = $5678\nend dw end\n"; for (int k = 3; k <= len; k++) { sequences(w.size(), k, [&](const vector<int>& s) { string e; for (size_t i = 0; i < s.size(); i++) e += (i ? "," : "") + w[s[i]]; l.push_back(" " + d + " " + e); if (l.size() >= 60) { both(head, l, tail); l.clear(); } }); } if (l.size()) both(head, l, tail); }
    cx.bound(fmt("all lists of 3 to %d of %zu values", len, w.size()));
    for (auto& c : {cpu[0], cpu[1], cpu[3], cpu[5]}) for (auto& d : dir) for (int k = 1; k <= (cx.thorough ? 300 : 120); k++) J(Prog(c + "* = $FFF0\n " + d + " 1" + repeat(",$A5", k - 1) + "\nend dw end\n " + d + " *" + repeat(",*", k % 9) + "\n"));
    cx.bound("lists of every length to 120 values (thorough: 300)");
  }
  // ---- 2. sequences of directives of different widths and byte orders
  {
    Strs a = {" db 1", " dw $1234", " dl $12345678", " ddb $1234", " ds 1", " ds 2,$EE", " asc 'x'", " align even", " align odd", "lab dw lab", " db fwd", " dw *", " ds 0", " output hex"};
    int len = cx.thorough ? 5 : 3;
    for (auto& c : {cpu[0], cpu[1], cpu[3], cpu[5]}) for (auto o : {"$1000", "$1001", "$FFFF"}) for (int k = 1; k <= (c.empty() && cx.thorough ? len : std::min(len, cx.thorough ? 4 : 3)); k++) sequences(a.size(), k, [&](const vector<int>& s) {
      int labs = 0; for (int i : s) labs += a[i][0] == 'l';
      if (labs > 1) return;
      J(Prog(c + "* = " + o + "\n" + text(a, s) + "end dw end,*\nfwd = 7\n"), "", k);
    });
    cx.bound(fmt("all sequences of up to %d of %zu data statements from 3 origins on 4 processors", len, a.size()));
  }
  // before the first origin: refused, without an effect on what follows
  {
    Strs a = {" db 1", " dw $1234", " dl $12345678", " ddb $1234", " ddb 1,2", " ds 1", " ds 0", " asc 'x'", " asc ''", " align even", " align odd", " ddb", " cpu 6502", " cpu 6800", " dummy", " code"};
    for (auto& c : {cpu[0], cpu[1], cpu[3], cpu[5]}) for (int k = 1; k <= (cx.thorough ? 3 : 2); k++) sequences(a.size(), k, [&](const vector<int>& s) { J(Prog(c + text(a, s) + "* = $1000\n dw $1234\n ddb $1234\n dl $12345678\n"), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu data statements before the first origin", cx.thorough ? 3 : 2, a.size()));
  }
  // ---- 3. DS: every count and fill
  {
    Strs fill = {"", ",0", ",1", ",$FF", ",$100", ",-1", ",-$80", ",$FFFFFFFF", ",'A'", ",back", ",fwd", ",nosuch", ",", ",1,2", " , 3"};
    Strs cnt = {"back", "fwd", "nosuch", "-1", "0-5", "$FFFFFFFF", "$80000000", "", "(3)", "4-1", "*-*+2", "1 2", "'A'", "bits"};
    for (int k = 0; k <= (cx.thorough ? 600 : 140); k++) cnt.push_back(fmt("%d", k));
    for (auto& c : {cpu[0], cpu[1], cpu[5]}) for (auto& n : cnt) for (auto& x : fill) J(Prog(c + "* = $FFE\nback = 5\nbits = back{3}\n ds " + n + x + "\nend dw end\n db 1\nfwd = 6\n"));
    for (int k : {255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537}) for (auto x : {"", ",$A5"}) J(Prog(fmt("* = 0\n ds %d%s\nend dl end\n", k, x)));
    cx.bound(fmt("%zu counts x %zu fill values of DS, and large counts", cnt.size(), fill.size()));
  }
  // ---- 4. ASC
  {
    Strs ch = {"A", "z", " ", "\\n", "\\t", "\\r", "\\0", "\\\\", "\\'", "\\\"", "'", "\"", ";", ",", "\\x", "\t", "\\"};
    int len = cx.thorough ? 5 : 4;
    for (auto q : {"'", "\""}) { Strs l; for (int k = 0; k <= len; k++) sequences(ch.size(), k, [&](const vector<int>& s) { string e; for (int i : s) e += ch[i]; l.push_back(string(" asc ") + q + e + q); if (k <= 2) { l.push_back(string(" asc ") + q + e); l.push_back(string(" asc ") + q + e + q + " "); l.push_back(string(" asc ") + q + e + q + "x"); l.push_back(string("a") + fmt("%zu", l.size()) + " asc  " + q + e + q + " ; c"); } if (l.size() >= 100) { both("* = $1000\n", l, "end dw end\n"); l.clear(); } }); both("* = $1000\n", l, "end dw end\n"); }
    for (int k = 1; k <= 200; k++) J(Prog("* = $FFF1\n asc '" + string(k, 'q') + "'\nend dw end\n"));
    cx.bound(fmt("all strings of up to %d of %zu characters and escapes, and every length to 200", len, ch.size()));
  }
  // ---- 5. ALIGN
  {
    Strs op = {"even", "odd", "EVEN", "Odd", "", "2", "evenx", "even odd", "EVEN ", "  odd"};
    for (auto& c : {cpu[0], cpu[5]}) for (int o = 0; o < 4; o++) for (int k = 0; k < 4; k++) for (auto& x : op) for (auto& y : op) J(Prog(c + fmt("* = $%X\n ds %d,1\nl1 align ", 0xFFFE + o, k) + x + "\nl2 align " + y + "\nend dw l1,l2,end\n"));
    cx.bound("every pair of ALIGN operands after every parity of origin and length");
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
