// Conditional assembly: all sequences of conditional and other lines (in the source, in a macro, across
// include files), all comparisons of boundary values in every layout, nestings of every depth.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C13";
const char* RULE = "a case is one program; distinct = different code or listing";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  auto head = [](int cpu) { return string(cpu ? " cpu 6502\n" : "") + "* = $100\nt = 1\nz = 0\n"; };
  // ---- 1. sequences
  {
    Strs core = {" if 1", " if 0", " else", " endc", " db $A1", "lab db $B2"};
    int len = cx.thorough ? 8 : 7;
    for (int k = 0; k <= len; k++) sequences(core.size(), k, [&](const vector<int>& q) {
      int labs = 0; for (int i : q) labs += i == 5;
      if (labs > 1) return;
      J(Prog(head(0) + text(core, q) + " dl *\n"), "", k);
    });
    cx.bound(fmt("all sequences of up to %d of %zu core lines", len, core.size()));
    Strs wide = {" if t", " if z", " if fwd", " if nosuch", " if", " if t=", " else", " else 1", " endc", " endc x", "lb if t", " db 1", " db nosuch", " garbage", "t = z", "z = t", "m macro", " endm", " exitm", " dummy", "* = *+8", " fail", " if z ; else", " IF t>z", "fwd db 3"};
    int l2 = cx.thorough ? 4 : 3;
    for (int k = 1; k <= l2; k++) sequences(wide.size(), k, [&](const vector<int>& q) {
      J(Prog(head(0) + text(wide, q) + " dl *\n"), "", k);
      J(Prog(head(0) + " if t\n" + text(wide, q) + " else\n db 7\n endc\n dl *\n"), "", k);
      J(Prog(head(0) + " if z\n" + text(wide, q) + " endc\n dl *\n"), "", k);
      J(Prog(head(0) + " if z\n db 5\n else\n" + text(wide, q) + " endc\n dl *\n"), "", k);
    });
    cx.bound(fmt("all sequences of up to %d of %zu lines at top level and in both branches", l2, wide.size()));
  }
  // ---- 2. in macros and across include files
  {
    Strs body = {" if \\1", " if \\1=\\2", " else", " endc", " db $A1", " exitm", " db \\2", " if 0"};
    int len = cx.thorough ? 6 : 4;
    for (int k = 1; k <= len; k++) sequences(body.size(), k, [&](const vector<int>& q) {
      J(Prog(head(0) + "m macro\n" + text(body, q) + " endm\n db 1\n m 1,1\n m 0,2\n m\n dl *\n"), "", 3 * k);
    });
    for (int k = 1; k <= std::min(len, 5); k++) sequences(body.size(), k, [&](const vector<int>& q) {
      J(Prog(head(0) + "m macro\n" + text(body, q) + " endm\n if t\n m 1,1\n else\n m 0,2\n endc\n if z\n m 1,2\n endc\n dl *\n"), "", 3 * k);
    });
    cx.bound(fmt("all macro bodies of up to %d of %zu lines, called inside and outside conditionals", len, body.size()));
    // macros that call macros and include files: conditionals of each may end too early, too late or in the wrong one
    Strs outer = {" if \\1", " else", " endc", " i \\1", " i 0", " include b", " db $D1", " exitm"};
    Strs inner = {"", " if \\1\n", " if \\1\n db $E1\n else\n", " if \\1\n db $E2\n endc\n", " else\n", " endc\n", " if \\1\n exitm\n endc\n db $E3\n", " if \\1\n if 1\n db $E4\n endc\n", " if 0\n i2\n else\n i2\n endc\n", " i2\n if 1\n db 3\n", " if 1\n i2\n"};
    for (int k = 1; k <= (cx.thorough ? 5 : 3); k++) sequences(outer.size(), k, [&](const vector<int>& q) {
      for (auto& in : inner) for (const char* b : {" i 1\n", " if 1\n db $B1\n", " i 0\n else\n"}) {
        bool uses = false; for (int i : q) uses |= i == 5;
        if (!uses && b[2] != ' ' && string(b) != " i 1\n") continue;
        if (k == 5 && in.size() < 30) continue;
        J(Prog(head(0) + "i2 macro\n if z\n db $C1\n endc\n if t\n db $C2\n endm\ni macro\n" + in + " db $E9\n endm\nm macro\n" + text(outer, q) + " db $D9\n endm\n db 1\n m 1\n db 2\n m 0\n db 3\n endc\n dl *\n").add("b", b), "", 3 * k);
      }
    });
    cx.bound(fmt("all outer macro bodies of up to %d of %zu lines around %zu inner ones, balanced or not, with include files", cx.thorough ? 5 : 3, outer.size(), inner.size()));
    Strs inc = {" if t", " if z", " else", " endc", " db $A1", " include b"};
    for (int k = 1; k <= (cx.thorough ? 5 : 4); k++) sequences(inc.size(), k, [&](const vector<int>& q) {
      for (const char* b : {" db $B1\n", " if t\n db $B2\n endc\n", " else\n db $B3\n", " db $B4\n endc\n db $B5\n", " if z\n db $B6\n"}) J(Prog(head(0) + text(inc, q) + " dl *\n").add("b", b), "", k);
    });
    cx.bound("all sequences of up to 4 (thorough: 5) lines with 5 include files that open, split or close conditionals");
  }
  // ---- 3. comparisons
  {
    Strs v = {"0", "1", "2", "-1", "$7F", "$80", "$FF", "$7FFF", "$8000", "$FFFF", "$10000", "$7FFFFFFF", "$80000000", "$FFFFFFFF", "-$80000000", "a", "b", "*", "'<'", "1<<2", "8>>1", "(1>0)", "nosuch", "later", "a{1}", "a{2}", "lo(b)", "~0", "\"=\"", "", "(a)", "(a)+0"};
    Strs rel = {"=", "==", "!=", "<>", "<", ">", "<=", ">=", "=<", "=>", "<<", " = ", " >=", "> =", "\t<>\t"};
    for (auto& x : v) { J(Prog(head(0) + "a = $80\nb = $1234\n if " + x + "\n db 1\n else\n db 2\n endc\nlater db 3\n")); for (auto& r : rel) for (auto& y : v) J(Prog(head(0) + "a = $80\nb = $1234\n if " + x + r + y + "\n db 1\n else\n db 2\n endc\nlater db 3\n")); }
    for (auto& x : v) for (auto& y : v) for (auto r : {"=", "<", "<>"}) J(Prog(head(0) + "a = $80\nb = $1234\nm macro\n if \\1" + r + "\\2\n db 1\n endc\n endm\n m " + x + "," + y + "\nlater db 3\n"));
    Strs zr = {"a", "hl", "ix", "(hl)", "z", "nc", "5", "af", "i"};
    for (auto& x : zr) for (auto& r : rel) for (auto& y : zr) J(Prog(" cpu z80\n* = $100\n if " + x + r + y + "\n db 1\n else\n db 2\n endc\n"));
    cx.bound(fmt("%zu operands x %zu comparisons, and Z80 registers", v.size(), rel.size()));
  }
  // ---- 4. depth
  for (int d = 1; d <= (cx.thorough ? 400 : 60); d++) for (int t = 0; t <= std::min(d, 6); t++) for (int e = 0; e < 2; e++) {
    string s = head(0);
    for (int i = 0; i < d; i++) s += i + t == d ? " if 0\n" : " if 1\n";
    s += " db $A1\n";
    for (int i = 0; i < d; i++) s += (e ? fmt(" else\n db %d\n", i & 255) : "") + " endc\n db $C3\n";
    J(Prog(s), "", d);
  }
  cx.bound("nesting to 60 (thorough 400), each with the innermost levels false");
  // ---- 5. IF and CLIST
  {
    Strs a = {" if t", " if z", " else", " endc", " db $A1", " clist off", " clist on", " list off", " list on"};
    int len = cx.thorough ? 6 : 5;
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { if (k >= 5 && !(a[q[0]][1] == 'c' || a[q[0]][1] == 'i')) return; J(Prog(head(0) + text(a, q) + " dl *\n"), "", k); });
    cx.bound(fmt("sequences of up to %d of %zu lines with CLIST and LIST (longest: those that begin with IF or CLIST)", len, a.size()));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
