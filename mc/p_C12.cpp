// Local labels: all programs over local definitions, uses, scope changes and macro calls.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C12";
const char* RULE = "a case is one program; distinct = different code, listing or symbol table";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  const vector<string> full = {"-x", "-o", "o", "a.asm"};
  {
    struct S { const char* head; Strs a; };
    const char* m = "m macro\n.l db $A0\n dw .l,.f\n.f db $A1\n endm\nuse macro\n dw \\1\n endm\nin macro\n m\n.k db $A2\n use .k\n dw .k\n endm\ndef macro\n\\1 = \\2\n endm\n";
    string h1 = string("* = $100\n") + m, h2 = "* = $100\n", h3 = string("* = $100\n") + m + "sec macro\n.l = 1\n dummy\n.l = 2\n code\n.l = 3\n dw .l\n endm\nex macro\n.l db 9\n if \\1\n exitm\n endc\n dw .l\n endm\n";
    vector<S> sp = {
      {h1.c_str(), {".l db 1", " dw .l", " code", " dummy", " m", " use .l", ".l = 5", ".k = .l", " dw .k", " in", " def .l,7", "g dw .l"}},
      {h2.c_str(), {".l db 1", ".l", ".l = 5", ".l = *", " dw .l", " db .l-.k", " code", " dummy", ".k = .l", ".k", "g = .l", " dw g", " if .l\n db 2\n endc", "* = .l", ".L = 6", ".lx dw .l"}},
      {h3.c_str(), {".l db 1", " dw .l", " sec", " ex 0", " ex 1", " m", " code", "n macro\n.l = 4\n db .l\n endm", " n", " if 1\n m\n endc", " if 0\n.l = 8\n endc", ".l = 8"}},
    };
    int len = cx.thorough ? 6 : 4;
    for (auto& s : sp) for (int k = 0; k <= len; k++) {
      if (k == 6 && &s != &sp[0]) continue;
      sequences(s.a.size(), k, [&](const vector<int>& q) { J(Prog(s.head + text(s.a, q) + "end dl end\n", full), "", k); });
    }
    cx.bound(fmt("all sequences of up to %d of %zu, %zu and %zu statements on local labels, scopes and macros", len, sp[0].a.size(), sp[1].a.size(), sp[2].a.size()));
  }
  // ---- scopes by the number of CODE/DUMMY directives and macro calls before them
  for (int n = 0; n <= (cx.thorough ? 400 : 120); n++) for (int kind = 0; kind < 5; kind++) {
    string s = "* = $100\nm macro\n.l dw .l,\\1\n endm\n";
    for (int i = 0; i < n; i++) {
      if (kind == 0) s += " code\n.l dw .l\n";
      if (kind == 1) s += fmt(" m %d\n", i);
      if (kind == 2) s += i % 2 ? " code\n" : " dummy\n";
      if (kind == 3) s += fmt(".l%d dw .l%d\n", i, n - 1 - i);
      if (kind == 4) s += i % 3 == 2 ? " code\n" : i % 3 ? " m .x\n" : ".x dw .x\n";
    }
    J(Prog(s + ".l dw .l\n.1 dw .1\n.11 dw .11\n", full), "", n);
  }
  cx.bound("1 to 120 (thorough 400) scopes of five kinds");
  // ---- collisions between scope numbers and names made of digits
  {
    Strs nm = {".1", ".11", ".0", ".2", ".12", ".l", ".1l", "._", ".a1", ".1.", "..", "..1"};
    for (int pre : {0, 1, 9, 10, 11, 99, 110}) for (auto& a : nm) for (auto& b : nm) {
      string s = "* = $100\n" + a + " db 1\n" + repeat(" code\n", pre) + b + " db 2\n dw " + b + "\n code\n" + a + " db 3\n dw " + a + "," + b + "\n";
      J(Prog(s, full));
    }
    cx.bound("all pairs of 12 local names around 7 numbers of scopes");
  }
  // ---- nested expansions of macros that use local labels, with forward and backward branches
  {
    Strs body = {".a nop", " bne .a", " bne .b", ".b nop", " inner", " dw .a", " if \\1\n bne .b\n endc"};
    int len = cx.thorough ? 5 : 4;
    for (int k = 1; k <= len; k++) sequences(body.size(), k, [&](const vector<int>& q) {
      J(Prog(" cpu 6502\n* = $1000\ninner macro\n.a inx\n bne .a\n bne .b\n.b iny\n endm\nouter macro\n" + text(body, q) + " endm\n.a nop\n.b nop\n outer 1\n bne .a\n bne .b\n outer 0\n dw .a,.b\n", full), "", k);
    });
    cx.bound(fmt("all macro bodies of up to %d of %zu lines, called twice inside a scope with the same names", len, body.size()));
  }
  // ---- macro calls nested to every depth the assembler allows (and one more), with the same local at chosen levels
  {
    int deepest = 12;
    for (int d = 1; d <= deepest; d++) for (int mask = 0; mask < (1 << std::min(d, cx.thorough ? 12 : 9)); mask++) for (int where = 0; where < 3; where++) {
      if (!cx.mine()) continue;
      string s = "* = $100\n";
      for (int i = d - 1; i >= 0; i--) {
        bool def = i >= 9 || (mask >> i & 1);
        string call = i + 1 < d ? fmt(" n%d\n", i + 1) : "";
        s += fmt("n%d macro\n", i);
        if (def && where == 0) s += fmt(".l db %d\n", i) + call + " dw .l\n";
        else if (def && where == 1) s += " dw .l\n" + call + fmt(".l db %d\n", i);
        else if (def) s += call + fmt(".l = %d\n db .l\n", i + 40);
        else s += call + fmt(" db %d\n", i + 80);
        s += " endm\n";
      }
      J.now(Prog(s + ".l db $EE\n n0\n dw .l\n n0\n dw .l\n", full), "", d);
    }
    for (int d = 1; d <= deepest; d++) for (int inc = 0; inc < d; inc++) {
      if (!cx.mine()) continue;
      string s = "* = $100\n";
      for (int i = d - 1; i >= 0; i--) s += fmt("n%d macro\n.l db %d\n", i, i) + (i + 1 < d ? (i == inc ? string(" code\n.l db $C0\n") : string()) + fmt(" n%d .l\n", i + 1) : string()) + " dw .l,\\1\n endm\n";
      J.now(Prog(s + ".l db $EE\n n0 .l\n dw .l\n n0 7\n dw .l\n", full), "", d);
    }
    cx.bound("macro calls nested 1 to 12 deep, the same local name defined at every subset of the levels in three ways, a CODE at every level");
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
