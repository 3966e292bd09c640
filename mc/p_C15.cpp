// INCLUDE: all splits of programs into files, every nesting, every line ending; each program also
// against its inlined form, assembled by the real code.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C15";
const char* RULE = "a case is one program with its files (and its inlined form); distinct = different code or listing";

static string inlined(const Prog& p, const string& name, int depth = 0) {
  string r;
  for (auto& f : p.files) if (f.first == name) {
    Strs l = ref::lines_of(f.second);
    for (auto& x : l) {
      size_t k = x.find(" include ");
      if (k == 0 && depth < 20) { string n = x.substr(9); bool have = false; for (auto& g : p.files) have |= g.first == n; if (have) { r += inlined(p, n, depth + 1); continue; } }
      r += x + "\n";
    }
  }
  return r;
}

// an include file that opens or closes conditionals differs from its text when it is skipped
static bool balanced(const Prog& p) {
  for (auto& f : p.files) if (f.first != "a.asm") {
    int d = 0;
    for (auto& l : ref::lines_of(f.second)) { if (!l.compare(0, 4, " if ")) d++; if (l == " else" && !d) return false; if (l == " endc" && --d < 0) return false; }
    if (d) return false;
  }
  return true;
}

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  auto both = [&](const Prog& p, u64 steps) {
    if (!cx.mine()) return;
    J.now(p, "", steps);
    if (balanced(p) && !ref::assemble(p, "").fatal) same_code(cx, p, Prog(inlined(p, "a.asm"), p.args), ref::show(p), "INCLUDE and the inlined text", false);
  };
  // ---- 1. all contents of two or three files
  {
    Strs a = {" db 1", "l db 2", " dw l", " include b", " if t", " endc", " m", " db nosuch", ".k db 4", "z = z+1"};
    Strs b = {" db $B1", "l db $B2", " if t", " else", " endc", " include c", " m", "m macro\n db $B5\n endm", ".k dw .k", " db nosuch", " code"};
    int la = 3, lb = cx.thorough ? 3 : 2;
    for (int k = 1; k <= la; k++) sequences(a.size(), k, [&](const vector<int>& q) {
      bool inc = false; for (int i : q) inc |= i == 3;
      if (!inc) return;
      for (int n = 0; n <= lb; n++) sequences(b.size(), n, [&](const vector<int>& r) {
        string s = text(b, r);
        for (int nl = 0; nl < (n && k < 3 ? 2 : 1); nl++) both(Prog("* = $100\nt = 1\nz = 0\nm macro\n db 7\n endm\n" + text(a, q) + " dl *,z\n").add("b", nl ? s.substr(0, s.size() - 1) : s).add("c", " db $C1\nz = z+5\n"), k + n);
      });
    });
    cx.bound(fmt("all main sources of up to %d of %zu lines with an include, all include files of up to %d of %zu lines, with and without a final newline", la, a.size(), lb, b.size()));
  }
  // ---- 2. every way of cutting a program into nested files
  {
    Strs prog = {" cpu 6502", "* = $100", "a lda b", " if c=2", "b = a+1", " else", "b = a+2", " endc", "m macro", " ldx #\\1", ".z bne .z", " endm", "c = 2", " m 5", ".z jmp .z", " m c", " dw a,b,c"};
    Prog whole(join(prog, "\n") + "\n");
    int n = prog.size();
    auto cut = [&](vector<std::pair<int, int>> iv) {      // nested or disjoint intervals become files
      if (!cx.mine()) return;
      Prog p; p.args = {"-o", "o", "a.asm"};
      std::function<string(int, int, int)> gen = [&](int from, int to, int self) {
        string s;
        for (int i = from; i < to;) {
          bool done = false;
          for (size_t k = 0; k < iv.size(); k++) if ((int)k != self && iv[k].first == i && iv[k].second <= to && (self < 0 || (int)k > self)) {
            string name = fmt("f%zu", k); bool have = false; for (auto& f : p.files) have |= f.first == name;
            if (have) continue;
            p.files.push_back({name, ""}); size_t at = p.files.size() - 1;
            string body = gen(iv[k].first, iv[k].second, k); p.files[at].second = body;
            s += " include " + name + "\n"; i = iv[k].second; done = true; break;
          }
          if (!done) s += prog[i++] + "\n";
        }
        return s;
      };
      p.files.push_back({"a.asm", ""}); string m = gen(0, n, -1); p.files[0].second = m;
      J.now(p, "", n);
      same_code(cx, p, whole, ref::show(p), "a program and the same cut into files", false);
    };
    auto legal = [](int i, int j) { return !((i > 8 && i < 12) || (j > 8 && j < 12)); };  // a macro body is read as it stands
    for (int i = 0; i < n; i++) for (int j = i + 1; j <= n; j++) { if (!legal(i, j)) continue; cut({{i, j}}); for (int k = i; k < j; k++) for (int l = k + 1; l <= j; l++) { if (!legal(k, l) || (k == i && l == j)) continue; cut({{i, j}, {k, l}}); } if (cx.thorough) for (int k = j; k < n; k++) for (int l = k + 1; l <= n; l++) if (legal(k, l)) cut({{i, j}, {k, l}}); }
    cx.bound("every interval of lines of a 17-line program as a file, and every nested (thorough: and disjoint) pair of intervals");
  }
  // ---- 3. nesting depth, repeated, missing and odd names, no final newline, blank lines, from macros
  {
    for (int d = 1; d <= 13; d++) for (int nl = 0; nl < 2; nl++) for (int after = 0; after < 3; after++) {
      Prog p; p.args = {"-o", "o", "a.asm"};
      for (int i = 0; i < d; i++) { string s = (i ? "" : string("* = 0\n")) + fmt(" db %d\n", i) + (i + 1 < d ? fmt(" include f%d", i + 1) : string(" db $EE")) + (nl || after ? "\n" : ""); if (after) s += fmt(" db %d", 100 + i) + (nl ? "\n" : ""); if (after == 2) s += "\n\n"; p.files.push_back({i ? fmt("f%d", i) : "a.asm", s}); }
      both(p, d);
    }
    for (int n = 1; n <= (cx.thorough ? 2000 : 300); n *= 2) both(Prog("* = 0\n" + repeat(" include f\n", n)).add("f", " db 1\n"), n);
    both(Prog("* = 0\n include a.asm\n db 1\n"), 1);
    Strs names = {"nosuch", "", "f ", "F", "f;x", "\"f\"", "<f>", "f g", "f,g", "f(1)", "$f", "f.inc", "x/y", "/nosuch/x", "f\tg", "'f'", "\\f", "a*b"};
    for (auto& x : names) for (auto post : {"", " db 2\n", "l db 3\n dw l\n"}) J(Prog("* = 0\n db 1\n include " + x + "\n" + post).add("f", " db 9\n").add("f.inc", " db 8\n").add("f g", " db 7\n").add("d", "\001DIR"));
    for (int n = 1; n <= 240; n += 7) { string nm(n, 'n'); J(Prog("* = 0\n include " + nm + "\n db 2\n").add(n <= 200 ? nm : "f", " db 9\n")); }
    Strs ends = {"", "\n", " db 1", " db 1\n", "\n\n", " db 1\n\n", "\n db 1", " db 1 ; c", "; c", " ", " \n", "l", "l\n", "\t", " db 1\n ", "\x1a", "\r\n", " db 1\r\n"};
    for (auto& x : ends) for (auto& y : ends) for (int m = 0; m < 2; m++) { Prog p("* = 0\n" + string(m ? "m macro\n include b\n db 5\n endm\n m\n" : " include b\n") + " db 6\n include c\n" + (m ? "" : " db 7\n")); p.add("b", x).add("c", y); if (m) J(p); else both(p, 3); }
    Strs mb = {" include b", " db \\1", " if \\1", " endc", " include \\2", " exitm"};
    for (int k = 1; k <= 4; k++) sequences(mb.size(), k, [&](const vector<int>& q) { for (auto b : {" db $B0\n", " db $B1\n m 0,d\n db $B2\n", " exitm\n db $B3\n", " endm\n", "n macro\n db $B4\n endm\n n\n"}) J(Prog("* = 0\nm macro\n" + text(mb, q) + " endm\n m 1,c\n db 2\n m 0,c\n db 3\n").add("b", b).add("c", " db $C0\n").add("d", " db $D0\n"), "", k); });
    // a file is given back when it is done with: many more INCLUDEs than files can be open at once
    for (auto b : {" db $B0", " db $B0\n", " db $B1\n exitm\n", " db $B2\n exitm\n db $B3\n", " endm\n", " include c\n db $B4\n", " include c\n exitm\n", " if \\1\n exitm\n endc\n", " db nosuch\n", " include nosuch\n exitm\n"})
      for (auto c : {" db $C0", " db $C1\n exitm\n", " endm\n db $C2", " n\n db $C3\n"}) for (int n : {1, 2, 5, 11, 20, 31, 32, 33, 60}) for (auto call : {" include b\n", " m 1\n", " m 0\n"})
        J(Prog("* = 0\nn macro\n include d\n db $A0\n endm\nm macro\n include b\n db $A1\n endm\n" + repeat(call, n) + " db $FF\n").add("b", b).add("c", c).add("d", " db $D0\n exitm\n db $D1\n"), "", n);
    cx.bound("nesting to 13, odd and missing names, 18 x 18 file endings, INCLUDE inside macros");
  }
  // ---- 4. ILIST
  {
    Strs a = {" include b", " ilist on", " ilist off", " list off", " list on", " db 1", " include c"};
    int len = cx.thorough ? 6 : 4;
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { for (auto b : {" db $B0\n", " db $B1\n include c\n db $B2\n", " ilist off\n db $B3\n list on\n db $B4\n", " db nosuch\n list off\n"}) J(Prog("* = 0\n" + text(a, q) + " dl *\n").add("b", b).add("c", " db $C0\n"), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu includes and listing switches with 4 include files", len, a.size()));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
