// Determinism: every program is run with every filling of fresh stack and heap memory and with every kind of
// code file left by an earlier run, and as a fresh process with other initial automatic variables; all runs must agree byte for byte.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C24";
const char* RULE = "a case is one program under all memory fills and earlier outputs; distinct = different output";

void explore(Cx& cx) {
  const int fills[][2] = {{0xA5, 0xA5}, {0x00, 0x00}, {0xFF, 0xFF}, {0x41, 0x20}, {0x20, 0x41}, {0x27, 0x00}, {0x00, 0x80}, {0x31, 0x5C}};
  const int nf = sizeof fills / sizeof *fills;
  auto D = [&](const Prog& p, u64 steps = 1, bool stale = false, bool ask = true) {
    if (ask && !cx.mine()) return;
    auto all = [&](Fails& f) {
      string k = ref::show(p); for (char& c : k) if (c == '\n') c = '|';
      Result first;
      for (int i = 0; i < nf; i++) {
        cx.set_poison(fills[i][0], fills[i][1]);
        Result r = cx.run(p);
        if (!i) { first = r; cx.state(fnv(r.out, fnv(r.code))); continue; }
        if (r.status != first.status) f.add(k, fmt("exit status %d or %d", first.status, r.status));
        else if (r.have_code != first.have_code || r.code != first.code) f.add(k, "two code files, " + ref::first_diff(first.code, r.code));
        else if (r.out != first.out) f.add(k, "two listings, " + ref::first_diff(first.out, r.out));
        if (f) { f.v[0].msg += fmt("\nfresh stack and heap memory filled with %02X %02X or %02X %02X\nprogram:\n", fills[0][0], fills[0][1], fills[i][0], fills[i][1]) + excerpt(ref::show(p), 1500); break; }
      }
      cx.set_poison(0xA5, 0xA5);
      if (!f) {   // started afresh, elsewhere in memory, with automatic variables that begin as zeros instead of a pattern
        Result r = cx.run_real(p);
        if (r.status != first.status) f.add(k, fmt("exit status %d or %d", first.status, r.status));
        else if (r.have_code != first.have_code || r.code != first.code) f.add(k, "two code files, " + ref::first_diff(first.code, r.code));
        else if (r.out != first.out) f.add(k, "two listings, " + ref::first_diff(first.out, r.out));
        if (f) f.v[0].msg += "\nthe same program with automatic variables set to a pattern or to zeros at first\nprogram:\n" + excerpt(ref::show(p), 1500);
      }
      if (!f && stale) for (auto& old : Strs{"", "S1", string(5000, 'x'), ":00000001FF\n", repeat("S1130000DEADBEEF\n", 600)}) {
        Prog q = p; q.add("o", old);
        Result r = cx.run(q);
        bool may_stay = !first.have_code && (first.status || !ref::read_counter(first.out, "ERRORS:"));   // nothing to write: an old file is not touched
        if (r.status != first.status || r.out != first.out) f.add(k, "another result when a code file exists already\nprogram:\n" + excerpt(ref::show(q), 1500));
        else if (!may_stay && (r.have_code != first.have_code || r.code != first.code)) f.add(k, "the old code file shows in the new one\nprogram:\n" + excerpt(ref::show(q), 1500));
        if (f) break;
      }
    };
    Fails f; all(f);
    cx.transitions(steps);
    if (f) cx.report(p, f, [&](Fails& c) { all(c); });
    else cx.check(p, [&](const Result&, Fails&) {}, 0);
    cx.sample(excerpt(ref::show(p), 200));
  };
  const vector<string> full = {"-x", "-o", "o", "a.asm"};
  // ---- 1. sequences
  {
    struct S { string head; Strs a; };
    vector<S> sp = {
      {"* = $1000\nm macro\n db \\1,\\2\n.x dw .x\n endm\n", {" db 1", " db nosuch", "a db a", "a = 5", " dw b{2}", "b = a", " m 1", " m", " m 1,2,3", " if a", " else", " endc", " include c", " dummy", " code", " asc 'x\\n'", " asc 'x", " ds 25,a", " list off", " nam t", " page 20,60", " exitm", "x macro", " endm", " fail hello", "q = a{", " db (1", " align odd", " output hex", " skip 3"}},
      {" cpu 6502\n* = $1000\n", {" lda #1", " lda (1", " lda 1,x", " lda (1,x)", " bit #1", "l bne l", " jmp (l)", " asl", " asl a", " lda", " lda f", "f nop", " m", " cpu z80", " lda #'a'", " sta #1"}},
      {" cpu 6801\n* = $1000\n", {" ldaa #1", " ldx #f", "f nop", " bra f", " jsr 1,x", " ldaa", " ldaa 300,x", " psha x", " addd #1", " bsr", " ldaa #'", " clr ,x"}},
      {" cpu z80\n* = $1000\n", {" ld a,(ix+1)", " ld (ix-f),f", "f nop", " jr nz,f", " ld a", " ld ,a", " push", " ex af,af'", " bit 9,a", " in a,(c)", " rst f", " ld (hl),(hl)", " add hl,(1)", " jp (ix", "r = hl\n ld r,1", " im 3"}}};
    int len = cx.thorough ? 4 : 3;
    for (auto& s : sp) for (int k = 0; k <= len; k++) sequences(s.a.size(), k, [&](const vector<int>& q) { if (k == len && s.a.size() > 20 && !cx.thorough && q[2] % 3) return; D(Prog(s.head + text(s.a, q) + " db 7\n", full).add("c", " db 3\n bad\n"), k, k < 3); });
    cx.bound(fmt("all sequences of up to %d statements of four alphabets (30, 16, 12 and 16) under %d memory fills, up to 2 with 5 earlier code files", len, nf));
  }
  // ---- 2. every operand text
  {
    Strs ch = {"a", "1", " ", ",", "'", "(", ")", "+", "*", "\\", ".", "$", ";", "<", "{", "}", "#", "-", "=", "~"};
    for (int k = 0; k <= (cx.thorough ? 4 : 3); k++) sequences(ch.size(), k, [&](const vector<int>& q) {
      string e; for (int i : q) e += ch[i];
      for (auto h : {" db ", " asc ", "", " if ", " ld ", " lda ", " m "}) { if (k == 4 && *h != ' ') continue; if (k == 3 && !cx.thorough && strchr("im", h[1] ? h[1] : 'i')) continue; D(Prog(string(string(h) == " ld " ? " cpu z80\n* = 0\n" : string(h) == " lda " ? " cpu 6502\n* = 0\n" : "* = 0\nm macro\n db \\1,\\*\n endm\n") + h + e + "\n db 1\n")); }
    });
    cx.bound(fmt("all operand texts of up to %d of %zu characters after 7 statements", cx.thorough ? 4 : 3, ch.size()));
  }
  // ---- 3. lengths and truncations
  {
    for (int n = 0; n <= 300; n++) for (char c : {'a', '1', '.', '(', '\'', ' ', ',', '\\'}) { string s(n, c); D(Prog("* = 0\n" + s + " db 1\nm macro\n db \\1,5\n endm\n m " + s + "\n db " + s, full)); D(Prog(" nam " + s + "\n include " + s + "\n fail " + s + "\n* = 0\n asc '" + s + "'\n;" + s, full)); }
    string s = " cpu 6502\n* = $1000\nl lda #$12\n sta (l,x)\n lda ($12),y\n beq l\nm macro\n db \\1,\\2\n.x dw .x\n endm\n m 1,'a'\n if l=2\n nop\n else\n asl a\n endc\n asc 'a\\n\\0'\n list off\n output hex\n ds 20\n dw l{3},x\nx = l<<2\n";
    for (size_t i = 0; i <= s.size(); i++) { D(Prog(s.substr(0, i), full), 1, true); D(Prog(s.substr(i), full), 1, true); for (size_t j = i + 1; j < s.size(); j += cx.thorough ? 1 : 4) D(Prog(s.substr(0, i) + s.substr(j), full)); }
    cx.bound("8 kinds of element of every length to 300, all truncations and deletions of a stretch of a program");
  }
  // ---- 4. sizes of output, with earlier code files
  for (int n = 0; n <= (cx.thorough ? 600 : 200); n++) for (auto h : {"", " output hex\n"}) for (auto t : {"", " bad\n"}) { D(Prog(string("* = $FFF0\n") + h + fmt(" ds %d,1\n", n) + t), 1, true); D(Prog(string("* = $FFF0\n") + h + repeat("lab\n", n ? 1 : 0) + repeat(" db 1\n", n) + t, full), 1, true); }
  cx.bound("outputs of every length to 200 (thorough 600) over earlier code files");
  // ---- 5. command lines
  { Strs w = {"-o", "o", "a.asm", "-l", "-s", "-x", "-lo", "nofile", "-"}; for (int k = 0; k <= 4; k++) sequences(w.size(), k, [&](const vector<int>& q) { vector<string> v; for (int i : q) v.push_back(w[i]); D(Prog("* = 0\n db 1\n", v)); }); cx.bound("all command lines of up to 4 of 9 words"); }
  // ---- 6. what is left over from an earlier statement: all sequences of macro calls with more and fewer arguments
  {
    Strs a = {" m", " m 1", " m 1,2,3", " m 'a,b'", " n", " n x", " n 4,5", " o 9,8,7", " o", " asc 'abcdef'", " include c"};
    for (int k = 1; k <= (cx.thorough ? 5 : 3); k++) sequences(a.size(), k, [&](const vector<int>& q) {
      D(Prog("* = $1000\nm macro\n asc '<\\*>'\n db \\#\n asc '\\1\\2\\3'\n endm\nn macro\n asc '(\\9\\*\\1)'\n m \\*\n m \\1\n m\n endm\no macro\n n\n n \\3,\\2\n asc '[\\*]'\n endm\n" + text(a, q), full).add("c", " n 1\n m\n"), k, false);
    });
    cx.bound(fmt("all sequences of up to %d of %zu macro calls with more and fewer arguments than used", cx.thorough ? 5 : 3, a.size()));
  }
  scale(cx, PROPERTY, [&](const Prog& p, u64 n) { D(p, n, n < 20, false); }, cx.thorough ? 10001 : 257, true);
  mix(cx, PROPERTY, [&](const Prog& p, u64 n) { D(p, n, false, false); }, true, cx.thorough ? 8 : 150);
}
