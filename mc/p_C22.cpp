// Robustness: all texts over token alphabets, every length of every kind of element, every truncation and
// edit of programs of every kind, executed under AddressSanitizer (the engine reports crashes, sanitizer
// errors and runaway executions; here only the documented ways of ending are accepted).
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C22";
const char* RULE = "a case is one text or command line, run under AddressSanitizer; distinct = different output";

void explore(Cx& cx) {
  auto run = [&](const Prog& p, u64 steps = 1, bool ask = true) {
    if (ask && !cx.mine()) return;
    cx.check(p, [&](const Result& r, Fails& f) {
      string k = ref::show(p); for (char& c : k) if (c == '\n') c = '|';
      if (r.status != 0 && r.status != 10) f.add(k, fmt("ends with status %d", r.status) + "\nprogram:\n" + excerpt(ref::show(p), 1500));
      else if (r.status == 0 && ref::read_counter(r.out, "ERRORS:") < 0 && r.out.find("Crasm ") != string::npos) f.add(k, "ends with status 0 without the summary\nprogram:\n" + excerpt(ref::show(p), 1500));
      cx.state(fnv(r.out, fnv(r.code)));
    }, steps);
    cx.sample(excerpt(ref::show(p), 200));
  };
  auto T = [&](const string& s, u64 steps = 1) { run(Prog(s), steps); };
  auto TX = [&](const string& s) { run(Prog(s, {"-x", "-o", "o", "a.asm"})); };
  // ---- 1. characters as operands of everything
  {
    Strs heads = {" db ", " asc ", "x = ", " if ", "", " ", " m ", " ds ", " ld ", " lda ", " page ", " nam ", " include ", "l ", "* = ", " bit ", " cpu "};
    Strs ch = {"a", "1", " ", ",", "'", "\"", "(", ")", "+", "*", "\\", ".", "$", "%", ";", "<", "{", "}", "#", "\t", "-", "=", "~", ":"};
    int len = cx.thorough ? 4 : 3;
    for (int k = 0; k <= len; k++) sequences(ch.size(), k, [&](const vector<int>& q) {
      string e; for (int i : q) e += ch[i];
      for (size_t h = 0; h < heads.size(); h++) {
        if (k == 4 && h % 3) continue;
        const string& hd = heads[h];
        T((hd == " ld " ? " cpu z80\n* = 0\n" : hd == " lda " ? " cpu 6502\n* = 0\n" : hd == " bit " ? " cpu 65c02\n* = 0\n" : hd == " cpu " || hd == "* = " ? "" : "* = 0\nm macro\n db \\1,\\*\n endm\n") + hd + e + "\n db 1\n");
      }
    });
    for (int c = 0; c < 256; c++) for (auto& h : heads) for (auto& tail : {"", "a", "'"}) { T("* = 0\nm macro\n db \\1\n endm\n" + h + string(1, c) + tail + "\n"); T("* = 0\n" + h + "'" + string(1, c) + tail); T("* = 0\nm macro\n db \\" + string(1, c) + tail + "\n endm\n m 1,2\n"); }
    Strs tok = {"a", "'", "'a'", "(", ")", ",", "+", "<<", "$", "\\'", "{", "}", "lo ", " ", "*", "1", "#", ";"};
    for (int k = 1; k <= (cx.thorough ? 5 : 4); k++) sequences(tok.size(), k, [&](const vector<int>& q) { string e; for (int i : q) e += tok[i]; if (k == 5 && q[0] > 5) return; T("* = 0\na = 3\n db " + e + "\n"); if (k < 4) { T(" cpu z80\n* = 0\n ld a," + e + "\n"); T(" cpu 6502\n* = 0\n lda " + e + "\n if " + e + "\n nop\n endc\n"); } });
    cx.bound(fmt("all strings of up to %d of %zu characters after %zu kinds of statement, every byte value there; all operands of up to %d of %zu tokens", len, ch.size(), heads.size(), cx.thorough ? 5 : 4, tok.size()));
  }
  // ---- 2. every length of every kind of element
  {
    int max = cx.thorough ? 1200 : 280;
    for (int n = 0; n <= max; n++) {
      string N = std::to_string(n);
      for (char c : {'a', '1', '.', '(', '\'', '-', '~', ' ', '\t', ',', '$', '\\', '*', '+', '\xe9'}) {
        string s(n, c);
        TX("* = 0\n" + s + "\n"); TX("* = 0\n" + s + " db 1\n"); T("* = 0\n db " + s + "\n"); T("* = 0\n db 'a" + s + "'\n"); T("* = 0\n asc 'a" + s + "'\n"); T("* = 0\nx = 1" + s + "\n"); T("* = 0\n db 1" + s + "1\n db 2 ;" + s + "\n");
        T("* = 0\n if " + s + "\n endc\n"); T("* = 0\nm macro\n db 1\n;\\1\n ;\\*\n endm\n m " + s + "\n m " + s + ",1\n"); T("* = 0\nm macro\n" + s + "\n db 1\n endm\n m\n m\n"); T(s); T("* = 0\n" + s + "; c\n" + s); T(" nam " + s + "\n* = 0\n db 1\n"); T(" include " + s + "\n* = 0\n"); T(" fail " + s + "\n"); T(" cpu " + s + "\n"); T(" cpu z80\n* = 0\n ld " + s + "\n ld (ix+" + s + "),a\n"); T(" cpu 6502\n* = 0\n lda " + s + "\n lda (" + s + "),y\n"); T(" cpu 6801\n* = 0\n ldaa " + s + ",x\n"); T(" " + s + " 1\n"); TX("m" + s + " macro\n endm\n m" + s + " 1\n"); T(" page " + s + "\n* = 0\n skip " + s + "\n"); if (c != '1' || n < 8) T("* = 0\n ds " + s + "\n db 1\n");
        T("* = 0\nm macro\n db \\1\\1\\1\\1\n endm\n m " + s + "\n"); T("* = 0\nm macro\n db '\\*\\*'\n endm\n m " + s + "\n"); T(" page 20,39\n* = 0\n db 1 ;" + s + " x\n");
      }
      TX("* = 0\n" + string(n, 'l') + " = 1\n." + string(n, 'l') + " = 1\n db ." + string(n, 'l') + "\n");
      T("* = 0\n" + repeat(" if 1\n", n) + " db 1\n" + repeat(" endc\n", n), n); T("* = 0\n" + repeat(" if 0\n", n) + repeat(" else\n", n) + repeat(" endc\n", n) + " endc\n", n); T("* = 0\n" + repeat(" if 1\n", n), n);
      T("* = 0\nx = 0\nm macro\nx = x+1\n if x<" + N + "\n m\n endc\n endm\n m\n db 1\n", n);
      { string s; for (int i = 0; i <= n && i < 120; i++) s += "m" + std::to_string(i) + " macro\n m" + std::to_string(i + 1) + " \\1,a\n endm\n"; T(s + "* = 0\n m0 5\n db 1\n", n); }
      T("* = 0\n db 1" + repeat(",1", n) + "\n"); T("* = 0\n dw " + repeat("(", n) + "1" + repeat(")", n) + "\n"); T("* = 0\nm macro\n db \\9\n endm\n m 1" + repeat(",2", n) + "\n"); T("* = 0\n ds " + N + "*1000\n"); T("* = 0\n db 1" + repeat("+1", n) + "\n"); T("* = 0\n db 1" + repeat("<<1", n) + "\n db " + repeat("~", n) + "1\n db " + repeat("lo ", n) + "1\n");
      T("* = 0\n" + repeat("a", n) + " macro\n" + repeat(" db 1\n", n) + " endm\n " + repeat("a", n) + "\n", n); T("* = 0\n" + repeat(" code\n.a = 1\n", n), n); T("* = 0\n" + repeat(" dummy\n", n) + string(30, '.') + " = 1\n", n);
      TX(fmt(" page %d,%d\n* = 0\nsymbol = 1\n db 1 ; comment comment comment comment comment\n", n, n)); TX(fmt(" page 0,%d\n* = 0\nsymbol = 1\nsymbo2 = 1\n ds 40,1 ; comment comment comment comment comment\n", n));
      run(Prog(" include " + string(n, 'f') + "\n").add("f", " db 1\n")); run(Prog("* = 0\n db 1\n", {"-o", "o", string(n, 'g')})); run(Prog("* = 0\n db 1\n", {"-o", "o", "a.asm", string(n, '-')})); run(Prog("* = 0\n db 1\n", {"-" + string(n, 'l'), "-o", "o", "a.asm"}));
    }
    for (int n : {1000, 5000, 10000, 20000, 65000}) for (auto& s : Strs{" db 1\n", "a", " ", "l db 1\n", "\n", " if 1\n", "m macro\n", "'", " include a.asm\n"}) T("* = 0\n" + repeat(s, n) + "\n", n);
    // the 250-character line buffer and its neighbours, at every position of a substitution
    for (int a = 225; a <= 262; a++) for (int b = 0; b <= 62; b += cx.thorough ? 1 : 4) for (auto& sub : {"\\1", "\\*", "\\2", "\\#", "\\"}) T("* = 0\nm macro\n db 1 ;" + string(a - 8, 'x') + sub + "yy\n endm\n m " + string(b, 'q') + "," + string(b, 'r') + "\n");
    cx.bound(fmt("every length 0..%d of 25 kinds of element made of 15 characters, nestings and repetitions to that depth, lines of 225..262 characters in macros", max));
  }
  // ---- 3. edits of programs of every kind
  {
    Strs progs = {
      " cpu 6502\n* = $1000\nl lda #$12\n sta (l,x)\n lda ($12),y\n beq l\nm macro\n db \\1,\\2\n.x dw .x\n endm\n m 1,'a'\n if l=2\n nop\n else\n asl a\n endc\n asc 'a\\n\\0'\n",
      " cpu z80\n* = $1000\nq = ix\n ld (ix+3),5\n ld a,(q-1)\n ld hl,(1+2)\n bit 3,(hl)\n jr nz,f\n in a,(1)\nf ex af,af'\n set 1,(iy+f)\n ds 2,3\n align even\n",
      " cpu 6801\n* = $20\nb = a{3}\n ldaa b\n adda #'x'\n ldx 5,x\n bsr *+4\n dummy\nc ds 4\n code\n ddb c\n dl $12345678\n list off\n list on\n",
      " nam title\n page 30,50\n output hex\nm macro\n if \\#=2\n exitm\n endc\n db lo \\1,hi(\\1)\n endm\n* = %101\n m 1\n m 1,2\n include b\n fail x\n skip 2\nx equ *\ny = x<<2|1&~3\n"};
    Strs sub = {"", " ", "\n", "'", "(", ")", ",", "\\", ";", "*", "1", "a", "$", "{", "\t", "+", "=", ".", "#", string(1, '\0'), "\xff", "\r", "%", "-", "<", "\"", "z", "}", "macro", " if ", " endm\n", " endc\n"};
    for (auto& s : progs) {
      auto B = [&](const string& t) { run(Prog(t, {"-x", "-o", "o", "a.asm"}).add("b", " db $b\nm 4\n")); };
      for (size_t i = 0; i <= s.size(); i++) { B(s.substr(0, i)); B(s.substr(i)); for (auto& c : sub) { B(s.substr(0, i) + c + s.substr(i)); if (i < s.size()) B(s.substr(0, i) + c + s.substr(i + 1)); } for (size_t j = i + 1; j <= s.size(); j += cx.thorough ? 1 : 3) { B(s.substr(0, i) + s.substr(j)); if (j - i < (cx.thorough ? 40 : 8)) B(s.substr(0, i) + s.substr(i, j - i) + s.substr(i)); } }
      Strs l = ref::lines_of(s);
      for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < l.size(); j++) { Strs m = l; std::swap(m[i], m[j]); B(join(m, "\n")); m = l; m.insert(m.begin() + j, m[i]); B(join(m, "\n")); m = l; m.erase(m.begin() + i); if (j < m.size()) m.erase(m.begin() + j); B(join(m, "\n")); }
      if (cx.thorough) for (size_t i = 0; i < s.size(); i += 1) for (size_t j = i + 1; j < s.size(); j++) for (size_t c = 0; c < 10; c++) for (size_t d = 0; d < 4; d++) B(s.substr(0, i) + sub[c] + s.substr(i + 1, j - i - 1) + sub[d] + s.substr(j + 1));
    }
    cx.bound(fmt("%zu programs: all truncations, all single insertions and replacements by %zu strings, all deletions and duplications of a stretch, all line swaps, duplications and pairs of deletions%s", progs.size(), sub.size(), cx.thorough ? ", all pairs of replacements" : ""));
  }
  // ---- 4. structures
  {
    Strs a = {" if 1", " if 0", " else", " endc", "m macro", "n macro", " endm", " exitm", " m", " n \\1", " include b", " include c", " db \\1", " bad", " code", ".l = 1", " endm x", "m = 3"};
    int len = cx.thorough ? 5 : 4;
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { run(Prog("* = 0\n" + text(a, q)).add("b", " m\n if 1\n n 2\n").add("c", "m macro\n db 1\n include b\n endm"), k); if (k == len && !cx.thorough) return; run(Prog("* = 0\n" + text(a, q).substr(0, text(a, q).size() - 1)).add("b", " include a.asm\n").add("c", "")); });
    cx.bound(fmt("all sequences of up to %d of %zu conditionals, macros and includes", len, a.size()));
  }
  // ---- 5. command lines
  {
    Strs w = {"-o", "o", "a.asm", "-l", "-s", "-x", "-", "--", "-lo", "-ol", "", "nofile", "-oo", "-z", "-h", "b", ".", "/"};
    for (int k = 0; k <= (cx.thorough ? 5 : 4); k++) sequences(w.size(), k, [&](const vector<int>& q) {
      vector<string> v; for (int i : q) v.push_back(w[i]);
      if (k == 5 && q[0] > 4) return;
      run(Prog("* = 0\n db 1\nx = 2\n", v).add("b", " bad\n"));
    });
    cx.bound(fmt("all command lines of up to %d of %zu words", cx.thorough ? 5 : 4, w.size()));
  }
  scale(cx, PROPERTY, [&](const Prog& p, u64 n) { run(p, n, false); }, cx.thorough ? 100001 : 4097, true);
  mix(cx, PROPERTY, [&](const Prog& p, u64 n) { run(p, n, false); }, true, cx.thorough ? 1 : 24);
}
