// Symbols: all sequences of definitions, redefinitions and uses, all short names in every place a
// name may stand, all pairs of similar names, all insertion orders into the symbol tree.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C11";
const char* RULE = "a case is one program; distinct = different code, listing or symbol table";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  const vector<string> full = {"-x", "-o", "o", "a.asm"};
  // ---- 1. sequences of definitions and uses
  {
    struct S { const char* head; Strs a; };
    vector<S> sp = {
      {"* = $100\n", {"a", "A db 1", "a = 1", "a equ 2", "a = a+1", "a = b", "a = *", " db a", " db A", "b", "b = a", " db b", "a = b{1}", "a dw a", "* = a", "a db", "db = a", "a macro\n db 3\n endm", " a"}},
      {" cpu 6502\n* = $100\n", {"x1", "x1 = 1", "x1 = 300", " lda x1", " sta x1,x", " dw x1", " dummy", " code", "x = 5", " dw x", "a = 7", " lda a", "lda = 5", "lda nop", " cpu 6502", ".l = x1", ".l", " dw .l", "x1 nop"}},
      {" cpu z80\n* = $100\n", {"p = b", "p = hl", "p = ix", " ld p,1", " ld a,p", " push p", " dw p", "p = 5", "p", "hl = 3", "b = 4", "p = c", " jr p,p", "q = p", " ld q,2", "q nop", "p = a{2}", "(p) = 1"}},
    };
    for (auto& s : sp) {
      int n = s.a.size(), len = cx.thorough ? 5 : 4;
      for (int k = 0; k <= len; k++) sequences(n, k, [&](const vector<int>& q) {
        if (k == len && !cx.thorough && &s != &sp[0]) return;
        J(Prog(s.head + text(s.a, q) + "end dl end\n", full), "", k);
      });
    }
    cx.bound(fmt("all sequences of up to %d of %zu, %zu and %zu definitions and uses on three processors, with the symbol table", cx.thorough ? 5 : 4, sp[0].a.size(), sp[1].a.size(), sp[2].a.size()));
  }
  // ---- 2. every short name
  {
    Strs ch; for (int c = 33; c < 127; c++) ch.push_back(string(1, c));
    ch.push_back("\xe9"); ch.push_back("\x01"); ch.push_back("\x7f");
    vector<Strs> names(1);
    for (auto& c : ch) names[0].push_back(c);
    Strs ch2 = {"a", "Z", "0", "9", "_", ".", "$", "%", "*", "-", "?", "@", "#", ":", "\\", "'", "(", "\xe9", "h", "b", "q", "x", "'", "~", "!", "&", "{", "="};
    for (int k = 2; k <= (cx.thorough ? 4 : 3); k++) sequences(ch2.size(), k, [&](const vector<int>& q) { string e; for (int i : q) e += ch2[i]; if (k < 4 || isalpha(e[0]) || strchr("._$%", e[0])) names[0].push_back(e); });
    Strs form = {"@ db 1", "@ = 5", "@ equ 5", "@ macro\n db 7\n endm\n @", " db @", "@", "@: db 1", " @", " @ = 4", "@=4"};
    for (auto& n : names[0]) for (auto& f : form) {
      if (n.size() == 4 && &f != &form[1] && &f != &form[0]) continue;
      if (!cx.mine()) continue;
      string s; for (char c : f) if (c == '@') s += n; else s += c;
      J.now(Prog("* = $1000\n" + s + "\n db @" + "\n db " + n + "\nend dl end\n", {"-o", "o", "a.asm"}));
    }
    cx.bound(fmt("%zu names (all single characters, all strings of up to %d of %zu characters) in %zu places", names[0].size(), cx.thorough ? 4 : 3, ch2.size(), form.size()));
    for (int k = 1; k <= 300; k++) for (char c : {'a', 'Q', '_', '.', '9'}) {
      string n(k, c); J(Prog("* = $1000\n" + n + " = 5\n db " + n + "\n", {"-x", "-o", "o", "a.asm"}));
      J(Prog("* = $1000\n" + n + " db 5\n dw " + n + "+1\n" + n + "x dw " + n + "x\n", full));
      J(Prog("* = $1000\n m" + n + " = 5\nlong" + n + " macro\n db \\1\n endm\n long" + n + " 3\n", full));
    }
    cx.bound("names of every length to 300");
  }
  // ---- 3. names that differ little never meet
  {
    Strs nm = {"a", "A", "aa", "ab", "a_", "a1", "a.", "a0", "a.b", "_a", "b", ".a", "._a", "a_1", "a10", "a01", "aB", "longname", "longnamf", "longnam", "loNgname1", "nop", "nop1", "db1", "if1"};
    for (auto& x : nm) for (auto& y : nm) for (int d = 0; d < 4; d++) {
      string s = "* = $1000\n";
      s += d & 1 ? x + " = 1\n" : x + " db $A1\n";
      s += d & 2 ? y + " = 2\n" : y + " db $A2\n";
      J(Prog(s + " dw " + x + "," + y + "\n", full));
    }
    string base = "identifierlongenoughtoprobeanycut";
    for (size_t k = 0; k < base.size(); k++) { string o = base; o[k] = 'z'; J(Prog("* = 0\n" + base + " = 1\n" + o + " = 2\n dw " + base + "," + o + "\n", full)); J(Prog("* = 0\n" + base.substr(0, k + 1) + " = 1\n" + base + "Q db 2\n dw " + base.substr(0, k + 1) + "," + base + "q\n", full)); }
    cx.bound(fmt("all ordered pairs of %zu similar names, and names differing in any one place", nm.size()));
  }
  // ---- 4. insertion orders
  {
    Strs nm = {"m", "c", "t", "a", "f", "p", "z", "aa"};
    int n = cx.thorough ? 8 : 7;
    vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
    do {
      string s = "* = $1000\n dw " + nm[perm[0]] + "\n";
      for (int i = 0; i < n; i++) s += nm[perm[i]] + fmt(" %s %d\n", i & 1 ? "=" : "dw", i + 1);
      s += " dw "; for (int i = 0; i < n; i++) s += (i ? "," : "") + nm[i];
      J(Prog(s + "\n", full), "", n);
    } while (std::next_permutation(perm.begin(), perm.end()));
    for (int k : {100, 400, 900}) for (int mul : {1, 7, -1, 379}) { string s = "* = 0\n"; for (int i = 0; i < k; i++) s += fmt("s%d = %d\n", (((i * mul) % k) + k) % k, i); for (int i = 0; i < k; i++) s += fmt(" dw s%d\n", i); J(Prog(s, full)); }
    cx.bound(fmt("all %d! orders of defining %d names; up to 900 names in 4 orders", n, n));
  }
  // ---- 5. symbols that stand for mnemonics, directives, registers and macros
  {
    struct C { const char* c; Strs w, op; };
    Strs ps = {"equ", "asc", "align", "clist", "code", "cpu", "db", "ddb", "dl", "dw", "dummy", "ds", "else", "endc", "endm", "exitm", "fail", "if", "ilist", "include", "list", "macro", "mlist", "nam", "page", "output", "skip", "m", "*", "v1"};
    Strs po = {"", "5", "0", "\"ab\"", "even", "on", "off", "odd", "3,7", "hex", "inc", "6502", "60,80"};
    vector<C> cs = {
      {"", ps, po},
      {" cpu 6801\n", {"nop", "bra", "bsr", "ldaa", "ldab", "staa", "ldx", "stx", "jmp", "jsr", "clr", "inca", "std", "cpx", "addd", "mul", "db", "dw", "equ", "if"}, {"", "5", "#5", "5,x", "$1234", "#$1234", ",x", "*", "fw"}},
      {" cpu 6502\n", {"nop", "bne", "lda", "sta", "ldx", "stx", "sty", "jmp", "jsr", "asl", "inc", "bit", "dec", "cpx", "ror", "a", "x", "y", "p", "s", "db", "dw", "ds"}, {"", "5", "#5", "5,x", "5,y", "$1234", "$1234,x", "(5),y", "(5,x)", "($1234)", "a", "*", "fw", "x"}},
      {" cpu 65c02\n", {"bra", "stz", "phx", "tsb", "trb", "inc", "lda"}, {"", "5", "$1234", "5,x", "(5)", "*", "#1"}},
      {" cpu z80\n", {"nop", "ld", "add", "adc", "inc", "push", "pop", "jp", "jr", "call", "ret", "rst", "im", "in", "out", "bit", "set", "ex", "ldir", "neg", "and", "cp", "rlc", "djnz", "a", "b", "hl", "ix", "sp", "af", "c", "i"}, {"", "5", "a", "hl", "a,5", "hl,5", "a,(hl)", "(ix+3),a", "a,(5)", "nz,5", "*", "nz,*", "3,a", "de,hl", "(c),a", "a,(c)", "bc", "af", "sp,hl", "hl,sp"}}};
    Strs def = {"q = @", "q equ @", "q = (@)", "r = @\nq = r", "q = 5\nq = @", "q db 1\nq = @", "q = @\nq = 5", "q = @\nq = @", "q = @\nq = nop", "q = @\nq db 2", "q macro\n db 9\n endm\nq = @", "q = @\nq macro\n db 9\n endm", " dummy\nq = @\n code", ".q = @\nq = .q", "q = @+0", "q = -@", "@ = @", "q = @\n@ = 5", "q = @\n@ macro\n db 8\n endm"};
    Strs use = {" q ^", "lab q ^", "q ^", "Q ^", " q ^\n q ^", " q.b ^", " db q", " dw lab,q", " if q\n db 1\n endc", "z q\n db z", " ld q,^", " lda ^,q", " if 0\n q ^\n endc\n db 4", "i macro\n q ^\n endm\n i\n i", " q ^\n db 1\n endc\n db 2\n endm\n db 3"};
    u64 n = 0; Judge N(cx, O_ALL | O_NOTABLE);
    for (auto& c : cs) for (auto& w : c.w) for (auto& d : def) for (auto& u : use) {
      bool ops = u.find('^') != string::npos, main = &u < &use[1] || cx.thorough;
      for (size_t o = 0; o < (ops ? c.op.size() : 1); o++) for (int when = 0; when < 3; when++) {
        if (when && (&d >= &def[2] || (!cx.thorough && o % 3))) continue;
        if (!cx.thorough && (&d >= &def[4] || !main) && ops && (o + (&w - &c.w[0]) + (&u - &use[0]) + (&d - &def[0])) % 5) continue;
        n++;
        if (!cx.mine()) continue;
        string D, U;
        for (char ch : d) if (ch == '@') D += w; else D += ch;
        for (char ch : u) if (ch == '^') U += c.op[o]; else if (ch == '@') U += w; else U += ch;
        // used after it is defined, before it is, and on both sides
        Prog p(string(c.c) + "* = $100\nv1 = 7\nm macro\n db \\1+1\n endm\n" + (when == 0 ? D + "\n" + U : when == 1 ? U + "\n" + D : U + "\n" + D + "\n" + U) + "\n dl *\nfw = 3\n", full);
        p.add("inc", " db $77\n");
        // which operands of an erroneous statement were looked at before its error is nobody's concern
        bool bad = false; for (auto& d : ref::assemble(p, "").diags) bad |= d.error;
        (bad ? N : J).now(p, "", 2);
      }
    }
    cx.bound(fmt("%llu uses of symbols that stand for a mnemonic, directive, register or macro", (unsigned long long)n));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
