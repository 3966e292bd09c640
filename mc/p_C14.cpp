// Macros: all bodies and calls over small alphabets, judged by the reference and, as the property says,
// by assembling the substituted text instead; all definitions and calls in any order; nesting limits.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C14";
const char* RULE = "a case is one program, or a program and its expansion; distinct = different code or listing";

static string substitute(const string& body, const Strs& args, const string& all) {
  string r;
  for (size_t i = 0; i < body.size(); i++) {
    if (body[i] != '\\' || i + 1 == body.size()) { r += body[i]; continue; }
    char c = body[i + 1];
    if (c == '#') r += fmt("%zu", args.size()); else if (c == '*') r += all;
    else if (c >= '1' && c <= '9') { if ((size_t)(c - '1') < args.size()) r += args[c - '1']; }
    else { r += '\\'; continue; }
    i++;
  }
  return r;
}

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  // ---- 1. bodies x calls, against the substituted text
  {
    Strs body = {" db \\1", " dw \\2,\\1", " db \\#", " db \\*", " asc '\\1'", "\\1 = 5\n db \\1", "\\1\\2 db 9", " \\3 7", " db (\\1)*2", " asc \"\\\\\\n\"", " if \\1\n db \\2\n else\n db 77\n endc", " dw \\9,\\8", " db 3 ; \\1", " two \\2,\\1", "\\1 dw \\1", " db '\\1'"};
    struct A { string op; Strs args; };
    vector<A> calls = {{"", {}}, {" 1", {"1"}}, {" x,y", {"x", "y"}}, {" 3,4", {"3", "4"}}, {" (1,2),3", {"(1,2)", "3"}}, {" 'a,b',5", {"'a,b'", "5"}}, {" 1, 2,db", {"1", "2", "db"}}, {" q", {"q"}},
      {" 1,2,dw,4,5,6,7,8,9", {"1", "2", "dw", "4", "5", "6", "7", "8", "9"}}, {" x+1 , y*2", {"x+1", "y*2"}}, {" \"s\"", {"\"s\""}}, {" 1,2,db,", {"1", "2", "db"}}, {" ,7", {"", "7"}}, {" 5,,dl", {"5", "", "dl"}}, {" A , B", {"A", "B"}}};
    int len = cx.thorough ? 4 : 3;
    for (int k = 1; k <= len; k++) sequences(body.size(), k, [&](const vector<int>& q) {
      string b = text(body, q);
      for (auto& c : calls) {
        if (!cx.mine()) continue;
        string h = "* = $100\nx = $11\ny = $22\nA = 1\nB = 2\ntwo macro\n dw \\1,\\2\n endm\n", t = " dl *\nend db end-$100\n";
        string op = c.op; while (!op.empty() && op[0] == ' ') op.erase(0, 1);
        J.now(Prog(h + "m macro\n" + b + " endm\n m" + c.op + "\n" + t), "", k);
        // the substituted text is a program of its own when the lines stay lines
        string e; for (auto& l : ref::lines_of(b)) e += substitute(l, c.args, op) + "\n";
        same_code(cx, Prog(h + "m macro\n" + b + " endm\n m" + c.op + "\n" + t), Prog(h + e + t), "m" + c.op + "|" + b, "a macro call and its substituted body", false);
      }
    });
    cx.bound(fmt("all bodies of up to %d of %zu lines x %zu calls, each also against its substituted body", len, body.size(), calls.size()));
  }
  // ---- 2. definitions, redefinitions and calls in any order
  {
    Strs a = {"m macro\n db 1\n endm", "m macro\n db 2\n n 5\n endm", "n macro\n db \\1\n endm", " m", " n 3", "n macro\n m\n endm", "p = m", " p", "m = 4", "m", "m db 6", "q macro", " endm", " endm x", "l endm", " exitm", "m macro x", " macro", " db 8", " if 1", " endc", "m macro\nn macro\n endm", " undefd 4", "m\tMACRO ; c\n\tDB 9 ; d\n\tENDM ; e", "nop macro\n db 1\n endm"};
    // names that contain a directive's name are names
    Strs nm = {"endmark db 1", " dw sendmsg", "xendm", " jmp_endm 1", "endm1 macro", " endm1 2", " db \\1", " endm", "\tendm\t; x", "elsewhere dw *", " ifx 3", " macro1", "macro1 macro", "includes db 4", "exitm_ db 5", " m macrotab", "l m MACROTAB", " m macrotab,sendmsg", " m 1,macro", " m endmark", "m macro", " asc 'a endm b'", " db 'x' endm"};
    for (int k = 1; k <= (cx.thorough ? 4 : 3); k++) sequences(nm.size(), k, [&](const vector<int>& q) { J(Prog("* = $100\nmacrotab = 9\nsendmsg = $1234\nm macro\n db \\1\n endm\nt macro\n" + text(nm, q) + " endm\n t 7\n t 8\n dl *\n"), "", k); if (k < 3) J(Prog("* = $100\nmacrotab = 9\nsendmsg = $1234\nm macro\n db \\1\n endm\n" + text(nm, q) + " dl *\n"), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu lines with names that contain the name of a directive, in a macro and outside", cx.thorough ? 4 : 3, nm.size()));
    int len = cx.thorough ? 4 : 3;
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog("* = $100\n" + text(a, q) + " dl *\n"), "", k); });
    for (auto c : {" cpu 6502\n", " cpu z80\n"}) for (int k = 1; k <= 2; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog(c + string("* = $100\n") + text(a, q) + " nop\n dl *\n"), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu definitions, calls and misplaced directives", len, a.size()));
  }
  // ---- 3. nesting, recursion, number and length of arguments, EXITM
  {
    for (int d = 1; d <= 13; d++) { string s = "* = 0\n"; for (int i = 0; i < d; i++) s += fmt("m%d macro\n db %d\n", i, i) + (i ? fmt(" m%d \\1,x\n", i - 1) : string(" db \\1\n")) + fmt(" db %d\n endm\n", 100 + i); for (auto t : {"", " db 2\n"}) J(Prog(s + fmt(" m%d 7\n", d - 1) + t)); }
    for (int d = 0; d <= 14; d++) { J(Prog(fmt("* = 0\nr macro\n db \\1\n if \\1<%d\n r \\1+1\n endc\n db $EE\n endm\n r 0\n db 9\n", d))); J(Prog(fmt("* = 0\nr macro\n if \\1=%d\n exitm\n endc\n db \\1\n r \\1+1\n db $EE\n endm\n r 0\n db 9\n", d))); }
    J(Prog("* = 0\nr macro\n r\n endm\n r\n db 1\n")); J(Prog("* = 0\na macro\n b\n endm\nb macro\n a\n endm\n a\n db 1\n"));
    for (int n = 0; n <= 14; n++) for (auto w : {"", "'q'", "(1,2)", "1+1"}) { string s = "* = 0\nm macro\n db \\#\n db \\1\n db \\9\n endm\n m "; for (int i = 0; i < n; i++) s += (i ? "," : "") + (*w ? string(w) : fmt("%d", i)); J(Prog(s + "\n db 7\n")); }
    for (int n = 1; n <= 244; n++) { J(Prog("* = 0\nm macro\n db lo(\\1)\n endm\n m " + string(n, '1') + "\n db 7\n")); J(Prog("* = 0\nm macro\n asc '\\1\\1'\n endm\n m " + string(n, 'q') + "\n db 7\n")); J(Prog("* = 0\nm macro\n asc '" + string(n, 'q') + "'\n endm\n m\n db 7\n")); J(Prog("* = 0\nm macro\n asc '" + string(std::min(n, 200), 'q') + "\\1'\n endm\n m abcdefghij\n db 7\n")); }
    for (int n = 1; n <= 300; n += 13) J(Prog("* = 0\nm macro\n" + repeat(" db \\1\n", n) + " endm\n m 1\n m 2\n"));
    cx.bound("nesting to 13 levels, recursion, 0 to 14 arguments, arguments and bodies of every length to 244, bodies to 300 lines");
    Strs b = {" exitm", " if \\1", " else", " endc", " db 1", " n 2", " exitm x", "l exitm", " exitm ; c"};
    int len = cx.thorough ? 6 : 5;
    for (int k = 1; k <= len; k++) sequences(b.size(), k, [&](const vector<int>& q) { if (k >= 4 && q[0] != 1 && q[0] != 0 && q[0] != 5) return; J(Prog("* = 0\nn macro\n db 5\n if \\1=2\n exitm\n endc\n db 6\n endm\nm macro\n" + text(b, q) + " endm\n m 1\n db 2\n m 0\n db 3\n"), "", k); });
    cx.bound(fmt("all bodies of up to %d of %zu lines with EXITM, conditionals and calls", len, b.size()));
  }
  // ---- 4. what macro text may hold
  {
    Strs ch = {"\\", "1", "2", "#", "*", "0", "a", "'", ";", " ", ",", "("};
    int len = cx.thorough ? 5 : 4;
    for (int k = 1; k <= len; k++) sequences(ch.size(), k, [&](const vector<int>& q) {
      string e; for (int i : q) e += ch[i];
      J(Prog("* = 0\nm macro\n db " + e + "\n endm\n m 3,4\n m\n"), "", 2);
      if (k < len) { J(Prog("* = 0\nm macro\n asc '" + e + "'\n endm\n m 3,4\n"), "", 1); J(Prog("* = 0\nm macro\n db \\1,\\#\n endm\n m " + e + "\n"), "", 1); }
    });
    cx.bound(fmt("all strings of up to %d of %zu characters in a body, in a string of a body and in a call", len, ch.size()));
  }
  // ---- 5. MLIST
  {
    Strs a = {" m 1", " mlist on", " mlist off", " list off", " list on", " n", "l m 2", " db 1 ; c", " m nosuch"};
    int len = cx.thorough ? 6 : 4;
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { int ls = 0; for (int i : q) ls += i == 6; if (ls < 2) J(Prog("* = 0\nm macro\n db \\1\n.x dw .x\nz = \\1\n endm\nn macro\n m 3\n if 1\n mlist off\n endc\n m 4\n mlist on\n endm\n" + text(a, q)), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu calls and listing switches", len, a.size()));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
