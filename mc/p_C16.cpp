// Error reports: all sequences of correct, erroneous and warned lines of every kind, in every context.
// Besides the reference, each line's verdict is compared with the verdict it gets alone.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C16";
const char* RULE = "a case is one program; distinct = different code or listing";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  // every report stands in the listing once, in line order of the second pass, and the counts agree
  J.extra = [](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
    if (x.fatal) return;
    int e = 0, w = 0; for (auto& d : ref::read_diags(r.out)) (d.error ? e : w)++;
    if (e != ref::read_counter(r.out, "ERRORS:")) f.add(p.files[0].second, fmt("%d errors are reported, the summary says %d", e, ref::read_counter(r.out, "ERRORS:")));
    if ((e == 0) != ref::says_success(r.out)) f.add(p.files[0].second, fmt("%d errors, but the summary says %s", e, ref::says_success(r.out) ? "success" : "failure"));
  };
  struct L { const char* s; int e; };      // a line and the number of errors it has by itself
  vector<L> lines = {
    {" db 1", 0}, {" lda #5", 0}, {" lda #nosuch", 1}, {" lda 5,q", 1}, {" xyz", 1}, {" db", 1}, {" db $1FF", 0}, {" db 1,nosuch,2", 1}, {" bne *+200", 1}, {" dw 1+", 1}, {" ds -1", 1}, {"? db 1", 1},
    {" lda", 1}, {" fail oops", 1}, {" align x", 1}, {" nop 5", 1}, {" page 1,1", 1}, {" if (1", 1}, {" if nosuch", 1}, {" else", 1}, {" endc", 1}, {" cpu z80", 1}, {"db = 3", 1}, {" macro", 1}, {" include nosuch", 1}, {" asc 'x", 1}, {" output foo", 1}, {" good 4", 0}, {" bad 4", 0}, {"; c", 0}, {"", 0}, {" equ 5", 1}, {" ((", 1}, {" list maybe", 1}, {" skip 200", 0}, {" db 'ab'", 0},
    {" endm x", 1}, {" exitm", 0}, {"l1 l2 l3", 1}, {" dummy 1", 1}, {" db 1/0", 0}, {" jmp (5),y", 1}, {" include inc", 0}};
  const string head = " cpu 6502\n* = $1000\ngood macro\n db \\1\n endm\nbad macro\n db nosuch\n db \\1\n xyz\n endm\n";
  Strs a; for (auto& l : lines) a.push_back(l.s);
  // ---- 1. all sequences
  {
    int len = cx.thorough ? 4 : 3;
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog(head + text(a, q) + " db $EE\n").add("inc", " db 1\n db nosuch\n db 2\n db $100\n"), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu correct, erroneous and warned lines", len, a.size()));
  }
  // the same before any origin is given: nothing may emit, and everything else still works
  {
    Strs b = a; for (auto x : {" ddb 1,2", " dw $1234", " dl 1", " ds 0", " align even", "* = $2000", "* = nosuch", " bne *+2", " cpu 6800", " cpu 6502"}) b.push_back(x);
    for (int k = 0; k <= 2; k++) sequences(b.size(), k, [&](const vector<int>& q) { J(Prog(replaced(head, "* = $1000\n", "") + text(b, q) + "* = $1000\n dw $1234\n ddb $1234\n jmp $1234\n dl $12345678\n").add("inc", " db 1\n db nosuch\n db 2\n db $100\n"), "", k); });
    cx.bound(fmt("all sequences of up to 2 of %zu such lines before the first origin", b.size()));
  }
  // ---- 2. all pairs in every context
  {
    struct C { const char *name, *pre, *post; };
    vector<C> ctx = {{"IF", " if 1\n", " endc\n"}, {"ELSE", " if 0\n db 9\n else\n", " endc\n"}, {"not selected", " if 0\n", " endc\n"}, {"nested", " if 1\n if 1\n", " else\n db nosuch\n endc\n endc\n"}, {"macro", "mm macro\n", " endm\n mm 1\n mm 2\n"}, {"macro in IF", "mm macro\n if \\1\n", " endc\n endm\n mm 1\n mm 0\n"}, {"dummy", " dummy\n", " code\n"}, {"list off", " list off\n", " list on\n"}, {"hex", " output hex\n", ""}, {"clist off", " clist off\n if 0\n db 3\n else\n", " endc\n"}, {"mlist on", " mlist on\nmm macro\n", " endm\n mm 1\n"}};
    for (auto& c : ctx) for (int k = 1; k <= 2; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog(head + c.pre + text(a, q) + c.post + " db $EE\n").add("inc", " db 1\n db nosuch\n db 2\n db $100\n"), "", k); });
    for (int k = 1; k <= 2; k++) sequences(a.size(), k, [&](const vector<int>& q) { string t = text(a, q); for (int nl = 0; nl < 2; nl++) J(Prog(head + " include b\n db $EE\n nosuch\n").add("b", nl ? t : t.substr(0, t.size() - 1)).add("inc", " db 1\n db nosuch\n db 2\n db $100\n"), "", k); });
    cx.bound(fmt("all lines and pairs of lines in %zu contexts and in an include file", ctx.size()));
    for (auto& c : ctx) for (auto& d : ctx) { if (string(c.pre).find("macro") != string::npos && string(d.pre).find("macro") != string::npos) continue; for (auto& l : lines) J(Prog(head + c.pre + d.pre + l.s + "\n" + d.post + c.post + " db $EE\n").add("inc", " db 1\n db nosuch\n db 2\n db $100\n"), "", 1); }
    cx.bound("every line in every pair of contexts");
  }
  // ---- 3. errors neither hide nor add errors: plain erroneous lines among good ones, counted without the reference
  {
    Strs plain; vector<int> pe;
    for (auto& l : lines) { string s = l.s; if (s.find(" if") == 0 || s.find("include") != string::npos || s.find("macro") != string::npos || s == " bad 4" || s == " else" || s == " endc" || s == "l1 l2 l3" || s.find("endm") != string::npos) continue; plain.push_back(s); pe.push_back(l.e); }
    int n = plain.size();
    for (int period = 1; period <= 7; period++) for (int len : {1, 2, 10, 100, cx.thorough ? 3000 : 500}) for (int off = 0; off < n; off++) {
      if (!cx.mine()) continue;
      string s = head; vector<int> want; int ln = 10;
      for (int i = 0; i < len; i++) { int k = (off + i * period) % n; s += plain[k] + "\n"; ln++; if (pe[k]) want.push_back(ln); }
      Prog p(s + " db $EE\n");
      cx.check(p, [&](const Result& r, Fails& f) {
        vector<int> got; for (auto& d : ref::read_diags(r.out)) if (d.error) got.push_back(d.line);
        if (got != want) { string g, w; for (int i : got) g += fmt("%d ", i); for (int i : want) w += fmt("%d ", i); f.add(s, "erroneous lines reported: " + excerpt(g, 500) + "\nerroneous lines: " + excerpt(w, 500) + "\nprogram:\n" + excerpt(s, 2000)); }
        if (ref::read_counter(r.out, "ERRORS:") != (int)want.size()) f.add(s, fmt("the summary says %d errors, there are %zu", ref::read_counter(r.out, "ERRORS:"), want.size()));
        if (want.empty() == !r.have_code) f.add(s, "code file and errors do not agree");
        cx.state(fnv(r.out));
      }, len);
    }
    cx.bound(fmt("%d plain lines in periodic mixtures of up to 500 (thorough 3000) lines, counted line by line without the reference", n));
  }
  // ---- 4. FAIL and its text
  for (auto t : {"", " text", " a;b", " 'a;b'", " \\1", " long " "text with (brackets) and 'quotes'", " 1+1", "\tx"}) for (auto c : {"", " if 0\n", " if 1\n", "m macro\n"}) J(Prog(string("* = 0\n") + c + " fail" + t + "\n" + (c[0] == ' ' ? " endc\n" : c[0] ? " endm\n m hello\n m\n" : "") + " db 1\n"));
  cx.bound("FAIL with 8 texts in 4 contexts");
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
