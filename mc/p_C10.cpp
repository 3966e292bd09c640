// Forward references: every program over definitions, equates, uses, size-changing statements and
// conditionals; every length and order of chains of equates.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C10";
const char* RULE = "a case is one program; distinct = different code or listing";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  // independently of what the reference predicts: no code when a use saw another value than the final one
  J.extra = [](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
    if (!x.unstable.empty() && (r.have_code || ref::says_success(r.out))) f.add(p.files[0].second, "accepted although a use of " + x.unstable + " saw another value than the final one");
  };
  // ---- 1. all sequences of statements
  {
    struct S { const char* head; Strs a; };
    vector<S> sp = {
      {" cpu 6502\n* = $F0\n", {"a nop", "b nop", "a = b", "b = a", "a = *", "b = $1234", "a = $12", " lda a", " lda b", " dw a,b", " jmp a", " bne b", " ds a-b", " ds 20", "c = a+b", " if a\n nop\n endc", " if b=$1234\n inx\n else\n lda $1234\n endc", "* = b", "* = $0F8", " dummy", " code"}},
      {" cpu 6801\n* = $F0\n", {"a nop", "b nop", "a = b", "a = *", "b = $1234", "b = $12", " ldaa a", " ldaa b", " ldx #b", " dw a,b", " jmp a", " bne b", " ds b&7", " ds 20", " if a\n nop\n endc", "* = b+$10"}},
      {" cpu z80\n* = $F0\n", {"aa nop", "bb nop", "aa = bb", "aa = *", "bb = $1234", "bb = $12", " ld d,bb", " ld hl,aa", " dw aa,bb", " jp aa", " jr bb", " ld (ix+aa),bb", " ld aa,(ix+5)", " ds bb&7", " if aa\n nop\n endc", "bb = ix", "bb = aa{3}", " bit bb", " set bb"}},
      {"* = $F0\n", {"a", "b", "a = b", "b = a", "a = *", "b = 5", "b = 6", " db a", " db b", " dl a-b", " ds b", "c = a", "a = c", " db c", " if a=b\n db 1\n endc", "m macro\n db \\1\n endm", " m a", " m b"}}};
    for (auto& s : sp) {
      int n = s.a.size(), len = cx.thorough ? 5 : 4;
      for (int k = 1; k <= len; k++) sequences(n, k, [&](const vector<int>& q) {
        if (k >= 4 && !cx.thorough && &s != &sp[0] && &s != &sp[3]) return;
        if (k == 5 && &s == &sp[0] && false) return;
        J(Prog(string(s.head) + text(s.a, q) + "end dw end\n"), "", k);
      });
    }
    cx.bound(fmt("all sequences of up to %d statements over %zu + %zu + %zu + %zu definitions, uses, size changes and conditionals on four processors", cx.thorough ? 5 : 4, sp[0].a.size(), sp[1].a.size(), sp[2].a.size(), sp[3].a.size()));
  }
  // ---- 2. chains of equates of every length, in every order, ending in a constant, a position or nothing
  {
    Strs last = {"$12", "$1234", "*", "pos", "nosuch", "l0"};
    for (int n = 1; n <= (cx.thorough ? 7 : 6); n++) {
      vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
      do {
        for (auto& e : last) for (int use = 0; use < 3; use++) {
          string s = " cpu 6502\n* = $1000\n";
          if (use == 0) s += " lda l0\n dw l0\n";
          for (int i : perm) s += fmt("l%d = ", i) + (i == n - 1 ? e : fmt("l%d+1", i + 1)) + "\n";
          s += "pos nop\n";
          if (use) s += " lda l0\n dw l0\n";
          if (use == 2) s += " if l0\n lda l0\n endc\n lda pos\n";
          J(Prog(s), "", n);
        }
      } while (std::next_permutation(perm.begin(), perm.end()));
    }
    cx.bound(fmt("all orders of chains of up to %d equates, 6 ends, 3 places of the uses", cx.thorough ? 7 : 6));
    for (int n : {10, 50, 200, 1000}) for (int back = 0; back < 2; back++) {
      string s = "* = $1000\n dw l0,l" + fmt("%d", n - 1) + "\n";
      for (int i = 0; i < n; i++) { int k = back ? n - 1 - i : i; s += fmt("l%d dw l%d\n", k, (k * 7 + 3) % n); }
      J(Prog(s));
    }
    cx.bound("cross references between up to 1000 labels");
  }
  // ---- 3. a forward and a backward use of the same label in every operand position
  {
    struct F { const char *cpu; Strs use; };
    vector<F> fs = {{"6502", {"lda @", "lda @,x", "sta @,y", "lda (@),y", "lda (@,x)", "lda #@", "jmp @", "jmp (@)", "bne @", "lda #lo(@)", "lda #hi(@)", "stx @,y", "inc @", "bit @"}},
                    {"65c02", {"lda (@)", "stz @", "stz @,x", "jmp (@,x)", "bra @", "trb @", "bit @,x", "bit #@"}},
                    {"6800", {"ldaa @", "ldaa #@", "ldx #@", "ldx @", "stx @", "ldaa @,x", "jmp @", "jmp @,x", "bra @", "clr @", "cpx @", "jsr @"}},
                    {"6801", {"ldd @", "addd #@", "jsr @", "brn @"}},
                    {"z80", {"ld a,@", "ld a,(@)", "ld (@),a", "ld hl,@", "ld hl,(@)", "ld (@),ix", "ld ix,@", "jp @", "call nz,@", "jr @", "djnz @", "ld (ix+@),1", "ld b,(iy-@)", "ld (ix+1),@", "in a,(@)", "out (@),a", "rst @", "im @", "bit @,d", "add a,@", "cp @"}}};
    Strs val = {"0", "1", "5", "8", "$38", "$7F", "$80", "$FF", "$100", "$1234", "-1", "-$80", "-$81", "$12345", "*", "*+$7e", "nosuch", "zq+1"};
    for (auto& f : fs) for (auto& u : f.use) for (auto& v : val) for (int late = 0; late < 2; late++) for (auto o : {"$10", "$1000"}) for (auto ex : {"@", "@+1", "(@)+0", "-@", "lo(@)"}) {
      string e; for (char c : u) if (c == '@') { for (const char* q = ex; *q; q++) if (*q == '@') e += "vv"; else e += *q; } else e += c;
      string d = "vv = " + v + "\n";
      J(Prog(string(" cpu ") + f.cpu + "\n* = " + o + "\n" + (late ? "" : d) + " " + e + "\nnext nop\n" + (late ? d : "") + " dw next\n"));
    }
    cx.bound("59 instruction forms x 18 values x defined before/after x 2 origins x 5 expressions");
  }
  // ---- 4. a forward reference at any place of any expression, its instruction jumped over
  {
    Strs op = {"+", "-", "*", "/", "|", "&", "^", "<<", ">>"};
    struct I { const char *cpu, *in, *jmp; };
    vector<I> is = {{"6502", "lda @", "jmp"}, {"6502", "sty @,x", "jmp"}, {"6500", "ora @,y", "jmp"}, {"65c02", "stz @", "jmp"}, {"6800", "ldaa @", "jmp"}, {"6801", "std @", "jmp"}, {"z80", "ld hl,(@)", "jp"}};
    Strs leaf = {"f", "g", "b", "2", "$300", "*"}, un = {"-@", "~@", "lo(@)", "hi(@)", "(@)", "((@))"};
    vector<Strs> lv(3);
    lv[0] = leaf;
    for (auto& u : un) for (auto& l : leaf) lv[1].push_back(replaced(u, "@", l));
    for (auto& o : op) for (auto& x : leaf) for (auto& y : leaf) lv[1].push_back(x + o + y);
    for (auto& o : op) for (auto& q : op) for (auto x : {"f", "b", "1"}) for (auto y : {"f", "b", "1"}) for (auto z : {"f", "2"}) { lv[2].push_back(string(x) + o + y + q + z); lv[2].push_back(string(x) + o + "(" + y + q + z + ")"); }
    for (auto& u : un) for (auto& o : op) for (auto x : {"f", "1"}) for (auto y : {"f", "1"}) { lv[2].push_back(replaced(u, "@", string(x) + o + y)); if (u != "-@") lv[2].push_back(string(x) + o + replaced(u, "@", y)); }   // (a - after an operator is a syntax error)
    for (auto& l : lv) for (auto& e : l) for (auto& i : is) {
      if (&l == &lv[2] && &i != &is[0] && !cx.thorough) continue;
      for (auto fv : {"$12", "$1234", "0", "*"}) for (int how = 0; how < 3; how++) for (auto org : {"$200", "$10"}) {
        if (org[1] == '1' && &l == &lv[2] && !cx.thorough) continue;
        string in = how == 2 ? "e = " + e + "\n " + replaced(i.in, "@", "e") + "\n" : " " + replaced(i.in, "@", how ? "0+" + e : e) + "\n";
        J(Prog(string(" cpu ") + i.cpu + "\n* = " + org + "\nb = 3\n " + i.jmp + " l\n" + in + "l nop\n dw l\nf = " + fv + "\ng = 7\n"));
      }
    }
    cx.bound("every expression of up to two operators over forward and backward symbols as the operand of 7 instructions that have a short and a long form, with 4 final values, in and outside page zero, direct, added to 0, or through an equate");
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
