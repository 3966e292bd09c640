// Options and listing statements never change the code: every program under every option set, and with
// a listing statement inserted at every place, against the plain program, all run by the real code.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C19";
const char* RULE = "a case is one program under one option set or with one insertion, compared with the plain program; distinct = different code";

static vector<string> with(const string& o) { vector<string> v; if (!o.empty()) v.push_back("-" + o); v.insert(v.end(), {"-o", "o", "a.asm"}); return v; }

static string diag_set(const string& out, bool errors_only) { string s; for (auto& d : ref::read_diags(out)) if (d.error || !errors_only) s += (d.error ? "E" : "W") + d.msg + "\n"; return s; }

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  Strs opt = {"", "l", "s", "x", "ls", "lx", "sx", "lsx"};
  auto compare = [&](const Prog& plain, const Prog& p, const string& why, bool warnings_same) {
    Result b = cx.run(plain);
    cx.check(p, [&](const Result& a, Fails& f) {
      string k = ref::show(p); for (char& c : k) if (c == '\n') c = '|';
      string t = "\n" + why + "\nprogram:\n" + excerpt(ref::show(p), 1500);
      if (a.status != b.status) f.add(k, fmt("exit status %d, plain %d", a.status, b.status) + t);
      else if (a.have_code != b.have_code || a.code != b.code) f.add(k, "another code file than the plain program" + t);
      else {
        int e = ref::read_counter(a.out, "ERRORS:"), e2 = ref::read_counter(b.out, "ERRORS:"), w = ref::read_counter(a.out, "WARNINGS:"), w2 = ref::read_counter(b.out, "WARNINGS:");
        if (e != e2) f.add(k, fmt("%d errors, plain %d", e, e2) + t);
        else if (warnings_same && w != w2) f.add(k, fmt("%d warnings, plain %d", w, w2) + t);
        else if (!warnings_same && w != 0) f.add(k, fmt("%d warnings with -s", w) + t);
        else if (diag_set(a.out, true) != diag_set(b.out, true)) f.add(k, "other errors than the plain program" + t);
      }
      cx.state(fnv(a.code, fnv(a.out)));
    });
  };
  struct P { string head; Strs a; };
  vector<P> ps = {
    {"* = $1000\nm macro\n db \\1\n.l dw .l\n endm\n", {" db 1", "lab dw lab", " db $1FF", " db nosuch", " if 1\n db 2\n endc", " if 0\n db 3\n else\n db $234\n endc", " m 7", " include b", " dummy", " code", " ds 25,1", "e = e2", "e2 = 5", " list off", " fail x", " nam t"}},
    {" cpu 6502\n* = $1000\nm macro\n lda #\\1\n.l bne .l\n endm\n", {" lda fwd", "fwd nop", " m 7", " m $1FF", " include b", " jmp fwd", " lda #$100", " mlist on", " clist off", "* = *+3", " if fwd=$1000\n inx\n endc"}},
    {" cpu z80\n output scode\n* = $1000\nm macro\n ld a,\\1\n endm\n", {" ld a,300", "fwd nop", " m 7", " jr fwd", " ld hl,fwd", " ds 40", " bad"}}};
  // ---- 1. all option sets
  {
    int len = cx.thorough ? 4 : 3;
    for (auto& s : ps) for (int k = 0; k <= len; k++) sequences(s.a.size(), k, [&](const vector<int>& q) {
      if (k == len && &s == &ps[0] && !cx.thorough && q[0] > 9) return;
      for (size_t o = 1; o < opt.size(); o++) {
        if (!cx.mine()) continue;
        Prog p(s.head + text(s.a, q) + "end dw end\n", with("")); p.add("b", " db $55\nbl dw bl\n db $155\n");
        Prog v = p; v.args = with(opt[o]);
        compare(p, v, "with -" + opt[o], opt[o].find('s') == string::npos);
        if (k < 3) J.now(v, "", k);
      }
    });
    cx.bound(fmt("all sequences of up to %d statements of three alphabets under all 8 option sets", len));
  }
  // ---- 2. a listing statement at every place
  {
    Strs ins = {" list off", " list on", " clist off", " clist on", " mlist on", " mlist off", " ilist on", " ilist off", " page 60,120", " page 10,75", " page 0,500", " page", " nam a title", " skip 3", " skip 0", "; comment", "", " LIST OFF ; x"};
    for (auto& s : ps) for (int k = 1; k <= (cx.thorough ? 3 : 2); k++) sequences(s.a.size(), k, [&](const vector<int>& q) {
      string whole = text(s.a, q) + "end dw end\n";
      Strs l = ref::lines_of(whole); Strs h = ref::lines_of(s.head);
      for (size_t at = 0; at <= l.size(); at++) for (auto& i : ins) {
        if (!cx.mine()) continue;
        if (whole.find(" nam") != string::npos && i.find(" nam") == 0) continue;   // a second title is a warning
        Strs m = l; m.insert(m.begin() + at, i);
        Prog plain(s.head + whole, with("")); plain.add("b", " db $55\nbl dw bl\n db $155\n");
        Prog p(s.head + join(m, "\n") + "\n", with("")); p.add("b", " db $55\nbl dw bl\n db $155\n");
        compare(plain, p, "with '" + i + "' inserted", true);
      }
      if (k == 1) for (size_t at = 1; at < 5; at++) for (auto& i : ins) for (auto& j : ins) {   // inside the macro, in the include file
        if (!cx.mine()) continue;
        if ((whole + i + j).find(" nam") != string::npos || (i.find(" page ") == 0 && (j.find(" page ") == 0 || whole.find(" m ") != string::npos || whole.find("include") != string::npos)) || (j.find(" page ") == 0 && whole.find("include") != string::npos)) continue;
        Strs m = h; size_t endm = 0; for (size_t x = 0; x < m.size(); x++) if (m[x] == " endm") endm = x;
        m.insert(m.begin() + std::min(endm, at + 1), i);
        if (m.back() != " endm") continue;
        Prog plain(s.head + whole, with("")); plain.add("b", " db $55\nbl dw bl\n db $155\n");
        Prog p(join(m, "\n") + "\n" + whole, with("")); p.add("b", " db $55\n" + j + "\nbl dw bl\n db $155\n");
        compare(plain, p, "with '" + i + "' in the macro and '" + j + "' in the include file", true);
      }
    });
    cx.bound(fmt("all sequences of up to %d statements with each of %zu listing statements at every place, and inside macros and include files", cx.thorough ? 3 : 2, ins.size()));
  }
  // ---- 2b. page controls that meet the end of a page: every SKIP count at every distance from it
  {
    Strs body = {"lab db 1,2,3\n", " jmp lab\n", "* = *+2\n", " ds 30,5\n"};
    for (int pl = 10; pl <= (cx.thorough ? 20 : 13); pl++) for (int n = 0; n <= pl; n++) for (int k : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 50, 100, 255, 256, 1000}) for (auto& t : body) {
      if (!cx.mine()) continue;
      string a = " cpu 6502\n* = $1000\n" + repeat(" nop\n", n), z = (t[0] == 'l' ? string() : string("lab ")) + t + "e dw e,lab\n db e-lab\n";
      Prog plain(a + z, with(""));
      if (k > 100) { J.now(Prog(fmt(" page %d,80\n", pl) + a + fmt(" skip %d\n", k) + z, with("")), "", n); continue; }   // that many are warned about
      compare(plain, Prog(fmt(" page %d,80\n", pl) + a + fmt(" skip %d\n", k) + z, with("")), "with PAGE and SKIP inserted", true);
      if (k < 10) compare(plain, Prog(fmt(" page %d,80\n", pl) + a + (k & 1 ? " page\n" : " nam a title\n") + fmt(" skip %d\n page\n skip 3\n", k) + z, with("")), "with PAGE, SKIP and NAM inserted", true);
    }
    cx.bound("SKIP of 20 counts after every number of lines on pages of 10 to 13 (thorough 20) lines, before four kinds of statements");
  }
  // ---- 3. -s and the warnings
  {
    Strs w = {" db $100", " dw $10000", " ds 1,$100", "x = (1)", " db 1 2", " db 1", " db nosuch", " cpu 6502\n lda #$100", " skip 200", " nam a\n nam b", " db 1\x01,2"};
    for (int k = 1; k <= (cx.thorough ? 4 : 3); k++) sequences(w.size(), k, [&](const vector<int>& q) { for (auto o : {"", "s", "ls", "sx"}) J(Prog("* = 0\n" + text(w, q), with(o)), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu warned lines with and without -s", cx.thorough ? 4 : 3, w.size()));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
  scale(cx, PROPERTY, [&](const Prog& p, u64 n) { for (auto& o : opt) { Prog q = p, v = p; q.args = with(""); v.args = with(o); compare(q, v, "with -" + o, o.find('s') == string::npos); } }, cx.thorough ? 100001 : 10001);
}
