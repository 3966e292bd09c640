// The code file exists, complete, exactly when the assembly succeeded and emitted something.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C17";
const char* RULE = "a case is one program and command line; distinct = different code file or summary";

void explore(Cx& cx) {
  Judge J(cx, O_CODE | O_DIAG | O_COUNTS);
  // independent of the reference: the file and the summary tell the same story
  J.extra = [](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
    string k = p.files[0].second;
    bool ok = ref::says_success(r.out);
    if (r.have_code) {
      if (r.status) f.add(k, "a code file was left by a run that ended with an error status");
      if (!ok) f.add(k, "a code file was left although the summary does not say success");
      string e = ref::read_code(r.code).err;
      if (!e.empty()) f.add(k, "the code file is not complete: " + e);
    }
    for (auto& d : ref::read_diags(r.out)) if (d.error && ok) f.add(k, fmt("success although line %d is reported as an error", d.line));
    if (!ok && !r.status && r.out.find("No code generated") == string::npos) f.add(k, "the summary tells neither success nor failure");
  };
  vector<vector<string>> opts = {{"-o", "o", "a.asm"}, {"a.asm"}, {"-l", "-o", "o", "a.asm"}, {"-xso", "o", "a.asm"}, {"-s", "a.asm"}};
  // ---- 1. sequences of lines of every effect
  {
    Strs a = {" db 1", " db nosuch", " ds 40,$55", " dummy", " code", "* = $4000", "* = nosuch", " output hex", "lab", "lab db 2", " db fwd", "fwd db 3", " if 1", " endc", " if fwd", "m macro\n db 4\n m\n endm", " m", " include nosuch", " cpu 6502", " lda $10", " fail", " asc 'abc'", " ds 0", " page 5,5", "m2 macro"};
    int len = cx.thorough ? 4 : 3;
    for (auto h : {"* = $1000\n", "", " cpu z80\n* = $1000\n"}) for (int k = 0; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { if (k == len && *h != '*') return; J(Prog(h + text(a, q)), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu lines after an origin (one less without, and on the Z80)", len, a.size()));
    for (auto& o : opts) for (int k = 0; k <= 2; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog("* = $1000\n" + text(a, q), o), "", k); });
    cx.bound(fmt("all sequences of up to 2 lines with %zu command lines", opts.size()));
  }
  // ---- 2. a single error of every kind at every place of a program with much output
  {
    Strs good = {" cpu 6801", "* = $1000", "start ldx #fwd", " if start=$1000", " ds 33,$AA", " else", " fwb", " endc", "m macro", " ldaa \\1", " endm", " m #3", " dummy", ".v ds 4", " code", "fwd asc 'some text'", " dw start,fwd", " ds 300,1", "* = $2000", " jmp start"};
    Strs bad = {" db nosuch", " xyz", " ldaa", "start nop", " else", " endc", " endm x", " include nosuch", " if 1", "m3 macro", " fail x", " db 1,2,", " bra *+500", "* = nosuch", " ds -5", " cpu 6800", "q = nosuch", " org", " m macro", "x macro\n x\n endm\n x", " db '"};
    for (size_t i = 0; i <= good.size(); i++) for (auto& b : bad) for (auto& o : {opts[0], opts[2]}) { Strs l = good; l.insert(l.begin() + i, b); J(Prog(join(l, "\n") + "\n", o), "", good.size()); }
    for (size_t i = 0; i < good.size(); i++) for (size_t j = i; j < good.size(); j++) { Strs l = good; l.erase(l.begin() + j); if (i != j) l.erase(l.begin() + i); J(Prog(join(l, "\n") + "\n")); }
    cx.bound(fmt("%zu errors at each of %zu places of a program, and all removals of one or two of its lines", bad.size(), good.size() + 1));
    for (int n = 0; n <= (cx.thorough ? 300 : 70); n++) for (auto& b : {" db nosuch\n", "", " ldaa 1,2,3\n", " x macro\n"}) for (auto h : {"", " output hex\n"}) for (int where = 0; where < 2; where++) J(Prog(string("* = $FFE0\n") + h + (where ? b : "") + (n ? fmt(" ds %d,$42\n", n) : "") + (where ? "" : b)));
    cx.bound("outputs of every length to 70 bytes (thorough 300) with an error before or after them, in both formats");
  }
  // ---- 3. fatal ends after output
  for (auto& b : {"r macro\n r\n endm\n r\n", " include a.asm\n", "m macro\nx endm\n m\n"}) for (int n : {0, 1, 15, 16, 17, 100, 5000}) for (auto& o : opts) J(Prog(fmt("* = 0\n ds %d,1\n", n) + b + " db 1\n", o));
  for (auto& o : opts) { Prog p("* = 0\n db 1\n", o); p.files[0].first = "b.asm"; J(p); J(Prog("", o)); J(Prog("\n", o)); J(Prog(" db 1", o)); J(Prog("* = 0\n db 1", o)); }
  cx.bound("fatal ends after 7 amounts of output, missing and empty sources, 5 command lines");
  // ---- 4. a code file of an earlier run: replaced, or removed when the assembly fails
  {
    Strs a = {" db 1", " db nosuch", " ds 40,$55", " dummy", " nosuch", "* = $4000", " output hex", "lab", " if fwd", " if 1", " fail", " ds 0", " else", " cpu 6502", "fwd = 3", "m macro\n db 4\n endm", " m"};
    Judge O(cx, 0);
    O.extra = [](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
      string k = p.files[0].second;
      if (x.fatal) return;
      if (x.errors && r.have_code) f.add(k, "a code file is there after an assembly with errors: " + r.code.substr(0, 60));
      else if (!x.errors && x.code_file && (!r.have_code || r.code.find("earlier") != string::npos)) f.add(k, "the earlier code file was not replaced");
    };
    for (auto& o : opts) for (auto h : {"* = $1000\n", "", " cpu z80\n* = $1000\n"}) for (int k = 0; k <= 3; k++) { if (k == 3 && !cx.thorough && o != opts[0]) continue; sequences(a.size(), k, [&](const vector<int>& q) { bool out = false; for (auto& w : o) out |= w == "o"; if (out) O(Prog(h + text(a, q), o).add("o", "earlier code\n"), "", k); }); }
    cx.bound(fmt("all sequences of up to 3 of %zu lines where a code file of an earlier run exists", a.size()));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
