// Field widths: every field of every statement with all small values and all values around the powers of two,
// given as constants, symbols, expressions and forward references.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C29";
const char* RULE = "a case is one batch of lines; transitions count the lines; distinct = different code or reports";

void explore(Cx& cx) {
  Judge J(cx, O_CODE | O_DIAG | O_COUNTS);
  J.extra = [](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
    string got, want;
    for (auto& d : ref::read_diags(r.out)) got += fmt("%d%c ", d.line, d.error ? 'E' : 'W');
    for (auto& d : x.diags) want += fmt("%d%c ", d.line, d.error ? 'E' : 'W');
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; while (i && got[i - 1] != ' ') i--; f.add(p.files[0].second.substr(0, 200), "lines reported (W: warning, E: error): ..." + got.substr(i, 60) + "\n  expected: ..." + want.substr(i, 60)); }
  };
  Judge K(cx, O_ALL); K.extra = J.extra;
  struct F { const char* cpu; const char* t; };
  vector<F> fs = {
    {"", " db @"}, {"", " db 1,@"}, {"", " db @,2,@"}, {"", " dw @"}, {"", " dw 1,@"}, {"", " dl @"}, {"", " ddb @"}, {"", " ds 1,@"}, {"", " ds 2,@"}, {"", "q = @"}, {"", " skip (@)&$7"},
    {"6502", " lda #@"}, {"6502", " lda @"}, {"6502", " lda @,x"}, {"6502", " ldx @,y"}, {"6502", " lda @,y"}, {"6502", " lda (@,x)"}, {"6502", " lda (@),y"}, {"6502", " sta @"}, {"6502", " jmp @"}, {"6502", " jmp (@)"}, {"6502", " jsr @"}, {"6502", " cpx #@"}, {"6502", " asl @"}, {"6502", " bit @"}, {"65c02", " lda (@)"}, {"65c02", " jmp (@,x)"}, {"65c02", " bit #@"}, {"65c02", " stz @"}, {"65c02", " tsb @"}, {"6502", " dw @"}, {"6502", " ddb @"},
    {"6800", " ldaa #@"}, {"6800", " ldaa @"}, {"6800", " ldaa @,x"}, {"6800", " ldx #@"}, {"6800", " ldx @"}, {"6800", " ldx @,x"}, {"6800", " clr @"}, {"6800", " clr @,x"}, {"6800", " jmp @"}, {"6800", " jsr @"}, {"6801", " ldd #@"}, {"6801", " addd @"}, {"6801", " std @,x"}, {"6801", " jsr @"}, {"6800", " staa @"}, {"6800", " cpx #@"}, {"6800", " dw @"},
    {"z80", " ld a,@"}, {"z80", " ld (hl),@"}, {"z80", " ld (ix+1),@"}, {"z80", " ld (ix+@),1"}, {"z80", " ld (iy-@),1"}, {"z80", " ld a,(ix+@)"}, {"z80", " add a,(iy+@)"}, {"z80", " inc (ix-@)"}, {"z80", " rlc (ix+@)"}, {"z80", " bit 1,(ix+@)"}, {"z80", " ld hl,@"}, {"z80", " ld ix,@"}, {"z80", " ld a,(@)"}, {"z80", " ld (@),hl"}, {"z80", " add a,@"}, {"z80", " and @"}, {"z80", " cp @"}, {"z80", " in a,(@)"}, {"z80", " out (@),a"}, {"z80", " jp @"}, {"z80", " call @"}, {"z80", " rst @"}, {"z80", " im @"}, {"z80", " bit @,a"}, {"z80", " set @,(hl)"}, {"z80", " res @,(ix+1)"}, {"z80", " sub @"}, {"z80", " dw @"}, {"z80", " jp nz,@"}, {"z80", " ld (@),bc"}, {"z80", " ld b,@"}};
  vector<i64> vs;
  for (int v = -700; v <= 700; v++) vs.push_back(v);
  for (int k = 9; k <= 32; k++) for (int d = -3; d <= 3; d++) { vs.push_back((1LL << k) + d); if (k < 32) { vs.push_back(-(1LL << k) + d); vs.push_back((1LL << k) + 0x80 + d); vs.push_back((1LL << k) + 0x7F00 + d); } }
  if (cx.thorough) for (int v = -70000; v <= 70000; v += 37) vs.push_back(v);
  std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  vs.erase(std::remove_if(vs.begin(), vs.end(), [](i64 v) { return v < -0x80000000LL || v > 0xFFFFFFFFLL; }), vs.end());
  auto put = [](const string& t, const string& e) { string s; for (char c : t) if (c == '@') s += e; else s += c; return s; };
  const size_t step = 150;
  for (auto& fl : fs) for (int how = 0; how < 4; how++) for (size_t from = 0; from < vs.size(); from += step) {
    if (!cx.mine()) continue;
    string head = (*fl.cpu ? string(" cpu ") + fl.cpu + "\n" : "") + "* = $1000\n", tail; Strs lines;
    for (size_t i = from; i < vs.size() && i < from + step; i++) {
      i64 v = vs[i]; string e;
      if (how == 0) { if (v < 0) e = fmt("0-%lld", (long long)-v); else e = fmt("%lld", (long long)v); if (v < 0 && string(fl.t).find("-@") != string::npos) e = fmt("(0-%lld)", (long long)-v); }
      else if (how == 1) { if (v < 0) e = fmt("(-%lld)", (long long)-v); else e = fmt("$%llX", (long long)v); }
      else { e = fmt("s%zu", i); string d = v < 0 ? fmt("%s = 0-%lld\n", e.c_str(), (long long)-v) : fmt("%s = %lld\n", e.c_str(), (long long)v); if (how == 2) head += d; else tail += d; }
      lines.push_back(put(fl.t, e));
    }
    string key = string(fl.t) + fmt(" %d %zu", how, from);
    J.now(Prog(head + join(lines, "\n") + "\n" + tail), "", lines.size());
    Strs ok = accepted(head, lines, tail);
    if (ok.size()) K.now(Prog(head + join(ok, "\n") + "\n" + tail), "", ok.size());
  }
  cx.bound(fmt("%zu fields x %zu values (all of -700..700, all powers of two to 2^32 with neighbours%s) as decimal and hexadecimal constants, symbols and forward references", fs.size(), vs.size(), cx.thorough ? ", every 37th of -70000..70000" : ""));
  // ---- -s silences the warnings only
  for (auto& fl : fs) for (auto o : {"-s", "-ls", "-l"}) for (size_t from = 0; from < vs.size(); from += 400) {
    if (!cx.mine()) continue;
    string t = (*fl.cpu ? string(" cpu ") + fl.cpu + "\n" : "") + "* = $1000\n";
    for (size_t i = from; i < vs.size() && i < from + 400; i++) t += put(fl.t, vs[i] < 0 ? fmt("(0-%lld)", (long long)-vs[i]) : fmt("%lld", (long long)vs[i])) + "\n";
    if (string(o) == "-s") J.now(Prog(t, {o, "-o", "o", "a.asm"}), "", 400); else { auto sv = J.extra; J.extra = nullptr; J.now(Prog(t, {o, "-o", "o", "a.asm"}), "", 400); J.extra = sv; }
  }
  cx.bound("the same fields and values with -s, -l and both");
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
