// Processors: every spelling of a processor name, every mnemonic and register of every processor under every
// processor, every pair of CPU statements, every keyword as a user's name before and after CPU.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C26";
const char* RULE = "a case is one program (vocabulary scopes: one batch of lines); distinct = different code or listing";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  const vector<string> full = {"-x", "-o", "o", "a.asm"};
  Strs cpus = {"", "6800", "6801", "6803", "6500", "6502", "65c02", "z80"};
  Strs words;
  for (int f = 0; f < 3; f++) for (auto& m : ref::isa(f)) words.push_back(m);
  for (auto& m : ref::pseudo_list()) words.push_back(m);
  for (auto r : {"a", "b", "c", "d", "e", "h", "l", "i", "r", "x", "y", "s", "sp", "hl", "de", "bc", "af", "ix", "iy", "nz", "z", "nc", "po", "pe", "p", "m", "af'", "xh", "ixl", "pc", "f", "ccr", "acc", "n"}) words.push_back(r);
  words.erase(std::remove(words.begin(), words.end(), "CPDR"), words.end());   // its encoding is a known finding of C05
  std::sort(words.begin(), words.end()); words.erase(std::unique(words.begin(), words.end()), words.end());
  auto cpu = [](const string& c) { return c.empty() ? string() : " cpu " + c + "\n"; };
  J.loose = true;   // what a refused instruction leaves in the byte columns is not promised
  // ---- 1. every word under every processor, in every role
  {
    Strs role = {" @", " @ 1", " @ #1", "@ = 5", "@", "@ nop", " db @", "@ equ 7\n db @", "lab = @", " @.b", " @.b 1", "@.b = 5\n db @.b", "@.b nop", "lab @.b", " .@", " @x", " x@", " @. 1", " x.@ 2", " @ a", " @ a,b", " @ hl", " @ x", "@ macro\n db 1\n endm\n @", "\t@\t*"};
    for (auto& c : cpus) for (auto& w : words) for (auto& ro : role) for (int k = 0; k < 2; k++) {
      if (!cx.mine()) continue;
      string s; for (char ch : ro) if (ch == '@') s += w; else s += ch;
      if (k) for (char& ch : s) ch = toupper(ch);
      J.now(Prog(cpu(c) + "* = $1000\n" + s + "\n db 1,2\n dw $1234\nend dl end\n"));
    }
    cx.bound(fmt("%zu words (all mnemonics, directives and registers) in %zu roles and both letter cases under %zu processors", words.size(), role.size(), cpus.size()));
  }
  // ---- 2. every CPU operand
  {
    Strs n = {"6800", "6801", "6803", "6500", "6502", "65c02", "65C02", "z80", "Z80", "Z8O", "68000", "680", "6802", "6805", "6510", "65", "65c0", "65c022", "z8", "z800", "z80 ", " z80", "z80;x", "z80 ;x", "'z80'", "z 80", "$z80", "6502,6800", "6502 z80", "*", "0", "cpu", "hd6301", "8080", "8085", "6301", "ns8070", "65816", "65sc02", "M6800", "m6502", "i8080", "6800x", "06800", "6502.", "z80a"};
    for (auto& x : n) for (auto h : {"", "* = $1000\n db 1\n", "l = 5\n", " output scode\n", " output hex\n"}) for (auto t : {" nop\n dw $1234\n", " ld a,1\n", " lda #1\n", " ldaa #1\n", " db 1\n"}) for (auto pos : {" cpu ", "\tCPU\t", "lab cpu "}) J(Prog(string(h) + pos + x + "\n* = $2000\n" + t, full));
    Strs ch; for (int c = 33; c < 127; c++) ch.push_back(string(1, c));
    for (auto& x : n) if (x.size() < 7) for (size_t i = 0; i <= x.size(); i++) { J(Prog(" cpu " + x.substr(0, i) + x.substr(std::min(x.size(), i + 1)) + "\n* = 0\n nop\n dw 1\n")); for (auto& c : ch) { J(Prog(" cpu " + x.substr(0, i) + c + x.substr(std::min(x.size(), i + 1)) + "\n* = 0\n nop\n dw 1\n")); if (cx.thorough) J(Prog(" cpu " + x.substr(0, i) + c + x.substr(i) + "\n* = 0\n nop\n dw 1\n")); } }
    for (int m = 0; m < 32; m++) for (auto c : {"z80", "65c02"}) { string s = c; for (size_t i = 0; i < s.size(); i++) if (m >> i & 1) s[i] = toupper(s[i]); J(Prog(" cpu " + s + "\n* = 0\n nop\n dw 1\n")); }
    cx.bound(fmt("%zu CPU operands after 5 beginnings and before 5 kinds of statement; all their single-character changes; all letter cases", n.size()));
  }
  // ---- 3. sequences
  {
    Strs a = {" cpu 6502", " cpu 6800", " cpu z80", " cpu 65c02", " cpu 6801", " cpu x", " lda #1", " ldaa #1", " ld a,1", " nop", " dw $1234", "* = $20", "a = 5", "lda = 6", "ld db 1", " db a", " if 0\n cpu z80\n endc", "m macro\n cpu 6502\n endm", " m", " include c", " output scode", " ddb $1234", "x", " phx"};
    int len = cx.thorough ? 4 : 3;
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog("* = $1000\n" + text(a, q) + "end dw end\n", full).add("c", " cpu 6801\n"), "", k); });
    for (int k = 2; k <= 3; k++) sequences(8, k, [&](const vector<int>& q) { string t; for (int i : q) t += cpu(cpus[i]) + " lda #1\n ldaa #1\n ld a,1\n nop\n dw $1234\n dl *\n"; J(Prog("* = $1000\n" + t, full), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu CPU statements, instructions and definitions; all triples of processors", len, a.size()));
  }
  // ---- 4. what a processor sets: byte order, address width, output format
  for (auto& c : cpus) for (auto o : {"", " output hex\n", " output scode\n"}) for (int first = 0; first < 2; first++) for (auto s : {" dw $1234", " dl $12345678", " ddb $1234", " dw l", "l dw *"}) for (u64 at : {0ULL, 0xFFF0ULL, 0x12345ULL}) J(Prog((first ? o + cpu(c) : cpu(c) + o) + fmt("* = $%llX\n", at) + s + "\nl dw l\n ds 20,1\n", full));
  cx.bound("8 processors x 3 output statements, before and after CPU, x 5 data statements x 3 origins");
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
