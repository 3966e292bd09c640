// Program counter and sections: all sequences of origins, emissions, labels and section switches.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C25";
const char* RULE = "a case is one program; distinct = different code or listing";

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  // the summary and the code file tell the same; labels read back from the symbol table are addresses of bytes
  J.extra = [](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
    if (x.errors || x.fatal || !r.have_code) return;
    size_t at = r.out.rfind("Code length");
    if (at == string::npos) { f.add(p.files[0].second, "no code length in the summary"); return; }
    u64 n = strtoul(r.out.c_str() + at + 11, 0, 16);
    auto im = ref::read_code(r.code);
    if (n != im.bytes.size()) f.add(p.files[0].second, fmt("the summary says %lu bytes, the code file has %zu", (unsigned long)n, im.bytes.size()));
  };
  const vector<string> full = {"-x", "-o", "o", "a.asm"};
  // ---- 1. sequences from an origin and from none
  {
    Strs a = {" db 1", " dw *", "a", "a db 2", "b dw *", "* = $2000", "* = *+4", "* = *-2", "* = 0", " ds 3", " ds 0", " ds 17,1", " dummy", " code", "c = *", " dw c", " db nosuch", " align even", " align odd", "* = nosuch", "* = *", "d ds 2", " db 1,*", "* equ $30", " asc 'xy'", "e align even"};
    int len = cx.thorough ? 5 : 4;
    for (auto h : {"* = $1000\n", ""}) for (int k = 0; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { if (k == len && (!*h || (!cx.thorough && (q[0] + q[1]) % 3))) return; J(Prog(h + text(a, q) + "end dl *\n", full), "", k); });
    for (auto opt : {vector<string>{"-x", "a.asm"}, {"a.asm"}, {"-l", "-o", "o", "a.asm"}, {"-lxs", "a.asm"}, {"-s", "a.asm", "-o", "o"}}) for (int k = 0; k <= (cx.thorough ? 4 : 3); k++) sequences(a.size(), k, [&](const vector<int>& q) { if (k > 2 && opt.size() != 2) return; J(Prog("* = $1000\n" + text(a, q) + "end dl *\n", opt), "", k); });
    cx.bound("the same up to length 2 (-x: 3; thorough: 4) with 5 sets of options, three of them without a code file");
    cx.bound(fmt("all sequences of up to %d of %zu statements (of length %d: a third in quick) after an origin, one less without", len, a.size(), len));
    Strs b = {" db 1", "* = $2000", "* = *+1", " dummy", " code", " ds 2", "l@ dw *", "* = $1001"};
    int l2 = cx.thorough ? 8 : 6;
    for (int k = 5; k <= l2; k++) sequences(b.size(), k, [&](const vector<int>& q) { string t; int n = 0; for (int i : q) { for (char c : b[i]) if (c == '@') t += std::to_string(n++); else t += c; t += "\n"; } J(Prog("* = $1000\n" + t + " dl *\n", full), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu of them", l2, b.size()));
  }
  // ---- 2. sections, macros, includes and conditionals
  {
    Strs a = {" db 1", " m 2", " include i", " dummy", " code", "* = *+2", "p dw p", " d", " c", " if *=$1002\n db 7\n else\n db 8,9\n endc", " ds 5", "* = $4000"};
    int len = cx.thorough ? 5 : 4;
    for (int k = 0; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog("* = $1000\nm macro\n.s db \\1\n dw *,.s\n endm\nd macro\n dummy\n ds 3\n endm\nc macro\n db $C0\n code\n db $C1\n* = *+1\n endm\n" + text(a, q) + "end dl *\n", full).add("i", "* = *+3\n db *\nil dw il\n dummy"), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu statements with macros, includes and conditionals that move the program counter", len, a.size()));
  }
  // ---- 3. instructions advance by their length
  {
    struct S { const char* head; Strs a; };
    vector<S> sp = {{" cpu 6502\n", {" nop", " lda #1", " lda $1234", "l bne l", " lda fwd", " lda $12", " lda #$100", " bne *+300", " bad", " dummy", " code", " jmp *", " lda (1),y"}}, {" cpu 6801\n", {" nop", " ldaa #1", " ldx #1", " cpx 5,x", "l bra l", " jsr fwd", " bra *+300", " dummy", " code", " ldaa $12", " std $1234"}}, {" cpu z80\n", {" nop", " ld (ix+1),2", " ld hl,*", "l jr l", " jr fwd", " bit 9,a", " ld a,(300)", " dummy", " code", " rst 9", " ex de,hl", " set 1,(iy-2)", " jp *"}}};
    int len = cx.thorough ? 5 : 4;
    for (auto& s : sp) for (int k = 0; k <= len; k++) sequences(s.a.size(), k, [&](const vector<int>& q) { J(Prog(string(s.head) + "* = $80\n" + text(s.a, q) + "fwd dl *\n", full), "", k); });
    cx.bound(fmt("all sequences of up to %d instructions (correct, erroneous, forward, out of range) of three processors, with DUMMY and CODE", len));
  }
  // ---- 4. addresses of every size and every distance between origins
  {
    vector<u64> o = {0, 1, 0xF, 0x10, 0xFE, 0xFF, 0x100, 0xFFF0, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0xFFFFFF, 0x1000000, 0x7FFFFFFF};
    for (u64 x : o) for (u64 y : o) for (auto h : {"", " output hex\n", " cpu z80\n", " cpu 6800\n"}) for (auto m : {"", " dummy\n", " code\n", "l\n", " ds 1\n"}) J(Prog(fmt("%s* = $%llX\n db 1,2\n%s* = $%llX\n db 3\n code\n db 4\nq dl *,q\n", h, x, m, y), full));
    for (int d = -40; d <= 40; d++) for (int n = 0; n <= 20; n++) J(Prog(fmt("* = $1000\n%s* = *%+d\nl db 9\n dw l,*\n", n ? fmt(" ds %d,1\n", n).c_str() : "", d), full));
    cx.bound("15 x 15 origins in both formats, moves of the program counter by -40..40 after 0..20 bytes");
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
