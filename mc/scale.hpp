// Programs that repeat something a great many times: counters, line numbers, scopes, pages, symbols, tables and
// stacks are met at every power of two and of ten and around it, up to 100001.
#pragma once
#include "lib.hpp"

struct Unit { const char* ids; string head, unit, second, tail; vector<string> opts; int most; string b; };

// @d: the index, @h: a scrambled hex number of the index, @N: the number of repetitions
inline string spread(const string& s, unsigned i, unsigned n) {
  string r;
  for (size_t k = 0; k < s.size(); k++) {
    if (s[k] != '@' || k + 1 == s.size()) { r += s[k]; continue; }
    k++;
    if (s[k] == 'd') r += std::to_string(i);
    else if (s[k] == 'h') r += fmt("%08x", i * 2654435761u);
    else if (s[k] == 'N') r += std::to_string(n);
    else { r += '@'; k--; }
  }
  return r;
}

inline const vector<Unit>& units() {
  const vector<string> l = {"-l", "-o", "o", "a.asm"}, f = {"-o", "o", "a.asm"}, x = {"-l", "-x", "-o", "o", "a.asm"}, s = {"-ls", "-o", "o", "a.asm"}, w = {"-sx", "-o", "o", "a.asm"};
  static const vector<Unit> u = {
    // errors and warnings
    {"C16 C17 C19", "* = 0\n db 1\n", " nosuch\n", "", " db 2\n", l, 100001, ""},
    {"C16 C17 C18", "* = 0\n db 1\n", " nosuch\n", "", " db 2\nx nosuch\n", f, 10001, ""},
    {"C16 C29 C17", "* = 0\n", " db 300\n", "", " db 1\n", l, 100001, ""},
    {"C16 C19", "* = 0\n", " db 300\n", "", " db 1\n", s, 65537, ""},
    {"C16 C17", "* = 0\nm macro\n db nosuch\n db $123\n endm\n", " m\n", "", " db 1\n", l, 10001, ""},
    {"C16 C15 C17", "* = 0\n", " include b\n", "", " nosuch\n", l, 4097, "\n db 1\n nosuch\n"},
    {"C16 C13", "* = 0\n", " if 1\n nosuch\n else\n db 1\n endc\n", "", " db 9\n", l, 10001, ""},
    {"C16 C11", "* = 0\nx db 1\n", "x db 2\n", "", " db 3\n dw x\n", l, 10001, ""},
    // lines, pages
    {"C15 C16 C18", "* = 0\nm macro\n nosuch\n endm\n", ";\n", "", " nosuch\n include b\n nosuch\n m\n nosuch\n if 0\n else\n nosuch\n endc\n nosuch\n", l, 100001, "\n nosuch\n m\n nosuch\n"},
    {"C18 C19", "* = 0\nm macro\n db 9\n endm\n mlist on\n ilist on\n", "\n", "", " db 1\n include b\n db 2\n m\n db 3\n if 0\n db 4\n endc\n db 5\n", f, 100001, " db 1\n m\n db 2\n"},
    {"C15 C16 C18", "* = 0\n include b\n nosuch\n", "", "", " db 2\n nosuch\n", l, 100001, "#\n nosuch\n"},
    {"C21 C18 C19", " page 10,76\n nam the title\n* = 0\n", " db @d&15\n", "", "", f, 100001, ""},
    {"C21 C18", " page 60,60\n* = 0\n", " db 1,2,3,4,5,6,7,8 ; this is a rather long comment that goes over the edge\n", "", "", f, 10001, ""},
    {"C21 C19", " page 12,80\n* = 0\n", " page\n", "", " db 1\n", f, 10001, ""},
    {"C21 C19", " page 20,80\n* = 0\n", " skip 3\n", "", " db 1\n", f, 10001, ""},
    {"C21 C18", " page 0,50\n* = 0\n", " db 1\n", "", "", f, 65537, ""},
    {"C19 C18", "* = 0\n", " list off\n db 1\n list on\n", "", " db 1\n", f, 10001, ""},
    {"C18", "* = 0\n", " ds 22,@d&255\n", "", " db 1\n", f, 10001, ""},
    // symbols
    {"C20 C11 C21", "* = 0\n", "s@h = @d\n", "", " db 1\n", x, 10001, ""},
    {"C20 C11 C10", "* = 0\n", "s@h db 1\n", " dw s@h\n", " db 1\n", w, 65537, ""},
    {"C20 C10 C11", "* = 0\n", " dw s@h\n", "s@h db 2\n", " db 1\n", x, 65537, ""},
    {"C10 C03", " cpu 6502\n* = $10\n", " lda s@h\n", "s@h = @d\n", " lda s00000000\n", l, 10001, ""},
    {"C10 C03", " cpu 6502\n* = 0\n", "s@h = @d\n", " lda s@h\n", " lda s00000000\n", l, 10001, ""},
    {"C10 C04", " cpu 6801\n* = 0\n", "s@h = @d\n", " ldaa s@h\n", " ldx #s00000000\n", l, 10001, ""},
    {"C10 C05", " cpu z80\n* = 0\n", "s@h = @d\n", " ld hl,s@h\n", " ld a,(s00000000)\n", l, 10001, ""},
    {"C11 C07", "* = 0\nx = 0\n", "x = x+1\n", "", " dl x\n", x, 100001, ""},
    {"C11 C10", "* = 0\n", "s@d = s@d+0\n", "", " dl s1\n", l, 1001, ""},
    {"C11 C26 C22", " cpu 6502\n* = 0\n", "l@h nop\n", "", " lda l00000000\n", x, 10001, ""},
    {"C26", "* = 0\n", "s@h = 5\n", "", " cpu z80\n nop\nhl = 5\n", x, 4097, ""},
    // scopes
    {"C12 C20", "* = 0\n.a = 7\n.b db 8\n", " code\n", "", " dw .a\n dw .b\n", x, 100001, ""},
    {"C12 C20", "* = 0\n.a = 7\n", " dummy\n", "", " dw .a\n.a = 8\n dw .a\n", x, 65537, ""},
    {"C12 C20", "* = 0\n", " code\n dw .l\n.l db @d&255\n", "", ".x dw .x,.l\n", x, 65537, ""},
    {"C12 C14", "* = 0\nm macro\n.l dw .l,\\1\n bad \\1=5\n endm\nbad macro\n.l db 1\n dw .l\n endm\n.l db 3\n", " m .l\n", "", " dw .l\n", l, 10001, ""},
    {"C12", "* = 0\n", ".s@d dw .s@d\n", "", ".q = 1\n db .q\n", l, 1001, ""},
    {"C12", "* = 0\nm macro\n endm\n.a = 7\n", " m\n", "", " dw .a\n code\n dw .a\n", l, 65537, ""},
    // conditions
    {"C13", "* = 0\n", " if @d&1\n db 1\n else\n nosuch @d\n endc\n", "", " db 9\n", l, 1001, ""},
    {"C13", "* = 0\n", " if @d>=500\n db 1\n else\n db 2\n endc\n", "", " db 9\n", f, 65537, ""},
    {"C13 C22", "* = 0\n", " if 1\n", " db 1\n endc\n", " db 9\n", l, 1000, ""},
    {"C13 C22", "* = 0\n if 0\n", " if 1\n", " else\n db 1\n endc\n", " db 8\n else\n db 3\n endc\n db 9\n", l, 997, ""},
    {"C13", "* = 0\n if 0\n", " nosuch\n", "", " else\n db 1\n endc\n db 2\n", f, 100001, ""},
    // macros
    {"C14 C20", "* = 0\n", "m@h macro\n db \\1\n endm\n", " m@h @d&255\n", " db 1\n", x, 10001, ""},
    {"C14", "* = 0\nm macro\n", " db \\1\n", "", " endm\n m 5\n m 6\n", l, 100001, ""},
    {"C14 C16", "* = 0\nm macro\n if \\1=5\n exitm\n endc\n db \\1\n endm\n", " m @d&7\n", "", " m 5\n m 6\n", l, 65537, ""},
    {"C14", "* = 0\nm macro\n db \\#\n endm\nk macro\n m \\*\n endm\n", " k 1,2,3\n k\n", "", " db 1\n", l, 10001, ""},
    {"C14 C11", "* = 0\nm macro\n db 1\n endm\n", "n = m\n n\n", "", " m\nm = 4\n db m\n", l, 10001, ""},
    // includes
    {"C15", "* = 0\n", " include b\n", "", " db 9\n", f, 10001, " db 1"},
    {"C15", "* = 0\n if 0\n", " include nofile\n", "", " endc\n db 9\n", l, 10001, ""},
    {"C15 C18", "* = 0\n ilist on\n include b\n", "", "", " db 2\n", f, 65537, "# db 1\n"},
    // places
    {"C25 C01", "* = 0\n", "* = *+3\n db 1\n", "", "e dl e\n", x, 65537, ""},
    {"C25 C01", "* = $100\n", " dummy\n ds 7\n code\n db 1\n", "", "e dl e\n", x, 65537, ""},
    {"C25 C09 C01", "* = 5\n", " ds 255,@d&127\n", "", "e dl e\n", x, 1025, ""},
    {"C25 C01 C02", "* = $FFFF\n", " db 1\n* = *+$FFFF\n", "", "e dl e\n", x, 65533, ""},
    {"C02 C25", " output hex\n* = $FFF0\n", " db 1\n* = *+$FFFF\n", "", "e dl e\n", x, 65533, ""},
    {"C02", " output hex\n* = $FFFE\n", " db 1\n", "", " db 2\n", f, 100001, ""},
    {"C02", " cpu z80\n* = $80\n", " nop\n", "", " halt\n", l, 100001, ""},
    {"C01 C25", "* = $FFFFFE\n", " dw 1\n", "", " db 2\n", l, 100001, ""},
    {"C09 C25", "* = 1\n", " ds @N,$A5\n", "", " db 1\n", l, 1, ""},
    {"C09 C25", "* = 1\n", " db 1\n align even\n db 2\n align odd\n", "", " dl *\n", l, 65537, ""},
    {"C09 C29", " cpu 6502\n* = 1\n", " dw @d\n ddb @d\n dl @d\n", "", " dl *\n", l, 100001, ""},
    {"C09 C01", "* = 1\n", " asc 'line @d\\n'\n", "", " dl *\n", l, 65537, ""},
    {"C07 C08", "* = 0\n", " dl @d*2+($@h&$FFFF)|%101\n", "", " db 1\n", l, 65537, ""},
    {"C08", "* = 0\n", " dl $@h,0x@h,@d,'@d&'-'@d&'\n", "", " db 1\n", l, 4097, ""},
    // instructions
    {"C03 C06 C25", " cpu 65c02\n* = $1000\n", "l@h lda ($12),y\n bne l@h\n sta @d,x\n bra *+5\n", "", " jmp ($1234,x)\n", x, 4097, ""},
    {"C04 C06 C25", " cpu 6803\n* = $1000\n", "l@h ldaa @d&127,x\n bne l@h\n std @d\n bsr *+5\n", "", " jmp 4,x\n", x, 4097, ""},
    {"C05 C06 C25", " cpu z80\n* = $1000\n", "l@h ld (ix+5),@d&255\n jr nz,l@h\n ld hl,(@d)\n djnz *+5\n", "", " jp (iy)\n", x, 4097, ""},
    {"C06 C25", " cpu 6502\n* = $100\n", " nop\n", "", " bne *-@N+5\n beq *+2\n", l, 65537, ""},
    {"C28", "* = 0\n", " db 1 ;\n\t\n;\n", "", "\tDB\t2\n", l, 65537, ""},
    {"C27 C17", "* = 0\n", " db 1\n", "", "", l, 4097, ""},
  };
  return u;
}

// every unit of the property at every number of repetitions; all = every unit, whatever its properties
template <class F> void scale(Cx& cx, const string& id, F judge, int most = 1 << 30, bool all = false) {
  vector<int> n;
  auto around = [&](int c) { for (int d = -1; d <= 1; d++) n.push_back(c + d); };
  for (int c : {9, 10, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096, 10000, 32768, 65536, 100000}) around(c);
  if (cx.thorough) for (int c : {2048, 8192, 16384, 50000}) around(c);
  n.push_back(0); std::sort(n.begin(), n.end()); n.erase(std::unique(n.begin(), n.end()), n.end());
  int k = 0;
  for (auto& u : units()) {
    if (!all && string(u.ids).find(id) == string::npos) continue;
    k++;
    bool single = u.unit.find("@N") != string::npos;
    for (int c : n) {
      if (c > most || (!single && u.most > 1 && c > u.most && c > 1001)) continue;
      if (u.most > 1 && c > u.most) continue;
      if (!cx.mine()) continue;
      string s = spread(u.head, 0, c);
      if (single) s += spread(u.unit, 0, c);
      else if (u.unit.empty()) ;
      else for (int i = 0; i < c; i++) s += spread(u.unit, i, c);
      if (!u.second.empty()) for (int i = 0; i < c; i++) s += spread(u.second, i, c);
      s += spread(u.tail, 0, c);
      Prog p(s, u.opts);
      if (!u.b.empty()) p.add("b", u.b[0] == '#' ? repeat("\n", c) + u.b.substr(1) : u.b);
      judge(p, c + 1);
    }
  }
  cx.bound(fmt("%d kinds of statement repeated every number of times around the powers of two and of ten to %s", k, most > 100001 ? "100001" : std::to_string(most).c_str()));
}
