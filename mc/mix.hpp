// Pieces of program of all kinds, put into every pair of contexts (conditionals, macro bodies, include files, DUMMY
// sections, listing controls, after errors ...) and combined with one another.
#pragma once
#include "lib.hpp"

// defs go to the beginning of the program (macro definitions cannot stand in a macro), body where the context is, tail to the end
struct Piece { string ids, defs, body, tail; };

inline const vector<Piece>& pieces() {
  static const vector<Piece> v = {
    // emission, places
    {"C01 C02 C09 C25", "", " db 1,2,3\n", ""},
    {"C01 C02 C25 C18", "", " ds 17,$A5\n* = *+1\n db 7\n", ""},
    {"C01 C02 C25", "", "* = $FFFC\n dl $11223344\n dw *\n", ""},
    {"C01 C02 C25", "", "* = $1FFFE\n dl *\n* = *+$10000\n db 1\n", "* = $10\n db 2\n"},
    {"C01 C25 C12", "", " dummy\nd@ ds 3\n code\n db 4\n", " dw d@\n"},
    {"C02 C25", " output hex\n", " ds 15,1\n db 2,3\n", ""},
    {"C09 C18 C29", "", " dw $1234,-1,65536\n ddb $1234\n dl -2\n", ""},
    {"C09 C25", "", " align odd\n db 1\n align even\n db 2\n", "e@ dl e@\n"},
    {"C09 C28 C08", "", " asc 'a;b'\\n\n asc 'it\\'s \\0'\n asc \";,'\"\n db ';',\",\"\n", ""},
    {"C09 C29", "", " ds 2,-1\n ds 2,256\n ds n@\n", "n@ = 3\n"},
    // instructions
    {"C03 C29 C06", " cpu 6502\n", " lda #5\n sta $12,x\nl@ bne l@\n jmp (f@)\n lda f@\n", "f@ nop\n"},
    {"C03 C29", " cpu 65c02\n", " lda (z@)\n bit #$101\n stz z@,x\n ldx z@,y\n jmp (f@,x)\n inc\n", "z@ = $80\nf@ = $1234\n"},
    {"C04 C29 C06", " cpu 6801\n", " ldaa #5\n staa $12\nl@ bne l@\n std f@\n ldx #f@\n jsr z@\n addd z@,x\n", "f@ nop\nz@ = 8\n"},
    {"C04 C29", " cpu 6800\n", " ldab 256,x\n cpx #$10000\n jmp 5\n clr ,x\n", ""},
    {"C05 C29 C06", " cpu z80\n", " ld a,(ix+d@)\n ld (iy-128),300\nl@ djnz l@\n bit 7,(hl)\n ld hl,(f@)\n jp (ix)\n", "d@ = 5\nf@ nop\n"},
    {"C05 C29", " cpu z80\n", " add ix,bc\n ex af,af'\n set 3,(ix+200)\n rst 8\n im 1\n out (c),b\n ld ix,5\n sub ix\n", ""},
    {"C06", " cpu 6502\n", " bne f@\n beq *+129\n bcc *-126\n bcs f@\n", " ds 100\nf@ nop\n"},
    {"C06 C10", " cpu 6800\n", " bsr f@\n bra f@+1\n ds 122\n bhi f@\n", "f@ nop\n"},
    // expressions
    {"C07 C08", "", " dl 2+3*4-7/2|8&$F^1<<2>>1,~5,-3+LO($1234)-HI(f@)\n", "f@ = $5678\n"},
    {"C07 C28", "", " dl ( 1 + 2 ) * -3 , * , *-* , 'a' + \"b\" , $ff - 0FFh , %101|101b , 17q\n", ""},
    {"C08 C07", "", " dl 4294967295,0xFFFFFFFF,377q,'\\'',\"\\\"\",'\\\\'\n dl 4294967296\n dl 8q\n db 12b\n", ""},
    {"C07 C16", "", " dl 1/0\n dl 1+\n dl (1\n dl 5 6\n dl 1//2\n", ""},
    // symbols
    {"C10 C11 C20", "", " dw f@,f@+1,g@\ng@ = f@\n", "f@ db 1\n"},
    {"C10 C20 C03", " cpu 6502\n", " lda z@\n lda 0|z@\n sta u@\nu@ = z@+1\n", "z@ = $10\n"},
    {"C10 C17 C16", "", "e@ = e@b\n db e@\n", "e@b = e@c\ne@c = 5\n"},
    {"C11 C20", "", "x@ = 1\n db x@\nx@ = x@+1\n db X@\n", " db x@\n"},
    {"C11 C16 C17", "", "y@ db 1\ny@ db 2\ndb = 3\n dw y@\n1a = 2\n", ""},
    {"C11 C20 C21", "", "aVeryLongSymbolNameOf31Letters@ = 7\n db averylongsymbolnameof31letters@\n", ""},
    {"C11 C17", "", " dw undefined@\n", ""},
    {"C20 C26", " cpu z80\n", "unused@ = b\nr@ = hl\n ld r@,5\n bit v@,a\nv@ = 3\n", ""},
    {"C12 C14", "m@ macro\n.a db \\1\n dw .a,.f\n.f db 9\n endm\n", ".a db 1\n m@ 4\n dw .a\n", " dw .z@\n.z@ = 5\n"},
    {"C12 C25", "", ".b = 1\n dw .b\n code\n dw .c\n.c db 2\n dummy\n.b db 3\n code\n", ".c = 7\n dw .c\n"},
    {"C12", "", ".q@ dw .q@\n code\n.q@ dw .q@\n", " dw .r@\n.r@ db 1\n"},
    // conditions
    {"C13 C18", "", " if 1=2\n db 1\n nosuch\n else\n db 2\n if 3<>4\n db 3\n endc\n endc\n", ""},
    {"C13 C16", "", " if f@\n db 1\n endc\n if 5>=5\n db 2\n else\n db 3\n endc\n", "f@ = 1\n"},
    {"C13 C16 C22", "", " if 0\n if 1\n else\n endc\n db 1\n else\n else\n db 2\n endc\n endc\n", ""},
    {"C13 C12", "", "c@ = 3\n if c@<<1==6\n db 1\nc@ = 0\n else\n db 2\n endc\n db c@\n", ""},
    {"C13 C22", "", " if 1\n db 1\n", ""},
    {"C13", "", " else\n db 1\n endc\n", ""},
    // macros
    {"C14 C13", "m@ macro\n if \\1\n db \\1\n exitm\n endc\n db \\#\n asc '\\*'\n endm\n", " m@ 1,2\n m@ 0,x y,'a,b'\n m@ 0\n", ""},
    {"C14 C12", "i@ macro\n dw .x,\\2\n.x db \\1\n endm\nm@ macro\n i@ \\2,\\1\n.x = \\1\n db .x\n i@ .x,.x\n endm\n", " m@ 5,6\n", ""},
    {"C14 C16 C22", "m@ macro\n db 1\n if 1\n endm\n", " m@\n db 2\n", ""},
    {"C14 C22 C16", "r@ macro\n db 1\n r@\n endm\n", " if 0\n r@\n endc\n", ""},
    {"C14 C20 C11", "m@ macro\n\\1 = \\2\nl@\\1 db \\1\n endm\n", " m@ s@,$12\n m@ t@,s@\n", " db s@,t@\n"},
    {"C14 C16", "m@ macro\n nosuch \\1\n db 300\n db \\9\n endm\n", " m@ 1,2,3,4,5,6,7,8,9\n m@ 1,2,3,4,5,6,7,8,9,10\n", ""},
    {"C14", "", "n@ macro\n db $77\n endm\n n@\n", " n@\n"},
    {"C14 C16", "", " exitm\n db 1\n", ""},
    {"C14 C18 C20 C12", "m@ macro\n db \\1\n endm\n", "k@ m@ 1,2\nk2@ m@ (1,2),'a,b'\n", " dw k@,k2@\n"},
    {"C10 C11 C20", "", "g@ = 'a'+f@\nh@ equ '\\''-f@\n dw g@,h@\nh@ = h@^'x'\n dw h@\n", "f@ = 5\n"},
    // includes
    {"C15 C16 C18", "", " include inc\n db 4\n", ""},
    {"C15 C13", "", " include inc2\n db 5\n", ""},
    {"C15 C14", "", " include inc3\n inm 6\n", ""},
    {"C15 C16 C23", "", " include nosuchfile\n db 4\n", ""},
    // listing
    {"C18 C19", "", " list off\n db 1\n list on\n db 2\n", ""},
    {"C18 C19", "", " mlist on\n clist off\n ilist on\n", ""},
    {"C18 C19", "", " clist on\n mlist off\n ilist off\n db 1\n", ""},
    {"C21 C18 C19", "", " page 15,60\n nam title @\n skip 4\n", ""},
    {"C21 C19", "", " page\n db 1 ; a long comment that is longer than the line is wide, by a good number of characters indeed\n skip 30\n", ""},
    {"C21 C16", "", " page 9,80\n page 20,1000\n nam a title of more than thirty characters\n", ""},
    {"C21 C18", " page 0,39\n", "alabel dw 1,2,3,4,5,6,7,8 ; comment of this line\n", ""},
    {"C18 C25", "", "a@\nb@ = $1234\nc@ db 1 ; x\n dummy\nd@ ds 5\n code\n ds 30\n", ""},
    // errors
    {"C16 C17", "", " nosuch\n db 1,,2\n db 1,5 y\nq w e\n", ""},
    {"C16 C17", "", " fail stop here\n dw 5 5\n", ""},
    {"C16 C22", "", " endc\n endm\n exitm x\n else 5\n macro\n include\n", ""},
    {"C16 C29", "", " db 256,-1,255,f@\n dw 65536\n", "f@ = 256\n"},
    {"C26 C16", "", " cpu 6502\n nop\n", ""},
    {"C26 C11", " cpu 6803\n", " mul\n lda 5\nx = 5\n ldaa x\na = 3\n db a\n", ""},
    {"C26 C28", "\tCPU\tZ80 ; comment\n", " LD A , ( IX + 1 ) ; c\n Halt\n lda 5\n", ""},
    {"C28 C07", "", "\tDB\t$aB , 0XcD,0eFH ; c ; d\n;;\n \t \nL@:\n DW l@\n", ""},
    {"C27 C19", "", " db 1\n", ""},
    {"C22", "", " db ((((((((1))))))))\n dw 1+(2*(3-(4/(5|6))))\n asc 'x\n db '\n m\\\n", ""},
    {"C22 C16", "", " db @@@\n \x01\n = \n=\n. = 1\n  * = \n*\n", ""},
  };
  return v;
}

struct Mixed { string defs, body, tail; vector<std::pair<string, string>> files; bool last = false, cut = false; };

inline int n_contexts() { return 27; }
inline const char* context_name(int k) { static const char* n[] = {"", "IF 1", "IF 0 ELSE", "IF 0", "nested IF", "macro", "macro twice", "macro in a condition", "include", "include without newline", "DUMMY", "LIST OFF", "all listed", "after an error", "MLIST", "long lines", "included macro", "ELSE of IF 1", "macros three deep", "macros eight deep", "DUMMY to the end", "before DUMMY", "end of the program", "end of the program without newline", "above 64K", "after many lines", "many times over"}; return n[k]; }
inline Mixed in_context(int k, Mixed m, int depth) {
  string d = std::to_string(depth);
  switch (k) {
    case 1: m.body = " if 1\n" + m.body + " else\n nosuch\n endc\n"; break;
    case 2: m.body = " if 0\n db $E0\n else\n" + m.body + " endc\n"; break;
    case 3: m.body = " if 0\n" + m.body + " endc\n"; break;
    case 4: m.body = " if 1\n if 0\n nosuch\n else\n" + m.body + " endc\n db $E1\n else\n endc\n"; break;
    case 5: m.defs += "cx" + d + " macro\n" + m.body + " endm\n"; m.body = " cx" + d + " 1\n"; break;
    case 6: m.defs += "cy" + d + " macro\n db \\1\n" + m.body + " db \\#\n endm\n"; m.body = " cy" + d + " 1\n cy" + d + " 2,3\n"; break;
    case 7: m.defs += "cz" + d + " macro\n if \\1\n" + m.body + " else\n db \\1\n exitm\n endc\n db 6\n endm\n"; m.body = " cz" + d + " 1\n cz" + d + " 0\n"; break;
    case 8: m.files.push_back({"f" + d, m.body}); m.body = " include f" + d + "\n"; break;
    case 9: m.files.push_back({"g" + d, m.body.substr(0, m.body.empty() ? 0 : m.body.size() - 1)}); m.body = " include g" + d + "\n"; break;
    case 10: m.body = " dummy\n db 1\n" + m.body + " code\n"; break;
    case 11: m.body = " list off\n" + m.body + " list on\n"; break;
    case 12: m.body = " mlist on\n ilist on\n clist on\n" + m.body + " mlist off\n ilist off\n clist off\n"; break;
    case 13: m.body = " nosuch\n db 1,nosuch\n" + m.body + " nosuch\n"; break;
    case 14: m.body = " mlist on\n" + m.body; break;
    case 15: { string r; for (auto& l : ref::lines_of(m.body)) r += l.find(';') == string::npos && l.find('\'') == string::npos ? l + string(l.size() < 90 ? 90 - l.size() : 1, ' ') + "; a remark at the end of it\n" : l + "\n"; m.body = r; break; }
    case 16: m.files.push_back({"h" + d, "cw" + d + " macro\n" + m.body + " endm\n"}); m.defs += " include h" + d + "\n"; m.body = " cw" + d + "\n"; break;
    case 17: m.body = " if 1\n db 1\n else\n" + m.body + " endc\n"; break;
    case 18: m.defs += "da" + d + " macro\n" + m.body + " endm\ndb" + d + " macro\n if \\#\n da" + d + " \\2,\\1\n endc\n.q dw .q\n endm\ndc" + d + " macro\n db" + d + " \\1,7\n db \\1\n endm\n"; m.body = " dc" + d + " 4\n"; break;
    case 19: { m.defs += "ea" + d + "x0 macro\n" + m.body + " endm\n"; for (int i = 1; i < 8; i++) m.defs += fmt("ea%dx%d macro\n ea%dx%d \\*\n db \\#\n endm\n", depth, i, depth, i - 1); m.body = " ea" + d + "x7 1,2\n"; break; }
    case 20: m.body = " dummy\n" + m.body; break;
    case 21: m.body += " dummy\n"; break;
    case 22: m.last = true; break;
    case 24: m.body = "* = $1FFFA\n" + m.body; break;
    case 26: m.body = repeat(m.body, m.body.find("ds *") != string::npos ? 2 : m.body.size() < 250 ? 18 : 3); break;      // "ds *" doubles the program
    case 25: m.body = repeat("; line\n", 68) + " ds 250,1\n" + m.body; break;
    case 23: m.last = m.cut = true; break;
  }
  return m;
}

// what the program sets up before anything else
inline int n_settings() { return 12; }
inline string setting(int k) {
  switch (k) {
    case 1: return " page 40,60\n";
    case 2: return " page 0,120\n";
    case 3: return " code\n dummy\n code\n code\n";
    case 4: return " output hex\n";
    case 5: return "wa = (5)\nwb = (6)\nwc = 1|$100\n";
    case 6: return " nosuch\n nosuch\n";
    case 7: return " clist off\n mlist on\n ilist on\n";
    case 8: return " list off\n";
    case 9: return " page 60,39\n nam a title\n";
    case 10: return "s0 macro\n endm\n s0\n s0\n s0\n s0\n";
    case 11: return " include inc4none\n";
  }
  return "";
}

inline Prog mixed_program(const Mixed& m, const vector<string>& args, int set = 0) {
  Prog p("* = $1000\n" + setting(set) + m.defs + (m.last ? m.tail + m.body : m.body + m.tail + "end dl end\n"), args);
  p.add("inc", " db 1\n nosuch\n db 300\nincl db 3").add("inc2", " if 1\n db 1\n else\n db 2\n endc\n include inc4\n").add("inc3", "inm macro\n db \\1\n.l dw .l\n endm\n").add("inc4none", "; nothing here\n").add("inc4", "; four\n db 4\n\n");
  if (m.cut) { string& t = p.files[0].second; if (!t.empty() && t.back() == '\n') t.pop_back(); }
  for (auto& f : m.files) p.files.push_back(f);
  return p;
}

// every piece in every context (deep: in every pair of contexts)
template <class F> void mix_programs(bool deep, F f) {
  int n = 0;
  for (auto& a : pieces()) for (int c1 = 0; c1 < n_contexts(); c1++) for (int c2 = 0; c2 < (deep ? n_contexts() : 1); c2++) {
    auto named = [](const string& s) { return replaced(s, "@", "p"); };
    Mixed m{named(a.defs), named(a.body), named(a.tail), {}};
    m = in_context(c2, m, 2); m = in_context(c1, m, 1);
    vector<string> o = ++n % 3 ? vector<string>{"-o", "o", "a.asm"} : vector<string>{"-lx", "-o", "o", "a.asm"};
    f(mixed_program(m, o));
  }
}

#include "grid.hpp"
#include "far.hpp"

template <class F> void mix(Cx& cx, const string& id, F judge, bool all = false, int thin = 1) {
  static const vector<vector<string>> opts = {{"-l", "-o", "o", "a.asm"}, {"-o", "o", "a.asm"}, {"-lx", "-o", "o", "a.asm"}, {"-sx", "-o", "o", "a.asm"}, {"-x", "-o", "o", "a.asm"}, {"a.asm"}};
  vector<Piece> mine, other = pieces();
  for (auto& p : other) if (all || (p.ids + " ").find(id + " ") != string::npos) mine.push_back(p);
  auto named = [](const string& s, char c) { return replaced(s, "@", string(1, c)); };
  auto run = [&](const Piece& a, const Piece& b, int c1, int c2, int c3, bool swap, int o, unsigned k) {
    Mixed m{named(a.defs, 'p'), named(a.body, 'p'), named(a.tail, 'p'), {}};
    if (c3) m = in_context(c3, m, 3);
    m = in_context(c2, m, 2);
    string bb = named(b.body, 'q');
    m.body = swap ? bb + m.body : m.body + bb;
    m.defs = named(b.defs, 'q') + m.defs; m.tail += named(b.tail, 'q');
    m = in_context(c1, m, 1);
    unsigned h = (k * 2654435761u >> 12) % (2 * n_settings()); Prog p = mixed_program(m, opts[o], h < (unsigned)n_settings() ? h : 0);
    judge(p, 4);
  };
  unsigned n = 0;
  for (auto& a : mine) for (size_t j = 0; j < other.size(); j++) for (int c1 = 0; c1 < n_contexts(); c1++) for (int c2 = 0; c2 < n_contexts(); c2++)
    for (int sw = 0; sw < 2; sw++) {
      size_t ka = a.defs.find(" cpu "), kb = other[j].defs.find(" cpu ");
      if (ka != string::npos && kb != string::npos && a.defs != other[j].defs) continue;      // two processors
      n++;
      if (!cx.thorough && ((c1 * 7 + c2 + j + sw) & 1)) continue;       // each pair of contexts and of pieces, in one of the orders
      if (thin > 1 && n / 2 % thin) continue;
      if (cx.mine()) run(a, other[j], c1, c2, 0, sw, (c1 + c2 * 5 + j) % opts.size(), n);
    }
  cx.bound(fmt("%zu pieces of program in every one of %d contexts within every other, before and after %zu other pieces%s", mine.size(), n_contexts(), other.size(), thin > 1 ? " (thinned)" : ""));
  if (cx.thorough) {
    for (auto& a : mine) for (int c1 = 1; c1 < n_contexts(); c1++) for (int c2 = 1; c2 < n_contexts(); c2++) for (int c3 = 1; c3 < n_contexts(); c3++)
      for (size_t o = 0; o < opts.size(); o++) if (cx.mine()) run(a, other[(c1 + c2 + c3) % other.size()], c1, c2, c3, o & 1, o, n++);
    cx.bound(fmt("%zu pieces in contexts nested three deep, under %zu command lines", mine.size(), opts.size()));
  }
  grid(cx, id, judge, opts, all, thin);
  far(cx, id, judge, all, (thin + 3) / 4);
}
