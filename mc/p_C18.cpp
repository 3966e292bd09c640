// The listing: all sequences of statements and listing controls; its address and byte columns are read
// back and compared with the code file.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C18";
const char* RULE = "a case is one program; distinct = different listing";

// the bytes shown beside the lines, with the address they are shown at; false when a block is abbreviated
static bool shown(const string& out, int aw, vector<std::pair<uint32_t, uint8_t>>& v) {
  bool whole = true;
  for (auto& l : ref::lines_of(out)) {
    size_t n = 0; while (n < l.size() && isxdigit((unsigned char)l[n])) n++;
    if ((int)n != aw || l.size() <= n || l[n] != ' ') continue;
    uint32_t a = strtoul(l.substr(0, n).c_str(), 0, 16);
    size_t i = n + 1;
    while (i + 1 < l.size() && i < 21 && isxdigit((unsigned char)l[i]) && isxdigit((unsigned char)l[i + 1])) { v.push_back({a++, (uint8_t)strtoul(l.substr(i, 2).c_str(), 0, 16)}); i += 2; }
    if (l.compare(i, 3, "...") == 0) whole = false;
  }
  return whole;
}

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  J.extra = [](const Prog& p, const ref::Out& x, const Result& r, Fails& f) {
    if (x.fatal || !r.have_code) return;
    const string& s = p.files[0].second;
    for (auto w : {"list off", "LIST OFF", "dummy", "macro", "include", "= ", " equ"}) if (s.find(w) != string::npos) return;
    vector<std::pair<uint32_t, uint8_t>> v;
    bool whole = shown(r.out, s.find(" cpu") == 0 ? 4 : 8, v);
    auto im = ref::read_code(r.code).bytes;
    if (s.find(" cpu") == 0) for (auto& b : im) b.first &= 0xFFFF;
    if (whole && v != im) f.add(s, "bytes beside the lines " + ref::strdump(v) + "\n  bytes in the code file " + ref::strdump(im));
    if (!whole && v.size() >= im.size()) f.add(s, "a listing with abbreviated blocks shows more bytes than there are");
  };
  // ---- 1. sequences of statements and listing controls
  {
    Strs a = {" db 1", " db 1,2,3,4,5,6,7,8,9,10", " ds 20,3", " ds 21,3", " list off", " list on", " clist off", " clist on", " mlist on", " mlist off", " ilist on", " if 1", " if 0", " else", " endc", " m 5", " include b", "lab dw lab", "e = $1234", " dummy", " code", "* = *+5", "; comment", "", " db nosuch", " db $1FF", " skip 2", " nam title", " page", "\tdb\t1\t; tab", "lab", "E2 = e", " asc 'hello world, this is text'", "M2 macro\n m 6\n endm", " m2"};
    int len = cx.thorough ? 4 : 3;
    string head = "* = $1000\nm macro\n db \\1\n if \\1=5\n db 2\n endc\n endm\n";
    for (int k = 1; k <= len; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog(head + text(a, q) + "end dl end\n").add("b", " db $B1\n; in b\nbb db $B2\n"), "", k); });
    for (auto h : {"", " cpu 6502\n* = $FFFE\n", " list off\n* = 0\n", " mlist on\n* = 0\n", " ilist on\n clist off\n* = 0\n"}) for (int k = 1; k <= 2; k++) sequences(a.size(), k, [&](const vector<int>& q) { J(Prog(string(h) + (*h ? "m macro\n db \\1\n if \\1=5\n db 2\n endc\n endm\n" : head) + text(a, q) + "end dl end\n").add("b", " db $B1\n; in b\nbb db $B2\n"), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu statements and listing controls, and of 2 after 5 other beginnings", len, a.size()));
    Strs b = {" list off", " list on", " mlist on", " mlist off", " m 5", " include b", " if 0\n db 9\n else\n db 8\n endc", " clist off", " ilist on", " m2"};
    int l2 = cx.thorough ? 6 : 4;
    for (int k = 3; k <= l2; k++) sequences(b.size(), k, [&](const vector<int>& q) { J(Prog("* = $1000\nm macro\n db \\1\n if \\1=5\n list off\n db 2\n list on\n endc\n endm\nm2 macro\n m 5\n include b\n db 3\n endm\n" + text(b, q) + " db 1\n").add("b", " db $B1\n list on\n m 6\n if 0\n endc\n"), "", k); });
    cx.bound(fmt("all sequences of up to %d of %zu listing controls, macros and includes", l2, b.size()));
  }
  // ---- 1b. the mark of a line (macro, include, skipped part): all bodies of macros and include files over
  // conditionals, with every setting of the listing controls, and lines after the body
  {
    Strs b = {" db 1", " if \\1\n db 2", " if 0\n db 3", " else\n db 4", " endc\n db 5", " exitm", " in \\1", " include c", " list off\n db 6\n list on", "\\2 db 7", " else", " endc"};
    int len = cx.thorough ? 5 : 4;
    for (int k = 1; k <= len; k++) sequences(b.size(), k, [&](const vector<int>& q) {
      if (k == len && q[0] > 2) return;                                   // the longest ones begin like the shorter ones
      for (auto h : {" mlist on\n", " mlist on\n clist on\n ilist on\n", " mlist on\n clist off\n", " mlist off\n clist on\n", " ilist on\n"}) {
        if (k == len && strlen(h) != 10) continue;
        if (!cx.mine()) continue;
        J.now(Prog(string(h) + "* = $1000\nin macro\n if \\1\n db $11\n else\n db $12\n endc\n db $13\n endm\nm macro\n" + text(b, q) + " db 8\n endm\n db 9\n m 1,x1\n db 10\n m 0,x2\n db 11\n").add("c", " db $C1\n if 1\n db $C2\n else\n db $C3\n endc\n db $C4\n"), "", k);
      }
    });
    Strs f = {" db 1", " if 1\n db 2", " if 0\n db 3", " else\n db 4", " endc\n db 5", " in 0", " in 1", " include c"};
    for (int k = 1; k <= len; k++) sequences(f.size(), k, [&](const vector<int>& q) {
      for (auto h : {" mlist on\n clist on\n ilist on\n", " clist off\n ilist on\n mlist on\n", " mlist on\n"}) {
        if (k == len && strlen(h) != 31) continue;
        if (!cx.mine()) continue;
        J.now(Prog(string(h) + "* = $1000\nin macro\n if \\1\n db $11\n else\n db $12\n endc\n db $13\n endm\n db 9\n include b\n db 10\n").add("b", text(f, q) + " db 8\n").add("c", " db $C1\n if 1\n db $C2\n else\n db $C3\n endc\n db $C4\n"), "", k);
        J.now(Prog(string(h) + "* = $1000\nin macro\n if \\1\n db $11\n else\n db $12\n endc\n db $13\n endm\n db 9\n" + text(f, q) + " db 10\n").add("c", " db $C1\n if 1\n db $C2\n else\n db $C3\n endc\n db $C4\n"), "", k);
      }
    });
    cx.bound(fmt("all bodies of up to %d of %zu lines of macros, and of %zu lines of include files and plain text, over nested conditionals, macros and includes under the listing controls", len, b.size(), f.size()));
  }
  // ---- 2. the byte columns: every number of bytes of every directive, at every address width
  {
    for (auto c : {"", " cpu 6502\n", " cpu z80\n"}) for (int n = 0; n <= (cx.thorough ? 200 : 60); n++) for (auto l : {"", "lab", "averylonglabelthatgoesfaralong"}) {
      J(Prog(fmt("%s* = $FFE\n%s db 1%s ; x\n db 2\n", c, l, repeat(",7", n).c_str())));
      J(Prog(fmt("%s* = $FFE\n%s dw 1%s ; x\n db 2\n", c, l, repeat(",7", n / 2).c_str())));
      J(Prog(fmt("%s* = $FFE\n%s ds %d,$5A\n db 2\n", c, l, n)));
      if (n) J(Prog(fmt("%s* = $FFE\n%s asc '%s'\n db 2\n", c, l, string(n, 'x').c_str())));
      J(Prog(fmt("%s* = $FFFFFF0\n%s ds %d,$5A\n dl *\n", c, l, n)));
    }
    for (u64 o : {0ULL, 1ULL, 0xFFULL, 0xFFFFULL, 0x10000ULL, 0xFFFFFULL, 0x7FFFFFFFULL, 0xFFFFFF00ULL}) for (auto c : {"", " cpu 6800\n"}) J(Prog(fmt("%s* = $%llX\nl db 1,2\n dw l\ne = l+$100\n ds 3\n", c, o)));
    cx.bound("DB, DW, DS and ASC of every length to 60 bytes (thorough 200) with and without labels on three processors, 8 origins");
  }
  // ---- 3. source text in the listing: every line length, tabs, comments, blanks, characters
  {
    for (int n = 0; n <= 260; n++) { J(Prog("* = 0\n db 1 ;" + string(n, 'c') + "\n db 2\n")); J(Prog("* = 0\n asc '" + string(n, 'q') + "' ; c\n db 2\n")); J(Prog("* = 0\n;" + string(n, '.') + "\n" + string(n, ' ') + "db 2\n")); J(Prog("* = 0\n db 1 ;" + repeat("ab cd ", n / 6) + string(n % 6, 'e') + "\n db 2\n")); J(Prog("* = 0\nlab db 1" + repeat(" ", n) + "\n" + repeat("\t", n / 4) + " db 2 ;" + repeat("\tx", n / 4) + "\n")); }
    Strs ch; for (int c = 1; c < 256; c++) if (c != '\n') ch.push_back(string(1, c));
    for (auto& x : ch) { J(Prog("* = 0\n db 1 ;a" + x + "b\n db 2\n")); J(Prog("* = 0\n asc 'a" + x + "b'\n db 2\n")); J(Prog("* = 0\n db 1" + x + "\n" + x + " db 2\n" + x + "\n")); }
    Strs t = {" ", "\t", "db", "1", ";", "x", "'", ","};
    int len = cx.thorough ? 6 : 5;
    for (int k = 1; k <= len; k++) sequences(t.size(), k, [&](const vector<int>& q) { string e; for (int i : q) e += t[i]; J(Prog("* = 0\n" + e + "\n db 2\n"), "", 1); });
    cx.bound(fmt("lines of every length to 260, every character in three places, all lines of up to %d of %zu tokens", len, t.size()));
  }
  // ---- 4. many lines: numbering and pages
  for (int n = 0; n <= (cx.thorough ? 500 : 200); n++) J(Prog("* = 0\n" + repeat(" db 1\n", n) + " nosuch\n"), "", n);
  J(Prog("* = 0\n" + repeat(" db 1\n", 12000) + " nosuch\n")); J(Prog("* = 0\n" + repeat("\n", 100005) + " nosuch\n"));
  cx.bound("programs of every number of lines to 200 (thorough 500), and of 12000 and 100000 lines");
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
