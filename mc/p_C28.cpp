// Layout, case and comments: every statement under all placements of blanks, comments and letter cases,
// against its plain form (both run by the real code) and against the reference.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C28";
const char* RULE = "a case is one spelling of a program, compared with its plain spelling; distinct = different code";

// in the templates ^ marks a place where blanks may stand, _ one where some must
struct St { const char* cpu; const char* t; };
static const St stmts[] = {
  {"", "_db_1^"}, {"", "_db_^1^,^2^,^$3F^"}, {"", "lab_db_1^,^2^"}, {"", "_dw_lab2^+^3^"}, {"", "_dw_(^lab2^+^3^)^*^2^"}, {"", "x^=^5^"}, {"", "x_equ_5^"}, {"", "x^=^lab2^<<^1^|^$40^"},
  {"", "*^=^$2000^"}, {"", "_ds_3^,^'a'^"}, {"", "_ds_2^"}, {"", "_asc_'a b;c,D'^"}, {"", "_asc_\"x\"^"}, {"", "_align_even^"}, {"", "lab^"}, {"", "_if_lab2^=^$1001^"}, {"", "_if_lab2^<^3^"}, {"", "_if_2^!=^3^"}, {"", "_if_2^>=^3^"}, {"", "_mac_1^,^2^"}, {"", "lab_mac_1^"}, {"", "_dummy^"}, {"", "_code^"}, {"", "_list_off^"}, {"", "_output_hex^"}, {"", "_db_lo^(^lab2^)^"}, {"", "_db_hi^(^lab2^)^"}, {"", "_ddb_$1234^,^1^"}, {"", "_dl_lab2^"}, {"", "_nam_a title^"}, {"", "_page_20^,^60^"}, {"", "_skip_2^"}, {"", "_db_'^'^"}, {"", "_db_' '^,^';'^"}, {"", "_include_inc^"}, {"", "_fail_a text^"}, {"", "_db_~^1^&^$F^"}, {"", "_dw_-^1^"}, {"", "_dw_lab2^-^1^"}, {"", "_dw_%101^+^017Q^+^0FFH^"}, {"", "_dw_0x1f^+^0b11^"}, {"", "x^=^5{2}^"}, {"", "_clist_on^"},
  {"6502", "_nop^"}, {"6502", "_lda_#^1^"}, {"6502", "_lda_#^'a'^"}, {"6502", "_lda_$12^,^x^"}, {"6502", "_lda_(^$12^,^x^)^"}, {"6502", "_lda_(^$12^)^,^y^"}, {"6502", "_asl_a^"}, {"6502", "_jmp_(^$1234^)^"}, {"6502", "lab_bne_lab^"}, {"6502", "_sta_lab2^+^1^,^y^"}, {"65c02", "_lda_(^$12^)^"}, {"65c02", "_jmp_(^$1234^,^x^)^"}, {"65c02", "_inc_a^"},
  {"6801", "_ldaa_#^1^"}, {"6801", "_ldaa_5^,^x^"}, {"6801", "_ldx_#^lab2^"}, {"6801", "_bra_*^+^2^"}, {"6801", "_clr_^,^x^"}, {"6801", "_jsr_lab2^"}, {"6801", "_psha^"}, {"6801", "_ldaa_$12^"},
  {"z80", "_ld_a^,^b^"}, {"z80", "_ld_a^,^(^hl^)^"}, {"z80", "_ld_(^ix^+^1^)^,^2^"}, {"z80", "_ld_(^lab2^)^,^hl^"}, {"z80", "_ex_af^,^af'^"}, {"z80", "_ex_(^sp^)^,^hl^"}, {"z80", "_jr_nz^,^*^+^3^"}, {"z80", "_bit_3^,^(^iy^-^1^)^"}, {"z80", "_in_a^,^(^5^)^"}, {"z80", "_out_(^c^)^,^b^"}, {"z80", "_add_hl^,^de^"}, {"z80", "_jp_(^hl^)^"}, {"z80", "_ret_nc^"}, {"z80", "_rst_8^"}, {"z80", "_push_ix^"}, {"z80", "_im_1^"}, {"z80", "_ld_a^,^'x'^"}, {"z80", "_call_po^,^lab2^"}, {"z80", "_djnz_*^"}, {"z80", "_cp_(^ix^-^1^)^"}, {"z80", "_sub_5^+^1^"}};

// spells a template: choice i of `may` (or `must`) at the i-th mark; comment at the end
static string spell(const string& t, const vector<int>& c, const Strs& may, const Strs& must) {
  string o; size_t k = 0; bool quote = false;
  for (char ch : t) {
    if (ch == '_') o += must[c[k++] % must.size()]; else if (ch == '^' && !quote) o += may[c[k++] % may.size()]; else o += ch;
  }
  return o;
}
static int marks(const string& t) { return std::count(t.begin(), t.end(), '_') + std::count(t.begin(), t.end(), '^'); }

void explore(Cx& cx) {
  Judge J(cx, O_ALL & ~O_TEXT);
  const Strs may = {"", " ", "\t", "   ", " \t "}, must = {" ", "\t", "     ", "\t \t", "  "};
  auto frame = [&](const St& s, const string& line) {
    string h = *s.cpu ? string(" cpu ") + s.cpu + "\n" : "";
    string tail = string(s.t).find("_if_") == 0 ? " db 5\n else\n db 6\n endc\n" : "";
    Prog p(h + "mac macro\n db \\1\n asc '\\*'\n endm\n* = $1000\n db 9\nlab2 db 8\n" + line + "\n" + tail + "end dl end\n"); p.add("inc", " db $1C\n"); return p;
  };
  // two spellings of one statement; the operands a macro or FAIL or NAM gets are text, with its blanks
  auto pair = [&](const St& s, const string& plain, const string& other, const string& why) { if (!cx.mine()) return; same_code(cx, frame(s, other), frame(s, plain), other, why); };
  // ---- 1. blanks at every place
  for (auto& s : stmts) {
    string t = s.t; int n = marks(t);
    if (t.find("mac_1^,") != string::npos) t = "_mac_1,2^", n = 3;   // blanks inside the operand reach \*
    bool text = t.find("_fail") == 0 || t.find("_nam") == 0 || t.find("'^'") != string::npos;
    if (t.find("'^'") != string::npos) { t = "_db_' '^"; n = 3; }
    string plain = spell(t, vector<int>(n, 0), may, must);
    vector<vector<int>> cs;
    int full = cx.thorough ? 7 : 5;
    if (n <= full) sequences(may.size(), n, [&](const vector<int>& q) { cs.push_back(q); });
    else { sequences(2, n, [&](const vector<int>& q) { cs.push_back(q); }); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) for (size_t a = 0; a < may.size(); a++) for (size_t b = 0; b < may.size(); b++) { vector<int> q(n, 0); q[i] = a; q[j] = b; cs.push_back(q); } }
    for (auto& q : cs) pair(s, plain, spell(t, q, may, must), "other blanks");
    for (auto& q : cs) if (cx.mine()) { if (q.back() % 2) J.now(frame(s, spell(t, q, may, must))); }
    // ---- 2. comments at the end
    if (!text) for (auto c : {";", " ;", ";c", " ; c", "\t;\tc", " ;; c", ";'", " ; it's", " ; \"x", " ;(", " ; db 3", ";,", " ;\\", " ; a;b", " ;\\1", "; x = 5", " ;)", " ;{", " ; \xe9"}) pair(s, plain, plain + c, "a comment added");
    // ---- 3. lines around
    for (auto c : {"", ";", "; c", " ; c", "\t", "   ", ";'", " ;(", "; db 3", "* ; no", ";= 5"}) if (c[0] != '*') { pair(s, plain, string(c) + "\n" + plain, "an empty line or comment before"); pair(s, plain, plain + "\n" + c, "an empty line or comment after"); }
    // ---- 4. letter case outside quotes
    {
      string p = plain; vector<size_t> at; bool q = false;
      for (size_t i = 0; i < p.size(); i++) { if ((p[i] == '\'' && p.find("af'") == string::npos) || p[i] == '"') q = !q; if (!q && isalpha((unsigned char)p[i])) at.push_back(i); }
      if (t.find("_include") == 0) at.resize(7);      // the name of a file keeps its case
      if (text && at.size() > 4) at.resize(3);
      if (t.find("_mac") == 0 || t.find("_fail") == 0) {}
      size_t nb = std::min<size_t>(at.size(), cx.thorough ? 13 : 9);
      for (u64 m = 1; m < (1ULL << nb); m++) { string o = p; for (size_t i = 0; i < at.size(); i++) if (m >> (i % nb) & 1) o[at[i]] = toupper(o[at[i]]); pair(s, plain, o, "other letter case"); }
    }
  }
  cx.bound(fmt("%zu statements of every kind: all placements of %zu kinds of blanks (statements with more than 5 places, 7 in thorough: all of 2 kinds, and all pairs of places), 19 comments, 11 lines around, all letter cases of up to 9 letters", sizeof stmts / sizeof *stmts, may.size()));
  // ---- 4b. lines of one, two and three words: with every kind of beginning, known and unknown words
  {
    Strs w = {"nosuch", "nop", "lab2", "mac", "db", "=", "*", ".loc", "endc", "x.y", "1", "a", ":", "'q'"}, gap = {" ", "\t"};
    Strs lead = {"", " ", "\t", " \t", "\t ", "    "}, trail = {"", " ", "\t", ";", " ;c", "\t; c"};
    for (auto cpu : {"", "6502"}) for (int k = 1; k <= 3; k++) sequences(w.size(), k, [&](const vector<int>& q) {
      for (auto& b : lead) for (auto& e : trail) for (auto& g : gap) {
        if (k == 3 && !cx.thorough && (b.size() > 1 || e.size() == 2)) continue;
        if (!cx.mine()) continue;
        string o; for (int i = 0; i < k; i++) o += (i ? g : "") + w[q[i]];
        J.now(frame({cpu, ""}, b + o + e));
      }
    });
    cx.bound("all lines of up to 3 of 14 words, known, unknown and none, with 6 beginnings, 2 gaps and 6 ends");
  }
  // ---- 5. quotes protect
  {
    Strs c = {" ", ";", ",", "a", "A", "(", ")", "+", "=", "\t", "'", "\"", "*", "<", "\\n", "\\\\", "\\'", "%", "#"};
    for (int k = 1; k <= (cx.thorough ? 4 : 3); k++) sequences(c.size(), k, [&](const vector<int>& q) { string e; for (int i : q) e += c[i]; J(Prog("* = 0\n asc 'x" + e + "y'\n db 1\n")); J(Prog("* = 0\n asc \"x" + e + "y\" ; c\n db 1\n")); if (k <= 2) { J(Prog("* = 0\n db '" + e + "',2\n")); J(Prog(" cpu 6502\n* = 0\n lda #'" + e + "' ; c\n")); J(Prog(" cpu z80\n* = 0\n ld a,'" + e + "'\n")); J(Prog("* = 0\nx = '" + e + "'\n dl x\n")); J(Prog("* = 0\nm macro\n db 1\n asc \\1\n endm\n m 'x" + e + "',2\n")); J(Prog("* = 0\n if '" + e + "'='a'\n db 1\n endc\n")); } });
    cx.bound("strings of up to 3 (thorough 4) of 19 characters and escapes in ASC, of up to 2 in six other places");
  }
  // ---- 6. whole programs: one change everywhere at once
  {
    Strs progs = {" cpu 6502\n* = $1000\nl lda #$1f\n sta (l,x)\n lda ($12),y\n beq l\nm macro\n db \\1,\\2\n.x dw .x\n endm\n m 1,'a'\n if l=$1000\n nop\n else\n asl a\n endc\n asc 'a B'\n", " cpu z80\n* = $1000\nq = ix\n ld (ix+3),5\n ld a,(q-1)\n ld hl,(1+2)\n bit 3,(hl)\n jr nz,f\n in a,(1)\nf ex af,af'\n set 1,(iy+3)\n ds 2,3\n align even\n"};
    for (auto& s : progs) { Strs l = ref::lines_of(s);
      for (auto& lead : Strs{" ", "\t", "        ", "\t\t "}) for (auto& trail : Strs{"", " ", "\t", " ; c", ";c", "      ;c"}) for (auto& between : Strs{"", "\n", ";\n", "   \n", "; x\n\n"}) for (int up = 0; up < 3; up++) {
        if (!cx.mine()) continue;
        string t;
        for (auto x : l) {
          string y = x; if (y[0] == ' ') y = lead + y.substr(1);
          bool qt = false;
          for (size_t i = 0; i < y.size(); i++) { if (y[i] == '\'' && x.find("af'") == string::npos) qt = !qt; if (!qt && up && (up == 1 || i % 2)) y[i] = toupper(y[i]); }
          t += y + trail + "\n" + (between.empty() ? "" : between);
        }
        same_code(cx, Prog(t), Prog(s), t, "a program in another layout");
      } }
    cx.bound("2 programs under all combinations of 4 indentations, 6 line ends, 5 separators and 3 letter cases");
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
