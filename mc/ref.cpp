#include "ref.hpp"
#include <algorithm>
#include <memory>

namespace ref {

static bool blank(char c) { return c == ' ' || c == '\t'; }
static string up(string s) { for (char& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static string trim(const string& s) {
  size_t a = 0, b = s.size();
  while (a < b && blank(s[a])) a++;
  while (b > a && blank(s[b - 1])) b--;
  return s.substr(a, b - a);
}
static string rtrim(const string& s) { size_t b = s.size(); while (b && blank(s[b - 1])) b--; return s.substr(0, b); }

// walks over the characters of s that are outside quotes and parentheses
struct Top {
  const string& s; size_t i = 0; int depth = 0; char q = 0;
  explicit Top(const string& t) : s(t) {}
  bool open() const { return !q && depth == 0; }
  void step() {
    char c = s[i];
    if (q) { if (c == '\\' && i + 1 < s.size()) i++; else if (c == q) q = 0; }
    else if (c == '\'' || c == '"') q = c;
    else if (c == '(') depth++;
    else if (c == ')') depth--;
    i++;
  }
};
static size_t find_top(const string& s, const char* what) {
  size_t n = strlen(what);
  for (Top t(s); t.i < s.size(); t.step()) if (t.open() && !s.compare(t.i, n, what)) return t.i;
  return string::npos;
}
// "( ... )" around the whole text?
static bool parenthesised(const string& s, string* inner = nullptr) {
  if (s.size() < 2 || s[0] != '(' || s.back() != ')') return false;
  Top t(s); t.step();
  while (t.i < s.size()) { t.step(); if (t.depth == 0 && !t.q) break; }
  if (t.i != s.size() || t.depth != 0) return false;
  if (inner) *inner = trim(s.substr(1, s.size() - 2));
  return true;
}

struct Err { string msg; };
struct Fatal { string msg; };

static bool good_label(const string& n) {
  if (n.empty() || n.size() > 48) return false;
  if (n == "*") return true;
  if (!isalpha((unsigned char)n[0]) && n[0] != '_' && n[0] != '.') return false;
  for (char c : n) if (!isalnum((unsigned char)c) && c != '_' && c != '.') return false;
  return true;
}

// ---------------------------------------------------------------- instruction sets
struct I65 { const char* mn; const char* modes; };
// opcodes by addressing mode; '+' = 65C02 only, '!' = missing on the 6500
static const I65 isa65[] = {
  {"ADC", "imm=69 zp=65 zpx=75 abs=6D abx=7D aby=79 izx=61 izy=71 izp=72+"},
  {"AND", "imm=29 zp=25 zpx=35 abs=2D abx=3D aby=39 izx=21 izy=31 izp=32+"},
  {"ASL", "acc=0A zp=06 zpx=16 abs=0E abx=1E"},
  {"BIT", "zp=24 abs=2C imm=89+ zpx=34+ abx=3C+"},
  {"CMP", "imm=C9 zp=C5 zpx=D5 abs=CD abx=DD aby=D9 izx=C1 izy=D1 izp=D2+"},
  {"CPX", "imm=E0 zp=E4 abs=EC"},
  {"CPY", "imm=C0 zp=C4 abs=CC"},
  {"DEC", "zp=C6 zpx=D6 abs=CE abx=DE acc=3A+"},
  {"EOR", "imm=49 zp=45 zpx=55 abs=4D abx=5D aby=59 izx=41 izy=51 izp=52+"},
  {"INC", "zp=E6 zpx=F6 abs=EE abx=FE acc=1A+"},
  {"JMP", "abs=4C ind=6C iax=7C+"},
  {"JSR", "abs=20"},
  {"LDA", "imm=A9 zp=A5 zpx=B5 abs=AD abx=BD aby=B9 izx=A1 izy=B1 izp=B2+"},
  {"LDX", "imm=A2 zp=A6 zpy=B6 abs=AE aby=BE"},
  {"LDY", "imm=A0 zp=A4 zpx=B4 abs=AC abx=BC"},
  {"LSR", "acc=4A zp=46 zpx=56 abs=4E abx=5E"},
  {"ORA", "imm=09 zp=05 zpx=15 abs=0D abx=1D aby=19 izx=01 izy=11 izp=12+"},
  {"ROL", "acc=2A zp=26 zpx=36 abs=2E abx=3E"},
  {"ROR", "acc=6A! zp=66! zpx=76! abs=6E! abx=7E!"},
  {"SBC", "imm=E9 zp=E5 zpx=F5 abs=ED abx=FD aby=F9 izx=E1 izy=F1 izp=F2+"},
  {"STA", "zp=85 zpx=95 abs=8D abx=9D aby=99 izx=81 izy=91 izp=92+"},
  {"STX", "zp=86 zpy=96 abs=8E"},
  {"STY", "zp=84 zpx=94 abs=8C"},
  {"STZ", "zp=64+ zpx=74+ abs=9C+ abx=9E+"},
  {"TRB", "zp=14+ abs=1C+"},
  {"TSB", "zp=04+ abs=0C+"},
  {"BPL", "rel=10"}, {"BMI", "rel=30"}, {"BVC", "rel=50"}, {"BVS", "rel=70"},
  {"BCC", "rel=90"}, {"BCS", "rel=B0"}, {"BNE", "rel=D0"}, {"BEQ", "rel=F0"}, {"BRA", "rel=80+"},
  {"BHI", "rel=B0"}, {"BLO", "rel=90"}, {"BGT", "rel=10"}, {"BLE", "rel=30"},     // crasm's own names
  {"BRK", "imp=00"}, {"RTI", "imp=40"}, {"RTS", "imp=60"}, {"NOP", "imp=EA"},
  {"PHP", "imp=08"}, {"PLP", "imp=28"}, {"PHA", "imp=48"}, {"PLA", "imp=68"},
  {"CLC", "imp=18"}, {"SEC", "imp=38"}, {"CLI", "imp=58"}, {"SEI", "imp=78"},
  {"CLV", "imp=B8"}, {"CLD", "imp=D8"}, {"SED", "imp=F8"},
  {"DEY", "imp=88"}, {"TAY", "imp=A8"}, {"INY", "imp=C8"}, {"INX", "imp=E8"},
  {"TXA", "imp=8A"}, {"TXS", "imp=9A"}, {"TAX", "imp=AA"}, {"TSX", "imp=BA"}, {"DEX", "imp=CA"}, {"TYA", "imp=98"},
  {"PHX", "imp=DA+"}, {"PLX", "imp=FA+"}, {"PHY", "imp=5A+"}, {"PLY", "imp=7A+"},
};
// 6800 / 6801: '+' = 6801 only, 'w' = 16 bit immediate
static const I65 isa68[] = {
  {"ABA", "inh=1B"}, {"CBA", "inh=11"}, {"SBA", "inh=10"}, {"TAB", "inh=16"}, {"TBA", "inh=17"}, {"DAA", "inh=19"},
  {"TAP", "inh=06"}, {"TPA", "inh=07"}, {"INX", "inh=08"}, {"DEX", "inh=09"}, {"CLV", "inh=0A"}, {"SEV", "inh=0B"},
  {"CLC", "inh=0C"}, {"SEC", "inh=0D"}, {"CLI", "inh=0E"}, {"SEI", "inh=0F"}, {"NOP", "inh=01"},
  {"TSX", "inh=30"}, {"INS", "inh=31"}, {"PULA", "inh=32"}, {"PULB", "inh=33"}, {"DES", "inh=34"}, {"TXS", "inh=35"},
  {"PSHA", "inh=36"}, {"PSHB", "inh=37"}, {"RTS", "inh=39"}, {"RTI", "inh=3B"}, {"WAI", "inh=3E"}, {"SWI", "inh=3F"},
  {"NEGA", "inh=40"}, {"COMA", "inh=43"}, {"LSRA", "inh=44"}, {"RORA", "inh=46"}, {"ASRA", "inh=47"}, {"ASLA", "inh=48"},
  {"ROLA", "inh=49"}, {"DECA", "inh=4A"}, {"INCA", "inh=4C"}, {"TSTA", "inh=4D"}, {"CLRA", "inh=4F"},
  {"NEGB", "inh=50"}, {"COMB", "inh=53"}, {"LSRB", "inh=54"}, {"RORB", "inh=56"}, {"ASRB", "inh=57"}, {"ASLB", "inh=58"},
  {"ROLB", "inh=59"}, {"DECB", "inh=5A"}, {"INCB", "inh=5C"}, {"TSTB", "inh=5D"}, {"CLRB", "inh=5F"},
  {"LSRD", "inh=04+"}, {"ASLD", "inh=05+"}, {"PULX", "inh=38+"}, {"ABX", "inh=3A+"}, {"PSHX", "inh=3C+"}, {"MUL", "inh=3D+"},
  {"BRA", "rel=20"}, {"BRN", "rel=21+"}, {"BHI", "rel=22"}, {"BLS", "rel=23"}, {"BCC", "rel=24"}, {"BCS", "rel=25"},
  {"BNE", "rel=26"}, {"BEQ", "rel=27"}, {"BVC", "rel=28"}, {"BVS", "rel=29"}, {"BPL", "rel=2A"}, {"BMI", "rel=2B"},
  {"BGE", "rel=2C"}, {"BLT", "rel=2D"}, {"BGT", "rel=2E"}, {"BLE", "rel=2F"}, {"BSR", "rel=8D"},
  {"NEG", "idx=60 ext=70"}, {"COM", "idx=63 ext=73"}, {"LSR", "idx=64 ext=74"}, {"ROR", "idx=66 ext=76"},
  {"ASR", "idx=67 ext=77"}, {"ASL", "idx=68 ext=78"}, {"ROL", "idx=69 ext=79"}, {"DEC", "idx=6A ext=7A"},
  {"INC", "idx=6C ext=7C"}, {"TST", "idx=6D ext=7D"}, {"JMP", "idx=6E ext=7E"}, {"CLR", "idx=6F ext=7F"},
  {"SUBA", "imm=80 dir=90 idx=A0 ext=B0"}, {"CMPA", "imm=81 dir=91 idx=A1 ext=B1"}, {"SBCA", "imm=82 dir=92 idx=A2 ext=B2"},
  {"ANDA", "imm=84 dir=94 idx=A4 ext=B4"}, {"BITA", "imm=85 dir=95 idx=A5 ext=B5"}, {"LDAA", "imm=86 dir=96 idx=A6 ext=B6"},
  {"STAA", "dir=97 idx=A7 ext=B7"}, {"EORA", "imm=88 dir=98 idx=A8 ext=B8"}, {"ADCA", "imm=89 dir=99 idx=A9 ext=B9"},
  {"ORAA", "imm=8A dir=9A idx=AA ext=BA"}, {"ADDA", "imm=8B dir=9B idx=AB ext=BB"},
  {"CPX", "immw=8C dir=9C idx=AC ext=BC"}, {"JSR", "idx=AD ext=BD"}, {"LDS", "immw=8E dir=9E idx=AE ext=BE"}, {"STS", "dir=9F idx=AF ext=BF"},
  {"SUBB", "imm=C0 dir=D0 idx=E0 ext=F0"}, {"CMPB", "imm=C1 dir=D1 idx=E1 ext=F1"}, {"SBCB", "imm=C2 dir=D2 idx=E2 ext=F2"},
  {"ANDB", "imm=C4 dir=D4 idx=E4 ext=F4"}, {"BITB", "imm=C5 dir=D5 idx=E5 ext=F5"}, {"LDAB", "imm=C6 dir=D6 idx=E6 ext=F6"},
  {"STAB", "dir=D7 idx=E7 ext=F7"}, {"EORB", "imm=C8 dir=D8 idx=E8 ext=F8"}, {"ADCB", "imm=C9 dir=D9 idx=E9 ext=F9"},
  {"ORAB", "imm=CA dir=DA idx=EA ext=FA"}, {"ADDB", "imm=CB dir=DB idx=EB ext=FB"},
  {"LDX", "immw=CE dir=DE idx=EE ext=FE"}, {"STX", "dir=DF idx=EF ext=FF"},
  {"SUBD", "immw=83+ dir=93+ idx=A3+ ext=B3+"}, {"ADDD", "immw=C3+ dir=D3+ idx=E3+ ext=F3+"},
  {"LDD", "immw=CC+ dir=DC+ idx=EC+ ext=FC+"}, {"STD", "dir=DD+ idx=ED+ ext=FD+"},
};
struct Z { const char* mn; int kind; int code; };
enum { Z_SIMPLE, Z_IM, Z_RST, Z_DJNZ, Z_JR, Z_JP, Z_CALL, Z_RET, Z_EX, Z_IN, Z_OUT, Z_BIT, Z_ROT, Z_ALU1, Z_PUSH, Z_POP, Z_ADD, Z_ADC, Z_SBC, Z_INC, Z_DEC, Z_LD };
static const Z isaz80[] = {
  {"NOP", Z_SIMPLE, 0x00}, {"RLCA", Z_SIMPLE, 0x07}, {"RRCA", Z_SIMPLE, 0x0F}, {"RLA", Z_SIMPLE, 0x17}, {"RRA", Z_SIMPLE, 0x1F},
  {"DAA", Z_SIMPLE, 0x27}, {"CPL", Z_SIMPLE, 0x2F}, {"SCF", Z_SIMPLE, 0x37}, {"CCF", Z_SIMPLE, 0x3F}, {"HALT", Z_SIMPLE, 0x76},
  {"EXX", Z_SIMPLE, 0xD9}, {"DI", Z_SIMPLE, 0xF3}, {"EI", Z_SIMPLE, 0xFB},
  {"NEG", Z_SIMPLE, 0xED44}, {"RETN", Z_SIMPLE, 0xED45}, {"RETI", Z_SIMPLE, 0xED4D}, {"RRD", Z_SIMPLE, 0xED67}, {"RLD", Z_SIMPLE, 0xED6F},
  {"LDI", Z_SIMPLE, 0xEDA0}, {"CPI", Z_SIMPLE, 0xEDA1}, {"INI", Z_SIMPLE, 0xEDA2}, {"OUTI", Z_SIMPLE, 0xEDA3},
  {"LDD", Z_SIMPLE, 0xEDA8}, {"CPD", Z_SIMPLE, 0xEDA9}, {"IND", Z_SIMPLE, 0xEDAA}, {"OUTD", Z_SIMPLE, 0xEDAB},
  {"LDIR", Z_SIMPLE, 0xEDB0}, {"CPIR", Z_SIMPLE, 0xEDB1}, {"INIR", Z_SIMPLE, 0xEDB2}, {"OTIR", Z_SIMPLE, 0xEDB3},
  {"LDDR", Z_SIMPLE, 0xEDB8}, {"CPDR", Z_SIMPLE, 0xEDB9}, {"INDR", Z_SIMPLE, 0xEDBA}, {"OTDR", Z_SIMPLE, 0xEDBB},
  {"IM", Z_IM, 0}, {"RST", Z_RST, 0}, {"DJNZ", Z_DJNZ, 0x10}, {"JR", Z_JR, 0x18}, {"JP", Z_JP, 0xC3}, {"CALL", Z_CALL, 0xCD}, {"RET", Z_RET, 0xC9},
  {"EX", Z_EX, 0}, {"IN", Z_IN, 0xDB}, {"OUT", Z_OUT, 0xD3},
  {"BIT", Z_BIT, 0x40}, {"RES", Z_BIT, 0x80}, {"SET", Z_BIT, 0xC0},
  {"RLC", Z_ROT, 0x00}, {"RRC", Z_ROT, 0x08}, {"RL", Z_ROT, 0x10}, {"RR", Z_ROT, 0x18}, {"SLA", Z_ROT, 0x20}, {"SRA", Z_ROT, 0x28}, {"SRL", Z_ROT, 0x38},
  {"SUB", Z_ALU1, 0x90}, {"AND", Z_ALU1, 0xA0}, {"XOR", Z_ALU1, 0xA8}, {"OR", Z_ALU1, 0xB0}, {"CP", Z_ALU1, 0xB8},
  {"PUSH", Z_PUSH, 0xC5}, {"POP", Z_POP, 0xC1}, {"ADD", Z_ADD, 0x80}, {"ADC", Z_ADC, 0x88}, {"SBC", Z_SBC, 0x98},
  {"INC", Z_INC, 0}, {"DEC", Z_DEC, 0}, {"LD", Z_LD, 0},
};
struct RegName { const char* n; int r; };
static const RegName regs65[] = {{"A", 0}, {"X", 1}, {"Y", 2}, {"P", 3}, {"S", 4}};
static const RegName regsz80[] = {{"B", 0}, {"C", 1}, {"D", 2}, {"E", 3}, {"H", 4}, {"L", 5}, {"A", 7},
  {"BC", 8}, {"DE", 9}, {"HL", 10}, {"SP", 11}, {"IX", 12}, {"IY", 13}, {"F", 16}, {"I", 17}, {"R", 18}, {"AF", 19}};

enum Cpu { C_NONE, C_6800, C_6801, C_6500, C_6502, C_65C02, C_Z80 };
enum Pseudo { P_EQU = 1, P_ASC, P_ALIGN, P_CLIST, P_CODE, P_CPU, P_DB, P_DDB, P_DL, P_DW, P_DUMMY, P_DS, P_ELSE, P_ENDC, P_ENDM, P_EXITM,
  P_FAIL, P_IF, P_ILIST, P_INCLUDE, P_LIST, P_MACRO, P_MLIST, P_NAM, P_PAGE, P_OUTPUT, P_SKIP };
struct PN { const char* n; int id; bool nolabel, needlabel; };
static const PN pseudo_names[] = {
  {"EQU", P_EQU, 0, 1}, {"ASC", P_ASC, 0, 0}, {"ALIGN", P_ALIGN, 0, 0}, {"CLIST", P_CLIST, 1, 0}, {"CODE", P_CODE, 1, 0}, {"CPU", P_CPU, 1, 0},
  {"DB", P_DB, 0, 0}, {"DDB", P_DDB, 0, 0}, {"DL", P_DL, 0, 0}, {"DW", P_DW, 0, 0}, {"DUMMY", P_DUMMY, 1, 0}, {"DS", P_DS, 0, 0},
  {"ELSE", P_ELSE, 1, 0}, {"ENDC", P_ENDC, 1, 0}, {"ENDM", P_ENDM, 1, 0}, {"EXITM", P_EXITM, 1, 0}, {"FAIL", P_FAIL, 1, 0}, {"IF", P_IF, 1, 0},
  {"ILIST", P_ILIST, 1, 0}, {"INCLUDE", P_INCLUDE, 1, 0}, {"LIST", P_LIST, 1, 0}, {"MACRO", P_MACRO, 0, 1}, {"MLIST", P_MLIST, 1, 0},
  {"NAM", P_NAM, 1, 0}, {"PAGE", P_PAGE, 1, 0}, {"OUTPUT", P_OUTPUT, 1, 0}, {"SKIP", P_SKIP, 1, 0}};
static const PN* pseudo_by_id(int id) { for (auto& p : pseudo_names) if (p.id == id) return &p; return nullptr; }

// ---------------------------------------------------------------- the assembler
struct Asm {
  const Prog& prog;
  string version;
  Out out;
  std::map<string, string> files;
  bool opt_list = true, opt_warn = true, opt_xref = false, opt_code = false;
  string main_name, code_name;

  // symbols
  std::map<string, Sym> tab;
  // state kept over the two passes
  Cpu cpu = C_NONE;           // vocabulary in force (byte order, address width)
  bool lohi = false, addr16 = false, hexout = false, cpu_fixed = false;
  int passno = 0;
  u64 pc = 0, codelen = 0;
  // per pass
  u64 seg = 0, calls = 0;
  int macrolevel = 0;
  bool code_on = true, org_given = false;
  int lineno = 0; char prefix = 0;
  int errors = 0, warnings = 0;
  u64 advance = 0;
  bool quiet_errors = true, quiet_warn = true, nolist = true, emit_code = false;
  // listing state
  bool list_on = false, iflist = true, maclist = false, inclist = false;
  string lb; u64 mypc = 0; bool opened = false;
  int plen = 66, llen = 76, ppos = 0, pageno = 0;
  string title; bool title_flag = false, page_flag = false;
  string cur;                 // current source line, as listed
  // sources
  struct Src { bool is_macro = false; vector<string> lines; size_t next = 0; bool ended = false; bool lastnl = false;
    int oldline = 0; char oldprefix = 0; bool oldlist = false; vector<string> args; string allargs; };
  vector<Src> src;

  explicit Asm(const Prog& p, const string& v) : prog(p), version(v) {}

  // ---- listing -------------------------------------------------------------
  void raw(const string& s) {
    if (!list_on) return;
    if (ppos == 0) {
      string h = fmt("Crasm %s:   %30s", version.c_str(), title.c_str());
      if (llen > 58) h += string(llen - 58, ' ');
      out.text += h + fmt("page%3d\n\n", ++pageno);
      ppos = 2;
    }
    out.text += s + "\n";
    out.rows.push_back(s);
    ppos++;
    if (plen && ppos >= plen - 2) { out.text += "\n\n"; ppos = 0; }
  }
  void eol() { if (!out.wrapped && (int)lb.size() > llen) lb.resize(llen); raw(lb); lb.clear(); }   // blanks past the width are dropped
  void eop() {
    if (!list_on) return;
    if (plen) { while (ppos) eol(); } else out.text += "\n\n\n";
  }
  void putc_(char c) {
    if (c == '\t') { do putc_(' '); while (((int)lb.size() - 28) % 8); return; }
    if ((int)lb.size() >= llen && c != ' ') out.wrapped = true;
    lb += c;
  }
  void put(const string& s) { for (char c : s) putc_(c); }
  void col(int n) {
    if (n >= llen) throw Fatal{"line length must be greater"};
    while ((int)lb.size() < n) lb += ' ';
  }
  void addr(u64 a) { put(hex(a & (addr16 ? 0xFFFF : 0xFFFFFFFF), addr16 ? 4 : 8) + " "); }
  void show_byte(int b) {
    int lp = lb.size();
    if (advance > 20 && lp > 16) { if (lp <= 18) put("..."); return; }
    if (lp > 18) eol();
    if (pc != mypc && !lb.empty()) eol();
    if (lb.empty()) addr(pc);
    put(hex(b & 0xFF, 2));
    mypc = pc + 1;
  }
  void list_line() {
    if (lineno == 0) return;
    string n;
    if (prefix) { n = "     "; int i = std::min(4, std::max(0, 5 - macrolevel)); n[i] = prefix; }
    else n = fmt("%5d", lineno);
    col(21); put(n); col(28);
    put(cur);
    eol();
  }

  // ---- diagnostics ---------------------------------------------------------
  static string diag_row(int line, const char* kind, const string& m0) {
    string m = m0; if (!m.empty()) m[0] = toupper((unsigned char)m[0]);
    string s = fmt("%7d %s: ", line, kind) + m;
    size_t i = 0;
    while (s[i + 1] == ' ') s[i++] = '>';
    if (i < s.size() && s[i] == ' ') {}     // the column next to the number stays blank
    return s;
  }
  int nwarn = 0;
  void warn(const string& m) {
    nwarn++;
    if (quiet_warn) return;
    warnings++;
    out.diags.push_back({lineno, false, m});
    raw(diag_row(lineno, "WARNING", m));
  }
  // an error has been caught by the loop that reads lines
  void report(const Err& e) {
    bool keep = list_on;
    if (!quiet_errors) {
      out.diags.push_back({lineno, true, e.msg});
      list_on = true;
      raw(diag_row(lineno, "ERROR", e.msg));
    }
    list_line();
    if (advance) if (Sym* s = star()) s->v += advance;
    list_on = keep;
    errors++;
  }

  // ---- symbols -------------------------------------------------------------
  string key(const string& name) { return name[0] == '.' ? std::to_string(seg) + up(name) : up(name); }
  Sym* look(const string& name) { auto it = tab.find(key(name)); return it == tab.end() ? nullptr : &it->second; }
  Sym* star() { return look("*"); }
  std::map<string, std::set<std::pair<int, std::pair<i64, int>>>> uses;   // second pass: values seen by uses
  std::map<string, int> defs;                                             // second pass: definitions
  Sym* refer(const string& name) {
    Sym* s = look(name);
    if (!s) {
      s = &tab[key(name)];
      s->name = key(name); s->undef = true; s->fwd = passno == 1; s->noredef = true; s->kind = K_ABS; s->v = 0;
    }
    s->used = true;
    return s;
  }
  Sym* define(const string& name, bool fixed, Kind k, i64 v, bool fwdflag = false) {
    Sym* s = look(name);
    if (!s) { s = &tab[key(name)]; s->name = key(name); s->kind = k; s->undef = true; }
    if (!s->undef && (s->noredef || fixed)) throw Err{s->kind == K_ABS ? "illegal label redefinition" : "attempt to redefine a keyword"};
    if (passno == 2 && s->undef && s->fwd && s->v != v) { s->undef = false; throw Err{"phase error"}; }
    s->undef = false;
    s->kind = k; s->v = v; s->mod = 0;
    if (fixed) s->noredef = true;
    if (fwdflag) s->fwd = true;
    if (passno == 2) defs[s->name]++;
    s->vocab = false;
    return s;
  }
  void here(const string& label) {
    if (label == "*") throw Err{"illegal star definition"};
    if (!org_given) throw Err{"undefinable label: no org given"};
    int md = 0;
    Sym* old = look(label); if (old) md = old->mod;
    define(label, true, K_ABS, star()->v)->mod = md;
    if (!code_on && (macrolevel == 0 || maclist) && lb.empty()) { col(2); addr(star()->v); }
  }

  // the manual says 32 bits; where a wider intermediate result would show, nothing is predicted
  void range(i64 v) { if (v < -0x80000000LL || v > 0xFFFFFFFFLL) out.wide_lines.insert(lineno); }
  void count(i64 v) { if (v < 0 || v > 63) out.wide_lines.insert(lineno); }
  // ---- expressions ---------------------------------------------------------
  struct Parser {
    Asm& a; const string& s; size_t i = 0, end;
    Parser(Asm& a_, const string& s_) : a(a_), s(s_), end(s_.size()) {}
    [[noreturn]] void bad(const char* m = "syntax error in an expression") { throw Err{m}; }
    void ws() { while (i < end && blank(s[i])) i++; }
    bool at(const char* t) { ws(); size_t n = strlen(t); return i + n <= end && !s.compare(i, n, t); }
    bool eat(const char* t) { if (!at(t)) return false; i += strlen(t); return true; }
    static void need(const Val& v, Kind k) {
      if (v.kind == k) return;
      throw Err{"illegal use of " + std::to_string((int)v.kind)};
    }
    static void mix(Val& l, const Val& r) { l.fwd |= r.fwd; l.undef |= r.undef; }
    Val list() { Val l = add(); while (eat("\\")) { Val r = add(); need(l, K_REGS); need(r, K_REGS); mix(l, r); l.v |= r.v; } return l; }
    Val add() {
      Val l = mul(true);
      for (;;) {
        if (eat("+")) { Val r = mul(false); if (l.kind != K_ABS || r.kind != K_ABS) bad("illegal operator"); mix(l, r); l.v = (u64)l.v + (u64)r.v; }
        else if (eat("-")) {
          Val r = mul(false); mix(l, r);
          if (l.kind == K_ABS && r.kind == K_ABS) l.v = (u64)l.v - (u64)r.v;
          else if (l.kind == K_REGS && r.kind == K_REGS) {
            int lo = -1, hi = -1;
            for (int k = 0; k < 32; k++) { if (l.v == (1LL << k)) lo = k; if (r.v == (1LL << k)) hi = k; }
            if (hi < 0 || lo < 0 || hi < lo) bad("illegal register list");
            for (int k = lo; k <= hi; k++) l.v |= 1LL << k;
          } else bad("illegal operator");
        } else return l;
      }
    }
    Val mul(bool first) {
      Val l = bits(first);
      for (;;) {
        if (eat("*")) { Val r = bits(false); need(l, K_ABS); need(r, K_ABS); mix(l, r); l.v = (u64)l.v * (u64)r.v; }
        else if (eat("/")) { Val r = bits(false); need(l, K_ABS); need(r, K_ABS); mix(l, r); a.range(l.v); a.range(r.v); if (r.v == -1) l.v = -(u64)l.v; else if (r.v) l.v /= r.v; }
        else return l;
      }
    }
    Val bits(bool first) {
      Val l = shift(first);
      for (;;) {
        char c = 0;
        if (at("|") || at("&") || at("^")) c = s[i++]; else return l;
        Val r = shift(false); need(l, K_ABS); need(r, K_ABS); mix(l, r);
        if (c == '|') l.v |= r.v; else if (c == '&') l.v &= r.v; else l.v ^= r.v;
      }
    }
    Val shift(bool first) {
      Val l = unary(first);
      for (;;) {
        if (eat("<<")) { Val r = unary(false); need(l, K_ABS); need(r, K_ABS); mix(l, r); a.count(r.v); l.v = (u64)l.v << (r.v & 63); }
        else if (eat(">>")) { Val r = unary(false); need(l, K_ABS); need(r, K_ABS); mix(l, r); a.range(l.v); a.count(r.v); l.v >>= (r.v & 63); }
        else return l;
      }
    }
    // a minus sign is an operand sign only where an expression begins
    Val unary(bool first) {
      if (first && eat("-")) { Val v = unary(false); need(v, K_ABS); v.v = -(u64)v.v; return v; }
      if (eat("~")) { Val v = unary(false); need(v, K_ABS); v.v = ~v.v; return v; }
      return postfix();
    }
    Val postfix() {
      Val l = primary();
      while (eat("{")) {
        Val r = list(); if (!eat("}")) bad();
        need(l, K_ABS); need(r, K_ABS); mix(l, r);
        l.kind = K_BIT; l.mod = (int)r.v;
        if (r.v > 32) bad("overflow");
      }
      return l;
    }
    bool func(const char* n) {
      ws(); size_t l = strlen(n);
      if (i + l > end || up(s.substr(i, l)) != n) return false;
      size_t k = i + l; while (k < end && blank(s[k])) k++;
      if (k < end && s[k] == '(') { i = k + 1; return true; }
      return false;
    }
    Val inner() { Val v = list(); if (!eat(")")) bad(); return v; }
    Val primary() {
      ws();
      if (i >= end) bad();
      if (eat("(")) return inner();
      if (func("LO")) { Val v = inner(); need(v, K_ABS); v.v &= 0xFF; return v; }
      if (func("HI")) { Val v = inner(); need(v, K_ABS); v.v = (v.v >> 8) & 0xFF; return v; }
      if (func("BIT")) { Val v = inner(); need(v, K_BIT); v.kind = K_ABS; v.v = v.mod; v.mod = 0; return v; }
      if (func("ADDR")) { Val v = inner(); need(v, K_BIT); v.kind = K_ABS; v.mod = 0; return v; }
      char c = s[i];
      if (c == '\'' || c == '"') return ascii();
      if (c == '*') { i++; return label("*"); }
      size_t k = i;
      if (c == '$' || c == '%') k++;
      while (k < end && (isalnum((unsigned char)s[k]) || s[k] == '_' || s[k] == '.')) k++;
      string w = s.substr(i, k - i); i = k;
      if (w.empty()) bad();
      if (good_label(w)) return label(w);
      return number(up(w));
    }
    Val label(const string& n) {
      Sym* q = a.refer(n);
      Val v; v.kind = q->kind; v.v = q->v; v.mod = q->mod; v.id = q->id; v.fwd = q->fwd; v.undef = q->undef;
      if (q->undef && !q->fwd) throw Err{"Undefined label"};
      if (a.passno == 2 && n != "*") a.uses[q->name].insert({(int)v.kind, {v.v, v.mod}});
      return v;
    }
    Val digits(const string& d, unsigned base) {
      u64 v = 0;
      if (d.empty()) bad();
      for (char c : d) {
        int x = isdigit((unsigned char)c) ? c - '0' : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : 99;
        if (x >= (int)base) bad("bad number");
        v = v * base + x;
        if (v > 0xFFFFFFFFULL) bad("overflow");
      }
      Val r; r.v = v; return r;
    }
    Val number(const string& w) {
      if (w[0] == '$' && w.size() > 1) return digits(w.substr(1), 16);
      if (w.back() == 'H') return digits(w.substr(0, w.size() - 1), 16);
      if (w.size() > 2 && w[0] == '0' && w[1] == 'X') return digits(w.substr(2), 16);
      if (w[0] == '%' && w.size() > 1) return digits(w.substr(1), 2);
      if (w.back() == 'B') return digits(w.substr(0, w.size() - 1), 2);
      if (w.size() > 2 && w[0] == '0' && w[1] == 'B') return digits(w.substr(2), 2);
      if (w.back() == 'Q') return digits(w.substr(0, w.size() - 1), 8);
      if (isdigit((unsigned char)w[0])) return digits(w, 10);
      bad();
    }
    Val ascii() {
      char q = s[i++]; u64 v = 0;
      for (;;) {
        if (i >= end) bad("bad ascii constant");
        char c = s[i++];
        if (c == q) break;
        if (c < 32 || c > 126) bad("bad ascii constant");
        if (c == '\\') {
          if (i >= end) bad("Bad \\X sequence");
          switch (s[i++]) {
            case 't': c = '\t'; break; case 'n': c = '\n'; break; case 'r': c = '\r'; break; case '0': c = 0; break;
            case '\'': c = '\''; break; case '"': c = '"'; break; case '\\': c = '\\'; break;
            default: bad("Bad \\X sequence");
          }
        }
        if (v > 0xFFFFFF) bad("overflow");
        v = (v << 8) | (unsigned char)c;
      }
      Val r; r.v = v; return r;
    }
  };
  Val eval(const string& e0) {
    string e = trim(e0);
    if (e.empty()) throw Err{"expression expected"};
    if (parenthesised(e)) warn("external parenthesis ignored");
    Parser p(*this, e);
    Val v = p.list();
    p.ws();
    if (p.i != e.size()) throw Err{"syntax error in an expression"};
    return v;
  }
  i64 number(const string& e) { Val v = eval(e); Parser::need(v, K_ABS); return v.v; }

  // ---- emission ------------------------------------------------------------
  void b8(int x) {
    if (!org_given) throw Err{"no org given"};
    if (passno == 2) out.any_byte = true;
    if (code_on) {
      if (passno == 2) {
        if (!out.runs.empty() && out.runs.back().first + out.runs.back().second == (uint32_t)pc && last_pc == pc) out.runs.back().second++;
        else out.runs.push_back({(uint32_t)pc, 1});
        out.code.push_back({(uint32_t)pc, (uint8_t)x});
        last_pc = pc + 1;
      }
      codelen++;
      show_byte(x);
    }
    advance++; pc++;
  }
  u64 last_pc = ~0ULL;
  void b16(u64 x) { if (lohi) { b8(x); b8(x >> 8); } else { b8(x >> 8); b8(x); } }
  void b32(u64 x) { if (lohi) { b16(x); b16(x >> 16); } else { b16(x >> 16); b16(x); } }

  // ---- 6502 ----------------------------------------------------------------
  static int mode_of(const char* modes, const char* m, char* suffix) {
    string want = string(m) + "=";
    const char* p = modes;
    while (p) {
      if (!strncmp(p, want.c_str(), want.size())) {
        int c = (int)strtol(p + want.size(), nullptr, 16);
        char sfx = p[want.size() + 2];
        *suffix = (sfx == ' ' || sfx == 0) ? 0 : sfx;
        return c;
      }
      p = strchr(p, ' '); if (p) p++;
    }
    return -1;
  }
  void rel_branch(int op, const string& oper) {
    i64 t = number(oper);
    i64 d = (i64)(int32_t)(t - (i64)pc - 2);
    b8(op); b8((int)d);
    if (d < -128 || d > 127) throw Err{"too long branch"};
  }
  void i65(const I65& in, const string* oper0) {
    char sfx = 0;
    int c;
    if ((c = mode_of(in.modes, "imp", &sfx)) >= 0) { b8(c); if (oper0) throw Err{"no operands allowed"}; return; }
    if ((c = mode_of(in.modes, "rel", &sfx)) >= 0) { rel_branch(c, oper0 ? *oper0 : ""); return; }
    string o = oper0 ? trim(*oper0) : "", in1, e;
    const char *shortm = nullptr, *longm = nullptr;
    enum { ACC, IMM, OTHER } cls = OTHER;
    auto ends = [](const string& s, char r, string& head) {   // "head , r"
      size_t k = s.size(); if (!k || toupper((unsigned char)s[k - 1]) != r) return false;
      k--; while (k && blank(s[k - 1])) k--;
      if (!k || s[k - 1] != ',') return false;
      k--;
      Top t(s); while (t.i < k) t.step();
      if (t.i != k || !t.open()) return false;
      head = rtrim(s.substr(0, k)); return true;
    };
    string h;
    if (o.empty()) cls = ACC;
    else if (o[0] == '#') { cls = IMM; e = o.substr(1); }
    else if (parenthesised(o, &in1)) {
      if (ends(in1, 'X', h)) { e = h; shortm = "izx"; longm = "iax"; }
      else { e = in1; shortm = "izp"; longm = "ind"; }
    } else if (o[0] == '@') {
      string r = trim(o.substr(1));
      if (ends(r, 'X', h)) { e = h; shortm = "izx"; longm = "iax"; }
      else if (ends(r, 'Y', h)) { e = h; shortm = "izy"; longm = "iay"; }
      else { e = r; shortm = "izp"; longm = "ind"; }
    } else if (ends(o, 'Y', h)) {
      if (parenthesised(h, &in1)) { e = in1; shortm = "izy"; longm = "iay"; }
      else { e = h; shortm = "zpy"; longm = "aby"; }
    } else if (ends(o, 'X', h)) { e = h; shortm = "zpx"; longm = "abx"; }
    else { e = o; shortm = "zp"; longm = "abs"; }
    i64 v = 0; int op = -1; bool wide = false; int warned = nwarn;
    if (cls == ACC) op = mode_of(in.modes, "acc", &sfx);
    else {
      Val x = eval(e);
      if (x.kind == K_REGS && x.mod == 0 && shortm && !strcmp(shortm, "zp")) { cls = ACC; op = mode_of(in.modes, "acc", &sfx); }
      else {
        Parser::need(x, K_ABS);
        v = x.v;
        if (x.fwd) warned--;
        if (cls == IMM) {
          op = mode_of(in.modes, "imm", &sfx);
          if (op >= 0 && (v & 0xFF00)) warn("operand overflow");
          if (op < 0 && (v & 0xFF00)) out.open = true;
        } else {
          bool big = (v & 0xFF00) || x.fwd;
          op = big ? -1 : mode_of(in.modes, shortm, &sfx);
          if (op < 0) { op = mode_of(in.modes, longm, &sfx); wide = op >= 0; }
        }
      }
    }
    if (op < 0) { if (nwarn != warned) out.open = true; throw Err{"illegal addressing mode"}; }    // (whether the operand is looked at: its warnings, its symbols)
    b8(op);
    if (cls != ACC) { if (wide) b16(v); else b8((int)v); }
    if (sfx == '!' && cpu == C_6500) throw Err{"no ROR"};
    if (sfx == '+' && cpu != C_65C02) throw Err{"65C02 only"};
  }

  // ---- 6800 ----------------------------------------------------------------
  void i68(const I65& in, const string* oper0) {
    char sfx = 0; int c;
    if ((c = mode_of(in.modes, "inh", &sfx)) >= 0) { b8(c); if (oper0) throw Err{"no operands allowed"}; return; }
    if ((c = mode_of(in.modes, "rel", &sfx)) >= 0) { rel_branch(c, oper0 ? *oper0 : ""); return; }
    if (!oper0) throw Err{"Unknown addressing mode"};
    string o = trim(*oper0);
    if (!o.empty() && o[0] == '#') {
      i64 v = number(o.substr(1));
      if ((c = mode_of(in.modes, "immw", &sfx)) >= 0) { b8(c); b16(v); return; }
      if ((c = mode_of(in.modes, "imm", &sfx)) >= 0) { b8(c); b8((int)v); if (v & 0xFF00) warn("operand overflow"); return; }
      out.open = true;
      throw Err{"Bad addressing mode"};
    }
    // ",X" at the end?
    size_t k = o.size();
    if (k && toupper((unsigned char)o[k - 1]) == 'X') {
      size_t q = k - 1; while (q && blank(o[q - 1])) q--;
      if (q && o[q - 1] == ',') {
        string h = rtrim(o.substr(0, q - 1));
        i64 v = h.empty() ? 0 : number(h);
        c = mode_of(in.modes, "idx", &sfx);
        b8(c); b8((int)v);
        if (v & 0xFF00) throw Err{"too long displacement"};
        return;
      }
    }
    Val x = eval(o); Parser::need(x, K_ABS);
    c = mode_of(in.modes, "dir", &sfx);
    if (c >= 0 && !x.fwd && !(x.v & 0xFF00)) { b8(c); b8((int)x.v); return; }
    c = mode_of(in.modes, "ext", &sfx);
    b8(c); b16(x.v);
  }

  // ---- Z80 -----------------------------------------------------------------
  enum OK { R8, HLI, IXD, BCI, DEI, MEM, IMM, R16, SPECIAL };
  struct Op { OK k; int r = 0; int pfx = 0; i64 off = 0; i64 v = 0; };
  Op zop(const string& t0) {
    string t = trim(t0), in;
    Op o{};
    if (parenthesised(t, &in)) {
      string u = up(in);
      auto idx = [&](const char* n, int pfx) {
        if (u.compare(0, 2, n)) return false;
        string rest = trim(in.substr(2));
        if (rest.empty()) { o.k = IXD; o.pfx = pfx; return true; }
        if (rest[0] == '+') { o.off = number(rest.substr(1)); o.k = IXD; o.pfx = pfx; return true; }
        if (rest[0] == '-') { o.off = number("0" + rest); o.k = IXD; o.pfx = pfx; return true; }
        return false;
      };
      if (idx("IX", 0xDD) || idx("IY", 0xFD)) return o;
      if (u == "HL") { o.k = HLI; return o; }
      if (u == "BC") { o.k = BCI; return o; }
      if (u == "DE") { o.k = DEI; return o; }
      o.v = number(in); o.k = MEM; return o;
    }
    Val x = eval(t);
    if (x.kind == K_ABS) { o.k = IMM; o.v = x.v; return o; }
    Parser::need(x, K_REGS);
    if (x.v != (1LL << x.mod)) throw Err{"illegal register list"};
    o.r = x.mod;
    if (x.mod < 8) o.k = R8;
    else if (x.mod < 14) { o.k = R16; if (x.mod == 12) { o.pfx = 0xDD; o.r = 10; } if (x.mod == 13) { o.pfx = 0xFD; o.r = 10; } }
    else o.k = SPECIAL;
    return o;
  }
  void disp(const Op& o) { i64 d = (int32_t)o.off; b8((int)d); if (d < -128 || d > 127) warn("offset overflow"); }
  void imm8(i64 v) { b8((int)v); if (v & 0xFF00) warn("argument overflow"); }
  // opcode whose register field (value already shifted in) is `o`, one of r, (HL), (IX+d)
  bool r8like(const Op& o) { return o.k == R8 || o.k == HLI || o.k == IXD; }
  int r8num(const Op& o) { return o.k == R8 ? o.r : 6; }
  [[noreturn]] void zbad() { throw Err{"illegal addressing mode"}; }
  static bool two(const string& s, string& a, string& b) {
    size_t k = find_top(s, ","); if (k == string::npos) return false;
    a = rtrim(s.substr(0, k)); b = trim(s.substr(k + 1)); return true;
  }
  int cond(const string& s, int n) {
    static const char* cc[] = {"NZ", "Z", "NC", "C", "PO", "PE", "P", "M"};
    string u = up(trim(s));
    for (int i = 0; i < n; i++) if (u == cc[i]) return i;
    throw Err{"Bad condition code"};
  }
  void alu(int base, const Op& o) {
    if (o.k == IMM) { b8(base + 0x46); imm8(o.v); return; }
    if (!r8like(o)) zbad();
    if (o.pfx) b8(o.pfx);
    b8(base + r8num(o));
    if (o.k == IXD) disp(o);
  }
  void iz80(const Z& z, const string* oper0) {
    string o = oper0 ? *oper0 : "", a, b;
    auto ed = [&](int c) { b8(0xED); b8(c); };
    auto pfx = [&](const Op& x) { if (x.pfx) b8(x.pfx); };
    switch (z.kind) {
      case Z_SIMPLE: if (z.code > 0xFF) b8(z.code >> 8); b8(z.code); if (oper0) throw Err{"no operands allowed"}; return;
      case Z_IM: { i64 v = number(o); if (v < 0 || v > 2) { b16(0); throw Err{"Bad interruption mode"}; } b8(0xED); b8(v == 0 ? 0x46 : v == 1 ? 0x56 : 0x5E); return; }
      case Z_RST: { i64 v = number(o) & 0xFFFF; if (v >= 0 && v < 8) v *= 8; b8(0xC7 | (int)v); if (v & 0xFFC7) throw Err{"Bad RST vector"}; return; }
      case Z_DJNZ: rel_branch(0x10, o); return;
      case Z_JR: if (two(o, a, b)) rel_branch(0x20 + 8 * cond(a, 4), b); else rel_branch(0x18, o); return;
      case Z_JP: {
        string in;
        if (parenthesised(trim(o), &in)) { Op x = zop(in); if (x.k != R16 || x.r != 10) throw Err{"illegal indirection"}; pfx(x); b8(0xE9); return; }
        int c = 0xC3; string t = o; if (two(o, a, b)) { c = 0xC2 + 8 * cond(a, 8); t = b; }
        i64 v = number(t); b8(c); b16(v); return;
      }
      case Z_CALL: { int c = 0xCD; string t = o; if (two(o, a, b)) { c = 0xC4 + 8 * cond(a, 8); t = b; } i64 v = number(t); b8(c); b16(v); return; }
      case Z_RET: if (o.empty()) b8(0xC9); else b8(0xC0 + 8 * cond(o, 8)); return;
      case Z_EX: {
        string u, p1, p2;
        if (two(o, p1, p2)) { u = up(p1) + "," + up(p2); if (!u.compare(0, 6, "AF,AF'")) { size_t semi = u.find(';'); if (semi != string::npos) u = rtrim(u.substr(0, semi)); } }
        else if (up(o).compare(0, 3, "AF'") == 0 || up(o).compare(0, 3, "AF,") == 0 || up(o).compare(0, 3, "AF ") == 0) {   // AF' looks like an open quote
          size_t k = o.find(','); if (k != string::npos) { u = up(rtrim(o.substr(0, k))) + "," + up(trim(o.substr(k + 1))); size_t semi = u.find(';'); if (semi != string::npos) u = rtrim(u.substr(0, semi)); }
        }
        if (u == "DE,HL" || u == "HL,DE") { b8(0xEB); return; }
        if (u == "AF,AF'" || u == "AF',AF") { b8(0x08); return; }
        if (two(o, a, b)) {
          string in; string other;
          if (parenthesised(a, &in) && up(in) == "SP") other = b;
          else if (parenthesised(b, &in) && up(in) == "SP") other = a;
          if (!other.empty()) { Op x = zop(other); if (x.k == R16 && x.r == 10) { pfx(x); b8(0xE3); return; } }
        }
        throw Err{"Illegal EX instruction"};
      }
      case Z_IN: case Z_OUT: {
        if (!two(o, a, b)) zbad();
        string port = z.kind == Z_IN ? b : a, reg = z.kind == Z_IN ? a : b, in;
        if (!parenthesised(port, &in)) zbad();
        Op p = zop(in);
        if (p.k == IMM) { Op r = zop(reg); if (r.k != R8 || r.r != 7) throw Err{"operates on A only"}; b8(z.code); imm8(p.v); return; }
        if (p.k == R8 && p.r == 1) { Op r = zop(reg); if (r.k != R8) throw Err{"operates on reg8 only"}; ed((z.kind == Z_IN ? 0x40 : 0x41) + 8 * r.r); return; }
        throw Err{"port is (C) or (nn)"};
      }
      case Z_BIT: {
        if (!two(o, a, b)) throw Err{"two operands required"};
        i64 n = number(a); if (n < 0 || n > 7) throw Err{"illegal bit number"};
        Op x = zop(b); if (!r8like(x)) zbad();
        pfx(x); b8(0xCB); if (x.k == IXD) disp(x); b8(z.code + 8 * (int)n + r8num(x)); return;
      }
      case Z_ROT: { Op x = zop(o); if (!r8like(x)) zbad(); pfx(x); b8(0xCB); if (x.k == IXD) disp(x); b8(z.code + r8num(x)); return; }
      case Z_ALU1: {
        string t = o;
        if (two(o, a, b)) { Op x = zop(a); if (x.k != R8 || x.r != 7) throw Err{"operates on A only"}; warn("One operand only"); t = b; }
        alu(z.code, zop(t)); return;
      }
      case Z_PUSH: case Z_POP: {
        Op x = zop(o);
        if (x.k == SPECIAL && x.r == 19) { b8(z.code + 0x30); return; }
        if (x.k != R16 || x.r == 11) zbad();
        pfx(x); b8(z.code + 16 * (x.r - 8)); return;
      }
      case Z_ADD: case Z_ADC: case Z_SBC: {
        if (!two(o, a, b)) zbad();
        Op x = zop(a);
        if (x.k == R8 && x.r == 7) { alu(z.code, zop(b)); return; }
        if (x.k != R16 || x.r != 10) zbad();
        if (x.pfx && z.kind != Z_ADD) zbad();
        Op y = zop(b);
        if (y.k != R16 || (y.r == 10 && y.pfx != x.pfx)) zbad();
        pfx(x);
        if (z.kind == Z_ADD) b8(0x09 + 16 * (y.r - 8)); else ed((z.kind == Z_ADC ? 0x4A : 0x42) + 16 * (y.r - 8));
        return;
      }
      case Z_INC: case Z_DEC: {
        Op x = zop(o);
        if (r8like(x)) { pfx(x); b8((z.kind == Z_INC ? 0x04 : 0x05) + 8 * r8num(x)); if (x.k == IXD) disp(x); return; }
        if (x.k != R16) zbad();
        pfx(x); b8((z.kind == Z_INC ? 0x03 : 0x0B) + 16 * (x.r - 8)); return;
      }
      case Z_LD: {
        if (!two(o, a, b)) zbad();
        Op x = zop(a), y = zop(b);
        auto isA = [](const Op& q) { return q.k == R8 && q.r == 7; };
        if (x.k == R8 && r8like(y)) { pfx(y); b8(0x40 + 8 * x.r + r8num(y)); if (y.k == IXD) disp(y); return; }
        if ((x.k == HLI || x.k == IXD) && y.k == R8) { pfx(x); b8(0x70 + y.r); if (x.k == IXD) disp(x); return; }
        if (r8like(x) && y.k == IMM) { pfx(x); b8(0x06 + 8 * r8num(x)); if (x.k == IXD) disp(x); imm8(y.v); return; }
        if (isA(x)) {
          if (y.k == BCI) { b8(0x0A); return; }
          if (y.k == DEI) { b8(0x1A); return; }
          if (y.k == MEM) { b8(0x3A); b16(y.v); return; }
          if (y.k == SPECIAL && y.r == 17) { ed(0x57); return; }
          if (y.k == SPECIAL && y.r == 18) { ed(0x5F); return; }
        }
        if (isA(y)) {
          if (x.k == BCI) { b8(0x02); return; }
          if (x.k == DEI) { b8(0x12); return; }
          if (x.k == MEM) { b8(0x32); b16(x.v); return; }
          if (x.k == SPECIAL && x.r == 17) { ed(0x47); return; }
          if (x.k == SPECIAL && x.r == 18) { ed(0x4F); return; }
        }
        if (x.k == R16 && y.k == IMM) { pfx(x); b8(0x01 + 16 * (x.r - 8)); b16(y.v); return; }
        if (x.k == R16 && y.k == MEM) { if (x.r == 10) { pfx(x); b8(0x2A); } else ed(0x4B + 16 * (x.r - 8)); b16(y.v); return; }
        if (x.k == MEM && y.k == R16) { if (y.r == 10) { pfx(y); b8(0x22); } else ed(0x43 + 16 * (y.r - 8)); b16(x.v); return; }
        if (x.k == R16 && x.r == 11 && y.k == R16 && y.r == 10) { pfx(y); b8(0xF9); return; }
        zbad();
      }
    }
  }

  // ---- vocabulary ----------------------------------------------------------
  void add_vocab(const string& n, Kind k, int mod, i64 v, int id) {
    auto it = tab.find(n);
    if (it != tab.end()) {
      if (it->second.vocab && it->second.undef) it->second.undef = false;
      else warn("user's symbol overrides new keyword");
      return;
    }
    Sym& s = tab[n];
    s.name = n; s.kind = k; s.mod = mod; s.v = v; s.id = id; s.undef = false; s.noredef = true; s.vocab = true;
  }
  void select(Cpu c) {
    addr16 = true;
    if (c == C_6800 || c == C_6801) {
      lohi = false;
      for (size_t i = 0; i < sizeof isa68 / sizeof *isa68; i++)
        if (c == C_6801 || !strchr(isa68[i].modes, '+')) add_vocab(isa68[i].mn, K_MNEMO, 0, 0, 1000 + i);
    } else if (c == C_Z80) {
      lohi = true; hexout = true;
      for (size_t i = 0; i < sizeof isaz80 / sizeof *isaz80; i++) add_vocab(isaz80[i].mn, K_MNEMO, 0, 0, 3000 + i);
      for (auto& r : regsz80) add_vocab(r.n, K_REGS, r.r, 1LL << r.r, 0);
    } else {
      lohi = true;
      for (size_t i = 0; i < sizeof isa65 / sizeof *isa65; i++) {
        string m = isa65[i].modes; bool only = true;       // all modes 65C02 only?
        for (size_t k = 0; k < m.size();) { size_t e = m.find(' ', k); if (e == string::npos) e = m.size(); if (m[e - 1] != '+') only = false; k = e + 1; }
        if (!only || c == C_65C02) add_vocab(isa65[i].mn, K_MNEMO, 0, 0, 2000 + i);
      }
      for (auto& r : regs65) add_vocab(r.n, K_REGS, r.r, 1LL << r.r, 0);
    }
    cpu = c;
  }

  // ---- sources -------------------------------------------------------------
  static vector<string> split(const string& t) {
    vector<string> v; size_t i = 0;
    for (;;) { size_t e = t.find('\n', i); if (e == string::npos) { v.push_back(t.substr(i)); return v; } v.push_back(t.substr(i, e - i)); i = e + 1; }
  }
  bool main_done() const { return src.size() == 1 && src[0].next >= src[0].lines.size(); }
  void next_line() {
    // a finished include file gives way to the text that included it
    while (src.size() > 1 && !src.back().is_macro && src.back().next >= src.back().lines.size()) {
      Src& s = src.back();
      lineno = s.oldline; prefix = s.oldprefix; list_on = s.oldlist;
      src.pop_back();
    }
    Src& s = src.back();
    pastmacro = false;
    if (s.is_macro) {
      // an IF without ENDC, or a body that was refused: nothing but ENDM is left to read
      pastmacro = s.next >= s.lines.size();
      string t = pastmacro ? " ENDM" : s.lines[s.next++];
      // an expanded line is cut after 241 characters, with a warning
      string r;
      auto arg = [&](const string& x) { for (char c : x) { if (r.size() > 240) { warn("Too long line"); break; } r += c; } };
      for (size_t i = 0; i < t.size(); i++) {
        if (r.size() > 240) { warn("Too long line"); break; }
        if (t[i] != '\\') { r += t[i]; continue; }
        char c = i + 1 < t.size() ? t[i + 1] : 0;
        if (c == '#') { r += char('0' + s.args.size()); i++; }
        else if (c == '*') { arg(s.allargs); i++; }
        else if (c >= '1' && c <= '9') { size_t k = c - '1'; if (k < s.args.size()) arg(s.args[k]); i++; }
        else r += '\\';
      }
      cur = r;
      return;
    }
    string t = s.next < s.lines.size() ? s.lines[s.next] : "";
    s.next++;
    lineno++;
    bool toolong = t.size() > 249;
    if (toolong) t = t.substr(0, 249);
    string c;
    for (char ch : t) if (ch == '\t' || (unsigned char)ch >= 128 || (ch >= 32 && ch < 127)) c += ch;
    cur = c;
    if (c.size() != t.size()) warn("Unprintable characters removed");
    if (toolong) warn("Too long line");
  }
  bool pastmacro = false;
  bool input_exhausted() const { return pastmacro || src.size() == 1 && src[0].next >= src[0].lines.size() && cur.empty(); }

  // ---- statements ----------------------------------------------------------
  enum Flow { F_NONE, F_ENDC, F_ELSE, F_ENDM, F_EXITM };

  Sym* mnemonic(const string& w) {
    if (w.empty()) return nullptr;
    Sym* s = look(w);
    if (s && !s->undef && (s->kind == K_MNEMO || s->kind == K_MACRO)) return s;
    return nullptr;
  }

  Flow line(bool active, bool show) {
    advance = 0;
    Sym* st = star();
    if (st->undef) org_given = false; else { org_given = true; pc = st->v; }
    string s = cur;
    bool at_margin = s.empty() || !blank(s[0]);
    size_t semi = find_top(s, ";");
    if (semi != string::npos) s = trim(s.substr(0, semi));
    else { cur = rtrim(cur); s = trim(cur); }
    if (s.empty()) { if (show) list_line(); return F_NONE; }

    string label, mn, oper; bool have_label = false, have_oper = false;
    Sym* m = nullptr;
    size_t eq = find_top(s, "=");
    string lhs = eq == string::npos ? "" : rtrim(s.substr(0, eq));
    if (eq != string::npos && lhs.find(' ') == string::npos && lhs.find('\t') == string::npos) {
      label = lhs; have_label = true; oper = trim(s.substr(eq + 1)); have_oper = true; mn = "equ";
      m = mnemonic("EQU");
      if (active && !good_label(label)) throw Err{"malformed label"};
    } else {
      string rest = s;
      for (;;) {
        size_t k = string::npos;
        for (Top t(rest); t.i < rest.size(); t.step()) if (t.open() && blank(rest[t.i])) { k = t.i; break; }
        if (k != string::npos && k > 0 && !trim(rest.substr(k)).empty()) {
          mn = rest.substr(0, k); oper = trim(rest.substr(k)); have_oper = true;
          m = mnemonic(mn);
          if (!m && !have_label) {
            label = mn; have_label = true;
            if (active && !good_label(label)) throw Err{"malformed label"};
            rest = oper;
            continue;
          }
        } else { mn = rest; have_oper = false; oper.clear(); m = mnemonic(mn); }
        break;
      }
    }
    bool dir = m && m->kind == K_MNEMO && m->id < 1000;   // a directive, or a symbol that stands for one
    bool cond_p = dir && (m->id == P_IF || m->id == P_ELSE || m->id == P_ENDC);
    bool mac_p = dir && (m->id == P_MACRO || m->id == P_ENDM || m->id == P_EXITM);
    if (!active && !cond_p && !mac_p) { if (show) list_line(); return F_NONE; }
    if (!m) {
      if (at_margin && !have_label && !have_oper) {
        if (active && !good_label(mn)) throw Err{"malformed label"};
        if (active) here(mn);
        if (show) list_line();
        return F_NONE;
      }
      throw Err{"unknown macro or mnemonic"};
    }
    const PN* pn = dir ? pseudo_by_id(m->id) : nullptr;
    if (pn && pn->nolabel && have_label) throw Err{"labels not allowed here"};
    if (pn && pn->needlabel) { if (!have_label) throw Err{"label required here"}; }
    else if (have_label && active) here(label);

    const string* op = have_oper ? &oper : nullptr;
    if (cond_p) {
      if (m->id == P_IF) return do_if(active, show, op);
      if (op) throw Err{"no operand allowed"};
      return m->id == P_ELSE ? F_ELSE : F_ENDC;
    }
    if (mac_p) {
      if (m->id == P_MACRO) { do_macro(active, show, label, op); return F_NONE; }
      if (op) throw Err{"no operand allowed"};
      if (!macrolevel && show) list_line();
      if (macrolevel && active) return m->id == P_ENDM ? F_ENDM : F_EXITM;
      return F_NONE;
    }
    if (m->kind == K_MACRO) {
      if (op && up(trim(*op)) == "MACRO") throw Err{"macro is already defined"};
      if (active) call_macro(*m, show, op);
      else if (show) list_line();
      return F_NONE;
    }
    if (active) {
      if (m->id < 1000) pseudo(m->id, label, op);
      else if (m->id >= 3000) iz80(isaz80[m->id - 3000], op);
      else if (m->id >= 2000) i65(isa65[m->id - 2000], op);
      else i68(isa68[m->id - 1000], op);
    }
    if (Sym* q = star()) q->v += advance;
    if (show) list_line();
    return F_NONE;
  }

  bool truth(const string* op) {
    if (!op || op->empty()) return false;
    const char* rel[] = {">=", "<=", "==", "!=", "=", "<>", "<", ">"};
    size_t k = string::npos; const char* r = nullptr;
    // shifts are no comparisons
    string hid = *op;
    for (size_t i = 0; i + 1 < hid.size(); i++) if ((hid[i] == '<' || hid[i] == '>') && hid[i + 1] == hid[i]) { hid[i] = hid[i + 1] = '\002'; i++; }
    for (const char* c : rel) { k = find_top(hid, c); if (k != string::npos) { r = c; break; } }
    Val x, y;
    if (!r) { x = eval(*op); }
    else { x = eval(op->substr(0, k)); y = eval(op->substr(k + strlen(r))); }
    if ((x.undef && x.fwd) || (y.undef && y.fwd)) throw Err{"forward"};
    if (x.kind != y.kind) throw Err{"Uncomparable expressions"};
    string q = r ? r : "!=";
    range(x.v); range(y.v);
    if (q == "==" || q == "=") return x.mod == y.mod && x.v == y.v;
    if (q == "!=" || q == "<>") return x.mod != y.mod || x.v != y.v;
    if (x.kind != K_ABS) throw Err{"not a numeric expression"};
    if (q == "<") return x.v < y.v;
    if (q == ">") return x.v > y.v;
    if (q == "<=") return x.v <= y.v;
    return x.v >= y.v;
  }

  // reads lines of one branch of a conditional
  Flow branch(bool act, bool show) {
    for (;;) {
      try {
        next_line();
        if (input_exhausted()) break;
        Flow f = line(act, show);
        if (!act && f == F_EXITM) f = F_NONE;
        if (f != F_NONE) return f;
      } catch (Err& e) { report(e); }
    }
    throw Err{"Unexpected End of File"};
  }
  Flow do_if(bool active, bool show, const string* op) {
    bool t = active ? truth(op) : false;
    bool s1 = t || iflist;
    bool act1 = active && t, show1 = show && s1;
    if (iflist && show) list_line();
    char oldp = prefix;
    if (active && !t) prefix = 'C';
    Flow f = branch(act1, show1);
    prefix = oldp;
    if (f == F_ENDM) throw Err{"ENDM illegal here"};
    if (iflist && show) list_line();
    if (f == F_ENDC) return F_NONE;
    if (f == F_EXITM) return F_EXITM;
    bool s2 = !t || iflist;
    if (active && t) prefix = 'C';
    f = branch(active && !t, show && s2);
    prefix = oldp;
    if (f == F_ENDM || f == F_ELSE) throw Err{"ELSE or ENDM illegal here"};
    if (iflist && show) list_line();
    return f == F_EXITM ? F_EXITM : F_NONE;
  }
  void do_macro(bool active, bool show, const string& label, const string* op) {
    if (op) throw Err{"no operand allowed in macro statement"};
    if (macrolevel) throw Err{"nested macro definition"};
    if (show) list_line();
    Sym* s = nullptr;
    if (active) { s = define(label, false, K_MACRO, 0); s->id = -1; }
    vector<string> body;
    for (;;) {
      next_line();
      if (input_exhausted()) throw Err{"Unexpected End of File"};
      string t = cur;
      size_t k = find_top(t, ";");
      if (k != string::npos) t = rtrim(t.substr(0, k));
      body.push_back(t);
      if (show) list_line();
      // the line that holds ENDM ends the definition
      string u = up(t); bool found = false, alone = false;
      for (Top w(t); w.i < t.size(); w.step()) if (w.open() && !u.compare(w.i, 4, "ENDM") && (!w.i || blank(t[w.i - 1])) && (w.i + 4 == t.size() || blank(t[w.i + 4]))) {
        found = true; alone = trim(t.substr(0, w.i)).empty() && trim(t.substr(w.i + 4)).empty(); break;
      }
      if (found) {
        if (!alone) throw Err{"illegal ENDM instruction"};
        break;
      }
    }
    if (s) { s->id = bodies.size(); bodies.push_back(body); }
  }
  vector<vector<string>> bodies;   // by the id of a macro: equates may name the same body
  void call_macro(Sym& m, bool show, const string* op) {
    m.used = true;
    string saved = cur;
    if (src.size() >= 10) throw Fatal{"too many nested INCLUDEs and MACROs"};
    Src s; s.is_macro = true; s.oldline = lineno; s.oldprefix = prefix; s.oldlist = list_on;
    int body = m.id;
    if (op && !op->empty()) {
      s.allargs = *op;
      string rest = *op, a, b;
      for (;;) {
        if (rest.empty()) break;
        if (s.args.size() > 8) throw Err{"Too many arguments in a macro call"};
        if (two(rest, a, b)) { s.args.push_back(a); rest = b; } else { s.args.push_back(rest); break; }
      }
    }
    if (body >= 0) s.lines = bodies[body];
    u64 oldseg = seg;
    bool mshow = show && maclist;
    if (mshow) list_line();
    prefix = 'M';
    size_t depth = src.size();
    src.push_back(s);
    macrolevel++;
    seg = ++calls;
    Flow f = F_NONE;
    do {
      try { next_line(); f = line(true, mshow); } catch (Err& e) { report(e); }
    } while (f == F_NONE);
    macrolevel--;
    // include files still open inside the expansion are left with it
    lineno = s.oldline; prefix = s.oldprefix; list_on = s.oldlist;
    src.resize(depth);
    seg = oldseg;
    if (f != F_ENDM && f != F_EXITM) throw Err{"ELSE or ENDC illegal here"};
    if (!maclist) { cur = saved; if (show) list_line(); }
  }

  bool onoff(const string* op) {
    string u = op ? up(trim(*op)) : "";
    if (u == "ON") return true;
    if (u == "OFF") return false;
    throw Err{"please: use option ON or OFF"};
  }
  void data(const string& e, int mode) {
    i64 v = number(e); u64 mask = 0;
    switch (mode) {
      case P_DB: mask = 0xFFFFFF00; b8((int)v); break;
      case P_DDB: mask = 0xFFFF0000; { u64 s = v & 0xFFFF; b16(s >> 8 | (s & 0xFF) << 8); } break;
      case P_DW: mask = 0xFFFF0000; b16(v); break;
      case P_DL: b32(v); break;
    }
    if ((u64)v & mask) warn("Operand overflow");
  }
  void pseudo(int id, const string& label, const string* op) {
    string o = op ? *op : "", a, b;
    switch (id) {
      case P_EQU: {
        Val v = eval(o);
        if (v.kind == K_ABS && (macrolevel == 0 || maclist) && lb.empty()) { col(2); addr(v.v); }
        Sym* s = define(label, false, v.kind, v.v, v.fwd);
        s->mod = v.mod; s->id = v.id;
        return;
      }
      case P_DB: case P_DW: case P_DL: case P_DDB: {
        string rest = o;
        while (two(rest, a, b)) { data(a, id); rest = b; }
        data(rest, id);
        return;
      }
      case P_DS: {
        i64 fill = 0; string n = o;
        if (two(o, a, b)) { fill = number(b); n = a; if (fill & 0xFFFFFF00) warn("multiple byte initialiser"); }
        i64 c = number(n);
        if ((int32_t)c < 0) throw Err{"negative size"};
        for (i64 k = 0; k < c; k++) b8((int)fill);
        advance = c;
        return;
      }
      case P_ASC: {
        if (!op) throw Err{"Need an operand"};
        char q = o[0];
        if (q != '\'' && q != '"') throw Err{"Bad operand syntax"};
        size_t i = 1;
        for (;; i++) {
          if (i >= o.size()) throw Err{"unterminated string"};
          char c = o[i];
          if (c == q) break;
          if (c == '\\') {
            i++;
            switch (i < o.size() ? o[i] : 0) {
              case 't': c = '\t'; break; case 'n': c = '\n'; break; case 'r': c = '\r'; break; case '0': c = 0; break;
              case '\'': case '"': case '\\': c = o[i]; break;
              default: throw Err{"Bad \\X character"};
            }
          }
          b8((unsigned char)c);
        }
        if (i + 1 < o.size()) throw Err{"syntax error"};
        return;
      }
      case P_ALIGN: {
        string u = up(trim(o));
        if (u == "EVEN") { if (pc & 1) b8(0); } else if (u == "ODD") { if (!(pc & 1)) b8(0); } else throw Err{"please, use options EVEN or ODD"};
        return;
      }
      case P_CODE: case P_DUMMY: if (op) throw Err{"no operand"}; seg = ++calls; code_on = id == P_CODE; return;
      case P_LIST: if (onoff(op)) { if (!nolist) list_on = true; } else list_on = false; return;
      case P_MLIST: maclist = onoff(op); return;
      case P_CLIST: iflist = onoff(op); return;
      case P_ILIST: inclist = onoff(op); return;
      case P_NAM:
        if (!op) throw Err{"need an operand"};
        if (title_flag) warn("title redefinition");
        if (o.size() > 30) throw Err{"too long title"};
        title = o; if (passno == 2) title_flag = true;
        return;
      case P_PAGE: {
        if (!op) { eop(); return; }
        if (!two(o, a, b)) throw Err{"syntax: PAGE or PAGE plen,llen"};
        i64 p = (int)number(a), l = (int)number(b);
        if (page_flag) warn("page redefinition");
        if (p > 200 || (p && p < 10) || l < 39 || l >= 1000) throw Err{"illegal values"};
        plen = p; llen = l; if (passno == 2) page_flag = true;
        return;
      }
      case P_SKIP: { i64 n = (int)number(o); if (n > 100 || n < 0) warn("are you sure ?"); else while (n--) eol(); return; }
      case P_OUTPUT: {
        string u = up(trim(o));
        if (u == "HEX") hexout = true; else if (u == "SCODE") hexout = false; else { hexout = false; throw Err{"please, use options SCODE or HEX"}; }
        return;
      }
      case P_CPU: {
        if (!op) throw Err{"Need CPU name"};
        if (cpu_fixed) throw Err{"One CPU only!"};
        string u = up(trim(o)); Cpu c = C_NONE;
        if (u == "6800") c = C_6800; else if (u == "6801" || u == "6803") c = C_6801; else if (u == "6500") c = C_6500;
        else if (u == "6502") c = C_6502; else if (u == "65C02") c = C_65C02; else if (u == "Z80") c = C_Z80;
        if (c == C_NONE) throw Err{"Unknown CPU name"};
        if (passno == 2) cpu_fixed = true;
        select(c);
        return;
      }
      case P_FAIL: throw Err{o.empty() ? "Fail instruction" : o};
      case P_INCLUDE: {
        if (!op) throw Err{"no filename"};
        auto f = files.find(o);
        if (f == files.end() || f->second == "\001DIR") throw Err{"can't open include file"};
        if (src.size() >= 10) throw Fatal{"too many nested INCLUDEs and MACROs"};
        Src s; s.oldline = lineno; s.oldprefix = prefix; s.oldlist = list_on; s.lines = split(f->second);
        if (list_on) list_line();
        lineno = 0;
        src.push_back(s);
        if (!inclist) list_on = false;
        return;
      }
    }
  }

  // ---- passes --------------------------------------------------------------
  void pass(int n) {
    code_on = true; inclist = false; iflist = true; maclist = false;
    if (!nolist) list_on = true;
    macrolevel = 0; calls = 0; seg = 0; lineno = 0; prefix = 0;
    passno = n;
    {
      Sym* st = look("*");
      if (!st) { st = &tab["*"]; st->name = "*"; }
      st->used = true; st->undef = true; st->noredef = false; st->fwd = false; st->kind = K_ABS;
    }
    errors = warnings = 0; codelen = 0;
    src.clear();
    Src s; s.lines = split(files[main_name]);
    src.push_back(s);
    bool retry = false;
    while (retry || src.size() > 1 || src[0].next < src[0].lines.size()) {
      retry = false;
      try {
        next_line();
        if (line(true, true) != F_NONE) throw Err{"ELSE, ENDC, ENDM, EXITM illegal here"};
      } catch (Err& e) { report(e); retry = true; }
    }
  }
  void between() {
    for (auto& k : tab) {
      Sym& s = k.second;
      if (!s.noredef || s.undef) s.fwd = false;
      s.undef = !s.pseudo;
    }
  }
  void summary() {
    if (plen - ppos < 10) { eop(); eol(); eol(); }
    eol();
    auto row = [&](const string& s) { put(s); eol(); };
    row(fmt("ERRORS:    %4d", errors));
    row(fmt("WARNINGS:  %4d", warnings));
    eol();
    if (!errors) {
      row("Successful assembly...");
      row(fmt(" Last address %8lx (%ld)", (unsigned long)(pc - 1), (long)(pc - 1)));
      row(fmt(" Code length  %8lx (%ld)", (unsigned long)codelen, (long)codelen));
    } else row("No code generated...");
  }
  void symbols() {
    const int REC = 61;
    eop();
    // symbols in the order of their names; keys beginning with a digit are local labels
    for (auto& k : tab) {
      Sym& s = k.second;
      if ((int)lb.size() + REC >= llen) eol();
      int np = lb.size() + REC;
      if (s.kind != K_ABS && s.noredef) continue;
      if (s.name[0] == '*' || s.name[0] <= '9') continue;
      bool undef = s.undef && !s.fwd;
      putc_(!s.used ? '?' : s.fwd ? '^' : ' ');
      string kind = undef ? "Undefined" : s.kind == K_MNEMO ? "Mnemonic" : s.kind == K_MACRO ? "Macro" : s.kind == K_ABS ? "Abs" : s.kind == K_REGS ? "Register(s)" : fmt("Bit%d", s.mod);
      if (!undef && (s.kind == K_ABS || s.kind == K_BIT)) addr(s.v);
      if (np - 50 - (int)kind.size() >= llen) throw Fatal{"line length must be greater"};
      col(np - 50 - kind.size()); put(kind);
      col(np - 49); put(s.name);
      if (np < llen) col(np);
    }
    eol();
    eop();
  }

  Out run() {
    for (auto& f : prog.files) files[f.first] = f.second;
    // the command line
    bool given = false, wrong = false;
    for (size_t i = 0; i < prog.args.size() && !wrong; i++) {
      const string& a = prog.args[i];
      if (a.empty() || a[0] != '-') { if (given) wrong = true; given = true; main_name = a; continue; }
      for (size_t k = 1; k < a.size(); k++) {
        if (a[k] == 's') opt_warn = false;
        else if (a[k] == 'l') opt_list = false;
        else if (a[k] == 'x') opt_xref = true;
        else if (a[k] == 'o') { if (k + 1 < a.size() || i + 1 >= prog.args.size() || opt_code) { wrong = true; break; } opt_code = true; code_name = prog.args[++i]; break; }
        else wrong = true;
      }
    }
    if (wrong || !given) { out.fatal = out.usage = true; out.status = 10; return out; }
    for (auto& p : pseudo_names) {
      Sym& s = tab[p.n]; s.name = p.n; s.kind = K_MNEMO; s.pseudo = true; s.id = p.id; s.undef = false; s.noredef = true;
    }
    try {
      if (!files.count(main_name)) throw Fatal{"can't open source file"};
      pass(1);
      quiet_errors = false;
      nolist = !opt_list; quiet_warn = !opt_warn; emit_code = opt_code;
      between();
      pass(2);
      list_on = true;
      if (!errors && opt_list) opt_xref = true;
      summary();
      if (opt_xref) symbols();
    } catch (Fatal& f) {
      out.fatal = true; out.fatal_msg = f.msg; out.status = 10;
      out.text += "FATAL ERROR: " + f.msg + "\n";
    }
    out.errors = errors; out.warnings = warnings;
    out.code_file = opt_code && out.any_byte && !errors && !out.fatal;
    out.hex = hexout;
    for (auto& u : uses) if (defs[u.first] == 1) for (auto& v : u.second) { Sym& y = tab[u.first]; if (v != std::make_pair((int)y.kind, std::make_pair(y.v, y.mod))) out.unstable = u.first; }
    out.pc = pc; out.codelen = codelen; out.syms = tab;
    out.llen = llen; out.plen = plen;
    return out;
  }
};

Out assemble(const Prog& p, const string& version) { Asm a(p, version); return a.run(); }

vector<string> isa(int family) {
  vector<string> v;
  if (family == 0) for (auto& i : isa65) v.push_back(i.mn);
  if (family == 1) for (auto& i : isa68) v.push_back(i.mn);
  if (family == 2) for (auto& i : isaz80) v.push_back(i.mn);
  return v;
}
vector<string> pseudo_list() { vector<string> v; for (auto& p : pseudo_names) v.push_back(p.n); return v; }

// ---------------------------------------------------------------- readers
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
vector<string> lines_of(const string& s) {
  vector<string> v; size_t i = 0;
  while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; }
  return v;
}
static bool hexline(const string& l, size_t from, vector<uint8_t>& d) {
  if ((l.size() - from) % 2) return false;
  for (size_t i = from; i < l.size(); i += 2) { int a = hexv(l[i]), b = hexv(l[i + 1]); if (a < 0 || b < 0) return false; d.push_back(a * 16 + b); }
  return true;
}
Image read_srec(const string& t) {
  Image im; bool ended = false; int ln = 0;
  if (!t.empty() && t.back() != '\n') { im.err = "the last record is not terminated"; return im; }
  for (auto& l : lines_of(t)) {
    ln++;
    auto bad = [&](const char* m) { if (im.err.empty()) im.err = fmt("line %d: %s: %s", ln, m, l.c_str()); };
    if (ended) { bad("record after the terminator"); return im; }
    vector<uint8_t> d;
    if (l.size() < 4 || l[0] != 'S' || !hexline(l, 2, d)) { bad("not an S-record"); return im; }
    if (d.empty() || d[0] != d.size() - 1) { bad("wrong byte count"); return im; }
    int sum = 0; for (auto b : d) sum += b;
    if ((sum & 0xFF) != 0xFF) { bad("wrong checksum"); return im; }
    int al = l[1] == '1' || l[1] == '9' ? 2 : l[1] == '2' || l[1] == '8' ? 3 : l[1] == '3' || l[1] == '7' ? 4 : 0;
    if (!al || (int)d.size() < 2 + al) { bad("wrong record type or length"); return im; }
    uint32_t a = 0; for (int i = 0; i < al; i++) a = a << 8 | d[1 + i];
    if (l[1] >= '7') { ended = true; if ((int)d.size() != 2 + al) bad("data in the terminator"); continue; }
    Record r; r.type = l[1]; r.addr = a; r.data.assign(d.begin() + 1 + al, d.end() - 1);
    for (size_t i = 0; i < r.data.size(); i++) im.bytes.push_back({a + (uint32_t)i, r.data[i]});
    im.recs.push_back(r);
  }
  if (!ended && im.err.empty()) im.err = "no terminating record";
  return im;
}
Image read_hex(const string& t) {
  Image im; bool ended = false; int ln = 0; uint32_t base = 0;
  if (!t.empty() && t.back() != '\n') { im.err = "the last record is not terminated"; return im; }
  for (auto& l : lines_of(t)) {
    ln++;
    auto bad = [&](const char* m) { if (im.err.empty()) im.err = fmt("line %d: %s: %s", ln, m, l.c_str()); };
    if (ended) { bad("record after the terminator"); return im; }
    vector<uint8_t> d;
    if (l.size() < 11 || l[0] != ':' || !hexline(l, 1, d)) { bad("not an Intel HEX record"); return im; }
    if ((int)d.size() != d[0] + 5) { bad("wrong byte count"); return im; }
    int sum = 0; for (auto b : d) sum += b;
    if (sum & 0xFF) { bad("wrong checksum"); return im; }
    uint32_t a = d[1] << 8 | d[2];
    if (d[3] == 1) { ended = true; if (d[0]) bad("data in the terminator"); continue; }
    if (d[3] == 4) { if (d[0] != 2) { bad("bad extended address"); return im; } base = (uint32_t)d[4] << 24 | (uint32_t)d[5] << 16; continue; }
    if (d[3] == 2) { if (d[0] != 2) { bad("bad extended address"); return im; } base = ((uint32_t)d[4] << 8 | d[5]) << 4; continue; }
    if (d[3] != 0) { bad("unknown record type"); return im; }
    Record r; r.type = '0'; r.addr = base + a; r.data.assign(d.begin() + 4, d.end() - 1);
    for (size_t i = 0; i < r.data.size(); i++) im.bytes.push_back({base + ((a + (uint32_t)i) & 0xFFFF), r.data[i]});   // offsets wrap inside the segment
    im.recs.push_back(r);
  }
  if (!ended && im.err.empty()) im.err = "no terminating record";
  return im;
}
Image read_code(const string& t) { return !t.empty() && t[0] == ':' ? read_hex(t) : read_srec(t); }

vector<DiagLine> read_diags(const string& out) {
  vector<DiagLine> v;
  for (auto& l : lines_of(out)) {
    size_t i = 0; while (i < l.size() && l[i] == '>') i++;
    size_t j = i; while (j < l.size() && l[j] == ' ') j++;
    size_t k = j; while (k < l.size() && isdigit((unsigned char)l[k])) k++;
    if (k == j) continue;
    if (l.compare(k, 8, " ERROR: ") == 0) v.push_back({atoi(l.c_str() + j), true, l.substr(k + 8)});
    else if (l.compare(k, 10, " WARNING: ") == 0) v.push_back({atoi(l.c_str() + j), false, l.substr(k + 10)});
  }
  return v;
}
int read_counter(const string& out, const char* name) {
  size_t p = out.rfind(string("\n") + name);
  if (p == string::npos) { if (out.compare(0, strlen(name), name)) return -1; p = 0; } else p++;
  p += strlen(name);
  while (p < out.size() && out[p] == ' ') p++;
  if (p >= out.size() || !isdigit((unsigned char)out[p])) return -1;
  return atoi(out.c_str() + p);
}
bool says_success(const string& out) { return out.find("\nSuccessful assembly...") != string::npos; }

string strdump(const vector<std::pair<uint32_t, uint8_t>>& v, size_t max) {
  string s; uint32_t next = 0; bool first = true;
  for (size_t i = 0; i < v.size() && i < max; i++) {
    if (first || v[i].first != next) s += fmt("%s%04X:", first ? "" : " ", v[i].first);
    s += fmt(" %02X", v[i].second);
    next = v[i].first + 1; first = false;
  }
  if (v.size() > max) s += fmt(" ... (%zu bytes)", v.size());
  return s;
}
string show(const Prog& p) {
  string s;
  for (auto& f : p.files) s += (p.files.size() > 1 ? f.first + ":\n" : "") + f.second;
  return s;
}
string first_diff(const string& a, const string& b) {
  auto x = lines_of(a), y = lines_of(b);
  for (size_t i = 0; i < x.size() || i < y.size(); i++) {
    string p = i < x.size() ? x[i] : "<end>", q = i < y.size() ? y[i] : "<end>";
    if (p != q) return fmt("line %zu: got |%s| expected |%s|", i + 1, p.c_str(), q.c_str());
  }
  return a == b ? "" : "trailing newline differs";
}
}  // namespace ref

// ---------------------------------------------------------------- oracles
string crasm_version(Cx& cx) {
  Prog p(" nop\n");
  Result r = cx.run(p);
  size_t a = r.out.find("Crasm "), b = r.out.find(':');
  return a == string::npos || b == string::npos || b < a ? "?" : r.out.substr(a + 6, b - a - 6);
}

// error and warning texts are not part of any promise: only their place is
static string normal(const string& t) {
  string o;
  for (auto& l : ref::lines_of(t)) {
    size_t i = 0; while (i < l.size() && (l[i] == '>' || l[i] == ' ')) i++;
    size_t k = i; while (k < l.size() && isdigit((unsigned char)l[k])) k++;
    if (k > i && (!l.compare(k, 7, " ERROR:") || !l.compare(k, 9, " WARNING:"))) o += l.substr(0, l.find(':') + 1);
    else o += l;
    o += '\n';
  }
  return o;
}

static string squeezed(const string& t) {
  string o;
  for (auto& l : ref::lines_of(t)) {
    if (!l.compare(0, 6, "Crasm ") && l.find(" page") != string::npos && l.find(':') != string::npos) continue;
    for (char c : l) if (!isspace((unsigned char)c)) o += c;
  }
  return o;
}

void against_ref(const Prog& p, const ref::Out& x, const Result& r, Fails& f, int what, const string& key) {
  if (r.status != x.status) { f.add(key, fmt("exit status %d, expected %d", r.status, x.status)); return; }
  if (what & O_DIAG) {
    auto d = ref::read_diags(r.out);
    string got, want;
    for (auto& l : d) if (l.error) got += fmt("%d ", l.line);
    for (auto& l : x.diags) if (l.error) want += fmt("%d ", l.line);
    if (x.open && !got.empty()) got = want;
    if (got != want) { f.add(key, "lines reported as errors: " + got + " expected: " + want); return; }
  }
  if ((what & O_COUNTS) && !x.fatal) {
    int e = ref::read_counter(r.out, "ERRORS:"), w = ref::read_counter(r.out, "WARNINGS:");
    if (e != x.errors && !x.open) f.add(key, fmt("summary says %d errors, expected %d", e, x.errors));
    if (w != x.warnings && !x.open) f.add(key, fmt("summary says %d warnings, expected %d", w, x.warnings));
    if (f) return;
  }
  if (what & O_CODE) {
    if (r.have_code != x.code_file) { f.add(key, r.have_code ? "a code file was left" : "no code file was written"); return; }
    if (r.have_code) {
      ref::Image im = x.hex ? ref::read_hex(r.code) : ref::read_srec(r.code);
      if (!im.err.empty()) { f.add(key, "code file: " + im.err); return; }
      if (im.bytes != x.code) {
        size_t i = 0; while (i < im.bytes.size() && i < x.code.size() && im.bytes[i] == x.code[i]) i++;
        auto cut = [&](const vector<std::pair<uint32_t, uint8_t>>& v) { return vector<std::pair<uint32_t, uint8_t>>(v.begin() + std::min(v.size(), i < 4 ? 0 : i - 4), v.begin() + std::min(v.size(), i + 12)); };
        f.add(key, fmt("code differs from byte %zu on: ", i) + ref::strdump(cut(im.bytes)) + "\n  expected " + ref::strdump(cut(x.code)));
        return;
      }
    }
  }
  if (x.open) return;
  if ((what & O_TEXT) && x.usage) {
    if (r.out.find("crasm [-slx]") == string::npos) f.add(key, "no usage message");
    return;
  }
  // O_NOTABLE: what a symbol table says about the symbols of erroneous lines is left open
  auto cut = [&](const string& s) { if (!(what & O_NOTABLE) || !x.errors) return s; size_t i = s.rfind("No code generated..."); return i == string::npos ? s : s.substr(0, i); };
  if ((what & O_TEXT) && x.wrapped) {
    // lines too wide were wrapped: the places are crasm's choice, the characters and their order are not
    // (with page breaks asked for in between, wrapped lines also move the places where byte columns are continued)
    if (what & O_NOTABLE) for (auto& s : p.files) if (s.second.find(" page") != string::npos || s.second.find(" skip") != string::npos) return;
    string a = squeezed(normal(cut(r.out))), b = squeezed(normal(cut(x.text)));
    if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; f.add(key, "listing differs, text with wrapped lines: got |" + a.substr(i < 20 ? 0 : i - 20, 60) + "| expected |" + b.substr(i < 20 ? 0 : i - 20, 60) + "|"); return; }
  }
  if ((what & O_TEXT) && !x.wrapped) {
    string a = normal(cut(r.out)), b = normal(cut(x.text));
    if (a != b) { f.add(key, "listing differs, " + ref::first_diff(a, b)); return; }
  }
}
