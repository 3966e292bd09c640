// C01 / C02: whatever is emitted, the code file carries exactly that.
// FORMAT is "" or " output hex\n"; both drivers enumerate the same layouts.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* RULE = "a program is a layout of code: origin, emissions, origin changes, DUMMY/CODE switches; distinct = different code file or report";

static string list(int n, int from) { string s = " db "; for (int i = 0; i < n; i++) s += fmt("%s%d", i ? "," : "", (from + 37 * i) & 255); return s; }

void explore(Cx& cx) {
  Judge J(cx, O_CODE | O_COUNTS);
  J.extra = [](const Prog&, const ref::Out& x, const Result& r, Fails& f) {
    if (!r.have_code) return;
    ref::Image im = ref::read_code(r.code);
    for (auto& c : im.recs) {
      if (c.data.empty()) f.add("record", "a data record without data");
      if ((c.addr & 0xFFFF) + c.data.size() > 0x10000) f.add("record", "a record runs over the end of its 64K segment");
      if (!x.hex && c.type == '1' && c.addr > 0xFFFF) f.add("record", "record type does not match its address");
    }
  };
  // 1. one block: every boundary address, every length around the record sizes
  const u64 addrs[] = {0, 1, 0x0E, 0x7F, 0x80, 0xFF, 0x100, 0x1234, 0x7FF8, 0x7FFF, 0x8000, 0xFFEF, 0xFFF0, 0xFFF1, 0xFFF8, 0xFFFE, 0xFFFF, 0x10000, 0x10001,
                       0x1FFF8, 0x123456, 0x7FFFF8, 0x800000, 0xFEFFF8, 0xFFFFF0, 0xFFFFF8, 0xFFFFFF, 0x1000000, 0x12345678, 0x7FFFFFF8, 0x80000000, 0xFFFFFFF0};
  vector<int> lens;
  for (int i = 1; i <= 70; i++) lens.push_back(i);
  for (int i : {127, 128, 129, 255, 256, 257, 300}) lens.push_back(i);
  if (cx.thorough) for (int i : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70000}) lens.push_back(i);
  for (u64 a : addrs) for (int n : lens) {
    if (a + n > 0x100000000ULL || (n > 5000 && (a & 0xFFF) != 0xFF8)) continue;
    if (!cx.mine()) continue;
    string s = FORMAT + fmt("* = $%llX\n", (unsigned long long)a);
    for (int i = 0; i < n; i += 20) s += list(std::min(20, n - i), i * 3 + (int)a) + "\n";
    J.now(Prog(s), fmt("block $%llX %d", (unsigned long long)a, n), n);
  }
  cx.bound(fmt("single block: %zu boundary addresses x %zu lengths", sizeof addrs / sizeof *addrs, lens.size()));
  // 2. every byte value, and every pair of neighbouring values, at addresses that exercise the checksum carry
  for (u64 a : {0x0ULL, 0xFFULL, 0xFF00ULL, 0xFFFFF0ULL, 0x12345678ULL}) for (int hi = 0; hi < 256; hi++) {
    if (!cx.mine()) continue;
    string s = FORMAT + fmt("* = $%llX\n", (unsigned long long)a);
    for (int lo = 0; lo < 256; lo++) s += fmt(" db %d,%d\n", hi, lo);
    J.now(Prog(s), fmt("pairs %d", hi), 512);
  }
  for (u64 a : {0x0ULL, 0x1F0ULL, 0xA5C3ULL, 0x7FFFFFULL, 0xFEDCBA98ULL}) for (int v = 0; v < 256; v++)
    J(Prog(FORMAT + fmt("* = $%llX\n db %d\n", (unsigned long long)a, v)), fmt("byte %d", v));
  cx.bound("every single byte value and every pair of byte values at five addresses");
  // 3. how the bytes are produced: data directives and their neighbours
  Strs how = {" db 1", " db 2,3", " dw $4567", " dl $89ABCDEF", " ddb $1234", " ds 1", " ds 5,$77", " ds 16", " ds 33,9", " asc \"HELLO\"", " asc \"0123456789ABCDEFG\"", " align even", " align odd", " ds 0"};
  for (string cpu : {"", " cpu 6800\n", " cpu 6502\n", " cpu z80\n"})
    sequences(how.size(), cx.thorough ? 4 : 3, [&](const vector<int>& s) {
      if (!cx.mine()) return;
      J.now(Prog(cpu + FORMAT + "* = $FFF5\n" + text(how, s)), "", s.size());
    });
  cx.bound(fmt("all sequences of %d of %zu data statements, under 4 processors", cx.thorough ? 4 : 3, how.size()));
  // 4. moves of the program counter and sections that must not reach the file
  Strs ev = {" db 1", list(15, 3), list(16, 5), list(17, 7), " ds 3", "* = *", "* = *+1", "* = *-1", "* = $10", "* = $FFF8", "* = $FFFFFC", " dummy", " code", "lab"};
  int depth = cx.thorough ? 5 : 4;
  for (int d = 1; d <= depth; d++) sequences(ev.size(), d, [&](const vector<int>& s) {
    if (!cx.mine()) return;
    string t;
    for (size_t i = 0; i < s.size(); i++) t += ev[s[i]] == "lab" ? fmt("lab%zu\n", i) : ev[s[i]] + "\n";
    J.now(Prog(FORMAT + "* = $100\n" + t + " db $EE\n"), "", s.size());
    if (d <= depth - 1 || cx.thorough) for (auto e : {"", " dummy\n", " dummy\nx = *\n", " dummy\n db 1\n", " if 1\n db 2\n endc", "* = $5000\n"}) J.now(Prog(FORMAT + "* = $100\n" + t + e), "", s.size());
  });
  cx.bound(fmt("all sequences up to %d of %zu events (emissions of 1/15/16/17 bytes, 6 origin moves, DUMMY, CODE, label), with seven ends", depth, ev.size()));
  // 5. the same from a DUMMY or from code inside macros, conditionals and includes
  Strs in = {" db 1,2", " m", " include \"i\"", " dummy", " code", "* = $200", " if 1", " endc", " if 0"};
  sequences(in.size(), 4, [&](const vector<int>& s) {
    if (!cx.mine()) return;
    Prog p(FORMAT + "m macro\n db $AA,$BB\n endm\n* = $100\n" + text(in, s) + " db 9\n");
    p.add("i", " dw $1122\n db $CC");
    J.now(p, "", s.size());
  });
  cx.bound("all sequences of 4 of 9 statements with a macro, an include file and conditionals");
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
