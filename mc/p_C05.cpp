// Z80: every mnemonic x every operand (pair) x displacement / immediate values.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C05";
const char* RULE = "a program is CPU Z80 + equates + one instruction with up to three operands (or a batch of accepted ones); distinct = different code or report";

void explore(Cx& cx) {
  Judge J(cx, O_CODE | O_DIAG);
  Strs mns = ref::isa(2);
  const string head = " cpu z80\n* = $1000\nvz = $12\nvw = $1234\nb3 = 3\n";
  const string tail = "vf = $34\n";
  auto prog = [&](const string& s) { return Prog(head + "loop " + s + "\n db $EE\n" + tail); };
  J.keyer = [](const Prog& p) {
    string t = p.files[0].second;
    for (char& c : t) c = tolower(c);
    if (t.find("loop cpdr\n") != string::npos || t.find("loop cpdr \n") != string::npos) return string("cpdr");   // encoded ED89 instead of EDB9
    return p.files[0].second;
  };
  Strs ops = {"b", "c", "d", "e", "h", "l", "a", "bc", "de", "hl", "sp", "ix", "iy", "af", "af'", "i", "r", "f", "(hl)", "(bc)", "(de)", "(sp)", "(ix)", "(iy)", "(ix+5)", "(iy-5)", "(c)", "(vz)", "(vw)", "(a)", "(b)",
              "nz", "z", "nc", "po", "pe", "p", "m", "0", "1", "2", "3", "7", "8", "$38", "$12", "vw", "*", "loop", "(ix+vf)"};
  Strs more = {"(ix+127)", "(ix-128)", "(iy+vz)", "(ix+b3+1)", "(ix-b3-1)", "( hl )", "( ix + 5 )", "HL", "(HL)", "A", "(IX+5)", "B", "(iy+0)", "255", "-1", "-128", "$FFFF", "vf", "(vf)", "(vw+1)", "(2)+3", "(2)*(3)", "((hl))", "(hl", "hl)", "", "'A'", "(ix*5)", "(ix5)", "(5+ix)", "ix+5", "(hl+1)", "b\\c", "(i)", "(af)", "lo(vw)", "hi(vw)", "a,b", "d e"};
  // ---- 1. no operand, one operand, two operands
  Strs all = ops; all.insert(all.end(), more.begin(), more.end());
  for (auto& m : mns) { J(prog(m)); J(prog(m + " ")); for (auto& a : all) J(prog(m + " " + a)); }
  Judge B(cx, O_ALL);
  for (auto& m : mns) for (auto& a : all) {
    if (!cx.mine()) continue;
    Strs ls; for (auto& b : all) ls.push_back(" " + m + " " + a + "," + b);
    Strs good = accepted(head + "loop\n", ls, tail);
    if (m != "CPDR") B.now(Prog(head + "loop\n" + join(ls, "\n") + "\n" + tail), m + " " + a + ",...", ls.size());
    if (good.size()) J.now(Prog(head + "loop\n" + join(good, "\n") + "\n" + tail), m + " " + a + ",... accepted", good.size());
  }
  cx.bound(fmt("%zu mnemonics x (none, %zu operands, %zux%zu operand pairs)", mns.size(), all.size(), all.size(), all.size()));
  // ---- 2. three operands and blanks
  for (auto& m : mns) for (auto& a : {"a", "hl", "b", "(hl)", "0", "nz"}) for (auto& b : {"a", "hl", "5"}) for (auto& c : {"b", "5", ""}) J(prog(m + " " + a + "," + b + "," + c));
  for (auto& m : mns) for (auto& o : {"a , b", "a ,b", "( hl ) , a", "hl , ( vw )", "3 , ( ix + 5 )", "a , ( ix - 5 )", "nz , loop", "( ix + 5 ) , 7", "( c ) , a", "a , ( c )", "de , hl", "af , af'", "( sp ) , ix", "A,B", "(Ix+5),A", "NZ,loop"}) J(prog(m + " " + o));
  cx.bound("three operands; blanks and capitals in operands");
  // ---- 3. every displacement, every bit number, every immediate, every restart vector and mode
  Strs dform = {"ld a,(ixD)", "ld (ixD),a", "ld (iyD),5", "add a,(iyD)", "sbc a,(ixD)", "cp (ixD)", "inc (iyD)", "dec (ixD)", "rl (ixD)", "srl (iyD)", "bit 3,(ixD)", "set 7,(iyD)", "res 0,(ixD)", "ld b,(iyD)", "ld (ixD),l"};
  for (auto& fm : dform) {
    if (!cx.mine()) continue;
    string t = head;
    for (int d = -128; d <= 127; d++) { t += " "; for (char c : fm) if (c == 'D') t += d < 0 ? fmt("%d", d) : fmt("+%d", d); else t += c; t += "\n"; }
    J.now(Prog(t + tail), fm, 256);
  }
  for (int d = -200; d <= 200; d++) for (auto& fm : dform) {
    string t; for (char c : fm) if (c == 'D') t += d < 0 ? fmt("-%d", -d) : fmt("+%d", d); else t += c;
    if (d < -127 || d > 126) J(prog(t));
  }
  Strs iform = {"ld a,N", "ld b,N", "ld (hl),N", "ld (ix+1),N", "add a,N", "adc a,N", "sbc a,N", "sub N", "and N", "xor N", "or N", "cp N", "in a,(N)", "out (N),a", "ld bc,N", "ld de,N", "ld hl,N", "ld sp,N", "ld ix,N", "ld iy,N",
                "ld a,(N)", "ld (N),a", "ld bc,(N)", "ld de,(N)", "ld hl,(N)", "ld sp,(N)", "ld ix,(N)", "ld iy,(N)", "ld (N),bc", "ld (N),de", "ld (N),hl", "ld (N),sp", "ld (N),ix", "ld (N),iy", "jp N", "jp nz,N", "call N", "call m,N"};
  int top = cx.thorough ? 65536 : 1024;
  for (auto& fm : iform) for (int from = 0; from < top; from += 256) {
    if (!cx.mine()) continue;
    string t = head;
    for (int v = from; v < from + 256; v++) { t += " "; for (char c : fm) if (c == 'N') t += fmt("%d", v); else t += c; t += "\n"; }
    J.now(Prog(t + tail), fm, 256);
  }
  cx.bound(fmt("%zu indexed forms x all displacements -200..200; %zu forms x every value below %d", dform.size(), iform.size(), top));
  for (int v = -2; v <= 300; v++) { J(prog(fmt("rst %d", v))); J(prog(fmt("im %d", v))); for (auto& m : {"bit", "set", "res"}) for (auto& r : {"a", "(hl)", "(ix+1)"}) J(prog(fmt("%s %d,%s", m, v, r))); }
  cx.bound("rst, im, bit, set, res with every number -2..300");
  // ---- 4. ordered pairs of accepted instructions
  Strs valid;
  for (auto& m : mns) {
    Strs cand = {m};
    for (auto& a : ops) cand.push_back(m + " " + a);
    for (auto& a : ops) for (auto& b : ops) cand.push_back(m + " " + a + "," + b);
    for (auto& c : cand) c = " " + c;
    if (m != "CPDR" && m != "DJNZ" && m != "JR") for (auto& c : accepted(head, cand, tail)) valid.push_back(c);
  }
  valid.push_back(" jr *"); valid.push_back(" djnz *+2"); valid.push_back(" jr nz,*-5");
  int stride = cx.thorough ? 3 : 29;
  for (size_t i = 0; i < valid.size(); i++) {
    if (!cx.mine()) continue;
    string t = head; int n = 0;
    for (size_t j = i % stride; j < valid.size(); j += stride, n++) t += valid[i] + "\n" + valid[j] + "\n";
    J.now(Prog(t + tail), "pairs" + valid[i], n);
  }
  cx.bound(fmt("ordered pairs of the %zu accepted instruction forms, one in %d", valid.size(), stride));
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
