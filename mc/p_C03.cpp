// 6502 family: every instruction x every operand shape x boundary values x processor.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C03";
const char* RULE = "a program is CPU + equates + one instruction with one operand (or a batch of accepted ones); distinct = different code or report";

void explore(Cx& cx) {
  Judge J(cx, O_CODE | O_DIAG);
  Strs cpus = {"6500", "6502", "65C02"}, mns = ref::isa(0);
  const string head = "* = $1000\nz = $12\nw = $1234\n";
  const string tail = "f = $34\ng = $3456\n";
  // ---- 1. shapes; E stands for the operand's expression
  Strs shapes = {"", "E", "#E", "E,x", "E,y", "(E)", "(E,x)", "(E),y", "@E", "@E,x", "@E,y", "a", "A", "E,X", "E , x", " ( E , X ) ", "( E ) , Y", "# E", "@ E", "@E ,Y",
                 "(E,y)", "(E),x", "x", "y", "s", "#", "#a", "(a)", "E,a", "E,", ",x", "(x)", "E,x,y", "#E,x", "((E))", "(E)+1", "1+(E)", "(E)*(2)", "(E)+1,x", "(E)+(1),y",
                 "E)", "(E", "(E,x", "E,x)", "(E),", "E E", "#(E)", "(E)+1,y", "((E)),y", "((E),x)", "(E+(1),x)", "lo(E)", "lo(E),x", "(lo(E)),y", "(lo(E),x)", "#lo(E)", "#hi(E)", "hi(E)", "~E", "-E", "#-E", "a,x", "#'A'", "'A'", "E{1}"};
  Strs vals = {"z", "w", "$FF", "$100"};
  if (cx.thorough) for (auto v : {"0", "f", "g", "*", "$80", "$FFFF", "1", "z+w", "w-z"}) vals.push_back(v);
  for (auto& c : cpus) for (auto& m : mns) for (auto& sh : shapes) {
    bool has = sh.find('E') != string::npos;
    for (auto& v : vals) {
      if (!has && v != "z") continue;
      if (!cx.mine()) continue;
      string s; for (char ch : sh) if (ch == 'E') s += v; else s += ch;
      J.now(Prog(" cpu " + c + "\n" + head + "loop " + m + " " + s + "\n db $EE\n" + tail));
    }
  }
  cx.bound(fmt("3 processors x %zu mnemonics x %zu operand shapes x %zu operand values", mns.size(), shapes.size(), vals.size()));
  // ---- 2. boundary values in every mode, known and forward, written in several ways
  Strs modes = {"#E", "E", "E,x", "E,y", "(E)", "(E,x)", "(E),y", "@E", "@E,x", "@E,y"};
  Strs edge = {"0", "1", "$7F", "$80", "$81", "$FE", "$FF", "$100", "$101", "$1FF", "$7FFF", "$8000", "$FEFF", "$FF00", "$FFFF", "%11111111", "0FFh", "'z'", "255", "256", "z*2", "w/256", "w&$FF", "f", "g", "f+1", "g-f", "*", "*-$1000", "*-$F10", "loop", "loop-*", "end", "end-loop"};
  for (auto& c : cpus) for (auto& m : mns) for (auto& sh : modes) for (auto& v : edge) {
    if (!cx.mine()) continue;
    string s; for (char ch : sh) if (ch == 'E') s += v; else s += ch;
    J.now(Prog(" cpu " + c + "\n" + head + "loop " + m + " " + s + "\nend db $EE\n" + tail));
  }
  cx.bound(fmt("3 processors x %zu mnemonics x %zu addressing modes x %zu boundary operands", mns.size(), modes.size(), edge.size()));
  // ---- 3. every value in every mode, in batches (only forms that are accepted)
  Strs forms = {" lda #E", " lda E", " ldx E", " ldy #E", " sta E,x", " lda E,y", " ldx E,y", " stx E,y", " lda (E,x)", " lda (E),y", " jmp (E)", " jmp E", " jsr E", " asl E", " inc E,x", " bit E", " lda (E)", " jmp (E,x)", " stz E", " tsb E", " bit E,x", " sta @E", " lda @E,y"};
  int top = cx.thorough ? 65536 : 1024;
  for (auto& fm : forms) for (int from = 0; from < top; from += 256) {
    if (!cx.mine()) continue;
    string t = " cpu 65c02\n* = $200\n";
    bool narrow = fm.find("(E),y") != string::npos || fm.find("@E,y") != string::npos || fm == " stx E,y" || (fm.find("(E,x)") != string::npos && fm.find("jmp") == string::npos) || fm == " lda (E)" || fm == " sta @E" ;
    if (narrow && from) continue;
    for (int v = from; v < from + 256; v++) { for (char ch : fm) if (ch == 'E') t += fmt("%d", v); else t += ch; t += "\n"; }
    J.now(Prog(t), fm, 256);
  }
  cx.bound(fmt("%zu forms x every operand value below %d", forms.size(), top));
  // ---- 4. ordered pairs of instructions: nothing is carried over from one line to the next
  Strs valid;
  for (auto& m : mns) for (auto& sh : {"", "#z", "z", "w", "f", "z,x", "w,x", "z,y", "w,y", "(w)", "(z)", "(z,x)", "(z),y", "*"}) {
    Prog p(" cpu 65c02\n" + head + " " + m + " " + sh + "\n" + tail);
    if (!ref::assemble(p, "").errors) valid.push_back(" " + m + " " + sh);
  }
  int stride = cx.thorough ? 1 : 7;
  for (size_t i = 0; i < valid.size(); i++) {
    if (!cx.mine()) continue;
    string t = " cpu 65c02\n" + head;
    int n = 0;
    for (size_t j = i % stride; j < valid.size(); j += stride, n++) t += valid[i].back() == '*' || valid[j].back() == '*' ? valid[i] + "\n" + valid[j] + "\n" : valid[i] + "\n" + valid[j] + "\n";
    J.now(Prog(t + tail), "pairs " + valid[i], n);
  }
  cx.bound(fmt("ordered pairs of the %zu accepted instruction forms%s", valid.size(), cx.thorough ? "" : ", one in 7"));
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
