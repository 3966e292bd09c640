// 6800 family: every instruction x every operand shape x boundary values x processor.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C04";
const char* RULE = "a program is CPU + equates + one instruction with one operand (or a batch of accepted ones); distinct = different code or report";

void explore(Cx& cx) {
  Judge J(cx, O_CODE | O_DIAG);
  Strs cpus = {"6800", "6801", "6803"}, mns = ref::isa(1);
  const string head = "* = $1000\nz = $12\nw = $1234\n";
  const string tail = "f = $34\ng = $3456\n";
  Strs shapes = {"", "E", "#E", "E,x", "E,X", "E , x", ",x", " , X", "# E", "(E)", "E,y", "E,", "#", "#E,x", "(E),x", "((E))", "(E)+1", "1+(E)", "(E)*(2)", "(E)+1,x", "(E,x)", "E,x,x",
                 "E E", "a", "x", "b", "E)", "(E", "lo(E)", "lo(E),x", "#lo(E)", "#hi(E)", "hi(E)", "~E", "-E", "#-E", "#'A'", "'A'", "E{1}", "E+1,x", "E-1", "@E", "[E]", "<E", ">E", "E,a", "x,E", "#'A'+1", "','", "',',x"};
  Strs vals = {"z", "w", "$FF", "$100", "f"};
  if (cx.thorough) for (auto v : {"0", "g", "*", "$80", "$FFFF", "1", "z+w", "w-z"}) vals.push_back(v);
  for (auto& c : cpus) for (auto& m : mns) for (auto& sh : shapes) {
    bool has = sh.find('E') != string::npos;
    for (auto& v : vals) {
      if (!has && v != "z") continue;
      if (!cx.mine()) continue;
      string s; for (char ch : sh) if (ch == 'E') s += v; else s += ch;
      J.now(Prog(" cpu " + c + "\n" + head + "loop " + m + " " + s + "\n db $EE\n" + tail));
    }
  }
  cx.bound(fmt("3 processors x %zu mnemonics x %zu operand shapes x %zu operand values", mns.size(), shapes.size(), vals.size()));
  Strs modes = {"#E", "E", "E,x"};
  Strs edge = {"0", "1", "$7F", "$80", "$81", "$FE", "$FF", "$100", "$101", "$1FF", "$7FFF", "$8000", "$FEFF", "$FF00", "$FFFF", "%11111111", "0FFh", "'z'", "255", "256", "z*2", "w/256", "w&$FF", "f", "g", "f+1", "g-f", "*", "*-$1000", "*-$F10", "loop", "loop-*", "end", "end-loop"};
  for (auto& c : cpus) for (auto& m : mns) for (auto& sh : modes) for (auto& v : edge) {
    if (!cx.mine()) continue;
    string s; for (char ch : sh) if (ch == 'E') s += v; else s += ch;
    J.now(Prog(" cpu " + c + "\n" + head + "loop " + m + " " + s + "\nend db $EE\n" + tail));
  }
  cx.bound(fmt("3 processors x %zu mnemonics x %zu addressing modes x %zu boundary operands", mns.size(), modes.size(), edge.size()));
  Strs forms = {" ldaa #E", " ldab E", " ldx #E", " ldd #E", " addd E", " staa E,x", " ldx E,x", " std E", " jmp E", " jsr E", " jsr E,x", " neg E", " inc E,x", " cpx #E", " subd #E", " lds E", " tst E"};
  int top = cx.thorough ? 65536 : 1024;
  for (auto& fm : forms) for (int from = 0; from < top; from += 256) {
    if (!cx.mine()) continue;
    if (fm.find(",x") != string::npos && from) continue;
    string t = " cpu 6801\n* = $200\n";
    for (int v = from; v < from + 256; v++) { for (char ch : fm) if (ch == 'E') t += fmt("%d", v); else t += ch; t += "\n"; }
    J.now(Prog(t), fm, 256);
  }
  cx.bound(fmt("%zu forms x every operand value below %d", forms.size(), top));
  Strs valid;
  for (auto& m : mns) for (auto& sh : {"", "#z", "#w", "z", "w", "f", "z,x", ",x", "*"}) {
    Prog p(" cpu 6801\n" + head + " " + m + " " + sh + "\n" + tail);
    auto x = ref::assemble(p, "");
    if (!x.errors) valid.push_back(" " + m + " " + sh);
  }
  int stride = cx.thorough ? 1 : 7;
  for (size_t i = 0; i < valid.size(); i++) {
    if (!cx.mine()) continue;
    string t = " cpu 6801\n" + head;
    int n = 0;
    for (size_t j = i % stride; j < valid.size(); j += stride, n++) t += valid[i] + "\n" + valid[j] + "\n";
    J.now(Prog(t + tail), "pairs " + valid[i], n);
  }
  cx.bound(fmt("ordered pairs of the %zu accepted instruction forms%s", valid.size(), cx.thorough ? "" : ", one in 7"));
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
