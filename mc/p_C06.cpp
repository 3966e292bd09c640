// Relative branches: every branch instruction x every distance x way of naming the target x place.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C06";
const char* RULE = "a program has one branch (or a batch) and its target; distinct = different code or report";

void explore(Cx& cx) {
  Judge J(cx, O_CODE | O_DIAG | O_COUNTS);
  // an independent statement of the property itself, besides the reference
  J.extra = [](const Prog& p, const ref::Out&, const Result& r, Fails& f) {
    size_t k = p.files[0].second.find("; distance ");
    if (k == string::npos) return;
    int d = atoi(p.files[0].second.c_str() + k + 11);
    bool in = d >= -128 && d <= 127;
    if (in != ref::says_success(r.out)) f.add(p.files[0].second, fmt("a branch over %d bytes was %s", d, in ? "refused" : "accepted"));
  };
  struct Br { string cpu, ins; };
  vector<Br> br;
  for (auto c : {"6500", "6502", "65c02"}) for (auto m : {"bpl", "bmi", "bvc", "bvs", "bcc", "bcs", "bne", "beq", "bhi", "blo", "bgt", "ble", "bra"}) if (string(m) != "bra" || string(c) == "65c02") br.push_back({c, m});
  for (auto c : {"6800", "6801", "6803"}) for (auto m : {"bra", "brn", "bhi", "bls", "bcc", "bcs", "bne", "beq", "bvc", "bvs", "bpl", "bmi", "bge", "blt", "bgt", "ble", "bsr"}) if (string(m) != "brn" || string(c) != "6800") br.push_back({c, m});
  for (auto m : {"jr", "djnz", "jr nz,", "jr z,", "jr nc,", "jr c,", "JR NZ ,"}) br.push_back({"z80", m});
  vector<int> dist;
  for (int d = -140; d <= 140; d++) dist.push_back(d);
  for (int d : {-32768, -32767, -1000, -400, -384, -383, -300, -257, -256, -255, -200, 200, 255, 256, 257, 300, 383, 384, 400, 1000, 32767, 32768, 65408, 65535, 65536, 65534, -65536, -65535, -65408, 16777216, -16777216}) dist.push_back(d);
  // 1. every branch, every distance, target as an expression on *, as a number and as an equate
  for (auto& b : br) for (int d : dist) {
    string h = " cpu " + b.cpu + "\n";
    J(Prog(h + "* = $20000\n nop\n " + b.ins + fmt(" *%+d\n ; distance %d\n nop\n", d + 2, d)), "", 2);
    J(Prog(h + "* = $20000\n " + b.ins + fmt(" %d\n ; distance %d\n", 0x20000 + 2 + d, d)), "", 2);
    J(Prog(h + fmt("t = $20000+2%+d\n* = $20000\nhere ", d) + b.ins + fmt(" t\n ; distance %d\n", d)), "", 2);
  }
  cx.bound(fmt("%zu branch instructions x %zu distances x 3 ways to write the target", br.size(), dist.size()));
  // 2. labels before and after the branch, at several places, with code or DUMMY around
  vector<u64> at = {0, 0x80, 0x1000, 0x7FC0, 0xFF00, 0xFFF0, 0x1FFF0};
  Strs sect = {"", " dummy\n"};
  for (auto& b : br) for (u64 a : at) for (auto& s : sect) for (int d : dist) {
    if (d < -400 || d > 400) continue;
    bool full = b.ins == "bne" || b.ins == "bsr" || b.ins == "jr" || b.ins == "djnz";
    if (!full && !cx.thorough && (d > -126 && d < 125)) continue;
    string h = " cpu " + b.cpu + "\n" + s + fmt("* = $%llX\n", (unsigned long long)a);
    if (d >= 0) J(Prog(h + "here " + b.ins + fmt(" t\n ; distance %d\n ds %d\nt nop\n", d, d)), "", 3);
    if (d <= -2) J(Prog(h + fmt("t ds %d\nhere ", -d - 2) + b.ins + fmt(" t\n ; distance %d\n nop\n", d)), "", 3);
  }
  cx.bound(fmt("%zu branch instructions x backward and forward labels x %zu places x CODE and DUMMY x distances to +-400%s", br.size(), at.size(), cx.thorough ? "" : " (all of them for bne, bsr, jr, djnz; the limits for the others)"));
  // 3. branches whose distance depends on what lies between: instructions of every size, macros, includes, locals
  struct Fam { string cpu, b; Strs fill; };
  vector<Fam> fam = {{"6502", "bne", {" nop", " lda #1", " lda $12", " lda $1234", " lda fw", " db 1,2,3", " ds 120", " ds 121", " asc \"abc\"", " m", " include \"i\"", " beq u"}},
                     {"6801", "bsr", {" nop", " ldaa #1", " ldaa $12", " ldaa $1234", " ldaa fw", " db 1,2,3", " ds 120", " ds 121", " asc \"abc\"", " m", " include \"i\"", " beq u"}},
                     {"z80", "jr nz,", {" nop", " ld a,1", " ld (ix+1),2", " ld hl,fw", " bit 1,(iy+1)", " db 1,2,3", " ds 120", " ds 121", " asc \"abc\"", " m", " include \"i\"", " djnz u"}}};
  for (auto& f : fam) sequences(f.fill.size(), cx.thorough ? 4 : 3, [&](const vector<int>& s) {
    for (int dir = 0; dir < 3; dir++) {
      if (!cx.mine()) continue;
      string body = text(f.fill, s);
      string t = " cpu " + f.cpu + "\nm macro\n nop\n nop\n endm\n* = $80\nu nop\n";
      if (dir == 0) t += " " + f.b + " t\n" + body + "t nop\n";
      else if (dir == 1) t += "t nop\n" + body + " " + f.b + " t\n";
      else t += " code\n " + f.b + " .t\n" + body + ".t nop\n " + f.b + " .t\n code\n" + body + ".t nop\n " + f.b + " .t\n";
      Prog p(t + "fw = $12\n");
      p.add("i", " nop\n nop\n nop");
      J.now(p, "", s.size() + 2);
    }
  });
  cx.bound(fmt("3 processors x all sequences of %d of 12 statements between branch and target x forward, backward, local", cx.thorough ? 4 : 3));
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
