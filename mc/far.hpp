// Every operand position with values around every power of two of both signs, and with every kind of thing that a
// name can stand for.
#pragma once

struct Slot { string ids, cpu, text; bool one; };     // N: the operand; one: a program each

inline const vector<Slot>& slots() {
  static const vector<Slot> v = [] {
    vector<Slot> r;
    auto add = [&](const string& ids, const string& cpu, const Strs& t, bool one = false) { for (auto& x : t) r.push_back({ids, cpu, x, one}); };
    add("C09 C29", "", {"db N", "dw N", "dl N", "ddb N", "db 1,N,2", "dw N,N", "ddb 0,N"});
    add("C09 C25 C29", "", {"ds 2,N"}); add("C09 C25 C21", "", {"align N"}, true); add("C25 C01 C02", "", {"* = N"}, true); add("C25 C09", "", {"ds N"}, true);
    add("C21 C19", "", {"skip N", "page N", "page N,80", "page 40,N"}, true);
    add("C13", "", {"if N\n db 1\n else\n db 2\n endc", "if N>5\n db 1\n endc", "if 5>=N\n db 1\n endc", "if N<>7\n db 1\n endc", "if N=N\n db 1\n endc", "if 0<N\n nosuch\n endc", "if fw<N\n endc"});
    add("C11 C07 C20", "", {"@x = N", "@x equ N", "@x = N+1\n dl @x", ".@x = N"}); add("C14 C12", "", {"mm N", "mq N", "mm (N),N"}); add("C16", "", {"fail N", "code N", "list N", "nam N", "endm N", "exitm N", "asc N", "output N"});
    add("C07", "", {"dl -(N)", "dl ~N", "db lo(N)", "db hi(N)", "dl N+3", "dl 3-N", "dl N*N", "dl N/7", "dl N\\7", "dl 1|N", "dl N&255", "dl 9^N", "dl N<<1", "dl N>>3", "db hi(0-N)", "dl (N)*(0-N)"});
    add("C03 C29", "6502", {"lda #N", "lda N", "ldx N,y", "sta N,x", "lda N,y", "lda (N,x)", "lda (N),y", "jmp (N)", "jsr N", "sta @N", "ldy @N,x", "asl N", "rts N"}); add("C03", "65c02", {"lda (N)", "jmp (N,x)", "stz N", "bit #N", "tsb N", "inc N"});
    add("C06", "6502", {"bne N", "bcs *+N"}); add("C06", "6801", {"bra N", "bsr *+N"}); add("C06", "z80", {"jr N", "djnz *+N", "jr nc,N"}); add("C06", "65c02", {"bra N"});
    add("C04 C29", "6801", {"ldaa #N", "ldaa N", "ldaa N,x", "ldx #N", "std N", "jsr N,x", "clr N", "jmp N", "subd #N", "staa N", "stx N,x", "cpx N", "tsta N"});
    add("C05 C29", "z80", {"ld a,N", "ld (hl),N", "ld b,(ix+N)", "ld (iy-N),c", "ld (ix+N),5", "ld (ix+5),N", "ld hl,N", "ld ix,N", "ld a,(N)", "ld (N),sp", "ld de,(N)", "add a,N", "cp N", "sub (iy+N)", "and N", "inc (ix+N)", "rl (ix-N)", "bit N,a", "set N,(hl)", "res N,(iy+3)", "bit 2,(ix+N)", "rst N", "im N", "in a,(N)", "out (N),a", "call N", "jp z,N", "ld N,a", "ld N,5", "ld (N),a", "ld (N),5", "inc N", "dec (N)", "push N", "ex N,hl", "ex (N),hl", "ret N", "jp (N)", "jp N,5", "add N,b", "adc hl,N", "xor N", "srl N", "in N,(c)", "out (c),N", "out (N),b"});
    return r;
  }();
  return v;
}

template <class F> void far(Cx& cx, const string& id, F judge_, bool all = false, int thin = 1) {
  vector<Slot> mine; for (auto& s : slots()) if (all || id == "C16" || (s.ids + " ").find(id + " ") != string::npos) mine.push_back(s);      // C16: the operands of no sense everywhere
  if (mine.empty()) return;
  unsigned count = 0;
  auto judge = [&](const Prog& p, u64 n) { if (thin < 2 || count++ % thin == 0) judge_(p, n); };
  std::set<u64> vs;
  int d = cx.thorough ? 40 : 5;
  for (int k = 0; k < 33; k++) for (int i = -d; i <= d; i++) { vs.insert(((1ULL << k) + i) & 0xffffffffULL); vs.insert((0 - (1ULL << k) + i) & 0xffffffffULL); }
  for (u64 x : {0x12345678ULL, 0x80808080ULL, 0x7f7f7f7fULL, 0xffff00ffULL, 0xff00ffffULL, 0x00ff00ffULL, 0xaaaaaaaaULL, 0x55555555ULL, 0x100ffULL, 0x1ff00ULL, 0xfffeff00ULL}) vs.insert(x);
  const Strs things = {"hl", "a", "ix", "iy", "af", "bc", "i", "r", "c", "nz", "x", "y", "nop", "lda", "db", "if", "endm", "mm", "mq", "bt", "bf", "ra", "rw", "u", "fw", "fb", "gl", ".loc", ".nol", "*", "(hl)", "(ix+1)", "(bc)", "(sp)", "bt+1", "1+hl", "hl+ra", "nop+mm", "lo(hl)", "hi(bt)", "~hl", "-ra", "5{1}", "bk{2}", "u{1}", "bt{3}", "5{9}", "5{fw}", "hl{1}", "''", "'ab'", "'", "\"a\"", "(", ")", "()", "(5", "5)", "((5))", "1,2", ",", "1 2", "#5", "5,x", "$", "%", "0x5", "12h", "0ah", "%2", "$g", "1e", "9q", "7q", "101b", "$100000000", "5+", "+5", "5//2", "5/0", "0/0", "5\\0", "lo 5", "lo()", "!5", "5=5", "5;6", "';'", "mm+nop", "rw+5"};
  const string defs = "* = $1000\nbk = 3\nbt = 5{2}\nmm macro\n db \\#\n endm\nmq macro\n db 1\n endm\n.loc db 7\n", after = "fw = 9\nfb = fw\ngl db 8\n";
  auto batch = [&](const Slot& s, const Strs& ops, const string& pre, const string& post, const Strs& own = {}) {
    if (!s.one && !cx.mine()) return;
    string head = (s.cpu.empty() ? "" : " cpu " + s.cpu + "\n") + defs + pre, tail = post + after + "last dw last,*\n";
    Strs yes, no;
    auto line = [&](const string& o, int k) { string t = replaced(replaced(s.text, "N", o), "@", fmt("e%d", k)); return (s.text[0] == '*' || s.text[0] == '@' || s.text[0] == '.' ? "" : " ") + t; };
    int k = 0;
    for (auto& o : ops) {
      string l = line(o, k++);
      if (s.one) { if (cx.mine()) judge(Prog(head + l + "\n db 1,2\nl dw l\n" + tail), 1); continue; }
      if (thin > 1) { yes.push_back(l); continue; }      // these checks do not compare with the reference
      string h = head, z = tail;
      if (own.size()) { h = (s.cpu.empty() ? "" : " cpu " + s.cpu + "\n") + defs + (pre.empty() ? "" : own[k - 1]); z = (post.empty() ? "" : own[k - 1]) + after; }
      (ref::assemble(Prog(h + l + "\n" + z), "").errors ? no : yes).push_back(l);
    }
    for (auto* v : {&yes, &no}) for (size_t i = 0; i < v->size(); i += 40) {
      Strs part(v->begin() + i, v->begin() + std::min(v->size(), i + 40));
      judge(Prog(head + join(part, "\n") + "\n" + tail), part.size());
    }
  };
  for (auto& s : mine) {
    Strs lit, neg, sym;
    int k = 0;
    for (u64 v : vs) {
      if (id == "C16" && s.ids.find(id) == string::npos) break;
      if (s.text == "ds N" && v > 70000 && v < 0x80000000ULL) continue;
      bool few = s.one && !cx.thorough && k % 3;
      k++;
      if (few) continue;
      u64 m = (0 - v) & 0xffffffffULL;
      lit.push_back(k & 1 ? fmt("$%llX", v) : fmt("%llu", v)); if (m <= 0x80000000ULL) neg.push_back(fmt("(0-%llu)", m)); sym.push_back(fmt("w%d", k));
    }
    batch(s, lit, "", ""); batch(s, neg, "", "");
    size_t step = s.one ? 1 : 40;
    for (size_t i = 0; i < sym.size(); i += step) {
      if (s.one && i % 4) continue;
      Strs part(sym.begin() + i, sym.begin() + std::min(sym.size(), i + step)); Strs own;
      for (size_t q = i; q < i + part.size(); q++) own.push_back(sym[q] + " = " + lit[q] + "\n");
      string def = join(own, "");
      batch(s, part, def, "", own); batch(s, part, "", def, own);
    }
    for (auto cpu : {"", "6801", "6502", "65c02", "z80"}) if (s.cpu.empty() || s.cpu == cpu) { Slot t = s; t.cpu = cpu; batch(t, things, string(cpu) == "z80" ? "ra = hl\nrw = b\n" : "", ""); }
  }
  cx.bound(fmt("%zu operand positions x %zu values around the powers of two of both signs, written and as symbols known and forward, and x %zu other kinds of operand for each processor", mine.size(), vs.size(), things.size()));
}
