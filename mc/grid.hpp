// Every form of statement (label, directive or instruction, kind of operand, comment), and every pair of forms, in
// every context of mix.hpp.
#pragma once

struct Form { string ids, cpu, text, defs; };      // text: without its label; '@' is the statement's own letter; \x02 before a line that takes the label

inline const vector<Form>& forms() {
  static const vector<Form> v = [] {
    vector<Form> r;
    // operands: constants of each width, symbols defined before and after, equated and position, undefined, *, quoted, composed
    const Strs E = {"5", "300", "$12345", "-1", "*", "fw", "bk", "u", "'a'", "bk+fw", "gl", "lo(fw)|1", "'\\''-fw"};
    auto add = [&](const string& ids, const string& text, const string& cpu = "", const string& defs = "") { r.push_back({ids, cpu, text, defs}); };
    for (auto& e : E) {
      add("C09 C29 C01 C02", "db " + e); add("C09 C29 C07", "dw " + e); add("C09 C08", "dl " + e); add("C09", "ddb " + e);
      add("C09 C25", "ds " + e); add("C10 C11 C20", "@x = " + e); add("C11 C20 C18 C12", "@x equ " + e);
      add("C13", "if " + e + "\n db 1\n else\n db 2\n endc"); add("C13", "if 5<" + e + "\n db 1\n endc"); add("C13 C16", "if " + e + "\n nosuch\n endc");
      add("C25 C01 C02", "\x03* = " + e); add("C21", "skip " + e); add("C21 C19", "page " + e + ",80"); add("C21", "page 40," + e);
      add("C14 C12 C18", "mm " + e); add("C14", "mm 1," + e + ",3"); add("C16 C14", "mq " + e);
      add("C03 C29", "lda #" + e, "6502"); add("C03 C29", "sta " + e, "6502"); add("C03 C29", "ora " + e + ",x", "6502"); add("C03", "jmp (" + e + ")", "6502"); add("C03", "cmp (" + e + "),y", "6502"); add("C06", "bne " + e, "6502"); add("C03", "ldx " + e + ",y", "6502"); add("C03", "lda \x04" + e, "6502"); add("C03", "trb " + e, "65c02"); add("C03", "jmp (" + e + ",x)", "65c02");
      add("C04 C29", "ldaa #" + e, "6801"); add("C04", "ldx #" + e, "6801"); add("C04", "staa " + e, "6801"); add("C04 C29", "adda " + e + ",x", "6801"); add("C04", "jsr " + e, "6801"); add("C06", "bra " + e, "6801"); add("C04", "std " + e, "6801"); add("C04", "inc " + e, "6801");
      add("C05 C29", "ld b," + e, "z80"); add("C05", "ld hl," + e, "z80"); add("C05", "ld a,(" + e + ")", "z80"); add("C05", "ld (" + e + "),ix", "z80"); add("C05 C29", "ld (ix+" + e + "),5", "z80"); add("C05", "ld (iy-1)," + e, "z80"); add("C05 C29", "and (ix+" + e + ")", "z80"); add("C06", "jr nz," + e, "z80"); add("C06", "djnz " + e, "z80"); add("C05 C29", "bit " + e + ",c", "z80"); add("C05 C29", "rst " + e, "z80"); add("C05", "call m," + e, "z80"); add("C05 C29", "out (" + e + "),a", "z80"); add("C05 C29", "im " + e, "z80"); add("C05 C29", "set 3,(iy+" + e + ")", "z80");
    }
    for (auto t : {"db 1,2,fw", "db 1,,2", "db", "dw fw,bk,u", "dl 1,2", "ddb fw,3", "db 'a,b',\";\"", "db 1,u,3", "dw 70000,1", "db 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"}) add("C09 C18 C01 C02", t);
    for (auto t : {"ds 3,fw", "ds 20,300", "ds 17", "ds 3,u", "ds 0", "ds bk,bk", "ds", "ds 1,2,3"}) add("C09 C25 C29", t);
    for (auto t : {"asc 'text'", "asc 'a;b'", "asc \"it's\"", "asc 'a\\n\\0'", "asc ''", "asc 'open", "asc x", "align even", "align odd", "align 3"}) add("C09 C28", t);
    for (auto t : {"code", "dummy", "code 1"}) add("C25 C12", t);
    for (auto t : {"list off", "list on", "clist off", "clist on", "mlist on", "mlist off", "ilist on", "ilist off", "list", "list x"}) add("C19 C18", t);
    for (auto t : {"page", "nam a title", "nam", "skip 0", "skip 3", "skip 40", "page 0,60", "page 10,39", "page 9,80", "page 20"}) add("C21 C19", t);
    for (auto t : {"fail a text", "fail", "nosuch 1", "nosuch", "5", "= 3", "x y z"}) add("C16 C17", t);
    for (auto t : {"if 0\n nosuch\n if 1\n endc\n else\n db 1\n endc", "if 1=1\n db 1\n endc", "if bk<>fw\n db 1\n else\n db 2\n endc", "if 'a'='b'\n endc", "endc", "else", "if", "if 1\n if 0\n else\n db 3\n endc\n db 4\n endc"}) add("C13", t);
    for (auto t : {"endm", "exitm", "macro", "mm", "mm 1,2,3,4,5,6,7,8,9", "mm 1,2,3,4,5,6,7,8,9,10", "mm (1,2),'a,b'", "mm x y, z", "mm ,", "mn 2", "ml q@", "ms"}) add("C14 C16", t);
    for (auto t : {"include inc", "include inc2", "include inc4", "include inc3\n inm 5", "include 'inc4'"}) add("C15", t);
    for (auto t : {"", "; only a comment"}) add("C11 C28 C12", t);
    for (auto t : {"cpu 6502", "cpu z80", "cpu nosuch"}) add("C26", t);
    for (auto t : {"nop", "asl", "asl a", "lda (5,x)", "lda (5),y", "sta #5", "lda a", "rts x", "bne *+129", "bne *+130", "beq *-126", "beq *-127", "inc"}) add("C03 C06", t, "6502");
    for (auto t : {"nop", "mul", "ldaa x", "ldaa ,x", "staa #5", "bsr *+129", "bsr *+130", "bra *-126", "bra *-127", "abx 5"}) add("C04 C06", t, "6801");
    for (auto t : {"nop", "ldir", "ex af,af'", "ex de,hl", "ld a,i", "ld sp,ix", "ld (hl),(hl)", "add hl,de", "add ix,ix", "inc (iy+1)", "push af", "pop sp", "in b,(c)", "jp (iy)", "ret pe", "jr po,*", "djnz *+129", "djnz *+130", "neg", "sub a,b"}) add("C05 C06 C26", t, "z80");
    // names which the statements of a pair have in common
    for (auto t : {"rr = 1", "rr equ fw", "rr db 1", "rr", "rr = rr+1", ".rr = 2", ".rr db 1", "rr macro\n db 8\n endm", "fw = 1", "bk equ 4", "bk db 1", "gl"}) add("C11 C12 C10 C20", string("\x03") + t);
    for (auto t : {"db rr", "dw .rr", "rr 1", "mm .rr", "dw fw,gl,bk", "if rr\n db 1\n endc"}) add("C11 C12 C10 C20", t);
    for (auto t : {"if 1<<2\n db 1\n endc", "if bk>>1\n db 1\n else\n db 2\n endc", "if 1<<3>4\n db 1\n endc", "if 5<1<<3\n db 1\n endc", "if 256>>2<>64\n db 1\n else\n db 2\n endc", "if fw>=4\n db 1\n endc", "if 'a;b'\n endc", "if (1=1)\n db 1\n endc", "if bk>bk\n nosuch\n else\n db 1\n endc"}) add("C13 C28 C07", t);
    // operands which instructions do not have
    for (auto t : {"srl r", "sla bc", "rl af", "rrc 5", "inc af", "dec (bc)", "bit 8,b", "res -1,b", "set 1,bc", "bit b", "ex af,bc", "ex hl,de", "ex (sp),bc", "in a,b", "in (c),b", "out a,(5)", "out (c),hl", "call x,5", "call 5,nz", "im 3", "im 0", "push i", "push a", "ld a,af", "ld af,5", "ld (bc),b", "ld i,b", "ld r,a", "ld sp,bc", "ld (sp),hl", "ret q", "ret 5", "jp (bc)", "jp (ix+1)", "jp po", "jr p,*", "add b,c", "add hl,ix", "add ix,hl", "adc hl,sp", "sbc ix,bc", "cp bc", "and a,b", "rst 9", "neg 5", "ldir a", "halt b", "djnz", "ld", "ld a", "ld a,b,c", "inc"}) add("C05 C26", t, "z80");
    for (auto t : {"nop 5", "lda", "sta", "lda x", "lda #5,x", "lda (5,y)", "lda (5),x", "lda 5,z", "jmp #5", "jmp (5),y", "jsr (5)", "stx 5,x", "sty 5,y", "ldx 5,x", "cpx 5,x", "asl #5", "asl x", "bit 5,x", "bne", "bne #5", "stz 5", "bra *", "phx", "lda (5)", "inc a", "rol a,5"}) add("C03 C26", t, "6502");
    for (auto t : {"stz #5", "stz 5,y", "tsb 5,x", "bit 5,y", "lda (5)", "phx", "bra *+2", "inc", "dec a", "jmp (5,x)", "jmp (5,y)", "rmb0 5", "stp"}) add("C03 C26", t, "65c02");
    for (auto t : {"nop 5", "ldaa", "ldaa #", "ldaa 5,y", "ldaa #5,x", "staa #300", "std #5", "jsr #5", "bra", "bra #5", "clr #1", "cpx", "neg #5", "psha 5", "lda 5", "xgdx", "mul 5", "tap"}) add("C04 C26", t, "6801");
    return r;
  }();
  return v;
}

template <class F> void grid(Cx& cx, const string& id, F judge, const vector<vector<string>>& opts, bool all = false, int thin = 1) {
  const auto& fs = forms();
  const Strs cpus = {"", "6502", "6801", "z80", "65c02"};
  static const Strs labels = {"", "@l", ".@l"}, comments = {"", " ; c", "\t;x"};
  vector<int> mine; for (size_t i = 0; i < fs.size(); i++) if (all || (fs[i].ids + " ").find(id + " ") != string::npos) mine.push_back(i);
  auto stmt = [&](const Form& f, int lab, int com, char c) {
    string t = f.text, l = labels[lab];
    if (t[0] == '\x03') t = t.substr(1);                                 // *: a name itself
    else if (t[0] == '@' && t[1] == 'x') { if (lab == 2) t = "." + t; }   // its label is its name
    else t = l + " " + t;
    size_t nl = t.find('\n'); if (t.find(';') == string::npos || nl != string::npos) t.insert(nl == string::npos ? t.size() : nl, comments[com]);
    return replaced(replaced(t + "\n", "@", string(1, c)), "\x04", "@");
  };
  auto program = [&](const string& cpu, const string& body, int c1, int c2, int k, size_t o, int set = 0) {
    Mixed m{"", body, "", {}};
    if (c2) m = in_context(c2, m, 2);
    m = in_context(c1, m, 1);
    m.defs = (cpu.empty() ? "" : " cpu " + cpu + "\n") + string(k & 1 ? "bk = 7\n" : "bk db 3\n") + "mm macro\n db \\1,\\#\n.m dw .m\n endm\nmq macro\n dw \\1\n if \\1\n exitm\n endc\n db 9\n endm\nmn macro\n if \\1\n mm \\1,\\*\n endc\n endm\nml macro\n\\1 = 4\nx\\1 db \\1\n endm\nms macro\n endm\n" + m.defs;
    m.tail = string(k & 2 ? "fw = 9\n" : "fw db 4\n") + string(k & 4 ? "gl = 700\n" : "gl db 5\n") + m.tail;
    return mixed_program(m, opts[o % opts.size()], set);
  };
  auto build = [&](const string& cpu, const string& body, int c1, int c2, int k, size_t o, int set) { judge(program(cpu, body, c1, c2, k, o, set), 4); };
  const int C = n_contexts();
  size_t n = 0;
  vector<bool> bad; for (auto& f : fs) bad.push_back(ref::assemble(program(f.cpu, stmt(f, 0, 0, 'p'), 0, 0, 0, 0), "").errors);
  // every form, with and without label and comment, in every context
  for (int i : mine) for (int lab = 0; lab < 3; lab++) for (int com = 0; com < 3; com++) for (int c1 = 0; c1 < C; c1++) for (int c2 = 0; c2 < (cx.thorough ? C : 1); c2++) for (int set = 0; set < n_settings(); set++) {
    n++;
    if (c2 && (c1 + c2 + i) % n_settings() != set) continue;
    if (thin > 1 && n % thin) continue;
    if (!cx.thorough && (i + lab + com + c1 + set / 2) % (set ? 9 : 3)) continue;
    if (cx.mine()) build(fs[i].cpu.empty() ? cpus[(i + c1) % 4] : fs[i].cpu, stmt(fs[i], lab, com, 'p'), c1, c2, i + lab * 3 + c1, i + c1 + c2 * 5 + lab + com + set, set);
  }
  // every pair of forms, in a context each
  for (int i : mine) for (size_t j = 0; j < fs.size(); j++) for (int la = 0; la < 3; la++) for (int lb = 0; lb < 3; lb++) for (int sw = 0; sw < 2; sw++) {
    if (!fs[i].cpu.empty() && !fs[j].cpu.empty() && fs[i].cpu != fs[j].cpu) continue;
    n++;
    if (thin > 1 && n % thin) continue;
    if ((i + j * 5 + la + lb * 2 + sw * 3) % ((bad[i] || bad[j] ? 32 : 4) / (cx.thorough ? 4 : 1))) continue;      // fewer of those with errors
    if (!cx.mine()) continue;
    size_t h = i * 31 + j * 7 + la * 3 + lb * 5 + sw;
    string cpu = !fs[i].cpu.empty() ? fs[i].cpu : !fs[j].cpu.empty() ? fs[j].cpu : cpus[h % 4];
    string a = stmt(fs[i], la, h % 3, 'p'), b = stmt(fs[j], lb, h / 3 % 3, 'q');
    build(cpu, sw ? b + a : a + b, h % C, 0, h, h / C, h / 11 % (2 * n_settings()) < (size_t)n_settings() ? h / 11 % n_settings() : 0);
  }
  cx.bound(fmt("%zu forms of statement with and without label and comment in %d contexts%s after %d set-ups; each followed and preceded by each of %zu forms%s", mine.size(), C, cx.thorough ? " within one another" : "", n_settings(), fs.size(), thin > 1 ? " (thinned)" : ""));
}
