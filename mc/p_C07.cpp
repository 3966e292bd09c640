// Expressions: all token strings up to a length, all operator combinations with boundary operands,
// all placements of parentheses and unary operators, in all contexts.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C07";
const char* RULE = "a case is a batch of expressions in one statement form; distinct = different code or listing";

static const int BATCH = 120;
struct Batcher {
  Cx& cx; Judge& J; string head, form, tail; Strs ls; u64 n = 0;
  Batcher(Cx& c, Judge& j, string h, string f, string t) : cx(c), J(j), head(h), form(f), tail(t) {}
  void add(const string& e) { ls.push_back(e); if (ls.size() >= BATCH) flush(); }
  void flush() {
    if (ls.empty()) return;
    n += ls.size();
    if (cx.mine()) {
      Strs l; for (auto& e : ls) { string s; for (char c : form) if (c == '@') s += e; else s += c; l.push_back(s); }
      int base = std::count(head.begin(), head.end(), '\n');
      // expressions whose value needs more than 32 bits on the way are left out
      ref::Out x = ref::assemble(Prog(head + join(l, "\n") + "\n" + tail), "");
      Strs k, good; std::set<int> bad;
      for (auto& d : x.diags) if (d.error) bad.insert(d.line);
      for (size_t i = 0; i < l.size(); i++) if (!x.wide_lines.count(base + 1 + i)) { k.push_back(l[i]); if (!bad.count(base + 1 + i)) good.push_back(l[i]); }
      cx.count("expressions", k.size()); cx.count("accepted_expressions", good.size());
      J.now(Prog(head + join(k, "\n") + "\n" + tail), "", k.size());
      if (good.size() < k.size() && good.size()) J.now(Prog(head + join(good, "\n") + "\n" + tail), "", good.size());
    }
    ls.clear();
  }
};

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  const string head = "* = $1000\nz = $12\nw = $8001\nbr = w{3}\n", tail = "fw = $56\n";
  // ---- 1. every token string
  {
    Strs tok = {"1", "z", "fw", "$FF", "*", "+", "-", "/", "&", "^", "|", "<<", ">>", "~", "(", ")", " ", "lo(", "hi("};
    int len = cx.thorough ? 5 : 4;
    Batcher B(cx, J, head, " dl @", tail);
    for (int k = 1; k <= len; k++) sequences(tok.size(), k, [&](const vector<int>& s) { string e; for (int i : s) e += tok[i]; B.add(e); });
    B.flush();
    cx.bound(fmt("all %llu strings of up to %d of %zu tokens", (unsigned long long)B.n, len, tok.size()));
    Strs tok2 = {"z", "br", "{", "}", "bit(", "addr(", ")", "3", "\\", "-", "("};
    Batcher B2(cx, J, head, " dl @", tail);
    for (int k = 1; k <= len; k++) sequences(tok2.size(), k, [&](const vector<int>& s) { string e; for (int i : s) e += tok2[i]; B2.add(e); });
    B2.flush();
    cx.bound(fmt("all %llu strings of up to %d of %zu tokens with bit references", (unsigned long long)B2.n, len, tok2.size()));
  }
  Strs op = {"+", "-", "*", "/", "|", "&", "^", "<<", ">>"};
  // ---- 2. operator combinations over boundary operands
  {
    Strs v = {"0", "1", "2", "7", "31", "$80", "$FF", "$7FFF", "$FFFF", "$10000", "$7FFFFFFF", "$80000000", "$FFFFFFFF", "z", "w", "fw", "*", "'A'"};
    Batcher B(cx, J, head, " dl @", tail);
    for (auto& a : v) for (auto& o : op) for (auto& b : v) { B.add(a + o + b); B.add("-" + a + o + b); B.add(a + o + "~" + b); B.add(a + " " + o + " " + b); }
    Strs v2 = {"1", "3", "$FF", "z", "w", "fw"};
    for (auto& a : v2) for (auto& o : op) for (auto& b : v2) for (auto& q : op) for (auto& c : v2) { string e = a + o + b + q + c; B.add(e); if (cx.thorough) { B.add("-" + e); B.add("~" + e); B.add(a + " " + o + b + q + " " + c); } }
    B.flush();
    cx.bound(fmt("%zu boundary operands in all binary operations; 3 of %zu operands with all %zu operator pairs (%llu expressions)", v.size(), v2.size(), op.size() * op.size(), (unsigned long long)B.n));
    Batcher C(cx, J, head, " dl @", tail);
    Strs v3 = {"2", "5", "z"}; if (cx.thorough) v3.push_back("$F3");
    for (auto& o : op) for (auto& q : op) for (auto& r : op) product({(int)v3.size(), (int)v3.size(), (int)v3.size(), (int)v3.size()}, [&](const vector<int>& s) { C.add(v3[s[0]] + o + v3[s[1]] + q + v3[s[2]] + r + v3[s[3]]); });
    if (cx.thorough) for (auto& o : op) for (auto& q : op) for (auto& r : op) for (auto& t : op) { C.add("100" + o + "3" + q + "7" + r + "2" + t + "5"); C.add("9" + o + "z" + q + "2" + r + "6" + t + "3"); }
    C.flush();
    cx.bound(fmt("all operator triples over %zu operands (%llu expressions)", v3.size(), (unsigned long long)C.n));
  }
  // ---- 3. parentheses, unary operators and functions at every place
  {
    Strs pre = {"", "-", "~", "lo", "hi"};
    Batcher B(cx, J, head, " dl @", tail);
    for (auto& o : op) for (auto& q : op) for (int shape = 0; shape < 5; shape++) for (auto& p : pre) for (auto& p2 : pre) {
      string a = "$1234", b = "3", c = "z";
      auto un = [&](const string& u, const string& x) { return u.size() == 2 ? u + "(" + x + ")" : u + x; };
      string e;
      if (shape == 0) e = un(p, a) + o + un(p2, b) + q + c;
      if (shape == 1) e = un(p, "(" + a + o + b + ")") + q + un(p2, c);
      if (shape == 2) e = un(p, a) + o + un(p2, "(" + b + q + c + ")");
      if (shape == 3) e = un(p, "(" + un(p2, a) + o + b + q + c + ")");
      if (shape == 4) e = "(" + un(p, a) + o + "(" + un(p2, b) + q + c + "))";
      B.add(e);
    }
    for (int d = 1; d <= 24; d++) { B.add(repeat("(", d) + "1" + repeat(")", d)); B.add(repeat("(1+", d) + "1" + repeat(")", d)); B.add(repeat("(", d) + "1" + repeat("+1)", d)); B.add("1" + repeat("+1", d)); B.add("100" + repeat("-1", d)); B.add("1" + repeat("<<1", d)); B.add(repeat("~", d) + "5"); B.add(repeat("lo(", d) + "$123" + repeat(")", d)); B.add(repeat("(", d) + "1" + repeat(")", d - 1)); B.add(repeat("(", d - 1) + "1" + repeat(")", d)); }
    B.flush();
    cx.bound(fmt("parentheses, unary operators and functions at every place of two-operator expressions; nesting to 24 (%llu expressions)", (unsigned long long)B.n));
  }
  // ---- 4. quoted characters, blanks and case next to operators
  {
    Strs a = {"'+'", "'-'", "'('", "')'", "'*'", "\"/\"", "' '", "'A'", "'AB'", "'\\''", "'\\\\'", "'<<'", "'~'", "'lo('", "';'", "','", "'='", "'{'", "$ab", "$AB", "0FFh", "0ffH", "LAB", "lab", "Lo(w)", "LO (w)", "hI( w )", "lo", "hi", "low", "hi1", "a.b"};
    Batcher B(cx, J, head + "lab = 9\nlow = 10\nhi1 = 11\na.b = 12\n", " dl @", tail);
    for (auto& x : a) { B.add(x); for (auto& o : op) for (auto& y : a) { B.add(x + o + y); B.add(x + " " + o + "\t" + y); } }
    B.flush();
    cx.bound(fmt("all binary operations between %zu operands with quotes, blanks and mixed case (%llu expressions)", a.size(), (unsigned long long)B.n));
  }
  // ---- 5. the same expression wherever an expression may appear
  {
    Strs forms = {"v@@ = @", " db lo(@)", " dw @", " ds lo(@)&7", "* = (@)&$FFFF", " if @\n db 1\n else\n db 2\n endc", " if (@)=(@)\n db 1\n endc", " dl 1,@,2", " dl (@)", " ds 1,lo(@)"};
    Strs e; Strs v = {"1", "z", "w", "*", "$7F"};
    for (auto& a : v) { e.push_back(a); e.push_back("-" + a); e.push_back("~" + a); e.push_back("hi(" + a + ")"); for (auto& o : op) for (auto& b : v) { e.push_back(a + o + b); e.push_back("(" + a + o + b + ")*2"); } }
    for (auto& c : {"", " cpu 6801\n", " cpu 65c02\n", " cpu z80\n"}) for (auto& f : forms) for (auto& x : e) {
      if (!cx.mine()) continue;
      string s; int k = 0;
      if (f[0] == 'v') { if (!strcmp(c, " cpu z80\n")) {} s = "vv = " + x + "\n dl vv"; } else for (char ch : f) if (ch == '@') { s += x; k++; } else s += ch;
      Prog p(string(c) + "* = $1000\nz = $12\nw = $8001\n" + s + "\n dl *\n");
      if (!strcmp(c, " cpu z80\n")) continue;   // z, w are names there
      if (ref::assemble(p, "").wide_lines.empty()) J.now(p, "", 1);
    }
    for (auto& cp : {" cpu 6801\n ldaa #lo(@)\n ldx #@\n ldaa @\n ldab lo(@),x\n", " cpu 65c02\n lda #lo(@)\n lda @\n sta @,x\n lda (lo(@)),y\n jmp @\n", " cpu z80\n ld a,lo(@)\n ld hl,@\n ld (@+0),a\n ld (ix+lo(@)&127),a\n jp @\n in a,(lo(@))\n"}) for (auto& x : e) {
      if (!cx.mine()) continue;
      string s, t = x; size_t q;
      for (char ch : string(cp)) if (ch == '@') s += t; else s += ch;
      while ((q = s.find("z", 0)) != string::npos && false) {}
      string t2; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 'z' && (i == 0 || !isalnum(s[i - 1])) && (i + 1 == s.size() || !isalnum(s[i + 1]))) t2 += "zz"; else t2 += s[i]; }
      size_t nl = t2.find('\n');
      Prog p(t2.substr(0, nl + 1) + "* = $1000\nzz = $12\nw = $8001\n" + t2.substr(nl + 1));
      if (ref::assemble(p, "").wide_lines.empty()) J.now(p, "", 5);
    }
    cx.bound(fmt("%zu expressions in %zu statement forms, and in instruction operands of three processors", e.size(), forms.size() + 15));
  }
  // ---- 6. arithmetic on 32 bits (the manual): wider results must not show
  struct W { const char* e; unsigned v; };
  for (auto& w : {W{"($FFFFFFFF+1)>>4", 0}, W{"($80000000*2)/2", 0}, W{"($FFFFFFFF<<4)>>4", 0xFFFFFFF}}) {
    Prog p(fmt("* = 0\n dl %s\n", w.e));
    if (!cx.mine()) continue;
    cx.check(p, [&](const Result& r, Fails& f) {
      ref::Image im = ref::read_code(r.code); unsigned v = 0;
      for (auto& b : im.bytes) v = v << 8 | b.second;
      cx.state(fnv(r.code));
      if (!r.have_code || im.bytes.size() != 4 || v != w.v) f.add(w.e, fmt("%s gives $%X, on 32 bits it is $%X", w.e, v, w.v));
    });
  }
  // ---- 7. registers, ranges and lists of registers, bit references
  {
    struct R { const char* n; int k; };
    struct Cp { const char* c; vector<R> r; Strs use; };
    vector<Cp> cps = {
      {" cpu 65c02\n", {{"a", 0}, {"x", 1}, {"y", 2}, {"p", 3}, {"s", 4}}, {" asl @", " inc @", " lda 5,@", " lda @", " db @", " ror (@)"}},
      {" cpu z80\n", {{"b", 0}, {"c", 1}, {"h", 4}, {"a", 7}, {"bc", 8}, {"hl", 10}, {"sp", 11}, {"ix", 12}, {"f", 16}, {"i", 17}, {"af", 19}},
       {" ld a,@", " ld @,b", " push @", " inc @", " add hl,@", " ld @,5", " adc a,@", " bit 3,@", " out (c),@", " ld (5),@", " ex (sp),@", " jp (@)", " db @", " rlc @"}}};
    u64 ne = 0, np = 0;
    for (auto& cp : cps) {
      struct E { string t; unsigned long long m; bool sorted; };
      vector<E> es, legal;
      auto add = [&](const string& t, unsigned long long m, bool sorted) { es.push_back({t, m, sorted}); if (m) legal.push_back(es.back()); };
      auto bit = [](int k) { return 1ULL << k; };
      auto range = [&](int a, int b) { unsigned long long m = 0; for (int k = a; k <= b; k++) m |= 1ULL << k; return m; };
      for (auto& a : cp.r) add(a.n, bit(a.k), true);
      for (auto& a : cp.r) for (auto& b : cp.r) {
        add(string(a.n) + "-" + b.n, a.k <= b.k ? range(a.k, b.k) : 0, true);
        add(string(a.n) + "\\" + b.n, bit(a.k) | bit(b.k), a.k <= b.k);
        if (&a == &cp.r[0]) { add(string("( ") + a.n + " - " + b.n + " )", range(a.k, b.k), true); add(string(a.n) + " \\ " + b.n + "\\" + cp.r[2].n, bit(a.k) | bit(b.k) | bit(cp.r[2].k), true); }
        if (&b == &cp.r[2]) { add(string(a.n) + "\\" + b.n + "-" + cp.r[3].n, bit(a.k) | range(b.k, cp.r[3].k), a.k <= b.k); add(string(a.n) + "-" + b.n + "\\" + cp.r[4].n, a.k <= b.k ? range(a.k, b.k) | bit(cp.r[4].k) : 0, true); }
      }
      for (auto& t : {"a+a", "a+1", "1+a", "a-1", "1-a", "-a", "~a", "a*a", "a*2", "2*a", "a/a", "a|a", "a&1", "1&a", "a^a", "a<<1", "1<<a", "a>>1", "lo(a)", "hi(a)", "bit(a)", "addr(a)", "a{1}", "1{a}", "a\\1", "1\\a", "1\\2", "a\\", "\\a", "a-", "a-a-a", "a\\a\\a", "(a)\\a", "(a\\a)-a", "(a-a)\\(a)"}) add(t, 0, true);
      ne += es.size();
      // each one as an equate, in a symbol table, used as an operand
      for (size_t i = 0; i < es.size(); i++) for (auto& u : cp.use) {
        if (!cx.mine()) continue;
        string a, b; for (char c : u) if (c == '@') { a += es[i].t; b += "rr"; } else { a += c; b += c; }
        J.now(Prog(string(cp.c) + "* = $100\nv1 = 5\n" + a + "\nrr = " + es[i].t + "\n" + b + "\n if " + es[i].t + "\n db 9\n endc\n db 7\n"), "", 3);
      }
      // each one compared with each other one
      const char* cmp[] = {"=", "==", "<>", "!=", "<", ">", "<=", ">="};
      for (size_t i = 0; i < legal.size(); i++) {
        Strs l; 
        auto flush = [&] { if (l.size()) { if (cx.mine()) J.now(Prog(string(cp.c) + "* = 0\n" + join(l, "") + " db $FF\n"), "", l.size()); np += l.size(); l.clear(); } };
        for (size_t k = 0; k < legal.size(); k++) {
          if (legal[i].m == legal[k].m && legal[i].sorted != legal[k].sorted) continue;   // the same list in another order: not settled by the manual
          if (legal[i].m == legal[k].m && !legal[i].sorted && legal[i].t != legal[k].t) continue;
          for (auto& o : cmp) {
            if (o[0] != '=' && o[1] != '>' && o[0] != '!' && (k > 12)) continue;
            l.push_back(fmt(" if %s%s%s\n db %d\n else\n db %d\n endc\n", legal[i].t.c_str(), o, legal[k].t.c_str(), (int)k % 100, (int)k % 100 + 100));
            if (l.size() >= 24) flush();
          }
        }
        for (auto& o : cmp) for (auto& n : {"1", "0", "2", "5{1}"}) { l.push_back(fmt(" if %s%s%s\n db 1\n else\n db 2\n endc\n", legal[i].t.c_str(), o, n)); l.push_back(fmt(" if %s%s%s\n db 1\n else\n db 2\n endc\n", n, o, legal[i].t.c_str())); if (l.size() >= 24) flush(); }
        flush();
      }
    }
    cx.bound(fmt("%llu register expressions of two processors as equates and operands, %llu comparisons", (unsigned long long)ne, (unsigned long long)np));
    // bit references
    Strs ad = {"0", "5", "$1234", "$FFFFFFFF", "w", "fw", "*", "v1+2"}, bn = {"0", "1", "3", "7", "8", "31", "33", "n3", "fw"};
    Strs f = {" dl @", " dl bit(@)", " dl addr(@)", " dl bit(@)+1", " dl -addr(@)", " dl ~bit(@)", " dl lo(addr(@))", " dl 2*bit(@)|addr(@)", " dl bit(addr(@){2})", " dl addr(bit(@){1})", "q = @\n dl bit(q),addr(q)\n dl bit(addr(q){n3})",
      "q = addr(@)\n if q = addr(@)\n db 1\n endc", "q = bit(@)\n if q <> bit(@)\n db 1\n endc", " if addr(@) = 5\n db 1\n else\n db 2\n endc", " if bit(@) = 3\n db 1\n else\n db 2\n endc", " if addr(@)+1 <> 6\n db 1\n else\n db 2\n endc",
      " if bit(@)+addr(@) = 8\n db 1\n else\n db 2\n endc", " if addr(@) > bit(@)\n db 1\n else\n db 2\n endc", " if @ = @\n db 1\n else\n db 2\n endc", " if @ = 5{3}\n db 1\n else\n db 2\n endc", " if @ <> 5{3}\n db 1\n else\n db 2\n endc", " if @ < 5{3}\n db 1\n endc",
      " if @ = 5\n db 1\n endc", " if @\n db 1\n endc", " ds lo(addr(@))&7,bit(@)", " dl addr( @ )", " dl bit (@)", " dl @+1", " dl -@", " dl (@)", " dl addr((@))", " dl @{1}", " dl (@){1}", " lda addr(@)", " lda @", " lda #bit(@)", " lda bit(@),x", "* = addr(@)&$FFFF\nhere db lo(here)", "* = @"};
    u64 nb = 0;
    for (auto& a : ad) for (auto& b : bn) for (auto& x : f) for (int sp = 0; sp < 2; sp++) {
      nb++;
      if (!cx.mine()) continue;
      string e = sp ? a + " { " + b + " }" : a + "{" + b + "}", s; for (char c : x) if (c == '@') s += e; else s += c;
      Prog p(" cpu 6502\n* = $100\nv1 = 5\nn3 = 3\nw = $8001\n" + s + "\n dl *\nfw = 6\n");
      if (ref::assemble(p, "").wide_lines.empty()) J.now(p, "", 1);
    }
    cx.bound(fmt("%llu uses of bit references", (unsigned long long)nb));
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
