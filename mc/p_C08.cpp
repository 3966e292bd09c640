// Constants: every string over the characters constants are made of, boundary values in every
// notation with every amount of leading zeros, every quoted constant over the special characters.
#include "lib.hpp"
#include "scale.hpp"
#include "mix.hpp"
const char* PROPERTY = "C08";
const char* RULE = "a case is a batch of constants in one statement form; distinct = different code or listing";

struct Batcher {
  Cx& cx; Judge& J; string head, form, tail; Strs ls; u64 n = 0;
  Batcher(Cx& c, Judge& j, string h, string f, string t = "") : cx(c), J(j), head(h), form(f), tail(t) {}
  void add(const string& e) { ls.push_back(e); if (ls.size() >= 150) flush(); }
  void flush() {
    if (ls.empty()) return;
    n += ls.size();
    if (cx.mine()) {
      Strs l; for (auto& e : ls) { string s; for (char c : form) if (c == '@') s += e; else s += c; l.push_back(s); }
      Strs good = accepted(head, l, tail);
      cx.count("constants", l.size()); cx.count("accepted_constants", good.size());
      J.now(Prog(head + join(l, "\n") + "\n" + tail), "", l.size());
      if (good.size() < l.size() && good.size()) J.now(Prog(head + join(good, "\n") + "\n" + tail), "", good.size());
    }
    ls.clear();
  }
};

static string digits(u64 v, int base, const char* set) { string s; do { s = set[v % base] + s; v /= base; } while (v); return s; }

void explore(Cx& cx) {
  Judge J(cx, O_ALL);
  const string head = "* = $1000\n";
  {
    Strs ch = {"0", "1", "7", "8", "9", "a", "F", "g", "b", "H", "q", "x", "$", "%", "O", "d", "e"};
    int len = cx.thorough ? 5 : 4;
    Batcher B(cx, J, head, " dl @");
    for (int k = 1; k <= len; k++) sequences(ch.size(), k, [&](const vector<int>& s) { string e; for (int i : s) e += ch[i]; B.add(e); });
    B.flush();
    cx.bound(fmt("all %llu strings of up to %d of %zu characters", (unsigned long long)B.n, len, ch.size()));
  }
  {
    struct N { const char *pre, *suf; int base; const char* set; };
    const char *lo = "0123456789abcdef", *up = "0123456789ABCDEF";
    vector<N> ns = {{"", "", 10, lo}, {"$", "", 16, lo}, {"$", "", 16, up}, {"0x", "", 16, lo}, {"0X", "", 16, up}, {"0", "h", 16, lo}, {"0", "H", 16, up}, {"", "h", 16, lo}, {"", "H", 16, up},
                    {"%", "", 2, lo}, {"0b", "", 2, lo}, {"0B", "", 2, lo}, {"", "b", 2, lo}, {"", "B", 2, lo}, {"", "q", 8, lo}, {"", "Q", 8, lo}};
    Strs forms = {" dl @", " db lo(@)", " dl 0-@", " dw (@)&$7FFF"}; if (cx.thorough) { forms.push_back(" dl @+0"); forms.push_back(" dl ~@,@"); forms.push_back("xx@ dl 1"); }
    for (auto& form : forms) {
      Batcher B(cx, J, head, form);
      for (auto& n : ns) {
        std::set<u64> vs;
        for (int k = 0; k <= 66; k++) for (int d = -2; d <= 2; d++) { u64 v = k < 64 ? (1ULL << k) + d : (u64)d - 3 * (k - 63); vs.insert(v); }
        u64 p = 1; for (int k = 0; k < 20; k++) { vs.insert(p); vs.insert(p - 1); vs.insert(p + 1); vs.insert(9 * p); p *= 10; if (p > 1ULL << 60) break; }
        for (u64 v : {4294967290ULL, 4294967289ULL, 4294967300ULL, 42949672960ULL, 42949672959ULL, 42949672949ULL, 0x123456789ABCDEFULL, 0xDEADBEEFULL, 0x1DEADBEEFULL, 0xAAAAAAAAULL, 0x55555555ULL}) vs.insert(v);
        if (cx.thorough) for (u64 v = 0; v < 70000; v++) vs.insert(v); else for (u64 v = 0; v < 1100; v++) vs.insert(v);
        for (u64 v : vs) for (int z = 0; z <= (v > 40 && v < 60000 ? 0 : 3); z++) B.add(n.pre + string(z == 3 ? 40 : z, '0') + digits(v, n.base, n.set) + n.suf);
        for (int l = 1; l <= 60; l++) for (char c : {n.set[0], n.set[1], n.set[n.base - 1], n.set[n.base - 2]}) B.add(n.pre + string(l, c) + n.suf);
        // a digit outside the base at every place
        for (int l = 1; l <= 9; l++) for (int i = 0; i < l; i++) for (char c : string(n.base == 16 ? "gGzZ.$%@'\"#_?!" : n.base == 10 ? "aAfF.$%@#_?!" : n.base == 8 ? "89aF.$%@#_?!" : "2379aF.$%@#_?!")) { string s(l, '1'); s[i] = c; B.add(n.pre + s + n.suf); }
      }
      B.flush();
      cx.bound(fmt("powers of two and ten and their neighbours, small values, leading zeros, every length to 60, misplaced digits, in %zu notations, as%s (%llu constants)", ns.size(), form.c_str(), (unsigned long long)B.n));
    }
  }
  {
    Strs ch = {"A", "z", " ", "'", "\"", "\\", "n", "r", "t", "0", ";", "(", ",", "+", "~", "\t", "\x7f", "\xe9"};
    int len = cx.thorough ? 4 : 3;
    for (auto form : {" dl @", " db @", " asc @"}) {
      Batcher B(cx, J, head, form);
      for (auto q : {"'", "\""}) for (int k = 0; k <= len; k++) sequences(ch.size(), k, [&](const vector<int>& s) { string e; for (int i : s) e += ch[i]; B.add(q + e + q); if (k < len) { B.add(q + e); B.add(e + q); } });
      B.flush();
      cx.bound(fmt("all %llu quoted strings of up to %d of %zu characters, as%s", (unsigned long long)B.n, len, ch.size(), form));
    }
    Batcher B(cx, J, head, " dl @");
    for (auto q : {"'", "\""}) for (int k = 1; k <= 12; k++) { for (int c = 32; c < 127; c++) { B.add(q + string(k, c) + q); B.add(q + string(k, 'a') + string(1, c) + q); B.add(q + string("\\") + string(1, c) + q); B.add(q + string("\\") + string(1, c) + "b" + q); } B.add(q + repeat("\\n", k) + q); B.add(q + repeat("\\\\", k) + q); B.add(q + repeat("\\'", k) + q); B.add(q + repeat("\\\"", k) + q); }
    B.flush();
    cx.bound("every printable character and every escape, quoted, alone and in strings of up to 12 characters");
  }
  { Judge S(cx, O_ALL); auto one = [&](const Prog& p, u64 n) { S.now(p, "", n); }; scale(cx, PROPERTY, one); S.what |= O_NOTABLE; mix(cx, PROPERTY, one); }
}
