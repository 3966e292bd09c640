// Failures of the environment: for every program, a failure of every operation on every file at every byte
// position, in every pass, and of every allocation.
#include "lib.hpp"
#include "mix.hpp"
const char* PROPERTY = "C23";
const char* RULE = "a case is one program with one injected failure; distinct = different way of ending";

void explore(Cx& cx) {
  struct P { string name; Prog p; };
  vector<P> ps;
  auto opts = [](const string& o) { vector<string> v; if (!o.empty()) v.push_back("-" + o); v.insert(v.end(), {"-o", "o", "a.asm"}); return v; };
  const string longmac = "m macro\n db \\1\n if \\1>2\n dw lab\n endc\n endm\n";
  for (auto o : {"", "l", "xs"}) for (auto h : {"", " output hex\n"}) {
    for (int n : {1, 16, 17, 40}) ps.push_back({"bytes", Prog(fmt("* = 0\n%s ds %d,$5A\n", h, n), opts(o))});
    for (int n : {1400, 1600, 2000, 4000}) ps.push_back({"buffer", Prog(fmt("* = 0\n%s ds %d,$5A\n", h, n), opts(o))});
    ps.push_back({"scattered", Prog(string("* = 0\n") + h + repeat(" db 1,2\n* = *+$10001\n", 60), opts(o))});
    ps.push_back({"mixed", Prog(string("* = $1000\n") + h + longmac + "lab db 1\n m 1\n include b\n m 7\n dummy\n ds 5\n code\n dw lab,b1\n", opts(o)).add("b", "b1 db 2\n include c\n m 5").add("c", " asc 'deep'\n")});
  }
  ps.push_back({"z80", Prog(" cpu z80\n* = $100\n" + repeat(" ld (ix+1),2\n", 300))});
  ps.push_back({"errors", Prog("* = 0\n ds 20,1\n db nosuch\n ds 3000,2\n")});
  ps.push_back({"large source", Prog("* = 0\n" + repeat("; a comment\n db 1\n", 700))});
  ps.push_back({"many symbols", Prog("* = 0\n" + [] { string s; for (int i = 0; i < 700; i++) s += fmt("s%d = %d\n", i * 7 % 701, i); return s; }() + " db 1\n", opts("x"))});
  ps.push_back({"symbol in pass 2", Prog("* = 0\nm macro\n db 1\n endm\n if 0\n endc\n m\n" + [] { string s; for (int i = 0; i < 300; i++) s += fmt(" dw s%d\n", i); return s; }())});
  // a run with a failure must not look like a success with anything but the complete code file
  auto judge = [&](const P& x, const Fault& fl, const string& what, bool must_fail, const Result& full, i64 fsize, bool memory = false) {
    if (!cx.mine()) return;
    Result r = run_with_fault(x.p, fl);
    // data that was not read again cannot fail to be read
    if (must_fail && fl.read_limit >= 0 && fl.write_limit < 0 && !read_faults_made()) { must_fail = false; cx.count("read_failures_not_reached"); }
    auto look = [&](const Result& r, Fails& f) {
      string k = what + " in " + x.name, t = "\nfailure: " + what + "\nprogram:\n" + excerpt(ref::show(x.p), 700);
      bool ok = ref::says_success(r.out);
      if (r.status != 0 && r.status != 10) f.add(k, fmt("ends with status %d", r.status) + t);
      // out of memory is harmless when nothing is lost by it, or when it is fatal only after the summary (the code file complete or removed)
      else if (memory && r.status == full.status && r.out == full.out && r.have_code == full.have_code && r.code == full.code) return;
      else if (memory && r.status == 10 && ok && (!r.have_code || r.code == full.code) && r.out.find("ERROR") != string::npos) return;
      else if (must_fail && r.status == 0 && !ref::read_counter(r.out, "ERRORS:")) f.add(k, "the failure is not reported: status 0 and no error" + t);
      else if (must_fail && ok) f.add(k, "claims a successful assembly" + t);
      else if (must_fail && r.have_code) f.add(k, fmt("leaves a code file of %zu bytes (complete: %zu)", r.code.size(), full.code.size()) + t);
      else if (must_fail && r.status == 10 && r.out.find("ERROR") == string::npos) f.add(k, "ends with status 10 without a message" + t);
      else if (!must_fail && (r.status != full.status || r.code != full.code || r.have_code != full.have_code || r.out != full.out)) f.add(k, "another result although no operation failed" + t);
    };
    Fails f; look(r, f);
    if (!f && fsize >= 0 && fsize % 509 < 8) { look(cx.run_real(x.p, fsize), f); cx.count("write_failures_repeated_with_the_real_program"); }
    cx.transitions(1); cx.state(fnv(r.out, fnv(r.code, r.status)));
    if (f) cx.report(x.p, f, [&](Fails& c) { if (fsize >= 0) look(cx.run_real(x.p, fsize), c); else look(run_with_fault(x.p, fl), c); });
    cx.sample(x.name + ": " + what);
  };
  for (auto& x : ps) {
    Result full = cx.run(x.p);
    i64 n = full.code.size();
    bool ok = ref::says_success(full.out);
    // ---- 1. the code file
    if (ok) {
      for (i64 i = 0; i <= n + 2; i++) { if (i > 300 && i < n - 300 && i % 64 > 2 && !cx.thorough) continue; Fault f; f.write_limit = i; judge(x, f, fmt("no space after %ld bytes of the code file", (long)i), i < n, full, i < n && n > 4000 && x.p.files[0].second.size() < 3000 ? i : -1); }
      Fault f; f.open_fail = true; judge(x, f, "the code file cannot be created", true, full, -1);
      Fault g; g.close_fail = true; judge(x, g, "closing the code file fails", true, full, -1);
    } else { for (i64 i = 0; i < 9000; i += 7) { Fault f; f.write_limit = i; judge(x, f, fmt("no space after %ld bytes of the code file", (long)i), true, full, -1); } }
    // ---- 2. the sources: at every byte, in every reading
    for (auto& fl : x.p.files) {
      i64 len = fl.second.size(); bool small = len < 3000;
      for (i64 i = 0; i <= len; i++) { if (!small && !cx.thorough && i % 97 && i + 20 < len) continue; Fault f; f.read_name = fl.first; f.read_limit = i; judge(x, f, fmt("reading %s fails after %ld bytes", fl.first.c_str(), (long)i), true, full, -1); }
      for (i64 i = 0; i < 2 * len; i++) { if (!small && !cx.thorough && i % 97) continue; Fault f; f.read_name = fl.first; f.read_limit = i; f.cumulative = true; judge(x, f, fmt("reading %s fails after %ld bytes read in both passes", fl.first.c_str(), (long)i), true, full, -1); }
    }
    // ---- 3. allocations
    { Fault f; run_with_fault(x.p, f); u64 m = mallocs_made(); for (u64 i = 0; i < m; i++) { Fault g; g.malloc_fail = i; judge(x, g, fmt("allocation %lu fails", (unsigned long)i), true, full, -1, true); } cx.count("allocation_points", m); }
    // ---- 4. two failures
    if (ok && n < 400) for (i64 i = 0; i < n; i += cx.thorough ? 1 : 5) for (i64 j = x.p.files[0].second.size(); j < 2 * (i64)x.p.files[0].second.size(); j += cx.thorough ? 3 : 11) { Fault f; f.write_limit = i; f.read_name = "a.asm"; f.read_limit = j; f.cumulative = true; f.close_fail = (i + j) & 1; judge(x, f, fmt("no space after %ld bytes and reading fails after %ld", (long)i, (long)j), true, full, -1); }
  }
  cx.bound(fmt("%zu programs: code file not creatable, not closable, full after every byte; every source unreadable from every byte on, in pass 1 and in pass 2; every allocation failing; pairs of a write and a read failure", ps.size()));
  // ---- 4b. pieces of program of all kinds in every context: the files fail at the borders of their lines and around them
  {
    u64 nprog = 0; vector<P> q;
    mix_programs(cx.thorough, [&](const Prog& p) { q.push_back({"piece", p}); });
    for (auto& x : q) {
      nprog++;
      Result full = cx.run(x.p);
      i64 n = full.code.size();
      bool ok = ref::says_success(full.out);
      auto wr = [&](i64 i) { Fault f; f.write_limit = i; judge(x, f, fmt("no space after %ld bytes of the code file", (long)i), i < n || !ok, full, -1); };
      std::set<i64> at = {0, 1, n / 2, n - 1, n};
      for (i64 i = 0; i < n; i++) if (full.code[i] == '\n') at.insert({i, i + 1});
      if (n || !ok) for (i64 i : at) if (i >= 0) wr(i);
      if (full.have_code) { Fault f; f.open_fail = true; judge(x, f, "the code file cannot be created", true, full, -1); Fault g; g.close_fail = true; judge(x, g, "closing the code file fails", true, full, -1); }
      for (auto& fl : x.p.files) {
        i64 len = fl.second.size(); std::set<i64> rd = {0, len};
        for (i64 i = 0; i < len; i++) if (fl.second[i] == '\n') rd.insert({i, i + 1, i + 2});
        for (i64 i : rd) if (i <= len) {
          Fault f; f.read_name = fl.first; f.read_limit = i; judge(x, f, fmt("reading %s fails after %ld bytes", fl.first.c_str(), (long)i), true, full, -1);
          f.read_limit = len + i; f.cumulative = true; judge(x, f, fmt("reading %s fails after %ld bytes read in both passes", fl.first.c_str(), (long)(len + i)), true, full, -1);
        }
      }
      Fault f; run_with_fault(x.p, f); u64 m = mallocs_made();
      for (u64 i = 0; i < m; i++) { Fault g; g.malloc_fail = i; judge(x, g, fmt("allocation %lu fails", (unsigned long)i), true, full, -1, true); }
    }
    cx.bound(fmt("%lu programs of a piece in a context (thorough: in two): the code file full after every record, not creatable, not closable; every source unreadable at every line border in both passes; every allocation failing", (unsigned long)nprog));
  }
  // ---- 5. the real thing: sources that are directories or missing
  for (auto n : {"d", "nosuch", "", ".", "b/x"}) for (auto o : {"", "l", "x"}) {
    if (!cx.mine()) continue;
    for (int k = 0; k < 3; k++) {
      Prog p = k == 0 ? Prog(" db 1\n", {"-o", "o", n}) : k == 1 ? Prog(string("* = 0\n db 1\n include ") + n + "\n db 2\n", opts(o)) : Prog("* = 0\n db 1\n", {"-o", string(*n ? n : "."), "a.asm"});
      if (k == 2 && string(n) == "nosuch") continue;
      p.add("d", "\001DIR");
      cx.check(p, [&](const Result& r, Fails& f) {
        string key = ref::show(p);
        bool failing = !(k == 1 && !*n);
        if (r.status != 10 && !ref::read_counter(r.out, "ERRORS:")) f.add(key, fmt("status %d without an error", r.status) + "\n" + key);
        if (ref::says_success(r.out)) f.add(key, "claims success\n" + key);
        if (k < 2 && r.have_code) f.add(key, "leaves a code file\n" + key);
      });
    }
  }
  cx.bound("sources, include files and code files that are directories, missing or unnamed");
}
