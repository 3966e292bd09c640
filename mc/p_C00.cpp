// development only: the repository's own test programs against the reference
#include "lib.hpp"
#include <fstream>
#include <sstream>
#include <dirent.h>
const char* PROPERTY = "C00";
const char* RULE = "";
static string slurp(const string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
void explore(Cx& cx) {
  string ver = crasm_version(cx);
  if (const char* c = getenv("CORPUS")) {      // a directory of directories: a.asm, the command line in args, other files
    Judge J(cx, O_ALL | O_NOTABLE);
    vector<string> all; DIR* d = opendir(c); while (auto* e = readdir(d)) if (e->d_name[0] != '.') all.push_back(string(c) + "/" + e->d_name); closedir(d);
    std::sort(all.begin(), all.end());
    for (auto& s : all) {
      if (!cx.mine()) continue;
      Prog p(slurp(s + "/a.asm")); p.args.clear();
      std::istringstream a(slurp(s + "/args")); string w; while (a >> w) p.args.push_back(w == "c" ? "o" : w);
      DIR* d2 = opendir(s.c_str()); while (auto* e = readdir(d2)) { string n = e->d_name; if (n[0] != '.' && n != "a.asm" && n != "args") p.add(n, slurp(s + "/" + n)); } closedir(d2);
      J.now(p, s);
    }
    return;
  }
  string dir = getenv("ASMDIR") ? getenv("ASMDIR") : "/repo/test";
  DIR* d = opendir(dir.c_str());
  vector<string> names;
  while (auto* e = readdir(d)) names.push_back(e->d_name);
  closedir(d);
  for (auto& n : names) {
    if (n.size() < 5 || n.substr(n.size() - 4) != ".asm") continue;
    for (string o : {"-o", "-lo", "-slo", "-xo"}) {
      if (!cx.mine()) continue;
      Prog p; p.args = {o, "o", n};
      p.add(n, slurp(dir + "/" + n));
      for (auto& m : names) if (m != n && m[0] != '.') { string c = slurp(dir + "/" + m); if (!c.empty()) p.add(m, c); }
      ref::Out x = ref::assemble(p, ver);
      cx.check(p, [&](const Result& r, Fails& f) { against_ref(p, x, r, f, O_ALL, n + o); });
      if (x.wrapped) cx.count("wrapped");
    }
  }
}
