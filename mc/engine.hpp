// Stateless model checker for the real crasm code.
//
// crasm's own sources (from /repo/src) are linked as a shared object whose only change is that
// main() is renamed and exit()/fopen()/fclose()/malloc() are routed through the engine.  Each execution
// starts from a byte-exact snapshot of the object's .data/.bss, so every case runs from the initial
// state of a freshly started process, without the price of starting one.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

using std::string;
using std::vector;
typedef uint64_t u64;
typedef int64_t i64;

struct Prog {
  vector<std::pair<string, string>> files;  // (name, content); the first one is the main source
  vector<string> args;                      // argv[1..]
  Prog() {}
  explicit Prog(const string& text) : files{{"a.asm", text}}, args{"-o", "o", "a.asm"} {}
  Prog(const string& text, vector<string> a) : files{{"a.asm", text}}, args(std::move(a)) {}
  Prog& add(const string& n, const string& c) { files.push_back({n, c}); return *this; }
};

enum { ST_CRASH = 1000, ST_HANG = 2000, ST_RUNAWAY = 2001 };

struct Result {
  int status = 0;          // exit code, or ST_CRASH+signal, or ST_HANG
  string out;              // standard output
  bool have_code = false;  // the -o file exists after the run
  string code;             // its content
};

struct Fails {
  struct F { string key, msg; };
  vector<F> v;
  void add(const string& key, const string& msg) { v.push_back({key, msg}); }
  explicit operator bool() const { return !v.empty(); }
};

typedef std::function<void(const Result&, Fails&)> Oracle;

struct Fault {               // environment answers under the explorer's control
  i64 write_limit = -1;      // the code file accepts this many bytes, then every write fails with ENOSPC
  i64 read_limit = -1;       // reads of `read_name` fail with EIO after this many bytes
  string read_name;
  bool cumulative = false;   // read_limit counts over all readings of the file (both passes)
  i64 malloc_fail = -1;      // this allocation (counted from 0) fails
  bool open_fail = false;    // the code file cannot be opened
  bool close_fail = false;   // fclose of the code file reports failure
};

// one in-process run with these faults; the number of allocations of the last such run
Result run_with_fault(const Prog& p, const Fault& f);
u64 mallocs_made();
u64 read_faults_made();

u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ULL);
inline u64 fnv(const string& s, u64 h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
string hex(u64 v, int digits);
string excerpt(const string& s, size_t n = 600);

struct Cx {
  bool thorough = false;
  u64 seed = 1;
  string only;               // debugging: run a single named scope

  // -- case distribution ---------------------------------------------------
  bool mine();               // count one case; true when this worker must execute it
  bool stop() const;         // a violation has been confirmed somewhere: wind down

  // -- execution -----------------------------------------------------------
  Result run(const Prog& p);                         // in-process, from the pristine snapshot
  Result run_real(const Prog& p, i64 fsize = -1);  // (fsize: no file may grow beyond)             // fresh process of the normally built crasm
  void check(const Prog& p, const Oracle& o, u64 steps = 1);   // run + judge + confirm + report
  // judge a result obtained otherwise (differential checks); `confirm` repeats it on the real binary
  void report(const Prog& p, const Fails& f, const std::function<void(Fails&)>& confirm);
  void set_poison(int stack_byte, int heap_byte);

  // -- accounting ----------------------------------------------------------
  void state(u64 h);         // a distinct state / outcome reached
  void transitions(u64 n);
  void count(const char* name, u64 n = 1);           // extra counters, summed over workers
  void sample(const string& s);                      // written out in the evidence (a few are kept)
  void bound(const string& s);                       // description of a completed scope
};

// every driver defines these
extern const char* PROPERTY;
extern const char* RULE;
void explore(Cx& cx);
