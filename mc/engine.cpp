#include <sys/prctl.h>
#include <sys/resource.h>
#include "engine.hpp"
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <link.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

extern "C" int crasm_main(int, char**);

// ---------------------------------------------------------------- helpers
u64 fnv(const void* p, size_t n, u64 h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
string fmt(const char* f, ...) {
  char b[4096];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}
string hex(u64 v, int d) { return fmt("%0*llX", d, (unsigned long long)v); }
string excerpt(const string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "...[" + std::to_string(s.size()) + " bytes]"; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- shared memory
static const int MAXW = 64;
static const size_t CURMAX = 1 << 21;
struct Slot {
  volatile u64 counter;      // case being executed
  volatile u64 resume;       // a restarted worker starts after this case
  volatile u64 executed;
  volatile u64 runs;         // individual executions of the assembler
  volatile u64 transitions;
  volatile u64 real_runs;
  volatile u64 real_same;
  volatile u64 real_diff;
  volatile u64 real_budget;
  volatile int in_run;       // inside the code under test
  volatile u64 heartbeat;
  volatile size_t curlen;
  char cur[CURMAX];          // serialized current program
};
struct Shared {
  volatile int stop;
  volatile int nviol;
  volatile int nknown;
  volatile u64 total_cases;
  Slot slot[MAXW];
};
static Shared* SH;
static int ME = 0, NW = 1;
static string SCRATCH;       // this worker's directory (cwd)
static string WORKDIR;       // results of all workers
static string REAL;          // the normally built crasm
static string REPLAYS;
static bool asan_build = false;
static u64 counter_, resume_;
static std::map<string, u64> counters_;
static std::unordered_set<u64> states_;
static vector<string> samples_, bounds_;
static std::set<string> known_keys_, known_seen_;
static u64 conf_every_ = 0;
static int conf_left_ = 0;

// ---------------------------------------------------------------- snapshot of the code under test
struct Region { char* at; char* save; size_t len; };
static vector<Region> regions_;

__attribute__((no_sanitize("address"))) static void rawcopy(char* d, const char* s, size_t n) {
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "libut")) return 0;
  uintptr_t relro0 = 0, relro1 = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_GNU_RELRO) {
      relro0 = (i->dlpi_addr + p.p_vaddr) & ~4095UL;
      relro1 = (i->dlpi_addr + p.p_vaddr + p.p_memsz) & ~4095UL;
    }
  }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
    uintptr_t a = i->dlpi_addr + p.p_vaddr, e = a + p.p_memsz;
    if (relro1 > a && relro0 <= a) a = std::min(e, relro1);
    if (a < e) regions_.push_back({(char*)a, nullptr, e - a});
  }
  return 0;
}
static void take_snapshot() {
  dl_iterate_phdr(phdr_cb, nullptr);
  if (regions_.empty()) { fprintf(stderr, "engine: no data segment found\n"); exit(3); }
  for (auto& r : regions_) {
    r.save = (char*)mmap(nullptr, r.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rawcopy(r.save, r.at, r.len);
  }
}
static void restore_snapshot() { for (auto& r : regions_) rawcopy(r.at, r.save, r.len); }

// ---------------------------------------------------------------- seams
static jmp_buf exit_jmp_;
static volatile int exit_code_;
static vector<FILE*> open_;
static const size_t MAXFILES = 32;   // files a process may hold open: crasm never needs more than 13
static vector<void*> heap_;
static size_t heap_bytes_;
static int stack_poison_ = 0xA5, heap_poison_ = 0xA5;
static Fault fault_;
static bool fault_on_ = false;
static string code_name_;
static FILE* code_file_ = nullptr;

struct Sink { string* s; };
static string out_buf_;
static FILE *out_stream_, *err_stream_;
static ssize_t sink_write(void* c, const char* b, size_t n) {
  string* s = (string*)c;
  if (!s) return n;
  s->append(b, n);
  if (s->size() > (64u << 20)) _exit(78);
  return n;
}

static i64 read_left_ = 0, mallocs_ = 0, read_faults_ = 0;   // bytes until the cumulative read fault, allocations so far
struct FaultFile { int fd; i64 limit; bool is_read; };
static ssize_t ff_write(void* c, const char* b, size_t n) {
  FaultFile* f = (FaultFile*)c;
  if (f->limit <= 0) { errno = ENOSPC; return 0; }
  size_t k = std::min<i64>(n, f->limit);
  ssize_t w = write(f->fd, b, k);
  if (w > 0) f->limit -= w;
  if ((size_t)w < n) errno = ENOSPC;
  return w;
}
static ssize_t ff_read(void* c, char* b, size_t n) {
  FaultFile* f = (FaultFile*)c;
  i64& limit = fault_.cumulative ? read_left_ : f->limit;
  if (limit <= 0) { read_faults_++; errno = EIO; return -1; }
  ssize_t r = read(f->fd, b, std::min<i64>(n, limit));
  if (r > 0) limit -= r;
  else if (!fault_.cumulative) { read_faults_++; errno = EIO; return -1; }
  return r;
}
static int ff_seek(void* c, off64_t* o, int wh) {
  FaultFile* f = (FaultFile*)c;
  off64_t before = lseek(f->fd, 0, SEEK_CUR);
  off64_t r = lseek(f->fd, *o, wh);
  if (r < 0) return -1;
  f->limit += before - r;
  *o = r;
  return 0;
}
static int ff_close(void* c) { FaultFile* f = (FaultFile*)c; int r = close(f->fd); delete f; return r; }

extern "C" {
void __wrap_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { exit_code_ = c; longjmp(exit_jmp_, 1); }
void __wrap__exit(int c) __attribute__((noreturn));
void __wrap__exit(int c) { exit_code_ = c; longjmp(exit_jmp_, 1); }
static FILE* track(FILE* f) { if (f) open_.push_back(f); return f; }
FILE* __wrap_fopen(const char* n, const char* m) {
  if (open_.size() >= MAXFILES) { errno = EMFILE; return nullptr; }
  if (fault_on_) {
    bool wr = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+');
    if (wr && code_name_ == n) {
      if (fault_.open_fail) { errno = EACCES; return nullptr; }
      if (fault_.write_limit >= 0) {
        int fd = open(n, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        FaultFile* ff = new FaultFile{fd, fault_.write_limit, false};
        cookie_io_functions_t io = {nullptr, ff_write, ff_seek, ff_close};
        code_file_ = fopencookie(ff, "w", io);
        return track(code_file_);
      }
      code_file_ = fopen(n, m);
      return track(code_file_);
    }
    if (!wr && fault_.read_limit >= 0 && fault_.read_name == n) {
      int fd = open(n, O_RDONLY);
      if (fd < 0) return nullptr;
      FaultFile* ff = new FaultFile{fd, fault_.read_limit, true};
      cookie_io_functions_t io = {ff_read, nullptr, ff_seek, ff_close};
      return track(fopencookie(ff, "r", io));
    }
  }
  return track(fopen(n, m));
}
FILE* __wrap_fopen64(const char* n, const char* m) { return __wrap_fopen(n, m); }
FILE* __wrap_fdopen(int fd, const char* m) { return track(fdopen(fd, m)); }
FILE* __wrap_tmpfile(void) { return track(tmpfile()); }
int __wrap_fclose(FILE* f) {
  for (size_t i = 0; i < open_.size(); i++)
    if (open_[i] == f) { open_.erase(open_.begin() + i); break; }
  int r = fclose(f);
  if (fault_on_ && f == code_file_ && fault_.close_fail) { errno = EIO; return EOF; }
  return r;
}
void* __wrap_malloc(size_t n) {
  if (fault_on_ && mallocs_++ == fault_.malloc_fail) { errno = ENOMEM; return nullptr; }
  heap_bytes_ += n;
  if (heap_bytes_ > (1u << 30)) _exit(79);
  void* p = malloc(n ? n : 1);
  memset(p, heap_poison_, n);
  heap_.push_back(p);
  return p;
}
void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void* p) {
  if (!p) return;
  for (size_t i = heap_.size(); i-- > 0;)
    if (heap_[i] == p) { heap_[i] = heap_.back(); heap_.pop_back(); free(p); return; }
  free(p);   // a wild or double free: let the allocator complain
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (fault_on_ && mallocs_++ == fault_.malloc_fail) { errno = ENOMEM; return nullptr; }
  for (size_t i = heap_.size(); i-- > 0;)
    if (heap_[i] == p) { heap_.erase(heap_.begin() + i); break; }
  void* q = realloc(p, n ? n : 1);
  heap_.push_back(q);
  return q;
}
char* __wrap_strdup(const char* s) { char* p = (char*)__wrap_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
char* __wrap_strndup(const char* s, size_t n) { n = strnlen(s, n); char* p = (char*)__wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
}

// ---------------------------------------------------------------- running one case
static void put_file(const char* name, const string& c) {
  int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) { fprintf(stderr, "engine: cannot write %s: %s\n", name, strerror(errno)); _exit(3); }
  size_t o = 0;
  while (o < c.size()) { ssize_t w = write(fd, c.data() + o, c.size() - o); if (w <= 0) _exit(3); o += w; }
  close(fd);
}
static bool get_file(const char* name, string& c) {
  int fd = open(name, O_RDONLY);
  if (fd < 0) return false;
  c.clear();
  char b[65536]; ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) c.append(b, n);
  close(fd);
  return true;
}
static string code_name(const Prog& p) {
  for (size_t i = 0; i + 1 < p.args.size(); i++)
    if (p.args[i].size() >= 2 && p.args[i][0] == '-' && p.args[i].back() == 'o') return p.args[i + 1];
  return "";
}
// the extra content written for names starting with '!' : "!dir" makes a directory
static bool special_file(const string& n, const string& c) {
  if (c == "\001DIR") { mkdir(n.c_str(), 0755); return true; }
  return false;
}

__attribute__((noinline, no_sanitize("address"))) static void poison_stack(int byte) {
  volatile char b[48 * 1024];
  char* p = (char*)b; size_t n = sizeof b;
  __asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(byte) : "memory");
}

static std::set<string> present_;   // files that exist in the scratch directory
static std::map<string, string> content_;

static __attribute__((noinline)) int call_main(const Prog& p) {
  vector<string> a; a.push_back("crasm");
  for (auto& s : p.args) a.push_back(s);
  vector<char*> v;
  static vector<string> keep; keep.swap(a);
  for (auto& s : keep) v.push_back(&s[0]);
  v.push_back(nullptr);
  static vector<char*> vk; vk.swap(v);
  exit_code_ = 0;
  if (setjmp(exit_jmp_) == 0) exit_code_ = crasm_main((int)vk.size() - 1, vk.data());
  return exit_code_;
}

static Result run_inproc(const Prog& p) {
  Result r;
  Slot& sl = SH->slot[ME];
  // serialize for the parent (a crash or hang must be attributable)
  {
    string s; s.reserve(256);
    auto put = [&](const string& x) { u64 n = x.size(); s.append((char*)&n, 8); s += x; };
    u64 n = p.args.size(); s.append((char*)&n, 8); for (auto& a : p.args) put(a);
    n = p.files.size(); s.append((char*)&n, 8); for (auto& f : p.files) { put(f.first); put(f.second); }
    if (s.size() <= CURMAX) { memcpy(sl.cur, s.data(), s.size()); sl.curlen = s.size(); } else sl.curlen = 0;
  }
  code_name_ = code_name(p);
  std::set<string> want;
  for (auto& f : p.files) want.insert(f.first);
  for (auto it = present_.begin(); it != present_.end();) {
    if (!want.count(*it)) { remove(it->c_str()); content_.erase(*it); it = present_.erase(it); } else ++it;
  }
  for (auto& f : p.files) {
    auto it = content_.find(f.first);
    if (it != content_.end() && it->second == f.second && f.first != code_name_) continue;
    if (!special_file(f.first, f.second)) put_file(f.first.c_str(), f.second);
    present_.insert(f.first);
    content_[f.first] = f.second;
  }
  out_buf_.clear();
  FILE *so = stdout, *se = stderr;
  stdout = out_stream_; stderr = err_stream_;
  poison_stack(stack_poison_);
  sl.runs++; sl.heartbeat++; sl.in_run = 1;
  r.status = call_main(p);
  sl.in_run = 0;
  fflush(out_stream_);
  clearerr(out_stream_); clearerr(err_stream_);
  stdout = so; stderr = se;
  for (FILE* f : open_) fclose(f);
  open_.clear(); code_file_ = nullptr;
  for (void* q : heap_) free(q);
  heap_.clear(); heap_bytes_ = 0;
  restore_snapshot();
  r.out.assign(out_buf_);
  if (!code_name_.empty()) {
    if ((r.have_code = get_file(code_name_.c_str(), r.code))) present_.insert(code_name_);
    content_.erase(code_name_);
  }
  return r;
}

static i64 fsize_limit_ = -1;
static Result run_exec(const Prog& p, const string& bin, const string& dir, double limit, string* errout = nullptr) {
  Result r;
  mkdir(dir.c_str(), 0755);
  DIR* d = opendir(dir.c_str());
  if (d) {
    while (auto* e = readdir(d)) {
      string n = e->d_name;
      if (n == "." || n == "..") continue;
      if (remove((dir + "/" + n).c_str())) {}
    }
    closedir(d);
  }
  for (auto& f : p.files)
    if (f.second == "\001DIR") mkdir((dir + "/" + f.first).c_str(), 0755); else put_file((dir + "/" + f.first).c_str(), f.second);
  int pfd[2];
  if (pipe(pfd)) _exit(3);
  pid_t c = fork();
  if (c == 0) {
    if (chdir(dir.c_str())) _exit(3);
    dup2(pfd[1], 1); close(pfd[0]); close(pfd[1]);
    int e = open("../real.err", O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2);
    int z = open("/dev/null", O_RDONLY); dup2(z, 0);
    { struct rlimit l = {MAXFILES + 3, MAXFILES + 3}; setrlimit(RLIMIT_NOFILE, &l); }
    if (fsize_limit_ >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {(rlim_t)fsize_limit_, (rlim_t)fsize_limit_}; setrlimit(RLIMIT_FSIZE, &l); }
    vector<char*> v; v.push_back((char*)"crasm");
    for (auto& s : p.args) v.push_back((char*)s.c_str());
    v.push_back(nullptr);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:abort_on_error=0", 1);
    execv(bin.c_str(), v.data());
    _exit(127);
  }
  close(pfd[1]);
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  double t0 = now(); char b[65536]; bool killed = false;
  int st = 0;
  for (;;) {
    ssize_t n = read(pfd[0], b, sizeof b);
    if (n > 0) { if (r.out.size() < (64u << 20)) r.out.append(b, n); else { kill(c, SIGKILL); killed = true; } continue; }
    if (n == 0) break;
    if (now() - t0 > limit) { kill(c, SIGKILL); killed = true; break; }
    usleep(100);
    SH->slot[ME].heartbeat++;
  }
  close(pfd[0]);
  waitpid(c, &st, 0);
  if (killed) r.status = ST_HANG;
  else if (WIFSIGNALED(st)) r.status = ST_CRASH + WTERMSIG(st);
  else r.status = WEXITSTATUS(st);
  string cn = code_name(p);
  if (!cn.empty()) r.have_code = get_file((dir + "/" + cn).c_str(), r.code);
  if (errout) get_file((SCRATCH + "/real.err").c_str(), *errout);
  return r;
}

Result Cx::run(const Prog& p) { fault_on_ = false; return run_inproc(p); }
Result Cx::run_real(const Prog& p, i64 fsize) {
  SH->slot[ME].real_runs++;
  fsize_limit_ = fsize; Result r = run_exec(p, REAL, SCRATCH + "/real", 20); fsize_limit_ = -1;
  return r;
}
void Cx::set_poison(int s, int h) { stack_poison_ = s; heap_poison_ = h; }
// runs with the faults that were set (used by the fault driver)
u64 read_faults_made() { return read_faults_; }
u64 mallocs_made() { return mallocs_; }
Result run_with_fault(const Prog& p, const Fault& f) { fault_ = f; read_left_ = f.read_limit; mallocs_ = read_faults_ = 0; fault_on_ = true; Result r = run_inproc(p); fault_on_ = false; return r; }

bool Cx::stop() const { return SH->stop; }
bool Cx::mine() {
  u64 c = counter_++;
  if (SH->stop) return false;
  if ((int)(c % NW) != ME) return false;
  if (c < resume_) return false;
  SH->slot[ME].counter = c;
  SH->slot[ME].executed++;
  return true;
}
void Cx::state(u64 h) { if (states_.size() < 40000000) states_.insert(h); }
void Cx::transitions(u64 n) { SH->slot[ME].transitions += n; }
void Cx::count(const char* n, u64 k) { counters_[n] += k; }
void Cx::sample(const string& s) { if (samples_.size() < 3) samples_.push_back(s); }
void Cx::bound(const string& s) { if (ME == 0) bounds_.push_back(s); }

static bool same(const Result& a, const Result& b) {
  return a.status == b.status && a.out == b.out && a.have_code == b.have_code && a.code == b.code;
}

static string shell_quote(const string& s) { string o = "'"; for (char c : s) if (c == '\'') o += "'\\''"; else o += c; return o + "'"; }

static void write_violation(const Prog& p, const string& key, const string& msg, const Result* r, const char* how) {
  int n = __sync_fetch_and_add(&SH->nviol, 1);
  if (n >= 8) return;
  string d = REPLAYS + fmt("/%s-%d", PROPERTY, n);
  mkdir(REPLAYS.c_str(), 0755); mkdir(d.c_str(), 0755); mkdir((d + "/files").c_str(), 0755);
  for (auto& f : p.files) if (f.second != "\001DIR") put_file((d + "/files/" + f.first).c_str(), f.second); else mkdir((d + "/files/" + f.first).c_str(), 0755);
  string s = "#!/bin/sh\n# property " + string(PROPERTY) + "\n# " ;
  for (char c : msg) { s += c; if (c == '\n') s += "# "; }
  s += "\n# key: " + key + "\n# confirmed: " + how + "\n";
  s += "cd \"$(dirname \"$0\")/files\" && ${CRASM:-/repo/src/crasm}";
  for (auto& a : p.args) s += " " + shell_quote(a);
  s += "\necho \"exit status $?\"\n";
  string cn = code_name(p);
  if (!cn.empty()) s += "echo '--- code file'; cat " + shell_quote(cn) + "\n";
  put_file((d + "/replay.sh").c_str(), s);
  chmod((d + "/replay.sh").c_str(), 0755);
  if (r) put_file((d + "/observed.txt").c_str(), fmt("status %d\n--- stdout\n", r->status) + r->out + "\n--- code file " + (r->have_code ? "present\n" + r->code : string("absent\n")));
  FILE* f = fopen((WORKDIR + fmt("/viol.%d.%d", ME, n)).c_str(), "w");
  fprintf(f, "%s\n%s\n%s\n", (d + "/replay.sh").c_str(), key.c_str(), excerpt(msg, 2000).c_str());
  fclose(f);
}

void Cx::report(const Prog& p, const Fails& f0, const std::function<void(Fails&)>& confirm) {
  Fails f;
  for (auto& x : f0.v) { if (known_keys_.count(x.key)) known_seen_.insert(x.key); else f.v.push_back(x); }
  if (!f) return;
  Fails c; confirm(c);
  std::set<string> ck; for (auto& x : c.v) ck.insert(x.key);
  const Fails::F* hit = nullptr; const char* how = "";
  for (auto& x : f.v) if (ck.count(x.key)) { hit = &x; how = "reproduced by a fresh process of the built crasm"; break; }
  if (!hit) for (auto& x : c.v) if (!known_keys_.count(x.key)) { hit = &x; how = "a fresh process of the built crasm fails too, differently"; break; }
  if (!hit) { counters_["unconfirmed"]++; return; }
  Result r;
  write_violation(p, hit->key, hit->msg, nullptr, how);
  SH->stop = 1;
}

void Cx::check(const Prog& p, const Oracle& o, u64 steps) {
  Result r = run(p);
  Slot& sl = SH->slot[ME];
  sl.transitions += steps;
  Fails f0; o(r, f0);
  Fails f;
  for (auto& x : f0.v) { if (known_keys_.count(x.key)) known_seen_.insert(x.key); else f.v.push_back(x); }
  if (!f) {
    // conformance: replay a deterministic selection of the cases in a fresh process
    if (conf_left_ > 0 && (sl.executed % conf_every_) == 0) {
      conf_left_--;
      Result rr = run_real(p);
      if (same(r, rr)) sl.real_same++;
      else {
        sl.real_diff++;
        counters_["diverging_replays"]++;
        Fails g; o(rr, g);
        for (auto& x : g.v) if (!known_keys_.count(x.key)) {
          Result r3 = run_real(p); Fails g3; o(r3, g3);
          if (g3) { write_violation(p, x.key, x.msg, &rr, "seen in a fresh process of the built crasm, twice"); SH->stop = 1; return; }
        }
      }
    }
    return;
  }
  Result rr = run_real(p);
  Fails g; o(rr, g);
  for (auto& x : g.v) if (!known_keys_.count(x.key)) {
    write_violation(p, x.key, x.msg, &rr, "reproduced by a fresh process of the built crasm");
    SH->stop = 1;
    return;
  }
  // Only the in-process execution fails.  It must repeat, from the pristine snapshot, to count.
  for (int k = 0; k < 2; k++) {
    Result r2 = run(p);
    Fails g2; o(r2, g2);
    if (!g2) { counters_["unconfirmed"]++; return; }
  }
  write_violation(p, f.v[0].key, f.v[0].msg, &r, "repeats from the initial state in process (depends on uninitialised memory)");
  SH->stop = 1;
}

// ---------------------------------------------------------------- workers and parent
static void worker_init(int me) {
  ME = me;
  SCRATCH = WORKDIR + fmt("/w%d", me);
  mkdir(SCRATCH.c_str(), 0755);
  mkdir((SCRATCH + "/c").c_str(), 0755);
  if (chdir((SCRATCH + "/c").c_str())) _exit(3);
  DIR* d = opendir(".");
  while (auto* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) remove(e->d_name);
  closedir(d);
  cookie_io_functions_t io = {nullptr, sink_write, nullptr, nullptr};
  out_stream_ = fopencookie(&out_buf_, "w", io);
  setvbuf(out_stream_, nullptr, _IOFBF, 1 << 16);
  err_stream_ = fopencookie(nullptr, "w", io);
  setvbuf(err_stream_, nullptr, _IOFBF, 1 << 12);
}

static void worker_finish() {
  string base = WORKDIR + fmt("/res.%d.%llu", ME, (unsigned long long)resume_);
  FILE* f = fopen((base + ".states").c_str(), "wb");
  for (u64 h : states_) fwrite(&h, 8, 1, f);
  fclose(f);
  f = fopen((base + ".txt").c_str(), "w");
  for (auto& c : counters_) fprintf(f, "C %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
  auto esc = [](const string& s) { string o; for (char c : s) if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else o += c; return o; };
  for (auto& s : samples_) fprintf(f, "S %s\n", esc(s).c_str());
  for (auto& s : bounds_) fprintf(f, "B %s\n", esc(s).c_str());
  for (auto& s : known_seen_) fprintf(f, "K %s\n", esc(s).c_str());
  fclose(f);
}

static Prog read_cur(Slot& s) {
  Prog p; const char* c = s.cur;
  auto num = [&] { u64 n; memcpy(&n, c, 8); c += 8; return n; };
  auto str = [&] { u64 n = num(); string x(c, n); c += n; return x; };
  u64 n = num(); for (u64 i = 0; i < n; i++) p.args.push_back(str());
  n = num(); for (u64 i = 0; i < n; i++) { string a = str(), b = str(); p.files.push_back({a, b}); }
  return p;
}

static string json_str(const string& s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

int main(int argc, char** argv) {
  // args: tier seed workdir realbin replaysdir evidence known-file [scope]
  if (argc < 8) { fprintf(stderr, "usage\n"); return 3; }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Cx cx;
  cx.thorough = !strcmp(argv[1], "thorough");
  cx.seed = strtoull(argv[2], 0, 10);
  WORKDIR = argv[3]; REAL = argv[4]; REPLAYS = argv[5];
  string evidence = argv[6];
  if (argc > 8) cx.only = argv[8];
#ifdef __SANITIZE_ADDRESS__
  asan_build = true;
#endif
  double t0 = now();
  // known findings: "property=<id> key=<key> :: text"
  std::map<string, string> known_text;
  { string k; if (get_file(argv[7], k)) {
      size_t i = 0;
      while (i < k.size()) {
        size_t e = k.find('\n', i); if (e == string::npos) e = k.size();
        string l = k.substr(i, e - i); i = e + 1;
        string pre = string("property=") + PROPERTY + " key=";
        if (l.compare(0, pre.size(), pre)) continue;
        size_t q = l.find(" :: ");
        string key = l.substr(pre.size(), q == string::npos ? string::npos : q - pre.size());
        known_keys_.insert(key); known_text[key] = q == string::npos ? "" : l.substr(q + 4);
      } } }
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  NW = getenv("MC_WORKERS") ? atoi(getenv("MC_WORKERS")) : (int)sysconf(_SC_NPROCESSORS_ONLN);
  if (NW < 1) NW = 1;
  if (NW > 16) NW = 16;
  take_snapshot();
  conf_left_ = (cx.thorough ? 2000 : 240) / NW + 1;
  conf_every_ = getenv("MC_CONF") ? atoi(getenv("MC_CONF")) : 37;
  vector<pid_t> pid(NW, 0);
  auto spawn = [&](int w, u64 resume) {
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      resume_ = resume; SH->slot[w].resume = resume;
      if (asan_build) { int e = open((WORKDIR + fmt("/asan.%d", w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2); }
      worker_init(w);
      explore(cx);
      if (w == 0) SH->total_cases = counter_;
      worker_finish();
      fflush(nullptr);
      _exit(0);
    }
    pid[w] = c;
  };
  for (int w = 0; w < NW; w++) spawn(w, 0);
  vector<u64> hb(NW, 0); vector<double> hbt(NW, now());
  int alive = NW; int crashes = 0; bool broken = false;
  vector<u64> dummy;
  double hang_limit = 12;
  while (alive > 0) {
    for (int w = 0; w < NW; w++) {
      if (!pid[w]) continue;
      int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
      bool dead = false; string why; int status = 0;
      if (r == pid[w]) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; alive--; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "engine: worker %d failed\n", w); broken = true; pid[w] = 0; alive--; continue; }
        dead = true;
        if (WIFSIGNALED(st)) { why = fmt("crash (signal %d)", WTERMSIG(st)); status = ST_CRASH + WTERMSIG(st); }
        else if (WEXITSTATUS(st) == 78) { why = "endless output"; status = ST_RUNAWAY; }
        else if (WEXITSTATUS(st) == 79) { why = "endless memory use"; status = ST_RUNAWAY; }
        else { why = fmt("memory error (sanitizer, exit %d)", WEXITSTATUS(st)); status = ST_CRASH; }
      } else if (SH->slot[w].in_run) {
        if (SH->slot[w].heartbeat != hb[w]) { hb[w] = SH->slot[w].heartbeat; hbt[w] = now(); }
        else if (now() - hbt[w] > (SH->stop && SH->nviol ? 1 : hang_limit)) {
          kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
          dead = true; why = "does not terminate"; status = ST_HANG;
        }
      } else hbt[w] = now();
      if (!dead) continue;
      if (SH->stop && SH->nviol) { pid[w] = 0; alive--; continue; }   // decided already
      Slot& sl = SH->slot[w];
      if (!sl.in_run || !sl.curlen) { fprintf(stderr, "engine: worker %d died outside the code under test: %s (case %llu)\n", w, why.c_str(), (unsigned long long)sl.counter); broken = true; pid[w] = 0; alive--; SH->stop = 1; continue; }
      // replay alone, in a fresh process, with a longer limit
      Prog p = read_cur(sl);
      u64 at = sl.counter;
      ME = w; SCRATCH = WORKDIR + fmt("/w%d", w); mkdir((WORKDIR + fmt("/w%d", w)).c_str(), 0755);
      string err;
      Result rr = run_exec(p, REAL, SCRATCH + "/real", 30, &err);
      bool conf = rr.status >= ST_CRASH || rr.status == 99 || rr.out.size() > (60u << 20);
      string asan;
      if (asan_build) { get_file((WORKDIR + fmt("/asan.%d", w)).c_str(), asan); }
      string key = "crash";
      if (!asan.empty()) {
        size_t i = asan.find("SUMMARY:"); if (i != string::npos) { size_t e = asan.find('\n', i); key = asan.substr(i, e - i); }
      }
      crashes++;
      if (conf || status != ST_HANG) {
        if (known_keys_.count(key)) { known_seen_.insert(key); }
        else {
          write_violation(p, key, "the assembler " + why + "\n" + excerpt(asan.empty() ? err : asan, 1500), &rr,
                          conf ? "reproduced by a fresh process of the built crasm" : "in process only");
          SH->stop = 1;
        }
      }
      sl.in_run = 0;
      hb[w] = 0; hbt[w] = now();
      if (SH->stop || crashes > 50) { pid[w] = 0; alive--; SH->stop = 1; if (!SH->nviol) broken = true; }
      else spawn(w, at + 1);
    }
    usleep(2000);
  }
  // ---- merge
  std::unordered_set<u64> all; std::map<string, u64> cnt; vector<string> samples, bounds; 
  u64 executed = 0, trans = 0, rr = 0, rs = 0, rd = 0, runs = 0;
  for (int w = 0; w < NW; w++) { Slot& s = SH->slot[w]; executed += s.executed; trans += s.transitions; rr += s.real_runs; rs += s.real_same; rd += s.real_diff; runs += s.runs; }
  vector<string> viol;
  DIR* d = opendir(WORKDIR.c_str());
  while (auto* e = readdir(d)) {
    string n = e->d_name, full = WORKDIR + "/" + n, c;
    if (n.size() > 7 && n.substr(n.size() - 7) == ".states" && get_file(full.c_str(), c))
      for (size_t i = 0; i + 8 <= c.size(); i += 8) { u64 h; memcpy(&h, &c[i], 8); all.insert(h); }
    else if (n.compare(0, 4, "res.") == 0 && get_file(full.c_str(), c)) {
      size_t i = 0;
      while (i < c.size()) {
        size_t q = c.find('\n', i); string l = c.substr(i, q - i); i = q + 1;
        if (l.size() < 2) continue;
        string rest = l.substr(2);
        if (l[0] == 'C') { size_t sp = rest.rfind(' '); cnt[rest.substr(0, sp)] += strtoull(rest.c_str() + sp + 1, 0, 10); }
        if (l[0] == 'S') samples.push_back(rest);
        if (l[0] == 'B' && std::find(bounds.begin(), bounds.end(), rest) == bounds.end()) bounds.push_back(rest);
        if (l[0] == 'K') known_seen_.insert(rest);
      }
    } else if (n.compare(0, 5, "viol.") == 0 && get_file(full.c_str(), c)) viol.push_back(c);
  }
  closedir(d);
  std::sort(samples.begin(), samples.end()); std::sort(viol.begin(), viol.end());
  if (samples.size() > 6) { vector<string> s2; for (size_t i = 0; i < 6; i++) s2.push_back(samples[i * samples.size() / 6]); samples.swap(s2); }
  double wall = now() - t0;
  const char* level = getenv("MC_LEVEL") ? getenv("MC_LEVEL") : "model_checking";
  bool stopped = SH->stop;
  FILE* f = fopen((evidence + ".tmp").c_str(), "w");
  fprintf(f, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n \"coverage\": {\n", json_str(PROPERTY).c_str(), argv[1], (unsigned long long)cx.seed, level);
  bool mck = !strcmp(level, "model_checking");
  if (mck) fprintf(f, "  \"states\": %zu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", all.size(), (unsigned long long)trans, (unsigned long long)rs);
  if (mck) fprintf(f, "  \"programs_enumerated\": %llu,\n", (unsigned long long)executed);
  else fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n", (unsigned long long)executed, all.size());
  fprintf(f, "  \"executions_of_the_code\": %llu,\n  \"rule\": %s,\n", (unsigned long long)runs, json_str(RULE).c_str());
  fprintf(f, "  \"fresh_process_runs\": %llu,\n  \"fresh_process_replays_diverging\": %llu,\n", (unsigned long long)rr, (unsigned long long)rd);
  fprintf(f, "  \"workers\": %d,\n  \"exhaustive\": %s,\n", NW, stopped ? "false" : "true");
  fprintf(f, "  \"counters\": {"); bool first = true;
  for (auto& c : cnt) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(f, "},\n  \"bounds\": ["); first = true;
  for (auto& b : bounds) { fprintf(f, "%s%s", first ? "" : ", ", json_str(b).c_str()); first = false; }
  fprintf(f, "],\n  \"samples\": ["); first = true;
  for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ", ", json_str(s).c_str()); first = false; }
  fprintf(f, "]\n },\n \"assumptions\": [\"programs outside the stated alphabet and bounds are not covered\", \"the in-process executor (snapshot of .data/.bss, renamed main) behaves like a fresh process; checked by replaying a fixed selection of the cases in one\"],\n");
  fprintf(f, " \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, SH->nviol);
  fclose(f);
  rename((evidence + ".tmp").c_str(), evidence.c_str());
  for (auto& k : known_seen_) printf("KNOWN-FINDING: property=%s %s (%s)\n", PROPERTY, k.c_str(), known_text[k].c_str());
  printf("%s %s: %llu cases, %llu executions, %zu states, %llu transitions, %llu/%llu fresh-process replays identical, %.1fs\n", PROPERTY, argv[1],
         (unsigned long long)executed, (unsigned long long)runs, all.size(), (unsigned long long)trans, (unsigned long long)rs, (unsigned long long)(rs + rd), wall);
  for (auto& c : cnt) printf("  %s = %llu\n", c.first.c_str(), (unsigned long long)c.second);
  if (!viol.empty()) {
    for (auto& v : viol) {
      size_t q = v.find('\n');
      printf("VIOLATION property=%s replay=%s\n", PROPERTY, v.substr(0, q).c_str());
      printf("%s\n", v.substr(q + 1).c_str());
    }
    return 1;
  }
  if (broken) return 2;
  return 0;
}
