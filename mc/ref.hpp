// Reference assembler: an independent executable specification of what crasm promises.
// It follows the manual (crasm.html) and the processors' instruction sets, not crasm's code:
// expressions are parsed by precedence climbing, instructions come from ISA tables, sources are
// split into lines up front.  Where it does not want to predict something it says so
// (`wrapped`), and the drivers then judge by invariants instead.
#pragma once
#include "engine.hpp"

namespace ref {

enum Kind { K_MNEMO = -1, K_MACRO = 2, K_ABS = 3, K_REGS = 5, K_BIT = 6 };

struct Val { Kind kind = K_ABS; i64 v = 0; int mod = 0, id = 0; bool fwd = false, undef = false; };

struct Sym {
  string name;
  Kind kind = K_ABS;
  i64 v = 0;
  int mod = 0;
  bool undef = true, fwd = false, used = false, noredef = false;
  bool pseudo = false, vocab = false;
  int id = 0;            // pseudo or instruction number
};

struct Diag { int line; bool error; string msg; };

struct Out {
  vector<std::pair<uint32_t, uint8_t>> code;   // emission order, CODE sections only
  vector<std::pair<uint32_t, int>> runs;       // (address, length) of maximal contiguous emissions
  bool any_byte = false;     // something was emitted, code or dummy
  vector<Diag> diags;        // second pass
  int errors = 0, warnings = 0;
  string text;               // the whole expected standard output
  vector<string> rows;       // listing rows in order, without page breaks
  std::set<int> wide_lines;  // lines whose result depends on arithmetic beyond 32 bits
  bool wrapped = false;      // a listing line did not fit: `text` is not a prediction
  bool open = false;         // a refused line which may emit bytes and be warned about, or not
  bool fatal = false, usage = false; string fatal_msg;   // usage: a wrong command line
  int status = 0;
  bool code_file = false;
  bool hex = false;          // Intel HEX rather than S-records
  u64 pc = 0, codelen = 0;
  std::map<string, Sym> syms;
  string unstable;           // a symbol defined once whose uses did not all see its final value
  int llen = 76, plen = 66;
};

// `version` is what crasm prints in its page header
Out assemble(const Prog& p, const string& version);

// names of the instructions of a family: 0 = 6502, 1 = 6800, 2 = Z80
vector<string> isa(int family);
vector<string> pseudo_list();

// ---- readers for crasm's outputs
struct Record { char type; uint32_t addr; vector<uint8_t> data; };
// decodes an S-record or Intel HEX file; any malformation is reported in err
struct Image {
  string err;
  vector<Record> recs;                             // data records in file order
  vector<std::pair<uint32_t, uint8_t>> bytes;      // in file order
};
Image read_srec(const string& text);
Image read_hex(const string& text);
Image read_code(const string& text);               // by its first character

struct DiagLine { int line; bool error; string msg; };
vector<DiagLine> read_diags(const string& out);    // ">>>> 12 ERROR: text"
int read_counter(const string& out, const char* name);   // "ERRORS:", "WARNINGS:"
bool says_success(const string& out);

string strdump(const vector<std::pair<uint32_t, uint8_t>>& v, size_t max = 40);
string show(const Prog& p);
vector<string> lines_of(const string& s);
string first_diff(const string& a, const string& b);
}

// standard oracles used by most drivers
string crasm_version(Cx& cx);
enum { O_CODE = 1, O_DIAG = 2, O_TEXT = 4, O_COUNTS = 8, O_ALL = 15, O_NOTABLE = 16 };
// compares a run with the reference; `what` selects the aspects
void against_ref(const Prog& p, const ref::Out& x, const Result& r, Fails& f, int what, const string& key);
