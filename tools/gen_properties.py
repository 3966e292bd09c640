#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
DIFF = "The 11 tests assemble one fixed program each and compare the code file (listing and warnings are never looked at)"

p("C01", "S-record output carries exactly the emitted bytes",
  "When a program assembles without error and S-record output is in force, the code file is a well-formed Motorola S-record file (upper-case hex, correct counts, checksums and terminator) whose data records give every byte the program emits outside DUMMY sections, at the address where it was emitted, in emission order, and nothing else. The record type (S1/S2/S3) always fits the record's address, and this holds for every origin, origin change (forward, backward, none), block length and DUMMY/CODE switch.",
  ["inputs", "programs"], "all programs, seen as sequences of emissions, origin changes and section switches",
  DIFF + "; record boundaries, address ranges above 64K and DUMMY switches are hardly reached.",
  ["src/scode.c", "src/label.c", "src/pseudos.c"],
  [("record buffer flushed when full, at an origin change and at the end of a 64K segment", "src/scode.c insert8, setpc, flushscoderaw"), ("terminator and close", "src/scode.c closescodefile")],
  ["the file named by -o"], [("raw/rawnumber/rawstart", "bytes waiting for the next record and their address", "src/scode.c")])
p("C02", "Intel HEX output carries exactly the emitted bytes",
  "When OUTPUT HEX is in force (or the Z80 is selected), the code file is a well-formed Intel HEX file (counts, checksums, one end record) whose data records, read with their extended linear address records, give every byte emitted outside DUMMY sections at its 32-bit address, in emission order, and nothing else. No record runs over the end of a 64K segment.",
  ["inputs", "programs"], "all programs, seen as sequences of emissions, origin changes and section switches",
  DIFF + "; only one test uses Intel HEX, with one contiguous block below 64K.",
  ["src/scode.c", "src/pseudos.c", "src/cpuz80.c"],
  [("extended address record when the upper half of the address changes", "src/scode.c flushscoderaw"), ("checksum", "src/scode.c scodebyte")],
  ["the file named by -o"], [("rawextended", "upper half of the address last announced", "src/scode.c")])
p("C03", "6500/6502/65C02 instructions get their documented encoding",
  "For CPU 6500, 6502 and 65C02, every instruction in every addressing mode it has assembles to the opcode of the processor's instruction set followed by its operand in the right size and low-byte-first order; zero-page forms are chosen exactly when the operand is known to fit (and absolute forms otherwise or when only these exist). An addressing mode or instruction the selected processor lacks, or an operand that is no addressing mode, is reported as an error and never yields a code file.",
  ["inputs", "configurations"], "all instruction x addressing mode x operand value x processor combinations, and all operand shapes",
  DIFF + "; two 6502-family sources use a part of the instruction set with ordinary operands, and no test checks that anything is rejected.",
  ["src/cpu6502.c", "src/filter.c", "src/cpu.h"],
  [("addressing mode recognition", "src/cpu6502.c findmode, via filter()"), ("opcode tables per mnemonic", "src/cpu6502.c")],
  ["code file", "listing", "error reports"])
p("C04", "6800/6801/6803 instructions get their documented encoding",
  "For CPU 6800, 6801 and 6803, every instruction in every addressing mode it has (inherent, immediate 8/16 bit, direct, indexed, extended) assembles to the opcode of the instruction set followed by its operand, high byte first; direct is used exactly when the operand is known to fit in a byte and the instruction has it, extended otherwise. Unknown modes, and 6801-only instructions on the 6800, are errors.",
  ["inputs", "configurations"], "all instruction x addressing mode x operand value x processor combinations, and all operand shapes",
  DIFF + "; the 6800/6801 sources use ordinary operands of some instructions, and nothing checks rejection.",
  ["src/cpu6800.c", "src/filter.c"],
  [("addressing mode recognition and choice", "src/cpu6800.c standard"), ("opcode tables", "src/cpu6800.c, src/cpu.h")], ["code file", "listing", "error reports"])
p("C05", "Z80 instructions get their documented encoding",
  "For CPU Z80, every documented instruction with every operand combination (registers, register pairs, (HL), (IX+d)/(IY+d) with any displacement, immediates, memory, ports, conditions, bit numbers, interrupt modes, restart vectors) assembles to the documented bytes. Every other combination of a mnemonic with operands of these kinds is reported as an error and yields no code file.",
  ["inputs"], "all mnemonic x operand x operand combinations over the operand kinds",
  DIFF + "; opcode.z80 lists valid forms with one displacement and one immediate value, and never an invalid combination.",
  ["src/cpuz80.c", "src/filter.c"],
  [("operand classification", "src/cpuz80.c findreg/parse"), ("per-group encoders", "src/cpuz80.c")], ["code file", "error reports"])
p("C06", "Relative branches reach exactly their target or are refused",
  "Every relative branch (all conditional branches, BRA, BSR, JR, DJNZ on every processor) is encoded with the displacement from the end of the instruction to the target, for targets before or after it, numeric or symbolic, in CODE or DUMMY sections. A branch is accepted exactly when that displacement lies in -128..127, and otherwise reported as an error.",
  ["inputs", "programs"], "all branch instructions x all distances around the limits x forward/backward/symbolic targets x locations",
  DIFF + "; no test has a displacement near -128 or 127, or a branch that is too long.",
  ["src/cpu6502.c", "src/cpu6800.c", "src/cpuz80.c", "src/label.c"],
  [("displacement computation and range check", "src/cpu6502.c bra8, src/cpu6800.c bra8, src/cpuz80.c")], ["code file", "error reports"])
p("C07", "Expressions have the documented value",
  "Every expression built from numbers, labels, *, parentheses, the unary operators (-, ~, LO, HI) and the binary operators + - * / | & ^ << >> evaluates to the value given by the documented precedence, left-to-right grouping within a precedence level, and 32-bit-or-wider integer arithmetic, whatever blanks are inserted and wherever the expression appears (equates, data, operands, conditions). A bit reference a{b} has the address a (ADDR) and the bit number b (BIT), both ordinary numbers; a register range or list is exactly its registers, one register being a range and a list of itself. Malformed expressions and operators applied to the wrong kind of operand are errors, never silently given a value.",
  ["inputs"], "all expressions over the operators and a set of boundary operands, up to a size; all register ranges and lists, bit references and their comparisons",
  DIFF + "; the sources contain a few short expressions and no malformed ones.",
  ["src/parse.c", "src/operator.c", "src/filter.c"],
  [("operator precedence by pattern order, right to left on the reversed text", "src/parse.c parserev"), ("operators", "src/operator.c")], ["code file", "listing", "error reports"])
p("C08", "Constants are read exactly in every notation",
  "Every numeric constant in each supported notation (decimal, $hex, 0xhex, hexH, %binary, 0bbinary, binaryB, octalQ, quoted characters with their escapes, in either letter case) has exactly its mathematical value, up to 32 bits. A constant that does not fit in 32 bits, has a digit outside its base, no digits, or a bad escape is an error.",
  ["inputs"], "all constants in all notations up to a length, and boundary values",
  DIFF + "; a handful of constants in two or three notations.",
  ["src/parse.c"], [("conversion by base with overflow check", "src/parse.c number conversion"), ("ascii constants", "src/parse.c")], ["code file", "listing", "error reports"])
p("C09", "Data directives emit exactly what they say",
  "DB, DW, DL, DDB, DS, ASC and ALIGN emit exactly the bytes they denote: each listed value in order, in the size of the directive and the byte order of the selected processor (reversed for DDB), DS its count of fill bytes, ASC each character with its escapes, ALIGN one zero byte if and only if the program counter has the wrong parity; the program counter and the reported code length advance by exactly that number.",
  ["inputs", "configurations"], "all data statements over value/list/escape alphabets x processors x alignments",
  DIFF + "; a few data statements with ordinary values.",
  ["src/pseudos.c", "src/scode.c"], [("Xdc, Xds, Xasc, Xalign", "src/pseudos.c"), ("insert8/16/32", "src/scode.c")], ["code file", "listing", "summary"])
p("C10", "Forward references resolve to the value the label finally has",
  "A program in which every label is defined once yields the same code whether a label is used before or after its definition (apart from the documented choice of the long addressing form for forward references), however far definitions are chained. If the two passes would give a label different values, the program is reported as erroneous instead of producing code with the wrong value.",
  ["programs", "inputs"], "all programs over label definitions, equates, uses, size-changing instructions and conditionals up to a length",
  DIFF + "; only correct programs with simple forward references.",
  ["src/label.c", "src/crasm.c", "src/parse.c"], [("UNDEF/FORWARD flags kept across passes", "src/label.c findlabel, deflabel"), ("phase check in pass 2", "src/label.c deflabel")], ["code file", "error reports"],
  [("label flags", "undefined, forward, used, not redefinable", "src/label.h")])
p("C11", "Label definition rules are enforced",
  "A label (position label or equate) has its defined value from its definition on; redefinition of a position label or of a keyword, use of an undefined symbol, a label before any origin, a malformed or missing name are errors, while an equated symbol may be given new values and each use sees the latest one. A symbol equated to a mnemonic, directive, register or macro means exactly that from then on. Names are case-insensitive, compared in full up to the documented length, and may not silently collide with other names.",
  ["programs", "inputs"], "all sequences of definitions, redefinitions and uses over a small set of names, and all short names",
  DIFF + "; no test contains an error.",
  ["src/label.c", "src/crasm.c", "src/pseudos.c"], [("binary tree of names", "src/label.c searchlabel"), ("NOREDEF/UNDEF rules", "src/label.c deflabel")], ["code file", "error reports", "symbol table"])
p("C12", "Local labels are private to their scope",
  "A label beginning with a dot is visible exactly within its scope: scopes start at each CODE or DUMMY directive and each macro expansion has its own, the surrounding scope being restored after the expansion. The same local name in different scopes denotes independent values, and references never cross scopes, in either pass and in either direction.",
  ["programs"], "all programs over local definitions, uses, scope changes and macro calls up to a length",
  DIFF + "; local labels appear in one test, without nesting or collisions.",
  ["src/label.c", "src/macro.c", "src/pseudos.c"], [("scope number prefixed to the name", "src/label.c"), ("scope number saved around a macro expansion", "src/macro.c execmacro")], ["code file", "error reports"],
  [("labmodule / modulecalls", "number of the current scope", "src/label.c, src/macro.c")])
p("C13", "Conditional assembly selects exactly the right lines",
  "For any nesting of IF/ELSE/ENDC (in the source, in macros and in included files), exactly the lines whose enclosing conditions select them are assembled, all others have no effect whatever they contain, in both passes; IF is true exactly when its comparison (== = != <> < > <= >=, or a non-zero value) is. Unbalanced or misplaced ELSE, ENDC, or an unfinished IF are errors.",
  ["programs", "inputs"], "all sequences of conditional and other statements up to a length, all comparisons over boundary values",
  DIFF + "; tstif checks some nestings with constant conditions.",
  ["src/macro.c", "src/crasm.c"], [("recursive Xif reading lines until ELSE/ENDC", "src/macro.c Xif"), ("inactive status passed to asmline", "src/crasm.c asmline")], ["code file", "listing", "error reports"])
p("C14", "A macro call equals its body with the arguments substituted",
  "Assembling a macro call gives the same code, labels and errors as assembling the body's lines with \\1..\\9 replaced by the call's arguments, \\* by the whole operand and \\# by their number, up to ENDM or an executed EXITM, at any nesting of macros, conditionals and includes. Giving a macro's name a new meaning affects later uses only, and excess nesting or arguments, unfinished or nested definitions and the definition of a name that is a macro already are reported, never crash or loop; ENDM and EXITM outside of a macro do nothing.",
  ["programs", "inputs"], "all macro bodies and calls over small alphabets up to a length",
  DIFF + "; tstmacros and the 6502 sources use a few macros with one or two arguments.",
  ["src/macro.c"], [("body stored in a temporary file, re-read on call", "src/macro.c Xmacro, execmacro"), ("argument substitution", "src/macro.c linegets")], ["code file", "listing", "error reports"],
  [("macrolevel", "depth of expansion", "src/macro.c")])
p("C15", "INCLUDE equals the included text in place",
  "A program with INCLUDE gives the same code, labels and errors as the program with each included file's lines in its place, at any nesting depth up to the limit, with or without a newline at the end of any file, from macros and conditionals; line numbers in reports refer to the file's own lines. A missing file and excess nesting end the assembly or are reported as an error; an INCLUDE that conditions do not select is not read at all.",
  ["programs", "inputs"], "all splits of programs over files, nestings and line endings up to a size",
  DIFF + "; one test includes one file.",
  ["src/macro.c", "src/pseudos.c"], [("stack of sources", "src/macro.c linegets, pushmacro/include"), ("Xinclude", "src/pseudos.c")], ["code file", "listing", "error reports"])
p("C16", "Every erroneous line is reported, and only those",
  "In any program, each erroneous line is reported as an error exactly once with its own line number, each other line is assembled as if the erroneous ones emitted what they emit alone, and the summary's error and warning counts equal the numbers of reports. Nothing is reported for correct lines; FAIL reports its text.",
  ["programs", "inputs"], "all sequences of correct, erroneous and warned lines up to a length, in all contexts",
  DIFF + "; no test contains an error or looks at the reports.",
  ["src/crasm.c", "src/macro.c"], [("error() jumps back to the line loop", "src/crasm.c error, pass"), ("nested error returns of IF and macro", "src/macro.c")], ["listing", "summary"])
p("C17", "No code file claims success for a failed assembly",
  "The file named by -o is written, complete and correct, exactly when the assembly succeeded and placed at least one byte (in a CODE or a DUMMY section); a run with any error in its second pass or a fatal error leaves no code file of its own and does not claim success. A run without -o writes no code file.",
  ["programs", "inputs", "histories"], "all programs over correct and erroneous statements, all option sets",
  DIFF + "; only successful runs.",
  ["src/crasm.c", "src/scode.c"], [("removal of the code file when errors were counted", "src/crasm.c crasm"), ("creation at the first byte of pass 2", "src/scode.c insert8")], ["the file named by -o", "summary", "exit status"])
p("C18", "The listing shows every line with its true address and bytes",
  "With listing on, each source line appears once, in order, with its line number (or the marker of macro and skipped lines), and the address and bytes shown beside the lines are exactly the bytes emitted and their addresses (long blocks abbreviated with ...); equates and labels in DUMMY show their value. LIST, CLIST, MLIST, ILIST and SKIP select lines as documented.",
  ["programs", "configurations"], "all sequences of statements and listing controls up to a length",
  "The tests run with the listing off and compare the code file only.",
  ["src/output.c", "src/crasm.c", "src/macro.c"], [("line buffer with address/byte columns", "src/output.c outputbyte, outputline"), ("listing flags", "src/pseudos.c, src/macro.c")], ["standard output"])
p("C19", "Listing and reporting options never change the code",
  "The code file (or its absence) and the errors are the same for every combination of -l, -s and -x and for every LIST, CLIST, MLIST, ILIST, PAGE, NAM and SKIP statement inserted anywhere in the program (main source, macro body or included file). -s suppresses exactly the warnings.",
  ["configurations", "programs"], "all option subsets x programs, all insertions of listing statements into programs",
  "The tests always use -l and no other option.",
  ["src/crasm.c", "src/output.c", "src/pseudos.c"], [("asmflags tested by output functions only", "src/output.c"), ("options applied in pass 2", "src/crasm.c")], ["code file", "error reports"])
p("C20", "The symbol table lists every symbol once with its final value",
  "The symbol table lists each global symbol of the program exactly once, in alphabetical order, with its final value and kind, and marks unused (?) and forward-referenced (^) symbols correctly; local labels, * and built-in names are not listed. It is printed after every successful assembly with listing and whenever -x is given, whatever the page shape or LIST OFF.",
  ["programs", "inputs"], "all sets and insertion orders of names, kinds of definition and uses up to a size",
  "The tests run with -l and never look at the symbol table.",
  ["src/xref.c", "src/label.c"], [("in-order walk of the tree", "src/xref.c"), ("USED/FORWARD flags", "src/label.c")], ["standard output"])
p("C21", "Pages and lines keep the size asked for",
  "For every PAGE setting in the allowed range (length 0 or 10 to 200, width 39 to 999), every page has exactly the requested number of lines with consecutively numbered headers that carry the NAM title (length 0: a single page), and no line of the listing, summary or symbol table other than page headers and error or warning messages exceeds the requested width; longer lines are wrapped without losing or reordering non-blank characters. PAGE values out of range and titles of more than 30 characters are errors.",
  ["configurations", "programs"], "all page lengths and widths x program lengths and line lengths",
  "The tests run with the listing off.",
  ["src/output.c", "src/pseudos.c", "src/xref.c"], [("line and page counters", "src/output.c outputraw, outputcar"), ("PAGE and NAM", "src/pseudos.c")], ["standard output"])
p("C22", "No input crashes, corrupts memory or hangs the assembler",
  "For every source text, include structure and command line, crasm terminates with its documented exit status without reading or writing outside its objects, using uninitialised or freed memory, or looping; limits of lines, labels, operands, nesting and numbers lead to reports.",
  ["inputs", "programs"], "all texts over token alphabets up to a length, all lengths of every kind of element around every buffer size, all truncations and single-character edits of programs",
  DIFF + "; a sanitizer on 11 well-formed programs says nothing about malformed ones.",
  ["src/filter.c", "src/parse.c", "src/macro.c", "src/output.c", "src/crasm.c", "src/pseudos.c", "src/label.c", "src/xref.c"],
  [("fixed buffers with length checks", "src/filter.c, src/macro.c, src/output.c, src/label.c")], ["termination status", "AddressSanitizer"])
p("C23", "I/O failures are reported and leave no false result",
  "When the code file cannot be created, written (at any byte) or closed, a source or include file cannot be opened or read (at any byte, in either pass), or memory runs out, crasm reports the failure (an error message with exit status 10, or an error in the summary), never passes for a successful assembly, and leaves no incomplete code file.",
  ["fault_sequences"], "every failing operation and every byte position of the failure, over programs of different output sizes",
  "The tests never inject a failure.",
  ["src/scode.c", "src/crasm.c", "src/macro.c"], [("ferror/fclose checks", "src/scode.c"), ("fileerror", "src/crasm.c")], ["exit status", "standard output", "the file named by -o"])
p("C24", "Assembly is deterministic",
  "The same program and options always give the same code file, listing and exit status: nothing depends on uninitialised stack or heap memory, or on the content of a code file left by an earlier run.",
  ["inputs", "histories"], "all programs of the alphabets x contents of fresh stack and heap memory x previous outputs",
  "Each test runs once in one environment.",
  ["src/crasm.c", "src/macro.c", "src/output.c", "src/filter.c", "src/parse.c"], [("initialised globals and buffers", "all")], ["standard output", "code file"])
p("C25", "The program counter and sections follow the source",
  "The value of * and of every position label is the address at which the next byte would be placed, after any sequence of origins (forward, backward), emissions, DS, DUMMY and CODE sections; bytes in DUMMY sections take addresses but are never written nor counted in the code length. Emission or labels before any origin are errors, and the summary's last address and code length are exact.",
  ["programs"], "all sequences of origin, emission, section and label statements up to a length",
  DIFF + "; DUMMY and origin changes appear once or twice.",
  ["src/crasm.c", "src/scode.c", "src/pseudos.c", "src/label.c"], [("* updated after each line by the bytes emitted", "src/crasm.c asmline"), ("setpc", "src/scode.c"), ("Xcode/Xdummy", "src/pseudos.c")], ["code file", "listing", "summary"],
  [("pc / advance", "address of the next byte, bytes emitted by the line", "src/scode.c, src/crasm.c")])
p("C26", "CPU selects exactly one processor's vocabulary",
  "CPU accepts exactly the documented processor names (any letter case) and makes exactly that processor's instructions and registers known, with its byte order, address width and default output format; before it, or for other processors, their mnemonics are unknown (errors), and a second CPU or an unknown name is an error. Symbols of the user that coincide with keywords are handled as documented, not silently.",
  ["configurations", "programs"], "all processor names x all mnemonics of all processors, all pairs of CPU statements, all user names equal to a keyword",
  DIFF + "; each test selects one processor and uses its own instructions.",
  ["src/cpulist.c", "src/label.c", "src/pseudos.c", "src/cpu6502.c", "src/cpu6800.c", "src/cpuz80.c"], [("vocabulary added to the symbol tree", "src/label.c addvocabulary"), ("Xcpu", "src/pseudos.c, src/cpulist.c")], ["code file", "error reports"])
p("C27", "The command line is honoured",
  "Every documented combination and grouping of options (-o FILE, -l, -s, -x, in any order around the source name) has its documented effect, and every other command line (unknown option, missing or repeated source name, missing or repeated -o argument, unreadable source) ends with a message and exit status 10 without assembling anything or writing a file; a completed assembly exits with status 0.",
  ["configurations"], "all argument vectors over an alphabet of words up to a length",
  "The tests use one command line, -l -o FILE SOURCE.",
  ["src/crasm.c"], [("option loop of main", "src/crasm.c main")], ["exit status", "standard output", "files written"])
p("C28", "Layout, case and comments do not matter",
  "Inserting or removing blanks and tabs between the parts of a statement, comments, blank lines, or changing the letter case of keywords, labels and hex digits outside quotes, changes neither the code nor the errors. Quotes protect blanks, semicolons, commas and case.",
  ["inputs"], "all placements of blanks, comments and case changes over a set of statements of every kind",
  DIFF + "; each source has one layout.",
  ["src/crasm.c", "src/filter.c", "src/label.c"], [("blank skipping in filter patterns", "src/filter.c"), ("strupper/strcasecmp", "src/label.c, src/crasm.c")], ["code file", "error reports"])
p("C29", "Values too large for their field are reported exactly then",
  "Every value placed in a field of limited width is stored truncated to the field and reported (a warning, or an error for 6800 index offsets, restart vectors, bit numbers and interrupt modes) exactly when it does not fit: outside 0..255 for DB and DS fill and outside 0..65535 for DW and DDB, outside 0..255 modulo 65536 for 8-bit operands of instructions, outside -128..127 for Z80 displacements. 16-bit operands of instructions and DL give no report. This holds for constants, symbols and forward references alike on every processor.",
  ["inputs", "configurations"], "all fields x boundary values of each width x processors",
  DIFF + "; warnings are never looked at.",
  ["src/cpu6502.c", "src/cpu6800.c", "src/cpuz80.c", "src/pseudos.c"], [("width masks before the warning", "src/pseudos.c, src/cpu*.c")], ["listing", "summary", "code file"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
