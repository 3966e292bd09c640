# the planted bugs: id, property, file, edit (old, new), demonstration
BUGS = []
def bug(**k): BUGS.append(k)
A = "a.asm"

bug(id="srec-origin-64k", property="C01", file="src/scode.c",
    edit=("  if (addr != pc)\n", "  if ((addr ^ pc) & 0xffff)\n"),
    needs="an origin change by a multiple of 64K from the current address",
    breaks="a new origin is missed when it differs from the program counter in the upper 16 bits only: the bytes get wrong addresses in the code file",
    files={A: "* = $0\n db 1,2\n* = $10002\n db 3\n* = $20003\n db 4,5\n"})
bug(id="hex-extended-or", property="C02", file="src/scode.c",
    edit=("        rawextended = rawstart;\n", "        rawextended |= rawstart;\n"),
    needs="Intel HEX with blocks in at least three 64K segments, the last one the union of two earlier segment numbers",
    breaks="an extended linear address record is missing: data lands in another segment",
    files={A: " output hex\n* = $10000\n db 1\n* = $20000\n db 2\n* = $30000\n db 3\n* = $10100\n db 4\n"})
bug(id="6502-signed-zp", property="C03", file="src/cpu6502.c",
    edit=("    if ((value & 0xFF00) || (r->flags & FORWARD))\n", "    if (value > 0xFF || (r->flags & FORWARD))\n"),
    needs="a 6502 operand with a negative value",
    breaks="a negative operand (such as table-1 with table at 0) is taken for a zero-page address",
    files={A: " cpu 6502\n* = $200\ntab = 0\n lda tab-1,x\n sta 0-2\n ldx #5\n"})
bug(id="6800-index-warning", property="C04", file="src/cpu6800.c",
    edit=("      if (add == 0x20)\n", "      if (add == 0x20 && code < 0x80)\n"),
    needs="an accumulator instruction indexed with a displacement above 255",
    breaks="a displacement that does not fit is cut with a warning instead of refused",
    files={A: " cpu 6800\n* = 0\n ldaa 256,x\n"})
bug(id="z80-add-ix-hl", property="C05", file="src/cpuz80.c",
    edit=("    if (indexflag && indexflag != i)\n", "    if (indexflag && indexflag != i && i != HL)\n"),
    needs="ADD of an index register and HL",
    breaks="ADD IX,HL, which the Z80 lacks, is assembled as ADD HL,HL",
    files={A: " cpu z80\n* = 0\n add iy,iy\n add ix,hl\n"})
bug(id="6800-branch-wrap", property="C06", file="src/cpu6800.c",
    edit=("  if (d != dd) /* test operand after: */\n", "  if (d != (short) dd) /* test operand after: */\n"),
    needs="a branch whose distance is within -128..127 of a non-zero multiple of 65536",
    breaks="a branch to a place 64K away is accepted and goes somewhere else",
    files={A: " cpu 6801\n* = $FFF0\n bra $10005\n bra $0005\n beq *-$10000\n"})
bug(id="or-loses-forward", property="C10", file="src/operator.c",
    edit=("  presult->flags |= parg->flags;\n  presult->value |= parg->value;\n", "  presult->value |= parg->value;\n"),
    needs="a forward reference as right operand of | where the instruction has a short and a long form, and another forward reference across it",
    breaks="the passes choose different instruction sizes: a correct program is refused",
    files={A: " cpu 6502\n* = $200\n jmp l\n lda 0|fwd\nl nop\nfwd = $1234\n"})
bug(id="decimal-limit", property="C08", file="src/operator.c",
    edit=("    if (val > 0xffffffff / 10)\n", "    if (val >= 0xffffffff / 10)\n"),
    needs="a decimal constant in 4294967290..4294967295",
    breaks="the largest decimal constants are refused",
    files={A: "* = 0\n dl 4294967289\n dl 4294967295\n"})
bug(id="equ-over-label", property="C11", file="src/label.c",
    edit=("    if ((q->flags & NOREDEF) || (flags & NOREDEF))\n", "    if (flags & NOREDEF)\n"),
    needs="an equate with the name of an earlier position label or of a keyword",
    breaks="an equate silently takes over the name of a label or of an instruction",
    files={A: " cpu 6502\n* = 5\nx1 db 1\nx1 = 2\n db x1\nnop = 3\n db nop\n"})
bug(id="scope-number-clash", property="C12", file="src/pseudos.c",
    edit=("  segment = ++thiscall;\n  asmflags |= F_CODE_ON;\n", "  segment++;\n  asmflags |= F_CODE_ON;\n"),
    needs="a CODE directive and a macro expansion which use the same local name",
    breaks="a CODE scope and a macro's scope are the same: local labels clash or are visible across",
    files={A: "* = 0\nm macro\n.l db 1\n db .l\n endm\n m\n code\n.l db 2\n db .l\n"})
bug(id="macro-ten-args", property="C14", file="src/macro.c",
    edit=("    if (numarg > 8)\n", "    if (numarg > 9)\n"),
    needs="a macro call with exactly ten arguments",
    breaks="a tenth argument is accepted, and overwrites \\*",
    files={A: "* = 0\nm macro\n db \\*\n endm\n m 1,2,3,4,5,6,7,8,9\n m 1,2,3,4,5,6,7,8,9,10\n"})
bug(id="pass2-dummy", property="C25", file="src/crasm.c",
    edit=("  asmflags |= F_CODE_ON;\n  asmflags &= ~F_INCLUDELIST_ON;\n", "  if (n == 1)\n  {\n    asmflags |= F_CODE_ON;\n  }\n\n  asmflags &= ~F_INCLUDELIST_ON;\n"),
    needs="a program that ends inside a DUMMY section",
    breaks="the second pass starts in DUMMY: the program's bytes are not written",
    files={A: "* = 0\n db 1,2\n code\n db 3\n dummy\n* = 0\nf ds 2\ng ds 1\n"})
bug(id="include-level", property="C22", file="src/macro.c",
    edit=("  slevel = sourcelevel + 1;\n\n  if (slevel >= MAXSOURCEDEEP)\n  {\n    fatal(\"too many nested INCLUDEs and MACROs\");\n  }\n\n  source[slevel].type = S_FILE;\n", "  slevel = sourcelevel + 1;\n\n  if (slevel > MAXSOURCEDEEP)\n  {\n    fatal(\"too many nested INCLUDEs and MACROs\");\n  }\n\n  source[slevel].type = S_FILE;\n"),
    needs="a chain of exactly ten nested include files",
    breaks="the eleventh source is entered past the end of the table of sources, overwriting other variables",
    files={A: "* = 0\n include f1\n db 0\n", **{"f%d" % i: " include f%d\n db %d\n" % (i + 1, i) for i in range(1, 10)}, "f10": " db 10\n"},
    show="grep FATAL out >> got; cat code >> got 2>/dev/null\n")
bug(id="used-lost", property="C20", file="src/label.c",
    edit=("  q->flags &= USED | NOREDEF | FORWARD;\n", "  q->flags &= NOREDEF | FORWARD;\n"),
    needs="a symbol all of whose uses come before its definition",
    breaks="such a symbol is marked as unused in the symbol table",
    files={A: "* = 0\n dw fwd\nback db 1\n dw back\nfwd db 2\nnone db 3\n"}, args="-o code a.asm",
    show="grep 'Abs' out | tr -s ' ' >> got\n")
bug(id="page-shrunk", property="C21", file="src/output.c",
    edit=("    if (ppos >= plen - 2 && plen)\n", "    if (ppos == plen - 2 && plen)\n"),
    needs="a PAGE directive that makes pages shorter than what the current page already holds",
    breaks="the page never ends: the rest of the listing is one page",
    files={A: "* = 0\n page 40,60\n" + "".join(" db %d\n" % i for i in range(20)) + " page 12,60\n" + "".join(" db %d\n" % i for i in range(40))}, args="-o code a.asm",
    show="grep -c '^Crasm' out >> got\n")
bug(id="quote-in-quote", property="C28", file="src/filter.c",
    edit=("          if (!(quote & 0x1))     /* \"x'x\" ok  */\n          {\n            quote ^= 0x2;\n          }\n          break;\n\n        case '(' :", "          quote ^= 0x2;\n          break;\n\n        case '(' :"),
    needs="a double quote inside single quotes, followed by a comment or another operand",
    breaks="a quoted double quote opens another quotation: the comment after it is not recognized",
    files={A: "* = 0\n asc 'say \"' ; a comment\n db '\"',1 ; another\n"})
bug(id="ddb-overflow", property="C29", file="src/pseudos.c",
    edit=("  case 2:\n    mask = 0xffff0000;\n", "  case 2:\n"),
    needs="DDB with a value above 65535",
    breaks="DDB truncates its value without a warning",
    files={A: "* = 0\n ddb $12345\n dw $12345\n ddb 65535\n"}, args="-o code a.asm",
    show="grep WARNING out >> got\n")
bug(id="error-flags-restore", property="C16", file="src/crasm.c",
    edit=("  if (advance != 0)\n  {\n    starlabel->value += advance;\n  }\n", "  if (advance > 1)\n  {\n    starlabel->value += advance;\n  }\n"),
    needs="an erroneous line that emits exactly one byte, with an address used after it",
    breaks="the lines after a one-byte erroneous line get wrong addresses, so correct lines are reported (or wrong ones are not)",
    files={A: " cpu 6502\n* = 0\n nop 5\nl bne *+129\n dw l\n"}, args="-o code a.asm", show="grep -A1 ERROR out >> got; grep 'dw l' out >> got\n")
bug(id="continuation-address", property="C18", file="src/output.c",
    edit=("  if (lpos == 0)\n  {\n    outputaddr(pc);\n  }\n", "  if (lpos == 0)\n  {\n    outputaddr(pc - advance);\n  }\n"),
    needs="a data line with more bytes than fit on one listing line",
    breaks="the continuation lines of the listing show the address of the line's first byte",
    files={A: "* = $1000\n db 1,2,3\n db 1,2,3,4,5,6,7,8,9,10,11,12\n db 5\n"}, args="-o code a.asm", show="grep '^0000' out >> got\n")
bug(id="if-forward-accepted", property="C13", file="src/macro.c",
    edit=("  if (((r1.flags & UNDEF) && (r1.flags & FORWARD)) ||\n      ((r2.flags & UNDEF) && (r2.flags & FORWARD)))\n", "  if (((r1.flags & UNDEF) && (r1.flags & FORWARD)) &&\n      ((r2.flags & UNDEF) && (r2.flags & FORWARD)))\n"),
    needs="an IF that compares a forward reference with a known value",
    breaks="an IF on a label that has no value yet is accepted: the passes can take different branches",
    files={A: "* = 0\n if later>3\n db 1\n endc\n db 2\n ds 4\nlater db 3\n"}, args="-o code a.asm", show="grep ERROR out >> got; cat code >> got\n")
bug(id="include-line-number", property="C15", file="src/macro.c",
    edit=("  source[slevel].filedesc.oldlinnum = linenumber;\n  source[slevel].filedesc.oldprefix = lineprefix;\n  source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) ? 1 : 0;\n  source[slevel].filedesc.file  = f;\n",
          "  source[slevel].filedesc.oldlinnum = linenumber;\n  source[slevel].filedesc.oldprefix = 0;\n  source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) ? 1 : 0;\n  source[slevel].filedesc.file  = f;\n"),
    needs="a macro that includes a file, listed with MLIST ON",
    breaks="after an INCLUDE in a macro the macro's lines are listed with line numbers as if they were the file's",
    files={A: "* = 0\n mlist on\nm macro\n include b\n db 2\n endm\n m\n db 3\n", "b": " db 1\n"}, args="-o code a.asm", show="grep '^0000' out >> got\n")
bug(id="include-missing-warning", property="C23", file="src/macro.c",
    edit=("    error(\"can't open include file\");\n", "    warning(\"can't open include file\");\n    return 0;\n"),
    needs="an include file that cannot be opened",
    breaks="a program without its include file is a successful assembly",
    files={A: "* = 0\n db 1\n include missing\n db 2\n"}, show="grep Successful out >> got; cat code >> got 2>/dev/null\n")
bug(id="cpu-6502-extra", property="C26", file="src/cpu6502.c",
    edit=("  if (code == 2)\n", "  if (code)\n"),
    needs="a 65C02 mnemonic (or a label of that name) with CPU 6502",
    breaks="CPU 6502 knows the 65C02's instructions",
    files={A: " cpu 6502\n* = 0\nbra lda #1\n jmp bra\n phx\n"}, args="-o code a.asm", show="grep -E 'ERROR|WARN' out >> got\n")
bug(id="opt-l-x", property="C27", file="src/crasm.c",
    edit=("          flags &= ~LIST;\n", "          flags &= ~(LIST | XREF);\n"),
    needs="-x before -l on the command line",
    breaks="-xl does not print the symbol table, -lx does",
    files={A: "* = 0\nl db 1\n dw l\n"}, args="-xl -o code a.asm", show="grep -c 'Abs' out >> got\n")
bug(id="xor-flags", property="C07", file="src/parse.c",
    edit=("  { \"?_|_?\", 2, 3 /* logical OR */, opor,},\n  { \"?_&_?\", 2, 2 /* logical AND  */, opand,},\n", "  { \"?_|_?\", 2, 1 /* logical OR */, opor,},\n  { \"?_&_?\", 2, 2 /* logical AND  */, opand,},\n"),
    needs="an expression that mixes | with & or ^ without parentheses",
    breaks="| binds weaker than & and ^ instead of grouping with them from left to right",
    files={A: "* = 0\n db 1|2&4\n db 7&1|8\n db 1|6^3\n"})
bug(id="ds-size-first", property="C09", file="src/pseudos.c",
    edit=("  advance = r->value;\n  return 0;\n", "  advance = (byte) r->value;\n  return 0;\n"),
    needs="DS with 128 bytes or more",
    breaks="the program counter after a long DS is wrong",
    files={A: "* = 0\n ds 100,1\na dw a\n ds 300,2\nb dw b\n"})
bug(id="uninit-label", property="C24", file="src/label.c",
    edit=("      memset(labelarray_inst, 0, sizeof(*labelarray_inst));\n", "      labelarray_inst->position = 0;\n"),
    needs="malloc returning memory that is not zero, with a position label in a comparison",
    breaks="a new symbol's value and modifier are whatever memory held",
    files={A: "* = 0\nl db 1\n if l=0\n db 2\n endc\n if l<>0\n db 3\n endc\n"},
    script="""for p in 0 1 90 165 255; do
MALLOC_PERTURB_=$p GLIBC_TUNABLES=glibc.malloc.perturb=$p timeout 20 "$CR" -o code.$p a.asm > out.$p 2>/dev/null
cmp -s out.0 out.$p && cmp -s code.0 code.$p || { echo "the result depends on the memory's content"; exit 1; }
done
exit 0
""")
bug(id="stale-removed-late", property="C17", file="src/crasm.c",
    edit=("  if (errnumber && (flag & SCODE))\n  {\n    remove(scodename);\n  }\n", "  if (errnumber > 1 && (flag & SCODE))\n  {\n    remove(scodename);\n  }\n"),
    needs="exactly one error in the program",
    breaks="the code file of a program with one error stays",
    files={A: "* = 0\n db 1\n fail once\n db 2\n"})
# ---- second batch
bug(id="srec-s2-high-bit", property="C01", file="src/scode.c",
    edit=("      else if (rawstart & 0xff0000)\n", "      else if (rawstart & 0x7f0000)\n"),
    needs="S-records in the segment at $800000",
    breaks="addresses $800000..$80FFFF get S1 records, which cut them to 16 bits",
    files={A: "* = $7f0000\n db 1\n* = $800000\n db 2\n* = $810000\n db 3\n"})
bug(id="hex-16m", property="C02", file="src/scode.c",
    edit=("      if ((rawextended ^ rawstart) & 0xffff0000)\n", "      if ((rawextended ^ rawstart) & 0xff0000)\n"),
    needs="Intel HEX with data in segments which differ only in the top address byte",
    breaks="no extended linear address record is written between them",
    files={A: " output hex\n* = $10000\n db 1\n* = $1010000\n db 2\n* = $2010000\n db 3\n"})
bug(id="6502-dec-a", property="C03", file="src/cpu6502.c",
    edit=("                     opcode == 0x1a || opcode == 0x3a)\n", "                     opcode == 0x1a)\n"),
    needs="DEC A with CPU 6502",
    breaks="DEC A, which only the 65C02 has, is accepted",
    files={A: " cpu 6502\n* = 0\n dec a\n"})
bug(id="z80-jr-po", property="C05", file="src/cpuz80.c",
    edit=("  code = 0x20 + (searchcond(4, oper, &operand2) << 3);\n", "  code = 0x20 + (searchcond(8, oper, &operand2) << 3);\n"),
    needs="JR with the condition PO, PE, P or M",
    breaks="a jump which the Z80 lacks is assembled as another instruction",
    files={A: " cpu z80\n* = 0\n jr c,*\n jr po,*\n"})
bug(id="z80-branch-128", property="C06", file="src/cpuz80.c",
    edit=("  if (d != dd) /* test operand after */\n", "  if (dd <= -128 || dd > 127) /* test operand after */\n"),
    needs="a Z80 relative jump over exactly -128 bytes",
    breaks="the farthest backward jump is refused",
    files={A: " cpu z80\n* = $100\n djnz *-126\n jr *-126\n"})
bug(id="div-unsigned", property="C07", file="src/operator.c",
    edit=("    presult->value /= parg->value;\n", "    presult->value = (unsigned long) presult->value / parg->value;\n"),
    needs="a division with a negative operand",
    breaks="negative dividends and divisors give wrong quotients",
    files={A: "* = 0\n dl 6/(0-2),(0-6)/2,(0-7)/(0-2),7/2\n"})
bug(id="hex-ending-in-b", property="C08", file="src/parse.c",
    edit=("  { \"0X?\", -2, 1 /* C hexa */, csthexa,},\n  { \"%?\", -2, 1 /* binaire  */, cstbinary,},\n  { \"?B\", -2, 1 /* Intel binaire*/, cstbinary,},\n",
          "  { \"%?\", -2, 1 /* binaire  */, cstbinary,},\n  { \"?B\", -2, 1 /* Intel binaire*/, cstbinary,},\n  { \"0X?\", -2, 1 /* C hexa */, csthexa,},\n"),
    needs="a 0x constant whose last digit is B",
    breaks="0x1B is taken for a binary number and refused",
    files={A: "* = 0\n db 0x1a\n db 0x1b,0xb\n"})
bug(id="db-empty-item", property="C09", file="src/pseudos.c",
    edit=("    oper = s2;\n    stocke(s1, modifier);\n", "    oper = s2;\n\n    if (*s1)\n    {\n      stocke(s1, modifier);\n    }\n"),
    needs="a data list with an empty item before a comma",
    breaks="a missing value is skipped silently: the data is shorter than the list",
    files={A: "* = 0\n db 1,,2\n"})
bug(id="undefined-forward", property="C11", file="src/label.c",
    edit=("    if (!(q->flags & NOREDEF) || (q->flags & UNDEF))\n", "    if (!(q->flags & NOREDEF))\n"),
    needs="a symbol that is used and never defined",
    breaks="an undefined symbol is taken as 0 without an error",
    files={A: "* = 0\n dw missing\n"})
bug(id="dummy-dummy-scope", property="C12", file="src/pseudos.c",
    edit=("  segment = ++thiscall;\n  asmflags &= ~ F_CODE_ON;\n", "  if (asmflags & F_CODE_ON)\n  {\n    segment = ++thiscall;\n  }\n\n  asmflags &= ~ F_CODE_ON;\n"),
    needs="two DUMMY directives one after the other with the same local name",
    breaks="the second DUMMY opens no scope: the local labels clash",
    files={A: "* = 0\n db 1\n dummy\n* = 0\n.a ds 2\n dummy\n* = 8\n.a ds 1\n code\n* = 1\n db 2\n"})
bug(id="if-int-compare", property="C13", file="src/macro.c",
    edit=("    if ((q->flag & LT) && (r1.value < r2.value))\n", "    if ((q->flag & LT) && ((int) r1.value < (int) r2.value))\n"),
    needs="IF with < or <= between values of which one is above $7FFFFFFF",
    breaks="large addresses compare as negative numbers",
    files={A: "* = 0\n if $80000000<1\n db 1\n endc\n if 1<$80000000\n db 2\n endc\n"})
bug(id="else-errors-uncounted", property="C16", file="src/macro.c",
    edit=("      lineprefix = 'C';\n    }\n  }\n\n  iflevel++;\n\n  do\n  {\n    if (setjmp(errorjump))\n    {\n      errnumber++;\n    }\n", "      lineprefix = 'C';\n    }\n  }\n\n  iflevel++;\n\n  do\n  {\n    setjmp(errorjump);\n"),
    needs="an error inside the selected ELSE part of a conditional",
    breaks="errors in ELSE parts are printed but not counted: the assembly counts as successful",
    files={A: "* = 0\n if 0\n db 1\n else\n db nosuch\n db 2\n endc\n"}, show="grep ERRORS out >> got; cat code >> got 2>/dev/null\n")
bug(id="list-on-despite-l", property="C18", file="src/pseudos.c",
    edit=("    if (!(asmflags & F_NOLIST))\n    {\n      asmflags |= F_LIST_ON;\n    }\n", "    asmflags |= F_LIST_ON;\n"),
    needs="LIST ON in the source and -l on the command line",
    breaks="the listing appears although it is suppressed",
    files={A: "* = 0\n db 1\n list off\n db 2\n list on\n db 3\n"}, show="grep -c 'db 3' out >> got\n")
bug(id="title-overflow", property="C22", file="src/output.c",
    edit=("  if (strlen(s) > 30)\n  {\n    error(\"too long title\");\n  }\n\n  strcpy(title, s);\n", "  strcpy(title, s);\n\n  if (strlen(s) > 30)\n  {\n    error(\"too long title\");\n  }\n"),
    needs="NAM with a title of more than 30 characters",
    breaks="the title is copied past the end of its buffer before it is refused",
    files={A: " nam " + "X" * 60 + "\n" + "* = 0\n" + " db 1\n" * 80}, args="-o code a.asm", show="grep '^Crasm' out >> got\n")
bug(id="wrap-late", property="C21", file="src/output.c",
    edit=("    if (lpos >= llen)\n", "    if (lpos > llen)\n"),
    needs="a listing line longer than the page width",
    breaks="wrapped lines are one character wider than the page",
    files={A: " page 0,40\n* = 0\n db 1 ; a comment that is quite a bit longer than the page is wide\n"}, args="-o code a.asm",
    show="awk 'length($0) > 40 && !/^Crasm/' out >> got\n")
bug(id="codelen-dummy", property="C25", file="src/scode.c",
    edit=("    codelen++;\n    outputbyte(x);\n  }\n", "    codelen += (rawnumber != 0);\n    outputbyte(x);\n  }\n"),
    needs="a run without -o",
    breaks="without a code file the reported code length is 0",
    files={A: "* = 0\n db 1,2,3\n ds 20\n"}, args="-l a.asm", show="grep 'Code length' out >> got\n")
bug(id="ds-fill-wide", property="C29", file="src/pseudos.c",
    edit=("    if (init & 0xffffff00)\n", "    if (init & 0xff00)\n"),
    needs="a DS fill value that is a multiple of 65536 plus a byte",
    breaks="the fill value is truncated without a warning",
    files={A: "* = 0\n ds 2,$10001\n ds 2,$101\n ds 2,1\n"}, args="-o code a.asm", show="grep WARNING out >> got\n")
bug(id="two-sources", property="C27", file="src/crasm.c",
    edit=("      if (flags & INPUT)\n      {\n        syntax(\"One input only\");\n      }\n\n", ""),
    needs="two source names on the command line",
    breaks="the first source is ignored silently",
    files={A: "* = 0\n db 1\n", "b.asm": "* = 0\n db 2\n"}, args="-l -o code a.asm b.asm")
bug(id="else-inactive-active", property="C13", file="src/macro.c",
    edit=("    flag = asmline(curline, status & mystatus);\n\n    if (!(status & mystatus & 2))\n    {\n      if (flag == EXITM)\n      {\n        flag = 0;\n      }\n    }\n  } while (flag == 0);\n\n  iflevel--;\n  jmp_buf_copy(errorjump, errjmpsav);\n  lineprefix = oldprefix;\n\n  if (flag == ENDM || flag == ELSE)\n",
          "    flag = asmline(curline, (booleanvalue ? status & ~2 : status | (mystatus & 1)) & mystatus);\n\n    if (!(status & mystatus & 2))\n    {\n      if (flag == EXITM)\n      {\n        flag = 0;\n      }\n    }\n  } while (flag == 0);\n\n  iflevel--;\n  jmp_buf_copy(errorjump, errjmpsav);\n  lineprefix = oldprefix;\n\n  if (flag == ENDM || (flag == ELSE && (status & 2)))\n"),
    needs="an IF with two ELSE parts in lines which are not selected",
    breaks="a second ELSE ends the inner conditional instead of being an error, the ENDC after it ends the outer one",
    files={A: "* = 0\n if 0\n if 1\n else\n db 1\n else\n db 2\n endc\n db 3\n endc\n db 4\n"}, args="-o code a.asm", show="cat code >> got 2>/dev/null; grep -c ' ERROR: ' out >> got\n")
bug(id="error-advance-pass2", property="C16", file="src/crasm.c",
    edit=("  if (advance != 0)\n  {\n    starlabel->value += advance;\n  }\n", "  if (advance > 1)\n  {\n    starlabel->value += advance;\n  }\n"),
    needs="an erroneous line that emitted one byte before its error, followed by a line without an error that refers to an address",
    breaks="a byte emitted by an erroneous line is not counted: the lines after it are assembled at other addresses",
    files={A: "* = 0\n db 1,nosuch\nl dw l\n"}, args="-o code a.asm", show="sed 's/ *$//' out | grep -v '^Crasm' >> got\n")
bug(id="prefix-after-else", property="C18", file="src/macro.c",
    edit=("  jmp_buf_copy(errorjump, errjmpsav);\n  lineprefix = oldprefix;\n\n  if (flag == ENDM || flag == ELSE)\n", "  jmp_buf_copy(errorjump, errjmpsav);\n\n  if (!booleanvalue || !oldprefix)\n  {\n    lineprefix = oldprefix;\n  }\n\n  if (flag == ENDM || flag == ELSE)\n"),
    needs="a conditional with a skipped ELSE part in a macro that is listed",
    breaks="the rest of the macro is listed with the mark of skipped lines",
    files={A: "* = 0\n mlist on\nm macro\n if 1\n db 1\n else\n db 2\n endc\n db 3\n endm\n m\n db 4\n"}, args="-o code a.asm", show="sed 's/ *$//' out | grep -v '^Crasm' >> got\n")
bug(id="skip-advance", property="C19", file="src/pseudos.c",
    edit=("    while (r--)\n    {\n      outputEOL();\n    }\n", "    if (!(asmflags & F_NOLIST))\n    {\n      for (advance = r; advance > 0; advance--)\n      {\n        outputEOL();\n\n        if (ppos == 0)\n        {\n          break;      /* a new page is blank enough */\n        }\n      }\n    }\n"),
    needs="SKIP across the end of a page with the listing on",
    breaks="SKIP at the end of a page moves the program counter, differently in the two passes",
    files={A: " page 12,70\n* = 0\n db 1\n db 2\n skip 8\nl db 3\n dw l\n"}, args="-o code a.asm", show="cat code >> got 2>/dev/null\n")
bug(id="append-code", property="C24", file="src/scode.c",
    edit=("      scode = fopen(scodename, \"w\");\n", "      scode = fopen(scodename, \"r+\");\n\n      if (scode == NULL)\n      {\n        scode = fopen(scodename, \"w\");\n      }\n"),
    needs="a longer code file of an earlier run with the same name",
    breaks="the tail of an older code file remains behind the new code",
    files={A: "* = 0\n db 1\n", "b.asm": "* = 0\n db 1,2,3,4,5\n ds 40\n"}, script="""timeout 20 "$CR" -l -o code b.asm > out 2>/dev/null
timeout 20 "$CR" -l -o code a.asm > out 2>/dev/null
timeout 20 "$CR" -l -o code2 a.asm > out 2>/dev/null
cmp code code2
""")
bug(id="if-tab", property="C28", file="src/crasm.c",
    edit=("    if (*s == ' ' || *s == '\\t')\n    {\n      return FALSE;\n", "    if (*s == ' ')\n    {\n      return FALSE;\n"),
    needs="a tab instead of a blank between IF and a comparison with =",
    breaks="IF, tab, a=b is taken for an equate",
    files={A: "* = 0\nx = 1\n if\tx=1\n db 1\n else\n db 2\n endc\n"})
bug(id="arg-overflow", property="C22", file="src/macro.c",
    edit=("        while (s && *s)\n        {\n          if (s1 - buffer > length - 10)\n          {\n            warning(\"Too long line\");\n            break;\n          }\n\n          *s1++ = *s++;\n", "        while (s && *s)\n        {\n          *s1++ = *s++;\n"),
    needs="a macro body line that names a long argument several times",
    breaks="the expanded line is written past the end of the line buffer",
    files={A: "* = 0\nm macro\n db 1 \\1\\1\\1\\1\\1\\1\\1\\1\\1 ; \\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\n db 2\n endm\n m " + "7" * 230 + "\n db 3\n"}, args="-o code a.asm", show="sed 's/ *$//' out | grep -v '^Crasm' >> got\n")
bug(id="xx-toggles", property="C27", file="src/crasm.c",
    edit=("        case 'x': /* force XREF */\n          flags |= XREF;\n", "        case 'x': /* force XREF */\n          flags ^= XREF;\n"),
    needs="-x given twice", breaks="the second -x takes the first one back",
    files={A: "* = 0\nlab db 1\n"}, args="-xl -x a.asm", show="grep -c 'LAB' out >> got\n")
bug(id="asc-escape-quote", property="C09", file="src/pseudos.c",
    edit=("      case '\\'':\n      case '\\\"':\n      case '\\\\':\n        r = *s;\n        break;\n\n      default:\n        error(\"Bad \\\\X character\");\n", "      case '\\'':\n      case '\\\"':\n        r = delimiter;\n        break;\n\n      case '\\\\':\n        break;\n\n      default:\n        error(\"Bad \\\\X character\");\n"),
    needs="an escaped quote in a string with the other kind of quotes",
    breaks="the escaped quote becomes the string's own delimiter",
    files={A: "* = 0\n asc 'a\\'b'\n asc \"a\\\"b\"\n asc 'a\\\"b'\n"})
bug(id="include-tail", property="C15", file="src/macro.c",
    edit=[("  register int slevel;\n  slevel = sourcelevel;\n  pastmacro = 0;\n", "  register int slevel;\n  int closed;\n  slevel = sourcelevel;\n  pastmacro = 0;\n"),
          ("  while (source[slevel].type == S_END)\n  {\n    if (slevel == 0)\n", "  for (closed = 0; source[slevel].type == S_END && closed < 2; closed++)\n  {\n    if (slevel == 0)\n")],
    needs="three files that end together: the last line of each, without a newline, includes the next",
    breaks="the third file is not closed: what follows is not read any more",
    files={A: "* = 0\n db 1\n if 1\n include b\n db 9\n endc\n db 10\n", "b": " db 2\n include c", "c": " db 3\n include d", "d": " db 4"})
bug(id="cpu-6803", property="C26", file="src/cpulist.c",
    edit=("newcpu(\"6803\", init6800, 1)", "newcpu(\"6803\", init6800, 0)"),
    needs="CPU 6803 and an instruction which the 6800 lacks",
    breaks="the 6803 gets the 6800's vocabulary",
    files={A: " cpu 6803\n* = 0\n lsrd\n abx\n"})
bug(id="xref-scope-digit", property="C20", file="src/xref.c",
    edit=("  if (label->name[0] == '*' || label->name[0] <= '9')\n", "  if (label->name[0] == '*' || label->name[0] < '9')\n"),
    needs="a local label in the ninth scope, or in scopes 90 to 99",
    breaks="local labels of some scopes are listed in the symbol table",
    files={A: "* = 0\n" + " code\n" * 9 + ".a db 1\nb db 2\n"}, args="-o code a.asm", show="sed 's/ *$//' out | grep -v '^Crasm' >> got\n")
bug(id="xref-long-name", property="C20", file="src/xref.c",
    edit=("  for (i = 0; i < LABLEN && *s ; i++)\n", "  for (i = 1; i < LABLEN && *s ; i++)\n"),
    needs="a symbol with the longest name allowed",
    breaks="the last character of the name is missing in the symbol table",
    files={A: "* = 0\n" + "n" * 48 + " db 1\n"}, args="-o code a.asm", show="grep -i nnnn out >> got\n")
bug(id="hex-checksum-ext", property="C02", file="src/scode.c",
    edit=("        checksum = (unsigned char)(0xFF + 0x02 + 0x04);\n", "        checksum = (unsigned char)(0xFF + 0x06 + (rawstart >> 31));\n"),
    needs="Intel HEX at an address above $7FFFFFFF",
    breaks="the checksum of the extended address record is wrong",
    files={A: " output hex\n* = $7FFFFFF0\n db 1\n* = $80000000\n db 2\n"})
bug(id="scope-third-level", property="C12", file="src/macro.c",
    edit=("  segment = ++thiscall;\n\n  mystatus = 2;\n", "\n  if (macrolevel < 7)\n  {\n    segment = ++thiscall;\n  }\n\n  mystatus = 2;\n"),
    needs="macro calls nested seven deep with the same local name in the last two",
    breaks="deeply nested calls share their caller's scope",
    files={A: "* = 0\nd macro\n.x db 4\n dw .x\n endm\nc macro\n.x db 3\n d\n dw .x\n endm\n" + "".join("b%d macro\n %s\n endm\n" % (i, "b%d" % (i - 1) if i else "c") for i in range(5)) + " b4\n"})
bug(id="unwritable-warning", property="C23", file="src/scode.c",
    edit=("        fatal(\"can't open scode file\");\n", "        asmflags |= F_NOCODE;\n        warning(\"can't open scode file\");\n"),
    needs="-o with a name that cannot be created",
    breaks="a code file that cannot be created is only a warning: the run claims success",
    files={A: "* = 0\n db 1\n"}, args="-l -o no/such/dir/code a.asm", show="grep -c Successful out >> got\n")
# ---- fourth batch
bug(id="scope-mod-1000", property="C12", file="src/label.c",
    edit=("    sprintf(s, \"%d\", segment);\n", "    sprintf(s, \"%d\", segment % 1000);\n"),
    needs="a thousand scopes, the same local name in two that are a thousand apart",
    breaks="scopes are confused with those a thousand before",
    files={A: "* = 0\n.a = 7\n" + " code\n" * 1000 + " dw .a\n"})
bug(id="line-number-short", property="C15", file="src/macro.c",
    edit=[("    byte oldlist;\n    byte oldprefix;\n    int  oldlinnum;\n    FILE* file;\n", "    byte oldlist;\n    byte oldprefix;\n    short oldlinnum;\n    FILE* file;\n"), ("    byte oldlist;\n    byte oldprefix;\n    int  oldlinnum;\n    char (*", "    byte oldlist;\n    byte oldprefix;\n    short oldlinnum;\n    char (*")],
    needs="an INCLUDE or macro call after line 32767 of a file, an error after it",
    breaks="line numbers after an include in a long file are wrong",
    files={A: "* = 0\n" + ";\n" * 32770 + " include b\n nosuch\n", "b": " db 1\n"}, show="grep -a nosuch out >> got; grep -a ERROR out >> got\n")
bug(id="page-256", property="C21", file="src/output.c",
    edit=("int pagenumber = 0;\n", "static byte pagenumber = 0;\n"),
    needs="a listing of more than 255 pages",
    breaks="the page number returns to 0",
    files={A: " page 10,76\n* = 0\n" + " db 1\n" * 1700}, args="-o code a.asm", show="grep 'page' out >> got\n")
bug(id="errors-256", property="C17", file="src/xref.c",
    edit=("  if (!errnumber)\n", "  if (!(byte) errnumber)\n"),
    needs="exactly 256 errors",
    breaks="the summary claims success",
    files={A: "* = 0\n db 1\n" + " nosuch\n" * 256}, show="grep -c Successful out >> got\n")
bug(id="operand-stale", property="C24", file="src/macro.c",
    edit=("  replace[9][0] = 0;\n", ""),
    needs="a macro that uses \\* called without operand",
    breaks="the operand is what the stack holds",
    files={A: "* = 0\ni macro\n asc '\\*'\n endm\nm macro\n asc '<\\*>'\n endm\n m uvw,xyz\n i abcdefgh\n m\n m x\n i\n m\n"}, show='cat code >> got; for e in A=1 AAAAAAAAAAAAAAAAAA=22222222222222222222; do env $e "$CR" -o c2 a.asm >/dev/null 2>&1; cat c2 >> got; done\n')
bug(id="include-first-line", property="C19", file="src/macro.c",
    edit=("  if (asmflags & F_LIST_ON)\n  {\n    outputline();\n  }\n\n  linenumber = 0;\n", "  if (asmflags & F_LIST_ON)\n  {\n    outputline();\n    linenumber = 0;\n  }\n\n"),
    needs="an error in an included file while listing is off",
    breaks="errors in included files are reported with other line numbers without listing",
    files={A: "* = 0\n db 1\n include b\n db 2\n", "b": "\n nosuch\n"}, show="grep -a ERROR out >> got\n")
bug(id="z80-ld-index-warning", property="C29", file="src/cpuz80.c",
    edit=("    if (arg & 0xff00)\n    {\n      warning(\"argument overflow\");\n", "    if ((arg & 0xff00) && !offsetflag)\n    {\n      warning(\"argument overflow\");\n"),
    needs="LD (IX+d),n with a value above 255",
    breaks="the value is truncated without a warning",
    files={A: " cpu z80\n* = 0\n ld (ix+1),$123\n"}, show="grep -a WARNING out >> got\n")
bug(id="negative-index", property="C29", file="src/cpu6800.c",
    edit=("      if (add == 0x20)\n", "      if (add == 0x20 && value >= 0)\n"),
    needs="a 6800 instruction indexed with a negative displacement",
    breaks="a warning instead of an error: code is written",
    files={A: " cpu 6800\n* = 0\n ldaa -1,x\n"})
bug(id="else-mlist-prefix", property="C13", file="src/macro.c",
    edit=("  if (flag == ENDM)\n  {\n    error(\"ENDM illegal here\");\n  }\n", "  if (flag == ENDM)\n  {\n    return macrolevel > 1 ? ENDM : (error(\"ENDM illegal here\"), 0);\n  }\n"),
    needs="an IF without ENDC in a macro that another macro calls",
    breaks="the unfinished IF is not reported",
    files={A: "* = 0\ni macro\n if 1\n db 2\n endm\no macro\n i\n db 3\n endm\n db 1\n o\n db 4\n"}, show='grep -a ERR out >> got\n')
# ---- fifth batch
bug(id="tail-dummy", property="C01", file="src/scode.c",
    edit=("void closescodefile(void)\n{\n  flushscoderaw();\n", "void closescodefile(void)\n{\n  if (asmflags & F_CODE_ON)\n  {\n    flushscoderaw();\n  }\n"),
    needs="a program that ends in a DUMMY section which holds no bytes, with bytes pending from before",
    breaks="the last bytes of the code are missing in the code file",
    files={A: "* = 5\n db 1,2,3\n dummy\nx = 5\n"})
bug(id="hex-segment-end", property="C02", file="src/scode.c",
    edit=("      if ((rawextended ^ rawstart) & 0xffff0000)\n", "      if ((rawextended ^ pc) & 0xffff0000)\n"),
    needs="Intel HEX with a block that ends exactly at a 64K limit, below a block already written",
    breaks="the extended address record is missing: the block lands 64K higher",
    files={A: " output hex\n* = $20000\n db 1\n* = $1FFF8\n db 1,2,3,4,5,6,7,8\n"})
bug(id="6502-indirect-wide", property="C03", file="src/cpu6502.c",
    edit=("      if (mode != 12)\n      {\n        mode |= 1;\n", "      if (mode < 4 && m2_offset[mode])\n      {\n      }\n      else if (mode != 12)\n      {\n        mode |= 1;\n"),
    needs="(n),y or (n,x) with an address above 255 or a forward reference",
    breaks="an indirect address outside page zero is accepted and cut",
    files={A: " cpu 6502\n* = $200\n lda ($12),y\n lda ($1234),y\n"})
bug(id="branch-dummy", property="C06", file="src/cpuz80.c",
    edit=("  if (d != dd) /* test operand after */\n", "  if (d != dd && (asmflags & F_CODE_ON)) /* test operand after */\n"),
    needs="a JR out of reach in a DUMMY section",
    breaks="the branch is not refused",
    files={A: " cpu z80\n* = 0\n jr 5\n dummy\n jr $1000\n"}, show="grep -a ERROR out >> got; cat code >> got\n")
bug(id="shift-32", property="C07", file="src/operator.c",
    edit=("  presult->value <<= parg->value;\n", "  presult->value = (int) presult->value << (parg->value & 31);\n"),
    needs="a shift by 32 or more",
    breaks="1<<32 is 1",
    files={A: "* = 0\n dl 1<<31,1<<32,3<<40\n"})
bug(id="ds-short", property="C09", file="src/pseudos.c",
    edit=("  while (i--)\n  {\n    insert8(init);\n", "  for (i = (i > 32767) ? i % 65536 : i; i > 0; i--)\n  {\n    insert8(init);\n"),
    needs="DS of 64K or more",
    breaks="only the size modulo 64K is filled",
    files={A: "* = 0\n db 1\n ds 65538,7\n db 2\n"}, show="md5sum < code >> got\n")
bug(id="star-forward", property="C10", file="src/crasm.c",
    edit=("  starlabel->flags &= ~(NOREDEF | FORWARD);\n", "  starlabel->flags &= ~NOREDEF;\n"),
    needs="an instruction in page zero whose operand is *, and with a short form, before a forward reference",
    breaks="the passes choose different sizes",
    files={A: " cpu 6502\n* = $10\n lda *+3\n jmp l\nl nop\n"})
bug(id="label-48", property="C11", file="src/label.c",
    edit=("  if (strlen(name) > LABLEN)\n", "  if (strlen(name) >= LABLEN)\n"),
    needs="a label of exactly 48 characters",
    breaks="it is refused",
    files={A: "* = 0\n" + "a" * 48 + " db 1\n" + "b" * 47 + " db " + "a" * 48 + "\n"})
bug(id="if-bit-compare", property="C13", file="src/macro.c",
    edit=("    if (r1.modifier == r2.modifier\n        && r1.value == r2.value)\n", "    if (r1.value == r2.value)\n"),
    needs="IF with = on two bit references with the same address and different bits",
    breaks="they are taken for equal",
    files={A: "* = 0\n if 5{1}=5{1}\n db 1\n endc\n if 5{1}=5{2}\n db 2\n else\n db 3\n endc\n"})
bug(id="include-last-line", property="C15", file="src/macro.c",
    edit=("    if (feof(source[slevel].filedesc.file))\n    {\n      source[slevel].type = S_END;\n", "    if (feof(source[slevel].filedesc.file) && (slevel == 0 || *buffer == 0))\n    {\n      source[slevel].type = S_END;\n"),
    needs="an included file whose last line has no newline, with ILIST ON",
    breaks="an empty line more than the file has is listed",
    files={A: "* = 0\n ilist on\n include b\n db 2\n", "b": " db 1"}, args="-o code a.asm", show="cat out code >> got\n")
bug(id="error-once-per-line", property="C16", file="src/crasm.c",
    edit=("  if (!(asmflags & F_NOERROR))\n", "  static int last;\n\n  if (!(asmflags & F_NOERROR) && !(macrolevel && linenumber == last))\n"),
    needs="two erroneous lines in the same macro expansion",
    breaks="only the first is reported", )
BUGS[-1]["edit"] = [BUGS[-1]["edit"], ("    asmflags |= F_LIST_ON;\n    outputraw(raw);\n  }\n\n  outputline();\n", "    asmflags |= F_LIST_ON;\n    outputraw(raw);\n    last = linenumber;\n  }\n\n  outputline();\n")]
BUGS[-1].update(files={A: "* = 0\nm macro\n nosuch1\n nosuch2\n endm\n m\n"}, show="grep -a ERROR out >> got\n")
bug(id="macro-errors-uncounted", property="C17", file="src/macro.c",
    edit=("  do\n  {\n    if (setjmp(errorjump))\n    {\n      errnumber++;\n    }\n\n    linegets(curline, 250);\n    flag = asmline(curline, status & mystatus);\n", "  do\n  {\n    if (setjmp(errorjump) && macrolevel < 2)\n    {\n      errnumber++;\n    }\n\n    linegets(curline, 250);\n    flag = asmline(curline, status & mystatus);\n"),
    needs="an error in a macro called from a macro, and no other",
    breaks="the summary claims success and the code file stays",
    files={A: "* = 0\ni macro\n nosuch\n endm\no macro\n db 1\n i\n endm\n o\n"}, show="grep -c Successful out >> got; ls code >> got\n")
bug(id="equ-in-macro-listing", property="C18", file="src/pseudos.c",
    edit=("    if (macrolevel == 0 || asmflags & F_MACROLIST_ON)\n    {\n      if (lpos == 0)\n", "    {\n      if (lpos == 0)\n"),
    needs="an equate in a macro that is not listed, before its first byte",
    breaks="the equate's value appears in the listing as an address",
    files={A: "* = 0\nm macro\nx = $1234\n endm\n m\n db 1\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="exitm-unlisted-if", property="C19", file="src/macro.c",
    edit=("  if (macrolevel && (status & 2))\n  {\n    return EXITM;\n", "  if (macrolevel && (status & 2) && (status & 1 || macrolevel < 3))\n  {\n    return EXITM;\n"),
    needs="EXITM three macro calls deep, MLIST OFF",
    breaks="EXITM depends on the listing",
    files={A: "* = 0\na macro\n db 1\n exitm\n db 2\n endm\nb macro\n a\n endm\nc macro\n b\n endm\n c\n"})
bug(id="xref-bit-value", property="C20", file="src/xref.c",
    edit=("  i = (i == 3 || i == 4 || i == 6);\n", "  i = (i == 3 || i == 4);\n"),
    needs="a symbol for a bit reference",
    breaks="its address is not in the symbol table",
    files={A: "* = 0\nb = 5{3}\nc = 7\n db 1\n"}, args="-o code a.asm", show="grep -a -e 'B ' -e 'C ' out >> got\n")
bug(id="label-no-memory", property="C23", file="src/label.c",
    edit=("    if ((labelarray_inst = malloc(sizeof * labelarray_inst)))\n    {\n      memset(labelarray_inst, 0, sizeof(*labelarray_inst));\n    }\n    else\n    {\n      fatal(\"no memory\");\n    }\n", "    labelarray_inst = malloc(sizeof * labelarray_inst);\n    memset(labelarray_inst, 0, sizeof(*labelarray_inst));\n"),
    needs="no memory for the labels",
    breaks="a crash instead of a message",
    files={A: "* = 0\n" + "".join("l%d db 1\n" % i for i in range(250)), "m.c": "#define _GNU_SOURCE\n#include <stddef.h>\n#include <dlfcn.h>\nvoid *malloc(size_t n){static int k;static void*(*f)(size_t);if(!f)f=(void*(*)(size_t))dlsym(RTLD_NEXT,\"malloc\");if(n>8000&&n<40000&&++k>1)return NULL;return f(n);}\n"},
    script='gcc -shared -fPIC -o m.so m.c -ldl || exit 2\nLD_PRELOAD=$PWD/m.so timeout 20 "$CR" -o code a.asm > out 2>/dev/null\nr=$?\ntest $r -lt 126 && grep -q FATAL out\n')
bug(id="error-partial-advance", property="C25", file="src/crasm.c",
    edit=("  if (advance != 0)\n  {\n    starlabel->value += advance;\n  }\n", "  if (advance > 1)\n  {\n    starlabel->value += advance;\n  }\n"),
    needs="an error in an instruction of which one byte was emitted, a label after it",
    breaks="what follows is at another address in the listing",
    files={A: " cpu 6502\n* = $100\n nop 5\nl lda #1\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="x-with-errors", property="C27", file="src/crasm.c",
    edit=("  if (flag & XREF)\n  {\n    xref();\n", "  if ((flag & XREF) && errnumber == 0)\n  {\n    xref();\n"),
    needs="-x with an erroneous program",
    breaks="no symbol table",
    files={A: "* = 0\nabc db 1\n nosuch\n"}, args="-x a.asm", show="grep -c ABC out >> got\n")
bug(id="z80-negative-arg", property="C29", file="src/cpuz80.c",
    edit=("    if (arg & 0xff00)\n    {\n      warning(\"argument overflow\");\n", "    if (arg > 0xff)\n    {\n      warning(\"argument overflow\");\n"),
    needs="a Z80 immediate with a negative value",
    breaks="no warning",
    files={A: " cpu z80\n* = 0\n ld a,256\n ld a,0-1\n"}, show="grep -a WARNING out >> got\n")
bug(id="6800-negative-direct", property="C04", file="src/cpu6800.c",
    edit=("            !(r->value & 0xff00))\n", "            (int) r->value < 0x100)\n"),
    needs="a 6800 operand with a negative value",
    breaks="table-1 with the table at 0 is taken for an address in page zero",
    files={A: " cpu 6800\n* = $200\ntb = 0\n ldaa tb-1\n"})
bug(id="z80-adc-iy", property="C05", file="src/cpuz80.c",
    edit=("    if (indexflag != HL && code != 0x80)\n", "    if (indexflag == IX && code != 0x80)\n"),
    needs="ADC or SBC with IY",
    breaks="an instruction that the Z80 lacks is accepted",
    files={A: " cpu z80\n* = 0\n adc hl,bc\n adc iy,bc\n"})
bug(id="octal-limit", property="C08", file="src/operator.c",
    edit=("    if (val > 0x1fffffff)\n", "    if (val > 0xffffffff / 6)\n"),
    needs="an octal constant a little above 32 bits",
    breaks="it is accepted and cut",
    files={A: "* = 0\n dl 37777777777q\n dl 40000000000q\n"})
bug(id="scope-hex", property="C12", file="src/label.c",
    edit=("    sprintf(s, \"%d\", segment);\n", "    sprintf(s, \"%X\", segment);\n"),
    needs="a local name in the tenth scope and a global name A.NAME",
    breaks="the two are the same",
    files={A: "* = 0\na.x = 5\n" + " code\n" * 10 + ".x = 6\n db .x,a.x\n"})
bug(id="endm-comment", property="C14", file="src/macro.c",
    edit=("    if (!filter(curline, \"?_;?\", &s1, &s2))\n", "    if (!filter(curline, \"? ;?\", &s1, &s2))\n"),
    needs="ENDM with a comment that follows it at once",
    breaks="the macro's end is refused",
    files={A: "* = 0\nm macro\n db 1\n endm;done\n m\n"})
bug(id="page-zero", property="C21", file="src/output.c",
    edit=("    if (ppos >= plen - 2 && plen)\n", "    if (ppos >= plen - 2)\n"),
    needs="PAGE 0,n",
    breaks="unlimited pages end after each line",
    files={A: " page 0,76\n* = 0\n db 1\n db 2\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="blank-overflow", property="C22", file="src/output.c",
    edit=("    if (lpos < llen)\n    {\n      linebuffer[lpos++] = ' ';\n", "    if (lpos < llen || lpos % 8)\n    {\n      linebuffer[lpos++] = ' ';\n"),
    needs="a line of well over a hundred tabs",
    breaks="the line buffer overflows",
    files={A: " page 66,990\n* = 0\n ;" + "\t" * 240 + "x\n"}, script='timeout 20 "$CR" -o code a.asm > out 2>/dev/null || exit 1\nlongest=$(tr -d "\\000" < out | awk \'{ if (length($0) > m) m = length($0) } END { print m }\')\ntest "$longest" -le 990 && test "$(grep -c Successful out)" = 1\n')
bug(id="mark-unterminated", property="C18", file="src/output.c",
    edit=("    if (i > 4)\n    {\n      i = 4;\n    }\n", "    if (i > 5)\n    {\n      i = 5;\n    }\n"),
    needs="a line that a condition leaves out, outside macros",
    breaks="its mark lies outside the number's columns, and what follows it is not set",
    files={A: "* = 0\n if 0\n db 1\n endc\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="6500-ror-a", property="C26", file="src/cpu6502.c",
    edit=("  if (cpuflag < 1)\n", "  if (cpuflag < 1 && mode < 14)\n"),
    needs="ROR on the accumulator with CPU 6500",
    breaks="it is accepted, though the 6500 has no ROR",
    files={A: " cpu 6500\n* = 0\n ror 5\n ror\n ror a\n"}, show="grep -a ERROR out >> got\n")
bug(id="tab-label", property="C28", file="src/crasm.c",
    edit=("  if (*s != ' ' && *s != '\\t')\n", "  if (*s != ' ')\n"),
    needs="a line with a tab and one unknown word",
    breaks="the word is a label after a tab, and an error after a blank",
    files={A: "* = 0\n\tnosuch\n db 1\n"}, show="grep -a ERROR out >> got\n")
bug(id="macro-unused", property="C20", file="src/macro.c",
    edit=("  labmacro->flags |= USED;\n", "  labmacro->flags |= (status & 1) ? USED : 0;\n"),
    needs="a macro that is called only within another macro, and MLIST OFF",
    breaks="the symbol table marks it unused",
    files={A: "* = 0\nmi macro\n db 1\n endm\nmo macro\n mi\n endm\n mo\n"}, args="-o code a.asm", show="grep -a ' M[IO] ' out >> got\n")
bug(id="include-list-inner", property="C15", file="src/macro.c",
    edit=("  source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) ? 1 : 0;\n", "  source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) && (includelevel == 0 || sourcelevel) ? 1 : includelevel > 1;\n"),
    needs="an include four deep with the listing off",
    breaks="the listing comes back after it",
    files={A: " list off\n include b.asm\n db 1\n", "b.asm": " include c.asm\n db 2\n", "c.asm": " include d.asm\n db 3\n", "d.asm": " db 4\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="asc-after-text", property="C09", file="src/pseudos.c",
    edit=("  if (*++s)\n  {\n    error(\"syntax error\");\n  }\n\n  return 0;\n}\n\n\n/*  CODE", "  if (*++s && *s != ',')\n  {\n    error(\"syntax error\");\n  }\n\n  return 0;\n}\n\n\n/*  CODE"),
    needs="ASC with two strings",
    breaks="the second is left out without an error",
    files={A: "* = 0\n asc 'ab','cd'\n db 1\n"})
bug(id="ds-register", property="C09", file="src/pseudos.c",
    edit=("  r = parse(oper);\n  checktype(r, L_ABSOLUTE);\n  i = r->value;\n\n  if (i < 0)", "  r = parse(oper);\n  i = r->value;\n\n  if (i < 0)"),
    needs="the name of a register, or a bit reference, as the size of DS",
    breaks="it is taken for a number",
    files={A: " cpu z80\n* = 0\nbt = 3{2}\n ds bt\n db 1\n ds hl\n db 2\n"})
bug(id="db-register", property="C16", file="src/pseudos.c",
    edit=("  r = parse(s);\n  checktype(r, L_ABSOLUTE);\n", "  r = parse(s);\n\n  if (r->type != L_REGS || modifier != 2)\n  {\n    checktype(r, L_ABSOLUTE);\n  }\n"),
    needs="the name of a register as an item of DDB",
    breaks="no error is raised",
    files={A: " cpu z80\n* = 0\n dw 1\n ddb hl\n db 2\n"})
bug(id="hi-negative", property="C07", file="src/operator.c",
    edit=("  presult->value >>= 8;\n  presult->value &= 0xff;\n", "  presult->value /= 256;\n  presult->value &= 0xff;\n"),
    needs="the high byte of a negative value which is no multiple of 256",
    breaks="it is one too high",
    files={A: "* = 0\n db hi(0-256),hi(5)\n db hi(0-1)\n"})
bug(id="skip-hundred", property="C21", file="src/pseudos.c",
    edit=("  if (r > 100 || r < 0)\n", "  if (r > 100 || (int) r < -1)\n"),
    needs="SKIP with an operand of -1",
    breaks="it is accepted",
    files={A: "* = 0\n skip 0-2\n db 1\n skip 0-1\n db 2\n"})
bug(id="stale-argument", property="C14", file="src/macro.c",
    edit=("        else if (*s2 >= '0' && *s2 <= numarg + '0')\n", "        else if (*s2 <= numarg + '0' || (numarg && *s2 == '9'))\n"),
    needs="\\9 in a macro that is called with one to eight arguments",
    breaks="what lies in memory is inserted",
    files={A: "* = 0\nm macro\n db 1\\9\n endm\nn macro\n m 7\n endm\n m 1,2,3,4,5,6,7,8,9\n m 1\n n\n m 2\n"})
bug(id="suffix-accepted", property="C26", file="src/crasm.c",
    edit=("        if (labmnemo->modifier >= 0)\n", "        if (labmnemo->modifier >= 0 && (passnumber != 2 || labmnemo->modifier < 0x80))\n"),
    needs="an instruction with a point and a suffix, whose opcode is $80 or more",
    breaks="what is no instruction is accepted as one",
    files={A: " cpu 6502\n* = 0\n nop.b\n db 1\n"})
bug(id="z80-bit-wide", property="C05", file="src/cpuz80.c",
    edit=("  if (bit < 0 || bit > 7)\n  {\n    error(\"illegal bit number\");\n  }\n\n  reg = getreg(oper2);\n", "  if (bit & ~7 && bit != ~7)\n  {\n    error(\"illegal bit number\");\n  }\n\n  bit &= 7;\n  reg = getreg(oper2);\n"),
    needs="a bit number of -8",
    breaks="it is taken for bit 0",
    files={A: " cpu z80\n* = 0\n bit 0-1,a\n bit 0-8,a\n set 8,a\n"}, show="grep -a ERROR out >> got\n")
bug(id="z80-logical-first", property="C05", file="src/cpuz80.c",
    edit=("    if (getreg(op1) != ACCUMULATOR)\n    {\n      error(needacc);\n    }\n\n    oper = op2;\n    warning", "    if (getreg(op1) != ACCUMULATOR && !indexflag)\n    {\n      error(needacc);\n    }\n\n    oper = op2;\n    warning"),
    needs="a logical instruction with an indexed first operand and a second one",
    breaks="it is assembled",
    files={A: " cpu z80\n* = 0\n and a,b\n and b,c\n and (ix+1),b\n"}, show="grep -a ERROR out >> got\n")
bug(id="macro-skipped", property="C13", file="src/macro.c",
    edit=[("  if (status & 2)\n  {\n    lbl = deflabel(mname, 0, L_MACRO, 0);\n    lbl->ptr = 0;\n", "  if (status & 3)\n  {\n    lbl = deflabel(mname, 0, L_MACRO, 0);\n    lbl->ptr = 0;\n"),
          ("    if (status & 2)\n    {\n      *where", "    if (status & 3)\n    {\n      *where")],
    needs="a macro defined where a condition leaves it out, with CLIST ON, and called",
    breaks="the macro exists",
    files={A: "* = 0\n if 0\nm macro\n db 1\n endm\n endc\n m\n db 2\n"}, args="-o code a.asm", show="grep -a ERROR out >> got\n")
bug(id="equate-same-value", property="C11", file="src/label.c",
    edit=("    if ((q->flags & NOREDEF) || (flags & NOREDEF))\n", "    if (((q->flags & NOREDEF) && q->value != value) || (flags & NOREDEF))\n"),
    needs="an equate with the name and the value of an earlier position label",
    breaks="it is accepted",
    files={A: "* = 5\na1 db 5\na1 = 4\na2 db 1\na2 = 6\n"}, show="grep -a ERROR out >> got\n")
bug(id="lastoffset-kept", property="C18", file="src/output.c",
    edit=("  lastoffset = 0;\n\n  if (linenumber == 0)\n", "  if (linenumber == 0)\n"),
    needs="a line which emits code, is longer than the page is wide, and follows another one that was wrapped",
    breaks="its continuation begins in the column of the other's",
    files={A: " page 66,70\n* = 0\nlabel            dw               1,2,3,4,5,6,7,8,9,10,11,12,13,14\nx db 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="scope-after-exitm", property="C12", file="src/macro.c",
    edit=("  sourcelevel = --slevel;\n  segment = oldsegment;\n", "  sourcelevel = --slevel;\n  segment = flag == EXITM ? segment : oldsegment;\n"),
    needs="a macro that is left by EXITM between two uses of a local label",
    breaks="what follows is in the macro's scope",
    files={A: "* = 0\nm macro\n db 1\n if \\1\n exitm\n endc\n db 2\n endm\n.l db 3\n m 0\n db .l\n m 1\n db .l\n"}, show="grep -a ERROR out >> got\n")
bug(id="z80-bc-blank", property="C28", file="src/cpuz80.c",
    edit=('  if (filter(oper, "(_BC_)"))\n', '  if (filter(oper, "(BC_)"))\n'),
    needs="a blank before BC in parentheses",
    breaks="the instruction is refused",
    files={A: " cpu z80\n* = 0\n ld a,( bc )\n ld (\tbc),a\n"}, show="grep -a ERROR out >> got\n")
bug(id="source-rewound-late", property="C17", file="src/crasm.c",
    edit=("  if (errnumber && (flag & SCODE))\n", "  if (errnumber && scode)\n"),
    needs="a program with errors that emits nothing, and the code file of an earlier run",
    breaks="the old code file stays",
    files={A: "* = 0\n nosuch\n"}, script='echo old > code\ntimeout 20 "$CR" -o code a.asm > out 2>/dev/null\ntest ! -e code\n')
bug(id="dummy-file", property="C17", file="src/scode.c",
    edit=("  if (!(asmflags & F_NOCODE))\n  {\n    if (scode == NULL)\n", "  if (!(asmflags & F_NOCODE) && (asmflags & F_CODE_ON))\n  {\n    if (scode == NULL)\n"),
    needs="a program that only reserves places in a DUMMY section, with -o",
    breaks="the code file, empty but for its last record, is missing",
    files={A: "* = 0\n dummy\n ds 5\n"})
bug(id="cpu-again-after-error", property="C26", file="src/pseudos.c",
    edit=("  if (passnumber == 2)\n  {\n    asmflags |= F_CPU_GV;\n  }\n", "  if (passnumber == 2 && q->code)\n  {\n    asmflags |= F_CPU_GV;\n  }\n"),
    needs="two CPU statements, the first for the first processor of its family",
    breaks="both are accepted",
    files={A: " cpu 6500\n cpu 6500\n* = 0\n nop\n"}, show="grep -a ERROR out >> got\n")
bug(id="prefix-second-pass", property="C18", file="src/crasm.c",
    edit=("  lineprefix    = 0;\n", ""),
    needs="a program that ends within a condition which leaves lines out",
    breaks="every line of the listing has its mark instead of its number",
    files={A: "* = 0\n db 1\n if 0\n db 2\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="xref-list-off", property="C20", file="src/crasm.c",
    edit=("  asmflags |= F_LIST_ON;\n\n  if (errnumber == 0 && flag & LIST)\n", "  if (flag & LIST)\n  {\n    asmflags |= F_LIST_ON;\n  }\n\n  if (errnumber == 0 && flag & LIST)\n"),
    needs="-l and -x, a listing switched off",
    breaks="no summary and no symbol table",
    files={A: "* = 0\nab = 1\n db ab\n"}, args="-l -x -o code a.asm", show="cat out >> got\n")
bug(id="mlist-second-pass", property="C19", file="src/crasm.c",
    edit=("  asmflags &= ~ F_MACROLIST_ON;\n  asmflags |=   F_IFLIST_ON;\n", "  asmflags |=   F_IFLIST_ON;\n"),
    needs="MLIST ON after a macro call",
    breaks="the call is listed in the second pass",
    files={A: "* = 0\nm macro\n db 1\n endm\n m\n mlist on\n m\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="quote-escape-comment", property="C28", file="src/filter.c",
    edit=("          if (quote & 0x3)        /* str only  */\n", "          if (quote & 0x1)        /* str only  */\n"),
    needs="an escaped quote in a string with double quotes, and a semicolon behind it",
    breaks="the semicolon is taken for a comment",
    files={A: "* = 0\n asc \"a\\\";b\"\n asc 'a\\';b'\n"})
bug(id="paren-comma-first", property="C14", file="src/filter.c",
    edit=("        case ')' :\n          if (!(quote & 0x3))     /* \"x)x\" ok  */\n", "        case ')' :\n          if (!(quote & 0x1))     /* \"x)x\" ok  */\n"),
    needs="a closing parenthesis within double quotes in an argument",
    breaks="the comma behind it no longer separates",
    files={A: "* = 0\nm macro\n db \\1\n db \\2\n endm\n m \")\",2\n m ')',2\n"})
# eighth batch
bug(id="z80-offset-low", property="C29", file="src/cpuz80.c",
    edit=("    if (offset != (byte) offset)\n", "    if (offset > 127)\n"),
    needs="an index displacement below -128",
    breaks="it is cut without a word",
    files={A: " cpu z80\n* = 0\n ld a,(ix-129)\n ld a,(iy+128)\n"}, show="grep -a WARNING out >> got\n")
bug(id="z80-ex-comment", property="C28", file="src/cpuz80.c",
    edit=("    if (oper2 == NULL || !*oper2 || *oper2 == ';')\n", "    if (oper2 == NULL || !*oper2)\n"),
    needs="a comment behind EX AF,AF'",
    breaks="the instruction is refused",
    files={A: " cpu z80\n* = 0\n ex af,af'\n ex af,af' ; both\n"}, show="grep -a ERROR out >> got\n")
bug(id="include-prefix", property="C18", file="src/macro.c",
    edit=("  source[slevel].filedesc.oldprefix = lineprefix;\n  source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) ? 1 : 0;\n  source[slevel].filedesc.file  = f;\n", "  source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) ? 1 : 0;\n  source[slevel].filedesc.file  = f;\n"),
    needs="a macro call, and an INCLUDE within a macro at the same depth later",
    breaks="after the included file the lines have a wrong mark",
    files={A: "* = 0\nm macro\n include inc.asm\n db 3\n endm\n mlist on\n ilist on\n m\n m\n db 4\n", "inc.asm": " db 1\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="include-if-span", property="C18", file="src/macro.c",
    edit=("    lineprefix = source[slevel].filedesc.oldprefix;\n\n", ""),
    needs="a condition that begins in an included file and ends in the file which includes it",
    breaks="lines are listed with the mark of a condition",
    files={A: "* = 0\n include inc.asm\n db 2\n endc\n db 3\n", "inc.asm": " db 1\n if 0\n db 9\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="listing-64k", property="C18", file="src/output.c",
    edit=("  mypc = pc + 1;\n", "  mypc = (pc + 1) & 0xffff;\n"),
    needs="an instruction at or above 64K",
    breaks="each of its bytes is listed on a line of its own",
    files={A: "* = $fffe\n db 1,2,3,4\n dl $12345678\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="else-twice", property="C13", file="src/macro.c",
    edit=("  if (flag == ENDM || flag == ELSE)\n", "  if (flag == ENDM)\n"),
    needs="a second ELSE in one condition",
    breaks="it ends the condition silently",
    files={A: "* = 0\n if 1\n db 1\n else\n db 2\n else\n db 3\n endc\n"}, show="grep -a ERROR out >> got\n")
bug(id="reg-compare", property="C13", file="src/macro.c",
    edit=("  if (r1.type != r2.type)\n  {\n", "  if (r1.type != r2.type && r2.type != L_REGS)\n  {\n"),
    needs="a number compared with a register",
    breaks="it is not refused",
    files={A: " cpu 6502\n* = 0\n if 1 = x\n db 1\n endc\n if 2 = x\n db 2\n endc\n"}, show="grep -a ERROR out >> got\n")
bug(id="dc-overflow-signed", property="C29", file="src/pseudos.c",
    edit=("    mask = 0xffffff00;\n    insert8(r->value);\n", "    mask = (r->value & 0x80000000) ? 0x7fffff00 & ~r->value : 0xffffff00;\n    insert8(r->value);\n"),
    needs="a negative byte",
    breaks="it is cut without a word",
    files={A: "* = 0\n db 0-1\n db 0-200\n db 300\n"}, show="grep -a WARNING out >> got\n")
bug(id="reglist-same", property="C07", file="src/operator.c",
    edit=("    if (hi > 31 || hi < lo)\n", "    if (hi > 31 || hi <= lo)\n"),
    needs="a range of registers that has one register",
    breaks="it is refused",
    files={A: " cpu 6502\n* = 0\n if x-y = x\\y\n db 1\n endc\n if x-x = x\n db 2\n endc\n"}, show="grep -a ERROR out >> got\n")
bug(id="addr-modifier", property="C07", file="src/operator.c",
    edit=("  presult->type = L_ABSOLUTE;\n  presult->modifier = 0;\n}\n\nvoid opbitnumb", "  presult->type = L_ABSOLUTE;\n}\n\nvoid opbitnumb"),
    needs="ADDR() compared in an IF",
    breaks="it is not equal to the same number",
    files={A: "* = 0\nb = 5{3}\n if addr(b) = 5\n db 1\n endc\n if addr(7{2}) <> 7\n db 2\n endc\n if addr(5{3}) = addr(5{4})\n db 3\n endc\n"})
bug(id="mul-loses-forward", property="C10", file="src/operator.c",
    edit=("  presult->flags |= parg->flags;\n  presult->value *= parg->value;\n", "  presult->value *= parg->value;\n"),
    needs="a forward reference as right operand of * where the instruction has a short and a long form",
    breaks="the passes choose different sizes",
    files={A: " cpu 6502\n* = $200\n jmp l\n lda 1*fwd\nl nop\nfwd = $1234\n"})
bug(id="hi-wide", property="C07", file="src/operator.c",
    edit=("  presult->value >>= 8;\n  presult->value &= 0xff;\n", "  presult->value >>= 8;\n  presult->value &= 0xffff;\n"),
    needs="HI() of a value above 65535",
    breaks="it has more than eight bits",
    files={A: "* = 0\n dw hi($123456)\n dw hi($1234)\n"})
bug(id="minus-register", property="C16", file="src/operator.c",
    edit=("  checktype(presult, L_ABSOLUTE);\n  presult->value = -presult->value;\n", "  if (presult->type != L_REGS)\n  {\n    checktype(presult, L_ABSOLUTE);\n  }\n\n  presult->value = -presult->value;\n"),
    needs="a minus in front of a register",
    breaks="the error is not reported",
    files={A: " cpu 6502\n* = 0\nr = -x\n db 1\n"}, show="grep -a ERROR out >> got\n")
bug(id="s-clears-x", property="C27", file="src/crasm.c",
    edit=("          flags &= ~WARN;\n", "          flags &= ~(WARN | XREF);\n"),
    needs="-s behind -x, with -l",
    breaks="the symbol table is missing",
    files={A: "* = 0\nab = 1\n db 1\n"}, args="-l -x -s -o code a.asm", show="cat out >> got\n")
bug(id="clist-second-pass", property="C18", file="src/crasm.c",
    edit=("  asmflags |=   F_IFLIST_ON;\n", "  asmflags |=   passnumber ? 0 : F_IFLIST_ON;\n"),
    needs="CLIST OFF after a condition",
    breaks="the lines left out before it are not listed",
    files={A: "* = 0\n if 0\n db 1\n endc\n clist off\n if 0\n db 2\n endc\n db 3\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="dummy-label-listing", property="C18", file="src/crasm.c",
    edit=("    if (macrolevel == 0 || asmflags & F_MACROLIST_ON)\n    {\n      if (lpos == 0)\n      {\n        position(2);\n        outputaddr(starlabel->value);\n", "    if (asmflags & F_MACROLIST_ON || macrolevel != 1)\n    {\n      if (lpos == 0)\n      {\n        position(2);\n        outputaddr(starlabel->value);\n"),
    needs="a label in a DUMMY section within a macro called by a macro",
    breaks="its address appears on the line of the call",
    files={A: "* = 0\n dummy\ni macro\n.l ds 1\n endm\no macro\n i\n endm\na ds 2\n i\n o\nb ds 1\n"}, args="-o code a.asm", show="cat out >> got\n")
bug(id="org-second-pass", property="C25", file="src/crasm.c",
    edit=("    asmflags &= ~F_ORG_GV;\n", "    if (passnumber == 1)\n    {\n      asmflags &= ~F_ORG_GV;\n    }\n"),
    needs="code before the first origin",
    breaks="it is accepted",
    files={A: " db 1\n* = 5\n db 2\n"}, show="grep -a ERROR out >> got\n")
