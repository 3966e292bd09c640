# text of the per-property part of DESIGN.md; tools/gen_design.py puts it together with the bounds in the evidence
D = {
"C01": ("Independent S-record reader (mc/codefile.inc, written from the Motorola format): counts, checksums, upper case, terminator, address ranges. Its bytes, in order, are compared with the emissions the reference assembler predicts.",
        "Records depend on the interaction of block length (16-byte buffer), address width (S1/S2/S3 limits), 64K boundaries, origin moves and DUMMY switches: the product of these is enumerated, a test file holds one point of it."),
"C02": ("Same programs in Intel HEX; independent reader with extended linear address state, 64K segment rule, end record.", "As C01; the upper-address state depends on the history of blocks."),
"C03": ("Opcode matrix written from the processor manuals (reference's isa65 table), not derived from crasm's offset arithmetic.", "Every mnemonic x every addressing shape x boundary operands x processor, including all the combinations which must be refused; the tests use a few dozen."),
"C04": ("Opcode table isa68 written from the 6800/6801 manuals.", "As C03."),
"C05": ("Z80 encoder of the reference, organised by instruction forms; every mnemonic against every pair of 89 operands decides the refusals too.", "The set of wrong operand combinations is far larger than the set of right ones; only enumeration decides that none is accepted."),
"C06": ("Displacement recomputed from the addresses; accepted exactly in -128..127.", "All distances around the limits x every branch x ways of writing the target, incl. wrap-arounds at multiples of 64K."),
"C07": ("Reference evaluator: precedence-climbing over 64-bit integers written from the manual's table; all token strings up to a length decide malformed expressions.", "crasm evaluates by pattern matching on the reversed text, so its grammar is implicit: only all short token strings show where it differs from the documented one."),
"C08": ("Reference number reader; values beyond 32 bits are errors.", "All strings up to a length plus all powers and their neighbours in each notation."),
"C09": ("Byte image and program counter of the reference.", "All value lists, DS counts, strings and parities within bounds, on both byte orders."),
"C10": ("Reference (an independent two-pass definition), plus a criterion that does not depend on it: a use that saw another value than the label's final one must not end in a code file.", "The two passes disagree only for particular orders of definition, use and size change: these orders are enumerated."),
"C11": ("Reference symbol rules.", "All sequences of definitions and uses; all short names; lengths; insertion orders of the symbol tree."),
"C12": ("Reference scopes (a scope number per CODE/DUMMY/expansion).", "All sequences of scopes, macros and local labels; scope counts to 120 (names and scope numbers may not run together)."),
"C13": ("Reference condition stack.", "All nestings/sequences of IF/ELSE/ENDC with everything else in the branches."),
"C14": ("Reference macro expansion, and differentially: the call against the substituted body assembled by crasm itself.", "All bodies x calls; argument counts, lengths, nesting, EXITM in every position."),
"C15": ("Reference source stack, and differentially: the program against its inlined text assembled by crasm itself; files a process may hold open are limited to 32, so files not given back are seen.", "All ways of cutting a program into files, all file endings, nesting depths."),
"C16": ("Reference's list of erroneous lines and number of warnings against the reports and the summary; a second part counts without the reference.", "All sequences of correct, erroneous and warned lines in all contexts."),
"C17": ("Code file exists, complete, exactly when the reference finds no error; the summary and status agree.", "Where and when in a program an error happens, in which pass, and what had been written by then is enumerated."),
"C18": ("The complete listing predicted by the reference, character by character up to blanks; addresses and bytes beside each line.", "Tests never compare a listing."),
"C19": ("Differential: the same program under all option sets / with a listing statement inserted at every place must give the same code file and errors.", "All programs x options x positions of insertion."),
"C20": ("Symbol table predicted by the reference: order, values, kinds, marks.", "All insertion orders, kinds, widths, counts."),
"C21": ("Reader of pages (lines per page, headers, numbers, titles, width) on the real output, plus the squeezed text against the reference.", "All page lengths/widths x amounts of text around page limits."),
"C22": ("Built with AddressSanitizer and UBSan bounds; runaway output, allocation and time limits; exit status 0 or 10 only.", "All short strings after each statement, all lengths of each element, all truncations/mutations of programs, all nestings."),
"C23": ("Fault injector: the code file not creatable / full after every byte / not closable; each source unreadable from every byte on in each pass; each allocation failing; pairs. Oracle: a report, no success, no code file.", "Every point of failure is enumerated; a test has none. Confirmation on the real binary with RLIMIT_FSIZE and unreadable/directory files where the fault can be made there; otherwise the in-process run is repeated."),
"C24": ("Every program is executed under several fills of stack and heap memory and over several old code files: results must be equal.", "Any dependence on memory never written shows as a difference between fills, for every enumerated program."),
"C25": ("Reference program counter and sections; summary's last address and code length.", "All sequences of origins, emissions, sections."),
"C26": ("Reference vocabulary: all mnemonics of all processors in all roles under each processor.", "The complete cross product of words x processors."),
"C27": ("Reference of the command line (what is printed, written, status).", "All command lines up to a length; all option groupings."),
"C28": ("Differential against the plain layout of the same statement (and the reference).", "All placements of blanks/tabs/comments/case changes."),
"C29": ("Each field's documented range against the report, with its truncated bytes.", "80 fields x 2024 values x constant / symbol / forward."),
}
