#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay readable)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s} for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Expression operators compute the documented value for all operands",
 "Every unary and binary operator of the expression language (and the ?: form) yields the value the manual gives it for all operand values, and the bytes written to the output are those of that value. Division by zero ends the run with an error status instead of producing a value.",
 ["inputs"], "all pairs of 64-bit operand values (16-bit for * / %) for each of the 23 operators, written into the output with dc.l / dc.b",
 "A test fixes a handful of operand pairs; a swapped operand, a signedness slip or a wrong mask shows only at particular values.",
 ["src/exp.c", "src/ops.c"],
 [("op_mult..op_question arithmetic helpers", "src/exp.c"), ("eval operator dispatch", "src/exp.c:eval"), ("dc.l output of the result", "src/ops.c:v_dc")],
 observe=["bytes of the output file", "exit status"])

prop("P02", "Operator precedence, associativity and brackets follow the manual",
 "Any expression built from binary operators, unary operators and square or round brackets has the value obtained by parsing it with the manual's precedence table, left-to-right for equal precedence. The grouping never depends on the operand values.",
 ["programs", "inputs"], "every pair of binary operators x every bracket placement over three symbolic operands; unary operators before any operand; runs of three binary operators",
 "The number of operator combinations is quadratic to cubic and each wrong grouping is visible only for operands that distinguish the parses.",
 ["src/exp.c"],
 [("operator stack and priority comparison", "src/exp.c:doop,evaltop,eval"), ("bracket push and pop", "src/exp.c:eval")],
 observe=["bytes of the output file"])

prop("P03", "Numeric and character literals denote exactly their written value",
 "A binary, octal, decimal, hexadecimal ($ and 0x) or character literal of any digits evaluates to the number it spells, and a digit not belonging to the base ends the literal.",
 ["inputs"], "all digit strings up to the bound in each base with every digit symbolic, upper and lower case hexadecimal, all printable characters for 'c",
 "Tests use a few literals; a wrong digit boundary (8 vs 9, f vs g, upper case) concerns single characters of particular bases.",
 ["src/exp.c"],
 [("pushbin/pushoct/pushdec/pushhex/pushchar", "src/exp.c"), ("0x prefix", "src/exp.c:eval")],
 observe=["bytes of the output file", "exit status"])

prop("P04", "Success means nothing is unresolved and every label is where it says",
 "When the assembler reports success, every label's value equals the address at which its line was placed in the output, however many forward references and size changes were needed; if a symbol stays undefined or an addressing size never settles the run fails.",
 ["programs", "inputs"], "programs with forward references through symbolic-size gaps, chains of forward equates, zero-page/absolute size feedback and undefined symbols, for all symbolic values",
 "Convergence depends on the number of passes and on values near size boundaries; tests exercise only fixed programs that converge in a known number of passes.",
 ["src/symbols.c", "src/main.c", "src/ops.c", "src/exp.c"],
 [("phase error and forward reference detection", "src/symbols.c:programlabel"), ("pass loop and Redo bookkeeping", "src/main.c:MainShadow"), ("unknown flag propagation", "src/exp.c:stackarg"), ("equate redefinition check", "src/ops.c:v_equ")],
 state=["Redo, Redo_why, Redo_eval, Redo_if", "symbol flags"], observe=["exit status", "bytes of the output file"])

prop("P05", "Every 6502 / 65C02 instruction is encoded as the processor defines it",
 "For every mnemonic and every addressing syntax of the 6502 (with its documented unofficial opcodes) and the 65C02, and for all operand values, the bytes emitted are the opcode of the shortest legal form that holds the operand, followed by the operand little-endian; combinations the processor lacks are rejected.",
 ["inputs", "programs"], "all mnemonics x all addressing syntaxes x all 64-bit operand values",
 "The reference binaries contain one operand value per opcode; choosing the wrong form or byte only for certain values or certain mnemonics is invisible to them.",
 ["src/ops.c", "src/mne6502.c", "src/mne65c02.c", "src/exp.c", "src/globals.c", "src/main.c"],
 [("addressing form selection and operand emission", "src/ops.c:v_mnemonic"), ("addressing syntax detection", "src/exp.c:eval"), ("opcode tables", "src/mne6502.c, src/mne65c02.c"), ("compressed table expansion", "src/main.c:addhashtable")],
 observe=["bytes of the output file", "exit status"])

prop("P06", "Every 6803/6303/68705/68HC11/68HC908 instruction is encoded as defined",
 "For every mnemonic and addressing syntax of the Motorola-family processors and all operand values, the bytes emitted are the (one or two byte) opcode of the form selected, followed by operands most significant byte first, with bit-number, mask and stack-relative operands in the processor's order; illegal combinations are rejected.",
 ["inputs", "programs"], "all mnemonics x all addressing syntaxes of five processors x all operand values",
 "The suite has one fixed listing per processor; prefix bytes, masks and bit numbers are exercised with single values.",
 ["src/ops.c", "src/mne6303.c", "src/mne68705.c", "src/mne6811.c", "src/mne68908.c", "src/main.c"],
 [("two-byte opcodes, MF_MASK/MF_REL/MF_IMOD operands", "src/ops.c:v_mnemonic"), ("opcode tables", "src/mne6303.c, src/mne68705.c, src/mne6811.c, src/mne68908.c"), ("processor selection and byte order", "src/ops.c:v_processor")],
 observe=["bytes of the output file", "exit status"])

prop("P07", "Every F8 instruction is encoded as defined and bad operands are rejected",
 "For every Fairchild F8 mnemonic and every operand value or register name, the bytes emitted are those of the F8 instruction set, and operands outside the field of the instruction are rejected with an error status.",
 ["inputs", "programs"], "all F8 mnemonics x register names x all operand values",
 "Operand fields are 3, 4, 8 and 16 bits wide with different limits; a test tries a few values per field.",
 ["src/mnef8.c"],
 [("register, short-immediate and port operand parsing", "src/mnef8.c"), ("lr transfer table", "src/mnef8.c:v_lr"), ("byte and word immediates", "src/mnef8.c:v_byteop,v_wordop")],
 observe=["bytes of the output file", "exit status"])

prop("P08", "An operand that does not fit is never silently truncated",
 "If the value of an instruction operand or data item does not fit the field it is written to (byte fields take -255..255, word fields are checked under -S), the run ends with an error status; if the run succeeds, the bytes written are the value's low-order bytes.",
 ["inputs"], "all 64-bit operand values for each class of operand field (immediate, zero page, indexed, indirect, absolute under strict mode, bit number, byte data)",
 "Truncation needs a value outside the field, and each addressing form has its own check; tests that must succeed never contain one.",
 ["src/ops.c", "src/mnef8.c", "src/main.c"],
 [("operand range checks", "src/ops.c:v_mnemonic"), ("data range checks", "src/ops.c:v_dc"), ("fatal error accounting", "src/main.c:asmerr")],
 observe=["exit status", "bytes of the output file"])

prop("P09", "A relative branch reaches its target or the assembly fails",
 "For every pair of branch address and target, the displacement byte emitted takes the processor to the target exactly; if the distance does not fit in a signed byte the run ends with an error status.",
 ["inputs"], "all branch/target address pairs for every kind of relative instruction on all processors, including compare/bit/decrement-and-branch and relocated code",
 "Off-by-one in range or base shows only at distances -129..-126, 126..130 and for instruction forms of unusual length.",
 ["src/ops.c", "src/mnef8.c"],
 [("relative operand computation", "src/ops.c:v_mnemonic"), ("F8 branches", "src/mnef8.c:generate_branch,branch,v_bf_bt"), ("relocated program counter", "src/ops.c:v_rorg")],
 observe=["bytes of the output file", "exit status"])

prop("P10", "Data directives emit exactly the values listed in the target byte order",
 "BYTE/WORD/LONG/DC.x/DV/HEX emit, in order, each listed value in the item size and in the byte order of the selected processor (reversed for the .s form), and strings character by character.",
 ["inputs", "configurations"], "all item values, all item sizes, list lengths up to the bound, every processor byte order, all printable string characters",
 "Tests compare a few constants; a byte order or sign slip needs particular values per size and per processor.",
 ["src/ops.c", "src/exp.c", "src/globals.c"],
 [("list loop and byte order", "src/ops.c:v_dc"), ("hex digits", "src/ops.c:v_hex,gethexdig"), ("string argument", "src/exp.c:pushstr")],
 observe=["bytes of the output file"])

prop("P11", "DS and ALIGN reserve and fill exactly the requested bytes",
 "DS.x n,v emits n items of value v (default 0) and ALIGN n,v emits the smallest number of fill bytes that makes the current address a multiple of n; labels after them are advanced by the same amount.",
 ["inputs"], "all counts and fill values up to the bound, all alignments up to the bound from every start address, all item sizes and byte orders",
 "The number of padding bytes depends on the address modulo n; an off-by-one appears only when already aligned or one short.",
 ["src/ops.c"],
 [("fill generation", "src/ops.c:genfill,v_ds"), ("alignment gap", "src/ops.c:v_align")],
 observe=["bytes of the output file"])

prop("P12", "Raw and default output place every byte at its address",
 "In output formats 1 and 3 the file is the contiguous image from the first origin: each generated byte lies at (its address - first origin), every gap byte is the fill value given to ORG (255 by default), format 1 is preceded by the origin low byte first, and an origin that moves backwards is an error.",
 ["inputs", "programs"], "all sequences of up to three origins with gaps and data up to the bound, all fill values, both formats",
 "Gap handling depends on the order and distance of origins; the suite compares whole fixed images.",
 ["src/ops.c"],
 [("image writer", "src/ops.c:generate"), ("origin and fill byte", "src/ops.c:v_org")],
 state=["static origin of the image", "fill byte"], observe=["bytes of the output file", "exit status"])

prop("P13", "Format 2 hunks are well formed and describe the same memory image",
 "Format 2 output is a sequence of hunks, each an origin word, a length word and exactly that many bytes; the memory image they describe is the same as the one described by formats 1 and 3 for the same program.",
 ["inputs", "programs", "configurations"], "all sequences of origins and data up to the bound, including backward origins, empty segments and relocated code",
 "Hunk lengths are patched in afterwards; a wrong seek or length only corrupts multi-hunk outputs, which the suite never assembles.",
 ["src/ops.c"],
 [("hunk header and length patching", "src/ops.c:generate,closegenerate")],
 state=["Seekback, Seglen, Fisclear"], observe=["bytes of the output file"])

prop("P14", "Segments and relocation keep physical and logical addresses apart",
 "Code after RORG is placed at the physical address that follows the previous byte while its labels count from the relocated address until REND; each segment keeps its own address across switches, and uninitialised segments advance addresses but contribute no byte to the output.",
 ["programs", "inputs"], "all interleavings of two segments, relocation and uninitialised segments within the bound with symbolic origins and sizes",
 "Requires particular interleavings of directives; the suite's programs use each in one fixed order.",
 ["src/ops.c", "src/symbols.c"],
 [("segment switch", "src/ops.c:v_seg"), ("relocation", "src/ops.c:v_rorg,v_rend,generate"), ("label value", "src/symbols.c:programlabel")],
 state=["segment list"], observe=["bytes of the output file"])

prop("P15", "Symbol names are matched exactly and local labels stay local",
 "Two symbol references denote the same symbol exactly when their names are identical; a label beginning with '.' is private to its SUBROUTINE or macro expansion, and a label ending with '$' is private to the region between two ordinary labels.",
 ["inputs", "programs"], "all pairs of symbol names up to the bound (every identifier character symbolic), all placements of local labels around region boundaries",
 "A lookup that ignores a length, a case or a character, or confuses colliding hashes, needs two specific names.",
 ["src/symbols.c", "src/ops.c", "src/exp.c"],
 [("lookup and hash chain", "src/symbols.c:findsymbol,CreateSymbol,hash1"), ("local prefixes", "src/symbols.c"), ("local index bookkeeping", "src/ops.c:v_subroutine,v_execmac,v_endm")],
 state=["symbol hash table", "local label indices"], observe=["bytes of the output file", "exit status"])

prop("P16", "Conditional assembly selects exactly the branches the conditions select",
 "For any nesting of IF/IFCONST/IFNCONST/ELSE/ENDIF and any condition values, the statements assembled are exactly those whose enclosing conditions all select them, and a skipped block has no effect on output, symbols or errors.",
 ["programs", "inputs"], "all nestings up to depth 3 with every combination of condition truth values, defined and undefined symbols",
 "The number of truth assignments doubles with each nesting level and the interesting ones are inside skipped blocks.",
 ["src/ops.c", "src/main.c"],
 [("condition stack", "src/ops.c:v_if,v_ifconst,v_ifnconst,v_else,v_endif,pushif"), ("statement gating", "src/main.c:MainShadow")],
 state=["condition stack flags"], observe=["bytes of the output file", "exit status"])

prop("P17", "REPEAT and macro expansion reproduce the body exactly as requested",
 "REPEAT n assembles its body n times (not at all for n<=0), also when nested or when it contains conditionals; a macro call assembles the macro's body with {k} replaced by the k-th argument and {0} by the whole argument text, for nested calls as well, and MEXIT ends only the current expansion.",
 ["programs", "inputs"], "all repeat counts up to the bound including nested ones; macro bodies with every argument position and symbolic argument text",
 "Bodies are re-read from saved text and file positions; mistakes show for particular counts, nesting or argument lengths.",
 ["src/ops.c", "src/main.c"],
 [("repeat stack", "src/ops.c:v_repeat,v_repend"), ("macro expansion", "src/ops.c:v_execmac,v_endm,v_mexit; src/main.c:v_macro"), ("argument substitution", "src/main.c:cleanup")],
 state=["repeat stack", "include stack", "macro argument lists"], observe=["bytes of the output file", "exit status"])

prop("P18", "Lines are split into label, mnemonic and operand as documented",
 "Comments (; and C style), the amount of white space between label, mnemonic and operand, letter case of mnemonics and directives, an optional colon after a label and an optional dot or hash before a directive do not change the meaning of a line; characters inside quotes are taken literally.",
 ["inputs", "programs"], "all white space/comment variants and case patterns of a set of lines, all printable characters inside quotes and comments",
 "Equivalent spellings are combinatorially many and tests write each statement in one way.",
 ["src/main.c"],
 [("comment removal", "src/main.c:cleanup"), ("field splitting", "src/main.c:parse"), ("mnemonic lookup", "src/main.c:findmne")],
 observe=["bytes of the output file"])

prop("P19", "Errors always surface: exit status, -R removal and failure on ERR",
 "The exit status is zero exactly when no error was reported by the final pass; any erroneous statement (unknown mnemonic, syntax error, bad operand, missing file, ERR directive, redefinition) makes it non-zero whatever follows it, and -R then leaves no output file.",
 ["programs", "fault_sequences", "configurations"], "each class of erroneous statement at each position, in includes, macros, repeats and conditionals, in any pass, under all option combinations of the bound",
 "Whether an error counts depends on the pass it occurs in and on what follows; the suite checks each error once as the only statement.",
 ["src/main.c", "src/ops.c", "src/exp.c"],
 [("error accounting", "src/main.c:asmerr,MainShadow"), ("output removal", "src/main.c:main")],
 state=["stop-at-end flags per pass"], observe=["exit status", "existence of the output file"])

prop("P20", "Diagnostics name the file and line of the offending statement",
 "Every error message carries the name of the file and the number of the line on which the offending statement stands, through includes, skipped blocks, repeats and macro expansions, in each of the three message formats.",
 ["programs", "configurations"], "all line positions up to the bound of an erroneous statement behind symbolic numbers of blank, comment, skipped, repeated and included lines; all error formats",
 "The suite never looks at messages.",
 ["src/main.c", "src/ops.c"],
 [("line counting", "src/main.c:MainShadow,pushinclude"), ("message composition", "src/main.c:asmerr"), ("line restore after REPEND", "src/ops.c:v_repend")],
 observe=["standard output and error text"])

prop("P21", "The running checksum symbol equals the sum of the bytes generated",
 "The value of '...' at any point is the sum of all initialised bytes generated before it in that pass.",
 ["inputs", "programs"], "all byte values of up to the bound of emitted items of every kind (data, instructions, fill, included binaries)",
 "Only fixed data is summed in tests; omissions for one kind of statement or wrong resets per pass are not exercised.",
 ["src/ops.c", "src/symbols.c", "src/main.c"],
 [("accumulation", "src/ops.c:generate"), ("special symbol", "src/symbols.c:findsymbol"), ("per-pass reset", "src/main.c:MainShadow")],
 state=["CheckSum"], observe=["bytes of the output file"])

prop("P22", "ftohex writes well-formed Intel HEX describing the same image",
 "For every valid input file of formats 1, 2 and 3, ftohex writes only well-formed data records (count, address, type 0, bytes, correct checksum) followed by one end record, and the bytes and addresses they describe are exactly those of the input.",
 ["inputs"], "all file contents up to the bound in bytes, all origins, hunk counts and hunk lengths up to the bound, three formats",
 "The repository's tests never examine ftohex output; record boundaries at multiples of 16 and checksum carry depend on contents.",
 ["src/ftohex.c"],
 [("conversion loop", "src/ftohex.c:convert"), ("record fields", "src/ftohex.c:puth,getwlh")],
 observe=["hex output file", "exit status"])

prop("P23", "The listing shows the addresses and bytes that were written",
 "Each listing line of the final pass shows the line number of its source line, the address of the statement and the bytes generated for it, and the source text.",
 ["inputs", "programs"], "all operand values and origins for data, instruction, equate and fill statements; all list options",
 "The suite writes listings but never reads them.",
 ["src/main.c"],
 [("line formatting", "src/main.c:outlistfile,tabit,sftos")],
 observe=["list file"])

prop("P24", "The symbol dump lists every symbol once with its value, sorted as asked",
 "With -s every defined symbol appears exactly once with its final value, its kind and whether it was referenced, sorted by name, by value or by definition as selected by -T.",
 ["programs", "inputs", "configurations"], "all values of up to four symbols, all sort orders, all kinds of definition",
 "The suite never examines symbol files; comparison mistakes need particular value pairs (large, negative, equal).",
 ["src/main.c", "src/symbols.c"],
 [("sorting", "src/main.c:ShowSymbols,CompareAlpha,CompareAddress,CompareOrder"), ("formatting", "src/main.c:sftos")],
 observe=["symbol file"])

prop("P25", "No source text makes the assembler access memory outside its objects",
 "For every source file within the bound, and every option combination tried, the run terminates and never reads or writes outside allocated memory, divides by zero or calls through an invalid pointer.",
 ["inputs", "programs", "configurations"], "all byte strings up to the bound as operand of each directive class, as mnemonic, as label and as whole line; long tokens with lengths around every fixed buffer size; all 64-bit values of numeric operands",
 "Crashes need unusual characters, lengths or values that hand-written tests avoid.",
 ["src/main.c", "src/exp.c", "src/ops.c", "src/symbols.c", "src/mnef8.c"],
 [("line buffers", "src/main.c:parse,cleanup,findmne,asmerr"), ("evaluator stacks", "src/exp.c:doop,eval"), ("statement handlers", "src/ops.c")],
 observe=["termination", "memory accesses"])

prop("P26", "INCBIN and INCLUDE splice exactly the named file, searched in order",
 "INCBIN emits the bytes of the file from the given offset to its end unchanged and INCLUDE assembles the file's lines in place; a file is looked up in the current directory and then in the include directories in the order given.",
 ["inputs", "configurations"], "all file contents and offsets up to the bound, presence or absence of the file in each of the search directories",
 "Tests include fixed files found at the first place searched.",
 ["src/ops.c", "src/main.c"],
 [("binary inclusion", "src/ops.c:v_incbin"), ("search path", "src/ops.c:v_incdir,pfopen,addpart"), ("include stack", "src/main.c:pushinclude")],
 observe=["bytes of the output file", "exit status"])

prop("P27", "Command-line definitions and report options do what they say and no more",
 "-Dname=expr and -Mname=expr act like the corresponding definition before the first line, and the listing, symbol, verbosity, message-format, sort and -R options never change the bytes produced or the exit status of a correct program.",
 ["configurations", "inputs"], "all values of the defined expression; all combinations of report options on a set of programs with symbolic operands",
 "The suite runs one option combination.",
 ["src/main.c"],
 [("option parsing", "src/main.c:MainShadow"), ("report passes", "src/main.c:outlistfile,ShowSymbols,ShowSegments")],
 observe=["bytes of the output file", "exit status"])

prop("P28", "EQU, SET, EQM, SETSTR and dynamic symbols bind as documented",
 "EQU gives a name one value and rejects a second different one, SET may be changed and each use sees the latest value, EQM is re-evaluated at each use as a bracketed sub-expression, DV applies the EQM with '..' bound to each item, and a symbol name composed with ',' uses the current values of its parts and defines no other name.",
 ["programs", "inputs"], "all values bound and rebound in every order of definitions and uses within the bound",
 "Order of definition, rebinding and use across passes multiplies; tests fix one order.",
 ["src/ops.c", "src/main.c", "src/exp.c"],
 [("definitions", "src/ops.c:v_equ,v_set,v_eqm,v_setstr,v_setsym"), ("string symbols", "src/exp.c:pushsymbol"), ("dynamic names", "src/main.c:parse")],
 observe=["bytes of the output file", "exit status"])

prop("P29", "Forced addressing extensions select exactly the requested form",
 "A size extension on a mnemonic or directive selects that operand form whenever the processor has it, regardless of the operand value that fits it, and is rejected otherwise.",
 ["inputs", "programs"], "all extension letters on representative mnemonics of each processor x all operand values",
 "Extensions are parsed letter by letter and interact with the size choice only for small operands.",
 ["src/main.c", "src/ops.c", "src/globals.c"],
 [("extension parsing", "src/main.c:findext"), ("forced form", "src/ops.c:v_mnemonic"), ("mode conversion table", "src/globals.c:Cvt")],
 observe=["bytes of the output file", "exit status"])

prop("P30", "PROCESSOR selects one instruction set and byte order",
 "A supported processor name selects exactly that processor's instructions and byte order for the whole assembly, an unknown name, an instruction of another processor and a second, different processor are errors, and repeating the same one is harmless.",
 ["configurations", "inputs"], "all pairs of processor names, all one-character variations of them, instructions that tell the processors apart on every processor, all data words",
 "The suite assembles whole programs for one processor each and never mixes or misspells names.",
 ["src/ops.c", "src/main.c"],
 [("selection", "src/ops.c:v_processor"), ("mnemonic lookup", "src/main.c:findmne,addhashtable")],
 observe=["bytes of the output file", "exit status"])

prop("P31", "ECHO and decimal conversion print the final values, once and in order",
 "Every ECHO that is assembled in the final pass prints one line with each item whose value is known - numbers in hexadecimal, strings as text - on the screen and in the list file, skipped ECHO statements print nothing, and [exp]d is the decimal text of exp wherever a string may stand.",
 ["inputs", "programs"], "all values of the items, all pairs of item kinds in every place a statement may stand",
 "Messages of earlier passes are buffered and dropped; no test looks at them.",
 ["src/ops.c", "src/main.c", "src/exp.c"],
 [("statement", "src/ops.c:v_echo"), ("message buffer", "src/main.c:addmsg,passbuffer_update,passbuffer_output"), ("decimal conversion", "src/exp.c:eval")],
 observe=["standard output", "text of the list file", "bytes of the output file"])

prop("P32", "Pass and size limits stop an assembly exactly at their values",
 "A program succeeds with -pN or -PN exactly when it needs no more than N passes, and with the same output as without a limit; no segment grows beyond the address given by -m (640 kB by default) and everything up to it is accepted; options may be introduced by - or /.",
 ["inputs", "configurations"], "all addresses around every barrier, all limits around the passes needed",
 "Limits are far away in every test program.",
 ["src/main.c", "src/ops.c"],
 [("passes", "src/main.c:MainShadow"), ("size barrier", "src/ops.c:generate")],
 observe=["bytes of the output file", "exit status"])

prop("P33", "The supplied machine files assemble and do what their comments promise",
 "SLEEP n takes n cycles and changes nothing, SET_POINTER stores the address, CLEAN_START and VERTICAL_SYNC leave the machine as described, BOUNDARY aligns, the 68HC908 and Channel F macros produce their instructions, and every register of the headers lies at its hardware address relative to the chosen base.",
 ["inputs", "configurations"], "all cycle counts, pointers, addresses, base addresses and operands",
 "The suite assembles three cartridges with these files; other arguments, base addresses and chips are never tried.",
 ["machines"],
 [("6502 macros", "machines/atari2600/macro.h, machines/atari7800/macro.h"), ("registers", "machines/atari2600/vcs.h, machines/atari7800/7800.h, machines/68hc11/register.asm"), ("other macros", "machines/68hc908/macros.asm, machines/channel-f/macro.h"), ("macro expansion", "src/ops.c:v_execmac")],
 observe=["bytes of the output file, executed on a model of the processor", "exit status"])

prop("P34", "The way an operand is written does not change the instruction",
 "An operand with the same value in the same addressing form gives the same bytes whether it is a symbol of any kind, a forward reference, a bracketed or computed expression, and whatever the letter case, blanks and comments of the line.",
 ["inputs", "programs"], "all mnemonics x all addressing forms x all spellings x all operand values",
 "Brackets, parentheses, commas and index registers are picked apart by hand in the expression parser; tests use plain symbols and numbers.",
 ["src/exp.c", "src/main.c", "src/ops.c"],
 [("operand parser", "src/exp.c:eval,pushsymbol"), ("line parser", "src/main.c:cleanup,parse"), ("form choice", "src/ops.c:v_mnemonic")],
 observe=["bytes of the output file", "exit status"])

prop("P35", "A run reports what is wrong, all of it and nothing else",
 "A failed run lists every undefined symbol that is used, by name and once, and reports every wrong statement of the final pass once, in source order and with the text or distance it is about; a successful run reports no error; the segment table of -v shows where each segment begins and ends.",
 ["inputs", "programs"], "all sets of undefined symbols x all uses; all triples of wrong and right statements; all segment addresses",
 "Messages are collected over the passes and printed at the end, so what is shown depends on how many passes a program needs; the suite never looks at messages or at the segment table.",
 ["src/main.c", "src/ops.c"],
 [("list of unresolved symbols", "src/main.c:ShowUnresolvedSymbols"), ("messages of the final pass", "src/main.c:asmerr,passbuffer_update,passbuffer_output"), ("segment table", "src/main.c:ShowSegments,sftos")],
 observe=["standard output", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
