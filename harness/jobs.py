"""Scenarios per property: which harness runs with which parameters, and the bounds they stand for."""

ASSUMPTIONS = [
    "clang -O1 IR of the current source (with -fwrapv) has the meaning the engine gives it; counterexamples and sampled paths are replayed on a gcc build",
    "C library functions are the models in engine/rt_sym.c (malloc never fails, files live in a virtual file system)",
    "Z3 4.8.12 and the engine's term simplifier are trusted",
]

PROPS = {}


def prop(pid, bounds, jobs, **kw):
    PROPS[pid] = dict(bounds=bounds, jobs=jobs, **kw)


def job(name, harness, params=None, **kw):
    return dict(name=name, harness=harness, params=params or {}, **kw)


def shard(name, harness, params, choose, k, **kw):
    """k jobs, each taking every k-th value of one vp_choose point."""
    return [job("%s/%d" % (name, i), harness, dict(params, **{"choose." + choose: "%d%%%d" % (i, k)}), **kw) for i in range(k)]


prop("P01", "both operands any 64-bit value, 20 binary and 5 unary operators, operands as symbols, literals or bracketed literals; "
            "shift counts 0..63 (others are undefined in C)",
     shard("operators", "p01", {}, "op", 8, need=["operator: value"]))

prop("P02", "operands any 6-bit value; all 20x20 operator pairs with every bracketing, runs of three operators over the precedence levels, "
            "unary operators in four positions with all 20 binary operators; shift counts 0..63",
     shard("pairs", "p02", {"mode": 0}, "o1", 20, need=["precedence: value"]) +
     shard("triples", "p02", {"mode": 1}, "o1", 11, need=["precedence: value"]) +
     shard("unary", "p02", {"mode": 2}, "o1", 20, need=["precedence: value"]))

prop("P03", "hexadecimal 1-4 digits with every digit and letter case free, 5-16 digits with one free hex digit per position and the others 0-7; "
            "decimal 1-18 digits; octal 0-19 digits; binary 1-64 digits; every printable character constant except space and ';'",
     [job("hex-free", "p03", {"mode": 0}), job("decimal", "p03", {"mode": 2}), job("octal", "p03", {"mode": 3}), job("binary", "p03", {"mode": 4}),
      job("char", "p03", {"mode": 5}), job("adjacent", "p03", {"mode": 6})] + shard("hex-long", "p03", {"mode": 1}, "n", 6))

CPUS = ["6502", "65c02", "6803", "hd6303", "68705", "68hc11", "68908"]


def enc_jobs(cpus):
    r = []
    for c in cpus:
        i = CPUS.index(c)
        r.append(job(c + "-legal", "enc", {"cpu": i, "mode": 0}, need=["encoding: bytes", "encoded"]))
        r += shard(c + "-illegal", "enc", {"cpu": i, "mode": 1}, "mn", 4, need=["rejected"])
    return r


prop("P05", "all mnemonics of both tables with 11 operand syntaxes; operand any value -255..65535, branch displacement any signed byte; "
            "one statement context (known symbol, no forward reference)", enc_jobs(CPUS[:2]))
prop("P06", "all mnemonics of the five tables (HD6303 AIM/OIM/EIM/TIM excluded: documented as unsupported) with 14 operand syntaxes; operand any value "
            "-255..65535, mask any byte, bit 0-7, displacement any signed byte", enc_jobs(CPUS[2:]))

prop("P07", "all F8 mnemonics; numeric operands any 64-bit value, before or after their definition; LR with 31x31 register spellings; scratchpad register spellings on all register operations",
     [job("numeric", "p07", {"mode": 0}, need=["accepted", "rejected"]), job("implied", "p07", {"mode": 2}, need=["accepted"])] +
     shard("transfer", "p07", {"mode": 1}, "dst", 4, need=["accepted", "rejected"]))

prop("P08", "one instruction or data item per class of operand field (63 rows: immediate, direct, indexed, indirect, extended, bit number, mask, branch companion, DC/BYTE/WORD) "
            "on all processors, operand any 64-bit value, strict mode on and off, operand defined before or after its use; word fields are only range-checked in strict mode, "
            "byte fields accept -255..255",
     shard("fields", "p08", {}, "row", 12, need=["accepted", "rejected"]))
prop("P09", "every relative instruction of all eight processors (plain, operand-and-branch, bit-test-and-branch), branch address any 16-bit value, target any 64-bit value, "
            "with and without relocation",
     [j for i, c in enumerate(CPUS + ["f8"]) for j in shard(c, "p09", {"cpu": i}, "in", 2, need=["rejected", "accepted"])])

prop("P10", "all 16 spellings of DC/BYTE/WORD/LONG and DV with .b .w .l .s on the 8 processors, items any 64-bit value (bytes -255..255) including forward references; strings of 1-4 free printable "
            "characters without comment delimiters; HEX of 1-2 pairs with free digits; lists of 1-120 items",
     shard("directives", "p10", {"mode": 0}, "cpu", 8, need=["emitted"]) + shard("strings", "p10", {"mode": 1}, "dir", 5, need=["emitted"]) +
     [job("hex", "p10", {"mode": 2}, need=["emitted"])] + shard("lists", "p10", {"mode": 3}, "items", 4, need=["emitted"]))
prop("P11", "DS counts 0-15 free and every count around the 1024-byte generation buffer, all item sizes, fill any 64-bit value, both byte orders, known and forward counts; "
            "ALIGN by 1-24 and powers of two to 512 from every address below 65000 with gaps up to 24 (or within 8/3 of the ends for powers of two), known and forward amounts and fill values; every negative count",
     shard("ds", "p11", {"mode": 0}, "ext", 6, need=["reserved"]) + shard("align-small", "p11", {"mode": 1, "choose.small": "1%2"}, "n", 6, need=["aligned"]) +
     shard("align-pow", "p11", {"mode": 1, "choose.small": "0%2"}, "pow", 5, need=["aligned"]) + [job("negative", "p11", {"mode": 2}, need=["rejected"])])
prop("P12", "three origins, the first any 16-bit address, the next two any address up to 5 bytes ahead or any address behind; blocks of 0-2 bytes with free contents; any fill bytes; "
            "formats 1 and 3; ORG, .= and *= spellings; gaps and blocks of 255 to 70000 bytes",
     shard("placement", "p12", {"choose.format": "0%2"}, "style", 4, need=["placed", "backward"]) + shard("placement3", "p12", {"choose.format": "1%2"}, "style", 4, need=["placed", "backward"]) + shard("wide", "p12", {"mode": 1}, "n", 12, need=["wide"]))

prop("P13", "three origins, each any 16-bit address in any order, blocks of 0-2 free bytes, optional relocation, uninitialised segment and forward reference; agreement with formats 1 and 3 when addresses "
            "increase by at most 3; single blocks of 1023-70000 bytes",
     shard("hunks", "p13", {"mode": 0}, "len0", 3, need=["hunks", "agreement"]) + shard("long", "p13", {"mode": 1}, "n", 8, need=["long"]))
prop("P14", "every sequence of 5 directives out of {data, DS, two segments, an uninitialised segment, ORG, RORG, REND}, all addresses any 16-bit value, with and without a forward reference; every sequence of 3 directives with ALIGN 4 among them",
     shard("sequences", "p14", {"depth": 5}, "first", 8, need=["segments"]) + shard("aligned", "p14", {"depth": 3, "align": 1}, "first", 9, need=["segments"]))

prop("P04", "programs of three statements (zero page/absolute operands, DS by free or label-dependent counts, data, conditional blocks, branches) referring to four labels in any direction, origin free around the zero page "
            "boundary or above $4000; chains of up to 7 forward equates in five kinds of use; 42 statements with undefined or contradictory symbols in each format",
     shard("programs-low", "p04", {"mode": 0, "choose.high": "0%2"}, "kind0", 7, need=["consistent"]) + shard("programs-high", "p04", {"mode": 0, "choose.high": "1%2"}, "kind0", 7, need=["consistent"]) + shard("chains", "p04", {"mode": 1}, "n", 7, need=["chain"]) + [job("unresolved", "p04", {"mode": 2}, need=["rejected"])])

prop("P15", "references: every name of 1-2 characters, and names of 3-4 characters with one free character, against 24 defined names; definitions: pairs of names where up to two characters are free, by '=', EQU and SET; "
            "programs of four elements out of 11 (labels, SUBROUTINE, local definitions and references, macros with and without their own local labels); names of up to 200 characters differing in one place; "
            "not the names x, y and sp, which are index registers after a comma",
     shard("reference", "p15", {"mode": 0, "choose.late": "0%2"}, "len", 4, need=["undefined", "found"]) + shard("forward", "p15", {"mode": 0, "choose.late": "1%2"}, "len", 4, need=["undefined", "found"]) +
     shard("pair", "p15", {"mode": 1}, "pair", 12, need=["distinct"]) + shard("scope", "p15", {"mode": 2}, "first", 11, need=["rejected"]) +
     [job("long", "p15", {"mode": 3}, need=["distinct"])])

prop("P16", "three nested blocks, each one of 8 kinds (IF with free 16-bit operands, IFCONST, IFNCONST, IFNDEF, unresolvable IF in skipped context) with and without ELSE, nested in either branch; 70 statements with side effects "
            "in six kinds of skipped context (lexical errors - unterminated strings or comments, macro argument braces - are outside: they are found before a line is skipped)",
     shard("nest", "p16", {"mode": 0}, "kind0", 7, need=["selected"]) + shard("effects", "p16", {"mode": 1}, "ctx", 6, need=["skipped"]))

prop("P17", "four levels of nesting, each a REPEAT (any 64-bit count up to 3, negative ones included), an IF/ELSE depending on a counter, a macro or an include file; 16 macro bodies with up to 11 arguments whose text is free; "
            "MEXIT in five kinds of open block, called from five contexts, directly or through another macro; arguments passed through up to three macros, too few arguments",
     shard("nest", "p17", {"mode": 0}, "kind0", 5, need=["expanded"]) + [job("arguments", "p17", {"mode": 1}, need=["substituted"]), job("mexit", "p17", {"mode": 2}, need=["left"]), job("passing", "p17", {"mode": 3}, need=["passed", "missing"])])

prop("P18", "14 statements with 5 label spellings, every letter of the mnemonic in either case, every white space character a blank or a tab, dot or hash prefix, comments with free bytes, LF and CRLF; strings of up to 3 and character constants "
            "with free 7-bit characters (comment delimiters inside strings excluded: they are recognised before quotes; tab in a character constant excluded: it is a blank); 11 arrangements of C style comments with free contents; 39 pairs of layouts of the same program; 31 operation names of eight processors that contain every letter between them, every letter in either case",
     shard("spelling", "p18", {"mode": 0}, "st", 14, need=["spelled"]) + [job("quotes", "p18", {"mode": 1}, need=["quoted"]), job("layout", "p18", {"mode": 3}, need=["equal"])] + shard("comments", "p18", {"mode": 2}, "shape", 12) + shard("letters", "p18", {"mode": 4}, "st", 4, need=["equal"]))

prop("P19", "82 erroneous statements and 32 correct ones, each in 8 places (plain, conditional, macro, loop, include file, nested else, RORG, with forward references) with 6 option sets (three formats, listing, symbol file, default), "
            "with or without statements following; operand values free; 61 statements that are wrong on the other seven processors in 5 places; 20 bad command lines and unfinished source files",
     shard("errors", "p19", {"mode": 0}, "ctx", 8, need=["rejected"]) + shard("correct", "p19", {"mode": 1}, "ctx", 8, need=["correct"]) + [job("command-line", "p19", {"mode": 2}, need=["rejected"])] +
     shard("processors", "p19", {"mode": 3}, "ctx", 5, need=["rejected"]))

prop("P22", "formats 1 and 3 with every length up to 49 and each byte or the origin free in turn; format 2 with up to three hunks of 8 lengths (0 to 256), each origin or the last bytes free in turn; 14 lengths up to 70001 with free origin "
            "(last byte from 65535 on); 8 command lines; truncated input files are outside",
     shard("flat", "p22", {"mode": 0}, "len0", 8, need=["flat"]) + shard("hunks", "p22", {"mode": 1}, "len0", 8, need=["hunks"]) + shard("long", "p22", {"mode": 2}, "len0", 14, need=["long"]) + [job("command-line", "p22", {"mode": 3}, need=["command"])])

prop("P21", "programs of two items out of 18 kinds (data of every size, instructions, fill, hex, DV, binary and source includes, loops, macros, uninitialised segments, RORG, gaps), each in turn with a free 16-bit value; three formats, two byte orders, "
            "with and without a forward reference, '...' taken by '=' and by SET after each item; three items in format 1 with a forward reference",
     shard("items", "p21", {"items": 2}, "kind0", 6, need=["summed"]) + shard("three", "p21", {"items": 3, "choose.format": "0%3", "choose.set": "0%2", "choose.msb": "0%2", "choose.forward": "1%2"}, "kind0", 9, need=["summed"]))

prop("P26", "files of 11 sizes up to 5000 bytes with free bytes at both ends and around the block size of 1024, 8 offsets around both ends and any offset up to 2^40 behind the end, with and without forward references and label, three formats; a file present in any subset of four places, "
            "all orders of three search directories given by -I, INCDIR or both, repeated and with trailing slash; chains of up to 6 nested include files with free contents, LF, CRLF or unterminated last lines, from a macro, loop, conditional, END inside",
     shard("binary", "p26", {"mode": 0}, "size", 11, need=["binary"]) + shard("search", "p26", {"mode": 1}, "there", 4, need=["found"]) + [job("nested", "p26", {"mode": 2}, need=["nested"])])

prop("P27", "14 ways of defining symbols by -D and -M with free 16- and 32-bit values in the argument; 12 programs covering all kinds of statements with a free word and a free byte, in three formats, with every combination of listing (none, last pass, "
            "all passes), symbol file, verbosity 0-4 and 8 further options; the same programs without options and with repeated ones",
     [job("define", "p27", {"mode": 0}, need=["defined"]), job("plain", "p27", {"mode": 2}, need=["plain"])] + shard("reports", "p27", {"mode": 1}, "prog", 12, need=["unchanged"]))

prop("P28", "every sequence of 3 (thorough: 4) operations out of 14 (SET, EQM, uses, conditionals, loops, macros, equates) on two symbols with free 16-bit values, with and without a forward reference; two EQU of free 32-bit values in 8 arrangements; DV with 11 "
            "expressions, up to 3 free items and a string, 3 sizes, both byte orders; names composed in 10 forms for 12 index values (5 digits), defined in 5 ways; string symbols with free characters in 9 arrangements; 11 EQM bodies (one of them another EQM) in 18 expressions with free bytes, defined before or after; 4 dynamic names whose index is defined further down, with the stem undefined or defined to a free value; SETSYM in 9 arrangements with free values defined before or after",
     shard("sequence", "p28", {"mode": 0, "ops": 3}, "op0", 7, need=["sequence"]) + shard("sequence4", "p28", {"mode": 0, "ops": 4}, "op0", 14, need=["sequence"], thorough=True) + [job("equ", "p28", {"mode": 1}, need=["accepted", "rejected"])] + shard("dv", "p28", {"mode": 2}, "expr", 11) +
     shard("dynamic", "p28", {"mode": 3}, "form", 5, need=["dynamic"]) + [job("string", "p28", {"mode": 4}, need=["string"]), job("nested", "p28", {"mode": 5}, need=["nested"]), job("late-index", "p28", {"mode": 6}, need=["late", "bare"]), job("setsym", "p28", {"mode": 7}, need=["setsym", "number"])])

prop("P29", "all mnemonics of the seven 6502/Motorola tables x 18 spellings of the forced extensions (upper and lower case) x plain, X-, Y- and SP-indexed syntax, .IND, .I/.0, .R, .BI and .BB; operand any value -255..65535 defined before "
            "or after its use, mask any byte, bit 0-7, displacement any signed byte; forms the processor lacks, byte forms with values above 255 and extensions on (V,X) and (V),Y rejected; element sizes of DC, DS and DV",
     [job("elements", "p29", {"mode": 2}, need=["elements"])] +
     [job("forced-" + c, "p29", {"mode": 0, "cpu": i}, need=["forced"]) for i, c in enumerate(CPUS)] +
     [j for i, c in enumerate(CPUS) for j in shard("reject-" + c, "p29", {"mode": 1, "cpu": i}, "mn", 4, need=["rejected"])])

prop("P24", "symbol dumps in the four sort selections: three symbols with free 64-bit values and one fixed, defined in all 6 orders; the printed value of a symbol of any 64-bit value (EQU, =, SET) or of a label with any 16-bit origin or relocated "
            "origin; all triples of 12 names of mixed case, prefix relation and length; five kinds of definition for two symbols, referenced before, after or not at all; local label and string symbols; symbols left unresolved are outside",
     shard("sorted", "p24", {"mode": 0}, "perm", 6, need=["sorted"]) + [job("value", "p24", {"mode": 1}, need=["value"])] + shard("names", "p24", {"mode": 2}, "n0", 3, need=["names"]) + [job("kinds", "p24", {"mode": 3}, need=["kinds"])])

prop("P23", "every sequence of 2 (thorough: 3) statements out of 27 kinds (data, instructions, fill, equates, labels, comments, conditionals, LIST on/off/localon/localoff in files and macros, RORG, segments, macros, includes, repeats, HEX, INCBIN) behind any 17-bit origin with free operand values; "
            "-l and the last pass of -L; the lines of macro calls, INCLUDE, SEG.U and a repeating REPEND only have to be present",
     shard("listing", "p23", {"slots": 2}, "k0", 27, need=["listed"]) + shard("listing3", "p23", {"slots": 3}, "k0", 27, need=["listed"], thorough=True))

prop("P20", "every error of 15 kinds at 12 places (main file, macro, nested macro, loop, include, nested include, conditional and combinations) behind every line group of 18 kinds, and two of the errors behind every sequence of 2 (thorough: 3) such groups (free blank lines, comments, "
            "skipped, repeated, included and expanded lines); three message formats, messages on standard output and in the list file; errors inside a macro belong to the line of the outermost call in the file",
     shard("diagnostic", "p20", {"slots": 1}, "place", 12, need=["diagnosed"]) + shard("position", "p20", {"slots": 2, "few": 1}, "place", 12, need=["diagnosed"]) +
     shard("position3", "p20", {"slots": 3, "few": 1}, "place", 12, need=["diagnosed"], thorough=True))

prop("P35", "every subset of four undefined symbols in 12 kinds of use, defined before or after their use in four ways; three statements of 11 kinds each (immediate operands of 64 bits, data and branch distances at the edges of their range, an unknown mnemonic with a free letter) with none, one or three further "
            "passes; one to three segments, initialised or not, at any addresses from $1000 to $feff, with and without RORG in the last, a second pass and a return to the segments, three levels of -v; what is printed at six levels for programs of one to four passes",
     shard("unresolved", "p35", {"mode": 0}, "use", 4, need=["unresolved", "resolved"]) + shard("diagnostics", "p35", {"mode": 1}, "k0", 11, need=["reported"]) +
     [job("segments", "p35", {"mode": 2}, need=["segments"]), job("levels", "p35", {"mode": 3}, need=["levels"])])

prop("P25", "source files with one free byte (any value) in each of 79 places (operands, operation names, extensions, labels, whole lines, strings, comments, macro "
     "arguments and bodies), or a free byte and a special character; the free byte or a pair repeated to 516 and 1019 characters in the same places (boundaries from 1 to 1030 in the "
     "thorough tier); 45 statements with a free operand value (64 bits, or 3 to 4 bits plus every power of two above 2^40 for fill counts); 18 options with a free character; brackets, "
     "operators, conditionals, loops, macros and includes nested to and past dasm's limits. Every load, store, free, division and indirect call is checked; a run must end within 60 million "
     "instructions. Allocation never fails; at most 64 files can be open at once. Free REPEAT counts up to 7.",
     shard("free", "p25", {"mode": 0, "n": 1}, "ctx", 16, need=["run"]) + shard("pair", "p25", {"mode": 0, "n": 2}, "ctx", 16, need=["run"]) +
     shard("long", "p25", {"mode": 5}, "ctx", 40, need=["run"]) + shard("value", "p25", {"mode": 2}, "ctx", 24, need=["run"]) +
     shard("option", "p25", {"mode": 3}, "ctx", 4, need=["run"]) + shard("nesting", "p25", {"mode": 4}, "ctx", 19, need=["run"]) +
     shard("free68705", "p25", {"mode": 0, "n": 1, "cpu": 1}, "ctx", 16, need=["run"], thorough=True) + shard("freef8", "p25", {"mode": 0, "n": 1, "cpu": 2}, "ctx", 16, need=["run"], thorough=True) +
     shard("freenone", "p25", {"mode": 0, "n": 1, "cpu": 4}, "ctx", 16, need=["run"], thorough=True) + shard("pairs", "p25", {"mode": 0, "n": 2, "all": 1}, "ctx", 79, need=["run"], thorough=True) +
     shard("longer", "p25", {"mode": 1}, "ctx", 79, need=["run"], thorough=True) + shard("option2", "p25", {"mode": 3, "n": 2}, "ctx", 18, need=["run"], thorough=True) +
     shard("deeper", "p25", {"mode": 4, "all": 1}, "ctx", 38, need=["run"], thorough=True))

prop("P30", "every ordered pair of 13 processor names with and without statements between and a forward reference; every supported name with one character replaced by, or one inserted from, any printable character, or cut short (mixed-case spellings of "
            "supported names left open); 17 instructions on each of the 8 processors; data words free",
     [job("pairs", "p30", {"mode": 0}, need=["accepted", "refused"]), job("names", "p30", {"mode": 1}, need=["accepted", "refused"]), job("instructions", "p30", {"mode": 2}, need=["accepted", "refused"])])

prop("P31", "ECHO of every pair of 12 kinds of item (values of 8, 12 and 64 bits, strings with a free character, EQM, SET, string and forward symbols, labels, the location counter, decimal conversion of -16..14) in 8 places (plain, selected and skipped branch, "
            "loop, macro body, include file, macro argument, between assignments), with and without list file and forward reference; decimal text of -128..126 as data in 5 forms",
     shard("echo", "p31", {"mode": 0}, "k0", 12, need=["printed"]) + [job("decimal", "p31", {"mode": 1}, need=["data"])])

prop("P32", "programs with chains of up to 6 forward equates and free values in four uses, limits -p and -P of 1 to 12 passes; 10 size barriers (9 by -m, the default of 640 kB) with any 21-bit address and 8 statements, three formats; four sets of six "
            "options, each introduced by - or /",
     [job("passes", "p32", {"mode": 0}, need=["within", "beyond"]), job("barrier", "p32", {"mode": 1}, need=["within", "beyond"]), job("slash", "p32", {"mode": 2}, need=["same"])])

prop("P33", "the include files of machines/ as they are in the tree: SLEEP for every count from -2 to 61 (twice in a row), SET_POINTER for every pointer and address, CLEAN_START and VERTICAL_SYNC from any register contents, each with and without undocumented opcodes and two "
            "TIA base addresses; every TIA, RIOT, MARIA and 68HC11 register with every base address; BOUNDARY for 9 sizes at every origin; 9 uses of the 68HC908 macros on four chips with free operands and RAM address; the Channel F values. "
            "The code of the 6502 macros is judged by executing it on a processor model; a macro written with instructions the model does not know is not judged",
     [job(n, "p33", {"mode": m}, need=w) for m, n, w in ((0, "sleep", ["sleep", "tooshort"]), (1, "pointer", ["pointer"]), (2, "startup", ["clean", "vsync"]), (3, "registers", ["registers"]), (4, "boundary", ["boundary"]), (5, "hc11", ["hc11"]), (6, "hc908", ["hc908"]), (7, "channelf", ["ves"]))])

prop("P34", "every mnemonic and operand form of the seven table-driven processors with the operand written in 26 ways (brackets, neutral operations, symbols of every kind, names that begin like a register, forward references, EQM) and "
            "4 layouts (letter case, tabs, blanks, comments); operand any value 0..65535, mask any byte, bit 0-7, displacement any signed byte; no brackets inside the [X+n] notation",
     sum((shard("spelling-" + c, "p34", {"cpu": CPUS.index(c)}, "spell", 2, need=["spelt"]) for c in CPUS), []))
