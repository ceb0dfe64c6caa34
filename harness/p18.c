/* P18: lexical structure of a line.  mode 0: spellings of one statement; mode 1: characters inside quotes; mode 2: C style comments; mode 3: equates and layout variants; mode 4: letter case of operation names of all processors. */
#include "h.h"
static void ws(int n) { for (int i = 0; i < n; i++) SC(vp_sym("tab", 1) ? '\t' : ' '); }
/* every letter in either case */
static void anycase(const char *s) { for (; *s; s++) { if (*s >= 'a' && *s <= 'z') SC((int)(*s - 32 * vp_sym("upper", 1))); else SC(*s); } }
/* n free bytes that do not end the line or a comment */
static void junk(int n) {
    u64 prev = ' ';
    for (int i = 0; i < n; i++) {
        u64 c = vp_sym("junk", 8);
        vp_assume(c != 0 && c != '\n' && c != '\r' && !(c == '/' && prev == '*') && !(c == '*' && prev == '/') && !(i == 0 && c == '/'));
        SC((int)c); prev = c;
    }
}
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset();
    if (mode == 0) {
        /* [label][:] mnemonic operand [comment], surrounded by two known lines */
        static const struct { const char *mn, *op; int n; u8 b[4]; int dot; } st[] = {
            { "lda", "#V", 2, { 0xa9, 0 }, 1 }, { "sta", "V,x", 2, { 0x95, 0 }, 1 }, { "nop", "", 1, { 0xea }, 1 }, { "dc.b", "V,1", 2, { 0, 1 }, 0 }, { "byte", "V", 1, { 0 }, 1 }, { "word", "V", 2, { 0, 0 }, 1 },
            { "ds", "2,V", 2, { 0, 0 }, 1 }, { "hex", "0102", 2, { 1, 2 }, 1 }, { "jmp", "($1234)", 3, { 0x6c, 0x34, 0x12 }, 1 }, { "mm", "V", 1, { 0 }, 1 }, { "org", "$1003", 0, { 0 }, 1 }, { "asl", "", 1, { 0x0a }, 1 },
            { "dc.w", "\"ab\"", 4, { 'a', 0, 'b', 0 }, 0 }, { "seg", "code", 0, { 0 }, 1 }, { "set", "", 0, { 0 }, 0 }
        };
        enum { NST = sizeof st / sizeof *st - 1 };
        int k = (int)vp_choose("st", NST), lab = (int)vp_choose("label", 5), pre = (int)vp_choose("prefix", 3), cm = (int)vp_choose("comment", 4), eol = (int)vp_choose("eol", 3);
        u64 v = vp_sym("v", 8);
        vp_assume(v != 0 || k != 99);
        S(" processor 6502\n mac mm\n dc.b {1}\n endm\n seg code\n"); s_def("V", v, 8);
        S(" org $1000\n dc.b 1,2,3\n");
        if (lab == 1) S("lab"); else if (lab == 2) S("lab:"); else if (lab == 3) S("  ^lab"); else if (lab == 4) S("^ lab:");
        if (pre == 1 && (!st[k].dot)) vp_assume(0);
        if (pre == 2 && lab) vp_assume(0);
        ws(lab == 2 || lab == 4 ? (int)vp_choose("gap", 2) : 1); if (lab < 2) S("  ");
        if (pre == 1) SC('.'); else if (pre == 2) S("# ");
        anycase(st[k].mn);
        if (*st[k].op) { ws(1); if (cm & 1) S(" "); S(st[k].op); }
        if (cm == 1) { S(" "); S(";"); junk(2); } else if (cm == 2) { S(";*/ \"'"); } else if (cm == 3) { S("\t /*"); junk(2); S("*/"); }
        S(eol == 0 ? "\n" : eol == 1 ? "\r\n" : "  \n");
        S(" dc.b 9\n");
        if (lab) S(" dc.w lab\n");
        rc = assemble("-f3");
        static u8 e[16]; int n = 0;
        e[n++] = 1; e[n++] = 2; e[n++] = 3;
        for (int i = 0; i < st[k].n; i++) e[n++] = st[k].b[i];
        if (k == 0 || k == 1) e[4] = (u8)v;
        if (k == 3 || k == 4 || k == 5 || k == 9) e[3] = (u8)v;
        if (k == 6) e[3] = e[4] = (u8)v;
        e[n++] = 9;
        if (lab) { e[n++] = 3; e[n++] = 0x10; }
        vp_check(rc == 0, "line: accepted");
        vp_check(OUTLEN == n, "line: length");
        check_bytes(OUT, e, n, "line: same meaning");
        vp_witness("spelled");
    } else if (mode == 1) {
        int n = (int)vp_choose("len", 4), kind = (int)vp_choose("kind", 3);
        static u8 e[16]; int m = 0;
        u64 v = vp_sym("v", 8), c[4];
        S(" processor 6502\n"); s_def("V", v, 8);
        S(" org 0\n dc.b ");
        if (kind == 0) {
            S("\"");
            for (int i = 0; i < n; i++) {
                c[i] = vp_sym("c", 7);
                vp_assume(c[i] != 0 && c[i] != '\n' && c[i] != '"' && !(i && ((c[i - 1] == '/' && c[i] == '*') || (c[i - 1] == '*' && c[i] == '/'))));
                SC((int)c[i]); e[m++] = (u8)c[i];
            }
            S("\",V ; x\n");
        } else {
            c[0] = vp_sym("c", 7);
            vp_assume(c[0] != 0 && c[0] != '\n' && c[0] != '\t');
            vp_assume(n == 0);
            S("'"); SC((int)c[0]);
            S(kind == 1 ? ",V ; y\n" : " + 1,V\n");
            e[m++] = (u8)(c[0] + (u64)(kind == 2));
        }
        e[m++] = (u8)v;
        S(" dc.b 5\n"); e[m++] = 5;
        rc = assemble("-f3");
        vp_check(rc == 0, "quotes: accepted");
        vp_check(OUTLEN == m, "quotes: length");
        check_bytes(OUT, e, m, "quotes: characters taken literally");
        vp_witness("quoted");
    } else if (mode == 2) {
        /* statements 1..4, comments between; every statement outside comments counts, nothing inside does */
        int shape = (int)vp_choose("shape", 12), len = (int)vp_choose("len", 3);
        static const char *const sh[] = {   /* @ = junk */
            " dc.b 1 /*@*/\n dc.b 2\n dc.b 3\n", "/*@*/ dc.b 1\n dc.b 2\n dc.b 3\n", " dc.b /*@*/ 1\n dc.b 2 /*@\n dc.b 99\n@*/ dc.b 3\n", " dc.b 1/*@*/,2/*@*/\n dc.b 3\n", "/*@\n@\n err\n@*/\n dc.b 1,2\n dc.b 3\n",
            " dc.b 1 ; /*@\n dc.b 2\n dc.b 3 ;@*/\n", " dc.b 1 /*@;@*/\n dc.b 2 /*@*/ ; @*/\n dc.b 3\n", " dc.b 1 /*@\n;*/\n dc.b 2\n /*\n*/ dc.b 3\n", " dc.b 1/* \"@*/\n dc.b 2/* '@*/,3\n", " dc.b 1 /*@\n@*/\n dc.b 2 /*@\n@*/ dc.b 3\n",
            " dc.b 1 /**/\n /***/dc.b 2\n dc.b 3 /*@**/\n", " dc.b 1 /*@\n@*/ dc.b 2 /*@*/ /*@\n err\n@*/ dc.b 3 /*@*/\n",
        };
        S(" processor 6502\n org 0\n");
        for (const char *p = sh[shape]; *p; p++) if (*p == '@') junk(len ? 1 : 0), S(len == 2 ? " x" : ""); else SC(*p);
        S(" dc.b 4\n");
        rc = assemble("-f3");
        vp_check(rc == 0, "comment: accepted");
        vp_check(OUTLEN == 4, "comment: length");
        for (int i = 0; i < 4; i++) vp_check(OUT[i] == i + 1, "comment: only what is outside comments counts");
        vp_witness("commented");
    } else if (mode == 4) {
        /* operation names that between them contain every letter, in lower case and with every letter in either case */
        static const struct { const char *cpu, *mn, *op; } ab[] = {
            { "6502", "jmp", "$1234" }, { "6502", "beq", "." }, { "6502", "brk", "" }, { "6502", "bvc", "." }, { "6502", "word", "5" }, { "6502", "tax", "" }, { "6502", "tya", "" }, { "6502", "hex", "5a" }, { "6502", "plp", "" }, { "6502", "align", "4" },
            { "6502", "rorg", "5" }, { "6502", "isb", "5" }, { "65c02", "stz", "5" }, { "65c02", "bbr0", "5,." }, { "65c02", "smb7", "5" }, { "f8", "bnz", "." }, { "f8", "lisu", "5" }, { "f8", "bf", "3,." }, { "f8", "xdc", "" }, { "f8", "pk", "" },
            { "f8", "blank", "" }, { "68hc11", "xgdy", "" }, { "68hc11", "fdiv", "" }, { "68hc11", "wai", "" }, { "68705", "brset", "1,5,." }, { "68908", "cbeqx", "5,." }, { "68908", "pshh", "" }, { "hd6303", "xgdx", "" }, { "6803", "mul", "" },
            { "6502", "subroutine", "" }, { "6502", "byte", "7" },
        };
        int k = (int)vp_choose("st", sizeof ab / sizeof *ab);
        static u8 first[64]; long flen = 0;
        for (int i = 0; i < 2; i++) {
            s_reset(); S(" processor "); S(ab[k].cpu); S("\n mac blank\n dc.b 3\n endm\n org $1001\n dc.b 1\n ");
            if (i) anycase(ab[k].mn); else S(ab[k].mn);
            S(" "); S(ab[k].op); S("\n dc.b 2\n");
            rc = assemble("-f3");
            if (i == 0) { flen = OUTLEN; vp_check(rc == 0 && flen <= 64 && flen >= 1, "letters: plain statement accepted"); if (rc || flen < 1 || flen > 64) return 0; memcpy(first, OUT, (size_t)flen); }
        }
        vp_check(rc == 0, "letters: accepted");
        vp_check(OUTLEN == flen, "letters: length");
        check_bytes(OUT, first, flen, "letters: same bytes");
        vp_witness("equal");
    } else {
        /* equal programs in different layout: compare with the plain one */
        static const char *const alt[][2] = {
            { "A = V\n dc.b A\n", "A=V\n dc.b A\n" }, { "A = V\n dc.b A\n", "A  equ  V\n dc.b A\n" }, { "A = V\n dc.b A\n", "A\tEQU\tV\n dc.b A\n" }, { "A = V\n dc.b A\n", "A: = V\n dc.b A\n" }, { "A = V\n dc.b A\n", " ^A = V\n dc.b A\n" },
            { " dc.b V,V+1,2\n", " dc.b V, V + 1 ,2\n" }, { " dc.b V,V+1,2\n", " dc.b V ,V+ 1, 2   ; c\n" }, { " dc.b V,V+1,2\n", "\t\tDC\tV,V+1,2\n" }, { " dc.b V,V+1,2\n", " DC.B [V],[V+1],[2]\n" }, { " lda V,x\n", " LDA V,X\n" },
            { " lda (V),y\n", " lda ( V ),y\n" }, { " lda (V,x)\n", " lda (V,X)\n" }, { " lda #V\n", " lda # V\n" }, { " lda #V\n", "#lda #V\n" }, { " lda #V\n", "  #  lda #V\n" }, { " ds V&3,1\n", " DS   V&3 , 1\n" }, { "l nop\n dc.w l\n", "l: nop\n dc.w l\n" },
            { "l nop\n dc.w l\n", "l\n nop\n dc.w l\n" }, { "l nop\n dc.w l\n", "l:\n\n nop\n dc.w l\n" }, { "l nop\n dc.w l\n", "l:nop\n dc.w l\n" }, { " if V\n dc.b 1\n else\n dc.b 2\n endif\n", " IF V\n dc.b 1\n ELSE\n dc.b 2\n EIF\n" },
            { " if V\n dc.b 1\n else\n dc.b 2\n endif\n", "#if V\n dc.b 1\n#else\n dc.b 2\n#endif\n" }, { " if V\n dc.b 1\n else\n dc.b 2\n endif\n", " .if V\n .byte 1\n .else\n .byte 2\n .endif\n" }, { " dc.b V\n dc.w V\n dc.l V\n", " .byte V\n .word V\n .long V\n" },
            { " dc.b V\n dc.w V\n dc.l V\n", " BYTE V\n Word V\n LONG V\n" }, { " hex 0A1b2C\n", " HEX 0a 1B 2c\n" }, { " repeat V&3\n dc.b 5\n repend\n", " .REPEAT V&3\n dc.b 5\n .REPEND\n" }, { " rorg $2000\nq dc.w q\n rend\n", "#rorg $2000\nq: .word q\n#rend\n" },
            { " mac M1\n dc.b {1}\n endm\n m1 V\n", " MACRO m1\n dc.b {1}\n ENDM\n M1 V\n" }, { " dc.b \"a b\",V\n", " dc.b \"a b\" , V\n" },
            { " dc.b '*,V\n", " dc.b '* ,V\n" }, { " dc.w .,*\n", " dc.w . , *\n" }, { " dc.w V\n", " dc.w <V + >V*256\n" },
            { " dc.b 32\n", " dc.b ' \n" }, { " dc.b 32\n", " dc.b '\n" }, { " lda #32\n", " lda #'\n" }, { " dc.b 32,V\n", " dc.b ' ,V\n" }, { " dc.b 77,V,77,77,77\n dc.b 32\1", " dc.b 77,V,77,77,77\n dc.b '\1" }, { " dc.b 7,V\n dc.b 5\1", " dc.b 7,V ; longer line\n dc.b 5\1" },
        };
        enum { NA = sizeof alt / sizeof *alt };
        int k = (int)vp_choose("alt", NA);
        u64 v = vp_sym("v", 7);
        static u8 first[64]; long flen = 0; int rc0 = 0;
        for (int i = 0; i < 2; i++) {
            s_reset(); S(" processor 6502\n"); s_def("V", v, 7); S(" org $1000\n"); S(alt[k][i]); if (SRC[SL - 1] == 1) SL--; else S(" dc.b 77\n");    /* 1: the file ends here, without a newline */
            rc = assemble("-f3");
            if (i == 0) { rc0 = rc; flen = OUTLEN; vp_check(rc == 0 && flen <= 64 && flen >= 1, "layout: plain program accepted"); memcpy(first, OUT, (size_t)flen); }
        }
        vp_check(rc == rc0, "layout: accepted");
        vp_check(OUTLEN == flen, "layout: length");
        check_bytes(OUT, first, flen, "layout: same bytes");
        vp_witness("equal");
    }
    return 0;
}
