/* P17: REPEAT and macros.  mode 0: nested loops, conditionals, macros and include files with free counts; mode 1: macro arguments;
 * mode 2: MEXIT in every context; mode 3: nested calls passing arguments on. */
#include "h.h"
enum { LEVELS = 4, LEAF = 4 };
static char txt[LEVELS + 1][2048], defs[2048], inc[32]; static int tl[LEVELS + 1], dl, kind[LEVELS]; static u64 cnt[LEVELS];
static char *tp; static int *tn;
static void T(const char *s) { while (*s) tp[(*tn)++] = *s++; }
static void TN(u64 v) { char b[2] = { (char)('0' + v), 0 }; T(b); }
/* text of level d, innermost first; own buffer per level */
static void emit(int d) {
    if (d < LEVELS && kind[d] != LEAF) emit(d + 1);
    tp = txt[d]; tn = &tl[d]; *tn = 0;
    T(" dc.b 1"); TN((u64)d); T("\n");
    if (d < LEVELS && kind[d] != LEAF) {
        const char *in = txt[d + 1]; int n = tl[d + 1];
        switch (kind[d]) {
        case 0: T(" repeat N"); TN((u64)d); T("\n"); for (int i = 0; i < n; i++) tp[(*tn)++] = in[i]; T(" repend\n"); break;
        case 1: T(" if I & 1\n"); for (int i = 0; i < n; i++) tp[(*tn)++] = in[i]; T(" else\n dc.b 2"); TN((u64)d); T("\n endif\n"); break;
        case 2:
            T(" m"); TN((u64)d); T("\n");
            tp = defs; tn = &dl; T(" mac m"); TN((u64)d); T("\n"); for (int i = 0; i < n; i++) tp[(*tn)++] = in[i]; T(" endm\n");
            tp = txt[d]; tn = &tl[d];
            break;
        case 3: T(" include \"f"); TN((u64)d); T("\"\n"); inc[0] = 'f'; inc[1] = (char)('0' + d); inc[2] = 0; vp_file(inc, in, n); break;
        }
    }
    T(" dc.b I\nI set I+1\n");
}
static u8 e[4096]; static int en, I;
static void run(int d) {
    e[en++] = (u8)(10 + d);
    if (d < LEVELS && kind[d] != LEAF) {
        switch (kind[d]) {
        case 0: { i64 c = (i64)vp_concretize(cnt[d] > 3 ? 0 : cnt[d]); for (i64 i = 0; i < c; i++) run(d + 1); break; }
        case 1: if (I & 1) run(d + 1); else e[en++] = (u8)(20 + d); break;
        default: run(d + 1); break;
        }
    }
    e[en++] = (u8)I++;
}
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset(); en = dl = I = 0;
    S(" processor 6502\n");
    if (mode == 0) {
        int stop = 0;
        for (int d = 0; d < LEVELS; d++) {
            kind[d] = stop ? LEAF : (int)vp_choose(d ? "kind" : "kind0", 5);
            if (kind[d] == LEAF) stop = 1;
            if (kind[d] == 0) { cnt[d] = vp_sym("count", 64); vp_assume((i64)cnt[d] <= (d ? 2 : 3)); S("N"); SN((u64)d); S(" = "); SVAL(cnt[d]); S("\n"); }
        }
        emit(0);
        for (int i = 0; i < dl; i++) SC(defs[i]);
        S(" org 0\nI set 0\n");
        for (int i = 0; i < tl[0]; i++) SC(txt[0][i]);
        S(" dc.b 99\n");
        run(0); e[en++] = 99;
        rc = assemble("-f3");
        vp_check(rc == 0, "expansion: accepted");
        vp_check(OUTLEN == en, "expansion: length");
        check_bytes(OUT, e, en, "expansion: bytes");
        vp_witness("expanded");
    } else if (mode == 1) {
        static const char *const body[] = { " dc.b {1}", " dc.b {2},{1}", " dc.b {0}", " dc.b {1}+{2}", "x{3} = {1}\n dc.b x{3}", " dc.b '{,{2}", " lda #{1}\n ldx {2},y", " dc.b [{2}]*2,{1}", " dc.b %1{4}", " dc.b \"{5}\"", "{3} dc.b {1}",
                                            " dc.b {3}4-{3}3\n dc.b {1}", " if {1}\n dc.b {2}\n endif", " repeat {1} & 3\n dc.b {2}\n repend", " {6} {1}", " dc.b {10},{11}" };
        int b = (int)vp_choose("body", sizeof body / sizeof *body), sep = (int)vp_choose("sep", 3), more = (int)vp_choose("more", 2);
        u64 a1 = vp_sym("a1", 8), a2 = vp_sym("a2", 7), c1 = vp_sym("c1", 7), c2 = vp_sym("c2", 7);
        vp_assume(c1 > 32 && c1 < 127 && c1 != '"' && c1 != ',' && c1 != ';' && c1 != '{' && c1 != '/' && c1 != '*' && c1 != '\'');
        vp_assume(c2 > 32 && c2 < 127 && c2 != '"' && c2 != ',' && c2 != ';' && c2 != '{' && c2 != '/' && c2 != '*' && c2 != '\'');
        const char *sp = sep == 0 ? "," : sep == 1 ? ", " : ",   ";
        S(" mac mm\n"); S(body[b]); S("\n endm\nq4 = 4\nq3 = 3\n org 0\n");
        if (more) S(" dc.b 7\n");
        S(sep == 2 ? " MM   " : " mm ");
        SBIN(a1, 8); S(sp); SBIN(a2, 7);
        int whole = b == 2;
        if (!whole) { S(sp); S("q"); S(sp); S("01"); S(sp); SC((int)c1); SC((int)c2); S(sp); S("dc.b"); S(sp); S("17"); S(sp); S("18"); S(sp); S("19"); S(sp); S("20"); S(sp); S("21"); }
        S("\n");
        if (more) S(" dc.b 8\n");
        if (more) e[en++] = 7;
        switch (b) {
        case 0: case 14: e[en++] = (u8)a1; break;
        case 1: e[en++] = (u8)a2; e[en++] = (u8)a1; break;
        case 2: e[en++] = (u8)a1; e[en++] = (u8)a2; break;
        case 3: vp_assume(a1 + a2 < 256); e[en++] = (u8)(a1 + a2); break;
        case 4: e[en++] = (u8)a1; break;
        case 5: e[en++] = '{'; e[en++] = (u8)a2; break;
        case 6: e[en++] = 0xa9; e[en++] = (u8)a1; e[en++] = 0xb6; e[en++] = (u8)a2; break;
        case 7: vp_assume(a2 < 128); e[en++] = (u8)(2 * a2); e[en++] = (u8)a1; break;
        case 8: e[en++] = 5; break;
        case 9: e[en++] = '{'; e[en++] = '5'; e[en++] = '}'; break;
        case 10: e[en++] = (u8)a1; break;
        case 11: e[en++] = 1; e[en++] = (u8)a1; break;
        case 12: if (a1) e[en++] = (u8)a2; break;
        case 13: for (u64 i = vp_concretize(a1 & 3); i; i--) e[en++] = (u8)a2; break;
        case 15: e[en++] = 20; e[en++] = 21; break;
        }
        if (more) e[en++] = 8;
        rc = assemble("-f3");
        vp_check(rc == 0, "macro: accepted");
        vp_check(OUTLEN == en, "macro: length");
        check_bytes(OUT, e, en, "macro: bytes");
        vp_witness("substituted");
    } else if (mode == 2) {
        /* MEXIT ends only the current expansion, whatever is open in it */
        int open = (int)vp_choose("open", 5), ctx = (int)vp_choose("ctx", 5), inner = (int)vp_choose("inner", 2);
        u64 c = vp_sym("c", 8);
        s_def("C", c, 8);
        S(" mac m\n dc.b 1\n");
        switch (open) {
        case 0: S(" if C & 1\n mexit\n endif\n"); break;
        case 1: S(" if C & 1\n if C\n mexit\n endif\n else\n dc.b 6\n endif\n"); break;
        case 2: S(" repeat 2\n dc.b 5\n if C & 1\n mexit\n endif\n repend\n"); break;
        case 3: S(" if [C & 1] == 0\n dc.b 6\n else\n mexit\n endif\n"); break;
        case 4: S(" ifconst C\n if C & 1\n MEXIT\n err\n endif\n endif\n"); break;
        }
        S(" dc.b 2\n endm\n");
        S(" mac o\n dc.b 8\n m\n dc.b 9\n endm\n org 0\n");
        const char *call = inner ? " o\n" : " m\n";
        int k;
        switch (ctx) {
        case 0: S(call); k = 1; break;
        case 1: S(" if 1\n"); S(call); S(" dc.b 3\n else\n dc.b 4\n endif\n"); k = 1; break;
        case 2: S(" if 0\n dc.b 4\n else\n"); S(call); S(" endif\n"); k = 1; break;
        case 3: S(" repeat 2\n"); S(call); S(" dc.b 3\n repend\n"); k = 2; break;
        default: S(" repeat 2\n if 1\n"); S(call); S(" else\n err\n endif\n dc.b 3\n repend\n"); k = 2; break;
        }
        S(" dc.b 77\n if 0\n err\n endif\n dc.b 78\n");
        for (int i = 0; i < k; i++) {
            if (inner) e[en++] = 8;
            e[en++] = 1;
            if (open == 2) e[en++] = 5;
            if (!(c & 1)) { if (open == 1 || open == 3) e[en++] = 6; if (open == 2) e[en++] = 5; e[en++] = 2; }
            if (inner) e[en++] = 9;
            if (ctx == 1 || ctx >= 3) e[en++] = 3;
        }
        e[en++] = 77; e[en++] = 78;
        rc = assemble("-f3");
        vp_check(rc == 0, "mexit: accepted");
        vp_check(OUTLEN == en, "mexit: length");
        check_bytes(OUT, e, en, "mexit: bytes");
        vp_witness("left");
    } else {
        /* arguments passed down through calls; too few arguments are an error */
        int n = (int)vp_choose("args", 4), lev = 1 + (int)vp_choose("levels", 3), need = 1 + (int)vp_choose("need", 3), form = (int)vp_choose("form", 2);
        u64 a[3];
        for (int i = 0; i < 3; i++) a[i] = vp_sym("a", 8);
        S(" mac m1\n dc.b "); for (int i = 1; i <= need; i++) { if (i > 1) S(","); S("{"); SN((u64)i); S("}"); } S("\n endm\n");
        for (int l = 2; l <= lev; l++) { S(" mac m"); SN((u64)l); S("\n m"); SN((u64)l - 1); if (form) S(" {0}"); else for (int i = 1; i <= need; i++) { S(i > 1 ? "," : " "); S("{"); SN((u64)i); S("}"); } S("\n dc.b "); SN((u64)l); S("\n endm\n"); }
        S(" org 0\n m"); SN((u64)lev);
        for (int i = 0; i < n; i++) { S(i ? "," : " "); SBIN(a[i % 3], 8); }
        S("\n dc.b 50\n");
        rc = assemble("-f3");
        if (n < need) { vp_check(rc != 0, "macro: missing argument rejected"); vp_witness("missing"); return 0; }
        for (int i = 0; i < need; i++) e[en++] = (u8)a[i];
        for (int l = 2; l <= lev; l++) e[en++] = (u8)l;
        e[en++] = 50;
        vp_check(rc == 0, "macro: accepted");
        vp_check(OUTLEN == en, "macro: length");
        check_bytes(OUT, e, en, "macro: bytes");
        vp_witness("passed");
    }
    return 0;
}
