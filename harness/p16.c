/* P16: conditional assembly.  mode 0: three nested blocks of every kind with free conditions; mode 1: statements with side effects inside a block with a free condition. */
#include "h.h"
static int id, n;
static struct { int id, on; } leaf[64];
static u64 v[4], w[4];
static void item(int on) { S(" dc.b "); SN((u64)++id); S("\n"); leaf[n].id = id; leaf[n++].on = on; }
static void block(int d, int on) {
    int kind = (int)vp_choose(d ? "kind" : "kind0", d ? 8 : 7), form = (int)vp_choose("form", 3), c = 0;
    switch (kind) {
    case 0: S(" if V"); SN((u64)d); c = v[d] != 0; break;
    case 1: S(" IF V"); SN((u64)d); S(" < W"); SN((u64)d); c = v[d] < w[d]; break;
    case 2: S(" ifconst D"); c = 1; break;
    case 3: S(" IFCONST U"); c = 0; break;
    case 4: S(" ifnconst D"); c = 0; break;
    case 5: S(" ifnconst U"); c = 1; break;
    case 7: S(" if U - U"); c = 2; break;                                 /* never known: neither branch, and the program fails */
    case 6: S(" ifndef U"); c = 1; break;
    }
    S("\n");
    int on1 = on & (c == 1), on2 = on & (c == 0);
    if (c == 2) vp_assume(!on);
    item(on1);
    if (d < 2 && form != 2) block(d + 1, on1);
    if (d < 2 && form != 2) item(on1);
    if (form) { S(form == 1 ? " else\n" : " ELSE\n"); item(on2); if (d < 2 && form == 2) { block(d + 1, on2); item(on2); } }
    S(kind & 1 ? " eif\n" : " endif\n");
}
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset(); id = n = 0;
    S(" processor 6502\n");
    if (mode == 0) {
        S("D = 5\n");
        for (int i = 0; i < 3; i++) {
            v[i] = vp_sym("v", 16); w[i] = vp_sym("w", 16);
            S("V"); SN((u64)i); S(" = "); SBIN(v[i], 16); S("\nW"); SN((u64)i); S(" = "); SBIN(w[i], 16); S("\n");
        }
        S(" org 0\n");
        item(1); block(0, 1); item(1);
        rc = assemble("-f3");
        vp_check(rc == 0, "conditional: accepted");
        long p = 0;
        for (int i = 0; i < n; i++) if (leaf[i].on) { vp_check(OUT[p] == leaf[i].id, "conditional: exactly the selected statements"); p++; }
        vp_check(OUTLEN == p, "conditional: nothing else");
        vp_witness("selected");
    } else {
        static const char *const st[] = {
            " err", " nosuchop 5", "lab = 5\nlab = 6", "lab = 5", " lda #$1234", " dc.b 999", " org 0", " rorg $300", " seg foo", " seg.u foo", " include \"nofile\"", " incbin \"nofile\"", "X set 9", "X setstr foo", "X eqm 7",
            "X = 9", "lab setsym X", " mac q\n err\n endm\n q", " mac lda\n err\n endm", " repeat 3\n dc.b 9\n repend", " ds 5", " align 256", " end", " processor 68hc11", " echo \"hi\"", "lab nop", "lab", "lab:", "X", "lab dc.b 1",
            " if U\n endif", " ifconst U\n dc.b 8\n endif", "lab ifconst U\n endif", "lab ifnconst U\n endif", "lab if 1\n endif", "lab if 1\nlab else\nlab endif", "lab repeat 2\n repend", "lab repeat U\nlab repend", " ifconst 1 +* 2\n endif",
            " ifnconst 1 +* 2\n endif", " if 1 +* 2\n endif", " ifconst [1\n endif", " ifndef 1 2\n else\n dc.b 4\n endif", " repeat -1\n repend", " dv X 1", " hex 0g", " subroutine", "lab subroutine", " beq 5000", " trace on", " incdir foo",
            " dc.w U", " lda U", " jmp (U", " dc.b 1/0", " if 1/0\n endif", " ifconst 1/0\n endif", " ds U", "lab ds 1", " mexit", "U = 3", " if 1\n err\n else\n err\n endif", " if 0\n err\n else\n err\n endif", " ifnconst U\n err\n endif",
            "lab,1 nop", " dc.b 1\n repeat 2\n if 1\n err\n endif\n repend", "lab mac q2\n err\n endm", "lab if U\n else\n err\n endif", ".loc = 9", "1$ = 9", " mac q3\n if 1\n endm\n q3", "#if 1\n err\n#endif",
        };
        int k = (int)vp_choose("st", sizeof st / sizeof *st), ctx = (int)vp_choose("ctx", 6);
        u64 c = vp_sym("c", 16);
        s_def("C", c, 16);
        int skip;
        S(" org $10\nX set 1\n subroutine\n.loc = 21\nHERE\n1$ = 22\n dc.b 1\n");
        switch (ctx) {
        case 0: S(" if C\n"); S(st[k]); S("\n endif\n"); skip = c == 0; break;
        case 1: S(" if C == 77\n dc.b 2\n else\n"); S(st[k]); S("\n endif\n"); skip = c == 77; break;
        case 2: S(" ifconst NOPE\n if C\n"); S(st[k]); S("\n else\n"); S(st[k]); S("\n endif\n"); S(st[k]); S("\n endif\n"); skip = 1; break;
        case 3: S(" if C < 4\n if C > 1\n dc.b 2\n else\n"); S(st[k]); S("\n endif\n dc.b 3\n endif\n"); skip = (c >= 4) | (c > 1); break;
        case 4: S(" if C\n else\n ifnconst C\n"); S(st[k]); S("\n endif\n endif\n"); skip = 1; break;
        default: S(" repeat C & 0\n"); S(st[k]); S("\n repend\n"); skip = 1; break;
        }
        S(" dc.b X\n dc.b .loc,1$\n ifconst lab\n dc.b 99\n endif\n ifconst U\n dc.b 98\n endif\n dc.w .\n");
        vp_assume(skip);
        rc = assemble("-f3");
        vp_check(rc == 0, "skipped: no error");
        static u8 e[16]; int m = 0;
        e[m++] = 1;
        if (ctx == 1) e[m++] = 2;
        if (ctx == 3 && c < 4) { e[m++] = 2; e[m++] = 3; }
        e[m++] = 1; e[m++] = 21; e[m++] = 22; e[m] = (u8)(0x10 + m); e[++m] = 0; m++;
        vp_check(OUTLEN == m, "skipped: output length");
        check_bytes(OUT, e, m, "skipped: no effect on output or symbols");
        vp_witness("skipped");
    }
    return 0;
}
