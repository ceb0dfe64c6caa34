/* P04: a successful run is self-consistent.  mode 0: programs of three slots with labels between them, near the zero page
 * boundary; mode 1: chains of forward equates; mode 2: symbols that stay undefined or contradict themselves. */
#include "h.h"
static void lab(int i) { S("L"); SN((unsigned long)i); }
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset();
    S(" processor 6502\n");
    if (mode == 0) {
        enum { K = 3 };
        int kind[K], arg[K];
        u64 a = vp_sym("org", 10), g = vp_sym("gap", 2), t = vp_sym("limit", 10);
        int high = (int)vp_choose("high", 2);
        if (high) { a |= 0x4000; t |= 0x4000; } else vp_assume(a >= 0xf7 && a <= 0x101);
        s_def("A", a, 16); s_def("G", g, 2); s_def("T", t, 16);
        S(" org A\n");
        for (int i = 0; i < K; i++) {
            kind[i] = (int)vp_choose(i ? "kind" : "kind0", 7); arg[i] = (int)vp_choose("arg", kind[i] == 2 ? 1 : 4);
            lab(i); S(kind[i] & 1 ? ":" : "\n");
            switch (kind[i]) {
            case 0: S(" lda "); lab(arg[i]); break;
            case 1: S(" sta "); lab(arg[i]); S("+1,x"); break;
            case 2: S(" ds G,7"); break;
            case 3: S(" ds E"); SN((unsigned long)arg[i]); S(",9"); break;
            case 4: S(" dc.b <"); lab(arg[i]); break;
            case 5: S(" if "); lab(arg[i]); S(" < T\n dc.b 1\n else\n dc.b 2,3\n endif"); break;
            case 6: S(" beq "); lab(arg[i]); break;
            }
            S("\n");
        }
        lab(K); S("\n dc.w L0,L1,L2,L3\n");
        for (int i = 0; i < 4; i++) if ((kind[0] == 3 && arg[0] == i) || (kind[1] == 3 && arg[1] == i) || (kind[2] == 3 && arg[2] == i)) { S("E"); SN((unsigned long)i); S(" = ("); lab(i); S(" - L0)&3\n"); }
        rc = assemble("-f3");
        if (rc) {
            int feedback = !high;
            for (int i = 0; i < K; i++) if (kind[i] == 3 || kind[i] == 5) feedback = 1;
            vp_check(feedback, "passes: program without size feedback converges");
            vp_witness("failed");
            return 0;
        }
        vp_check(OUTLEN >= 8, "passes: table present");
        u64 v[4], pos = 0;
        for (int i = 0; i < 4; i++) v[i] = (u64)OUT[OUTLEN - 8 + 2 * i] | (u64)OUT[OUTLEN - 7 + 2 * i] << 8;
        for (int i = 0; i < K; i++) {
            vp_check(v[i] == a + pos, "passes: label is where it says");
            vp_check(pos < (u64)OUTLEN, "passes: output complete");
            const u8 *p = OUT + pos; u64 x = v[arg[i]], n, d;
            switch (kind[i]) {
            case 0:
                if (x < 256) { vp_check(p[0] == 0xa5 && p[1] == (u8)x, "passes: direct operand"); pos += 2; }
                else { vp_check(p[0] == 0xad && p[1] == (u8)x && p[2] == (u8)(x >> 8), "passes: extended operand"); pos += 3; }
                break;
            case 1:
                x++;
                if (x < 256) { vp_check(p[0] == 0x95 && p[1] == (u8)x, "passes: direct operand"); pos += 2; }
                else { vp_check(p[0] == 0x9d && p[1] == (u8)x && p[2] == (u8)(x >> 8), "passes: extended operand"); pos += 3; }
                break;
            case 2: case 3:
                n = vp_concretize(kind[i] == 2 ? g : (x - v[0]) & 3);
                for (u64 k = 0; k < n; k++) vp_check(p[k] == (kind[i] == 2 ? 7 : 9), "passes: fill");
                pos += n;
                break;
            case 4: vp_check(p[0] == (u8)x, "passes: data"); pos++; break;
            case 5:
                if (x < t) { vp_check(p[0] == 1, "passes: condition"); pos++; }
                else { vp_check(p[0] == 2 && p[1] == 3, "passes: condition"); pos += 2; }
                break;
            case 6:
                d = x - (v[i] + 2);
                vp_check(p[0] == 0xf0 && p[1] == (u8)d && (d + 128) < 256, "passes: branch");
                pos += 2;
                break;
            }
        }
        vp_check(v[K] == a + pos, "passes: last label is where it says");
        vp_check((u64)OUTLEN == pos + 8, "passes: length");
        vp_witness("consistent");
    } else if (mode == 1) {
        int n = 1 + (int)vp_choose("n", 7), use = (int)vp_choose("use", 5);
        u64 v = vp_sym("v", 12);
        S(" org $1000\n");
        if (use == 0) S(" dc.w E0\n"); else if (use == 1) S(" lda E0\n"); else if (use == 2) S(" if E0 > 5\n dc.w E0\n endif\n"); else if (use == 3) S(" org E0+$2000\n dc.w E0\n"); else S(" repeat E0 & 3\n dc.b 5\n repend\n dc.w E0\n");
        for (int i = 0; i < n; i++) { S("E"); SN((unsigned long)i); S(" = E"); SN((unsigned long)i + 1); S("+1\n"); }
        S("E"); SN((unsigned long)n); S(" = "); SBIN(v, 12); S("\n");
        rc = assemble("-f1");
        vp_check(rc == 0, "passes: chain of forward equates resolved");
        u64 x = v + (u64)n, k = 2;
        vp_check(OUTLEN == 0 || (u64)OUT[0] + 256 * (u64)OUT[1] == (use == 3 ? x + 0x2000 : 0x1000), "passes: origin");
        if (use == 1) { if (x < 256) vp_check(OUT[2] == 0xa5 && OUT[3] == x && OUTLEN == 4, "passes: operand"); else vp_check(OUT[2] == 0xad && OUT[3] == (u8)x && OUT[4] == (u8)(x >> 8) && OUTLEN == 5, "passes: operand"); }
        else if (use == 2 && x <= 5) vp_check(OUTLEN == 0, "passes: skipped");
        else {
            if (use == 4) for (u64 i = vp_concretize(x & 3); i; i--, k++) vp_check(OUT[k] == 5, "passes: repeated");
            vp_check(OUT[k] == (u8)x && OUT[k + 1] == (u8)(x >> 8) && (u64)OUTLEN == k + 2, "passes: data");
        }
        vp_witness("chain");
    } else {
        static const char *const bad[] = {
            " dc.b U", " dc.w U+1", " dc.l U-U", " byte 1,U", " lda U", " lda #U", " lda #<U", " jmp U", " jmp (U)", " lda U,x", " lda (U),y", " beq U", " ds U", " ds 1,U", " align U", " align 4,U",
            " org U\n dc.b 5", " org $2000,U", " if U\n dc.b 1\n endif", " repeat U\n dc.b 1\n repend", "X = U\n dc.b X", "X set U\n dc.b X", "X eqm U\n dc.b X", "X eqm ..+U\n dv X 1", " dc.b U ? 1", " dc.b U && 1",
            " dc.b X\nX = Y\nY = X", " dc.b .loc", " dc.b 1$", " lda.w U", " rorg U\nK dc.w K\n rend", " dc.b [U]", " dc.b !U", " incbin \"t.asm\",U",
            "D nop\nD nop", "D nop\nD = 5", "D = 5\nD = 6", "D = .\nD = .+1", " dc.b D\nD nop\nD nop", "D: ds 2\n dc.b 4\nD: dc.b 5", "S dc.b S2-S1\nS1 ds S2-S1+1\nS2 nop", " seg.u V\n org 0\nD ds 1\nD ds 1\n seg code",
        };
        int k = (int)vp_choose("bad", sizeof bad / sizeof *bad), f = (int)vp_choose("format", 3), where = (int)vp_choose("where", 2);
        u64 v = vp_sym("v", 16);
        vp_assume(v > 16);                 /* not the value the second definition gives */
        s_def("A", v, 16);
        S(" org A\n");
        if (where) { S(" dc.b 1,2\n dc.w FW\n"); }
        S(bad[k]); S("\n nop\n");
        if (where) { S("FW = 5\n"); }
        rc = assemble(f == 0 ? "-f1" : f == 1 ? "-f2" : "-f3");
        vp_check(rc != 0, "passes: unresolved program rejected");
        vp_witness("rejected");
    }
    return 0;
}
