/* P27: command-line definitions (mode 0) report options (mode 1) and a command line without options (mode 2). */
#include "h.h"
static char A[4][120];
static int AL;
static void a_put(char *a, const char *t) { while (*t) a[AL++] = *t++; a[AL] = 0; }
static void a_bin(char *a, u64 v, int w) { a[AL++] = '%'; for (int i = w - 1; i >= 0; i--) a[AL++] = (char)('0' | (v >> i & 1)); a[AL] = 0; }
static u64 le32(const u8 *p) { return (u64)p[3] << 24 | (u64)p[2] << 16 | (u64)p[1] << 8 | p[0]; }
/* programs with a free word V, a free byte B and every kind of statement the reports have to deal with */
static const char *const prog[] = {
    " org $1000\nl1 lda #B\n sta V\n jmp l1\n dc.w l1,V\n",
    " org $10\n lda fw\n ldx fw,y\n dc.b <V\nfw = $80\n",
    " org $1000\n mac m\nq{1} nop\n dc.b {2}\n endm\n m 1,B\n m 2,<V\n dc.w q1,q2\n",
    " seg code\n org $1000\n seg.u bss\n org $80\nv1 ds 2\nv2 ds 1\n seg code\n lda v1\n ldy v2\n dc.b B\n",
    " org $1000\n rorg $8000\nr1 dc.w r1,.\n rend\n dc.w .,V\n",
    " org $1000\n list off\n dc.b B\n list on\n dc.b B\n echo \"v\",V,B\n",
    "s set 0\n org 0\n repeat 3\n dc.b s,B\ns set s+1\n repend\n if V < 500\n dc.w V\n else\n dc.b 1\n endif\n",
    " org 0\nx eqm ..+1\n dv x 1,2,B&127\nstr = \"text\"\n dc.b str\n ds 5,B\n align 16,B\n",
    " org $fff0\n dc.l V*B\n subroutine\n.a bne .a\n subroutine\n.a beq .a\n1$ dc.b 1\n",
    " org $1000\n incbin \"d.bin\"\n include \"i.inc\"\n hex 01 02\n trace on\n dc.b \"a;b\" ; comment\n trace off\n",
    " org 0\n dc.b ...&0,B\n dc.w f1\nf1 = f2+1\nf2 = f3+1\nf3 = V\n",
    " org 0\nlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglabel: dc.b B,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20 ; a rather long comment that runs on and on and on and on and on and on and on to the right\n",
};
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset();
    if (mode == 0) {
        int k = (int)vp_choose("case", 14);
        u64 v = vp_sym("v", 32), x = vp_sym("x", 16);
        static u64 want[6]; int n = 0;
        AL = 0; A[1][0] = 0; char *e1 = A[0], *e2 = 0;
        S(" processor 6502\n org 0\n");
        switch (k) {
        case 0: a_put(A[0], "-DVAL="); a_bin(A[0], v, 32); S(" dc.l VAL\n"); want[n++] = v; break;
        case 1: a_put(A[0], "-DVAL"); S(" dc.l VAL\n"); want[n++] = 0; break;
        case 2: a_put(A[0], "-DVAL="); a_bin(A[0], v, 32); a_put(A[0], "+1"); AL = 0; a_put(A[1], "-DOTH=VAL*2"); e2 = A[1]; S(" dc.l VAL,OTH\n"); want[n++] = v + 1; want[n++] = (v + 1) * 2; break;
        case 3: a_put(A[0], "-DVAL="); a_bin(A[0], v, 32); S(" dc.l VAL\nVAL set VAL+1\n dc.l VAL\n"); want[n++] = v; want[n++] = v + 1; break;
        case 4: a_put(A[0], "-MVAL=K*2"); S("K set "); SBIN(x, 16); S("\n dc.l VAL\nK set K+5\n dc.l VAL\n"); want[n++] = x * 2; want[n++] = (x + 5) * 2; break;
        case 5: a_put(A[0], "-DVAL="); a_bin(A[0], x, 16); S(" ifconst VAL\n dc.l 1\n else\n dc.l 2\n endif\n ifconst OTH\n dc.l 3\n endif\n if VAL > 99\n dc.l 4\n else\n dc.l 5\n endif\n"); want[n++] = 1; want[n++] = x > 99 ? 4 : 5; break;
        case 6: a_put(A[0], "-DVAL="); a_bin(A[0], v, 32); AL = 0; a_put(A[1], "-DVAL="); a_bin(A[1], x, 16); e2 = A[1]; S(" dc.l VAL\n"); want[n++] = x; break;
        case 7: a_put(A[0], "-DVAL=-"); a_bin(A[0], v, 32); S(" dc.l VAL\n"); want[n++] = 0 - v; break;
        case 8: a_put(A[0], "-DVAL=[1+"); a_bin(A[0], x, 16); a_put(A[0], "]*3"); S(" dc.l VAL,FWD\nFWD = VAL+1\n"); want[n++] = (x + 1) * 3; want[n++] = (x + 1) * 3 + 1; break;
        case 9: a_put(A[0], "-DVAL=\"ab\""); S(" dc.b VAL,VAL\n"); want[n++] = 'a' | 'b' << 8 | 'a' << 16 | (u64)'b' << 24; break;
        case 10: a_put(A[0], "-MVAL=.."); S(" dv.l VAL 7\n dv.l VAL "); SBIN(x, 16); S("\n"); want[n++] = 7; want[n++] = x; break;
        case 11: a_put(A[0], "-DVAL="); a_bin(A[0], v, 32); S(" repeat 2\n dc.l VAL\nVAL set VAL+1\n repend\n dc.l FWD\nFWD = 9\n"); want[n++] = v; want[n++] = v + 1; want[n++] = 9; break;   /* two passes: SET from the command line is not repeated */
        case 12: a_put(A[0], "-DLongName_1.x="); a_bin(A[0], v, 32); S(" dc.l LongName_1.x\n"); want[n++] = v; break;
        case 13: a_put(A[0], "-MVAL=K"); S(" dc.l VAL\nK = "); SBIN(x, 16); S("\n"); want[n++] = x; break;
        }
        int two = k == 11;
        vp_file("t.asm", SRC, SL);
        rc = e2 ? DASM("t.asm", "-f3", "-ot.bin", e1, e2) : DASM("t.asm", e1, "-f3", "-ot.bin");
        get_out("t.bin");
        vp_check(rc == 0, "define: accepted"); if (rc) return 0;
        int ok = OUTLEN == 4 * n; vp_check(ok, "define: length"); if (!ok) return 0;
        if (two) { vp_check(le32(OUT + 8) == 9, "define: value"); vp_check(((le32(OUT + 4) - le32(OUT)) & 0xffffffff) == 1, "define: value"); }
        else for (int i = 0; i < n; i++) vp_check(le32(OUT + 4 * i) == (want[i] & 0xffffffff), "define: value");
        vp_witness("defined");
    } else if (mode == 2) {
        u64 v = vp_sym("v", 16), b = vp_sym("b", 8);
        int k = (int)vp_choose("prog", 12), how = (int)vp_choose("how", 4); static u8 first[4096]; long n1;
        S(" processor 6502\n"); s_def("V", v, 16); s_def("B", b, 8); S(prog[k]);
        vp_file("d.bin", "\x01\x02\x03", 3); vp_file("i.inc", " dc.b $55\n", 10);
        vp_file("t.asm", SRC, SL);
        rc = DASM("t.asm", "-f1", "-ot.bin"); get_out("t.bin");
        vp_check(rc == 0, "plain: program accepted"); if (rc) return 0;
        n1 = OUTLEN; if (n1 > 4096) { vp_check(0, "plain: output too long for the harness"); return 0; }
        memcpy(first, OUT, (size_t)n1);
        rc = how == 0 ? DASM("t.asm") : how == 1 ? DASM("t.asm", "-f1") : how == 2 ? DASM("t.asm", "-v0") : DASM("t.asm", "-f3", "-ox.bin", "-f1", "-oa.out");   /* the last one counts */
        get_out("a.out");
        vp_check(rc == 0, "plain: accepted");
        int ok = OUTLEN == n1; vp_check(ok, "plain: output is format 1 in a.out"); if (!ok) return 0;
        check_bytes(OUT, first, n1, "plain: bytes");
        vp_witness("plain");
    } else {
        u64 v = vp_sym("v", 16), b = vp_sym("b", 8);
        int k = (int)vp_choose("prog", 12), fm = (int)vp_choose("format", 3), l = (int)vp_choose("list", 3), s = (int)vp_choose("sym", 2), vb = (int)vp_choose("verb", 6), t = (int)vp_choose("other", 8);
        static u8 first[4096]; long n1;
        S(" processor 6502\n"); s_def("V", v, 16); s_def("B", b, 8); S(prog[k]);
        vp_file("d.bin", "\x01\x02\x03", 3); vp_file("i.inc", " dc.b $55\n", 10);
        vp_file("t.asm", SRC, SL);
        char *f = fm == 0 ? "-f1" : fm == 1 ? "-f2" : "-f3";
        rc = DASM("t.asm", f, "-ot.bin"); get_out("t.bin");
        vp_check(rc == 0, "report: program accepted"); if (rc) return 0;
        n1 = OUTLEN; if (n1 > 4096) { vp_check(0, "report: output too long for the harness"); return 0; }
        memcpy(first, OUT, (size_t)n1);
        char *lo = l == 0 ? "-E0" : l == 1 ? "-lt.lst" : "-Lt.lst", *so = s ? "-st.sym" : "-T0";
        static char *const vs[] = { "-T0", "-v0", "-v1", "-v2", "-v3", "-v4" }, *const ts[] = { "-E0", "-E1", "-E2", "-T1", "-T2", "-R", "-d0", "-d1" };
        rc = DASM("t.asm", ts[t], lo, "-ou.bin", so, vs[vb], f); get_out("u.bin");
        vp_check(rc == 0, "report: status unchanged");
        int ok = OUTLEN == n1; vp_check(ok, "report: length unchanged"); if (!ok) return 0;
        check_bytes(OUT, first, n1, "report: bytes unchanged");
        vp_check((vp_file_len("t.lst") > 0) == (l > 0), "report: listing written if asked for");
        for (char d[2] = "0"; *d <= '9'; ++*d) vp_check(vp_file_len(d) == -1, "report: no other file");
        if (s) vp_check(vp_file_len("t.sym") > 0, "report: symbols written");
        vp_witness("unchanged");
    }
    return 0;
}
