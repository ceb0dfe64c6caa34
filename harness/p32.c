/* P32: limits and option syntax.  mode 0: -p and -P allow exactly that many passes; mode 1: -m and the default size barrier; mode 2: '/' and '-' introduce the same options. */
#include "h.h"
static char num[2][24];
static char *opt(int b, const char *pre, u64 v) {
    char t[24]; int i = 24, n = 0;
    while (*pre) num[b][n++] = *pre++;
    do { t[--i] = (char)('0' + v % 10); v /= 10; } while (v);
    while (i < 24) num[b][n++] = t[i++];
    num[b][n] = 0;
    return num[b];
}
static int count(const char *t, const char *w) {
    int n = 0; long l = (long)strlen(w);
    for (; *t; t++) { long i = 0; while (i < l && t[i] == w[i]) i++; if (i == l) n++; }
    return n;
}
static u8 ref[64]; static long rn;
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset();
    S(" processor 6502\n");
    if (mode == 0) {
        int n = (int)vp_choose("n", 7), use = (int)vp_choose("use", 4), N = 1 + (int)vp_choose("limit", 12), big = (int)vp_choose("P", 2);
        u64 v = vp_sym("v", 8);
        S(" org $1000\n");
        if (n) {
            S(use == 0 ? " dc.w E0\n" : use == 1 ? " lda E0\n" : use == 2 ? " ds E0&3\n dc.b 7\n" : " if E0 > 5\n dc.b 1\n endif\n dc.b 2\n");
            for (int i = 0; i + 1 < n; i++) { S("E"); SN((unsigned long)i); S(" = E"); SN((unsigned long)i + 1); S("+1\n"); }
            S("E"); SN((unsigned long)n - 1); S(" = "); SBIN(v, 8); S("\n");
        } else S(" dc.b 1\n");
        vp_file("t.asm", SRC, SL);
        rc = DASM("t.asm", "-f3", "-ot.bin", "-p40", "-v1"); get_out("t.bin");
        vp_check(rc == 0, "limits: enough passes"); if (rc) return 0;
        int passes = count(vp_stdout(), "START OF PASS");
        vp_check(passes >= 1 + (n > 0) && passes <= n + 3, "limits: passes reported");
        rn = OUTLEN; vp_check(rn <= 64, "limits: reference"); memcpy(ref, OUT, 64);
        rc = DASM("t.asm", "-f3", "-ou.bin", opt(0, big ? "-P" : "-p", (u64)N)); get_out("u.bin");
        for (int d = 1; d < 13; d++) { char nm[3] = { (char)(d > 9 ? '1' : '0' + d), (char)(d > 9 ? '0' + d - 10 : 0), 0 }; vp_check(vp_file_len(nm) == -1, "limits: no other file"); }
        if (N >= passes) {
            vp_check(rc == 0, "limits: passes within the limit"); if (rc) return 0;
            vp_check(OUTLEN == rn, "limits: length"); check_bytes(OUT, ref, rn < 64 ? rn : 64, "limits: bytes");
            vp_witness("within");
        } else { vp_check(rc != 0, "limits: more passes needed than allowed"); vp_witness("beyond"); }
    } else if (mode == 1) {
        static const u64 lim[] = { 0, 65, 100, 255, 256, 4096, 65535, 65536, 100000, 1000000 };
        int li = (int)vp_choose("m", 10), k = (int)vp_choose("st", 8), f = (int)vp_choose("format", 3), fwd = (int)vp_choose("fwd", 2);
        static const char *const st[] = { " dc.b 1", " dc.w 1,2", " nop", " jmp $1234", " ds 5", " hex 010203", " incbin \"d.bin\"", " dc.b 1\n dc.b 2" };
        static const int len[] = { 1, 4, 1, 3, 5, 3, 7, 2 };
        u64 m = lim[li] ? lim[li] : 640 * 1024, a = vp_sym("a", 21);
        vp_file("d.bin", "1234567", 7);
        s_def("A", a, 21); if (fwd) S(" org 0\n seg.u U\n org F\nu ds 1\n seg code\n"); S(" org A\n"); S(st[k]); S("\nF = 5\n");
        if (f == 1 && a + 16 > 65536) vp_assume(0);           /* format 2 has 16-bit addresses */
        vp_file("t.asm", SRC, SL);
        char *fo = f == 0 ? "-f1" : f == 1 ? "-f2" : "-f3";
        rc = lim[li] ? DASM("t.asm", fo, "-ot.bin", opt(0, "-m", m)) : DASM("t.asm", fo, "-ot.bin"); get_out("t.bin");
        if (a + (u64)len[k] <= m) {
            vp_check(rc == 0, "limits: up to the barrier accepted"); if (rc) return 0;
            vp_check(OUTLEN == len[k] + (f == 0 ? 2 : f == 1 ? 4 : 0), "limits: length");
            vp_witness("within");
        } else { vp_check(rc != 0, "limits: beyond the barrier refused"); vp_witness("beyond"); }
    } else {
        static char o[2][8][24];
        int set = (int)vp_choose("set", 4); u64 v = vp_sym("v", 8);
        static const char *const sets[4][6] = { { "f1", "ot.bin", "DV=@", "lt.lst", "st.sym", "T1" }, { "f2", "ot.bin", "MV=@", "S", "R", "p9" }, { "Iinc", "f3", "ot.bin", "v0", "E2", "DV=@" }, { "DV=@", "Lt.lst", "ot.bin", "P9", "m1000", "f3" } };
        int bits = (int)vp_choose("slash", 64);
        for (int r = 0; r < 2; r++) for (int i = 0; i < 6; i++) {
            char *d = o[r][i]; int n = 0; const char *t = sets[set][i];
            d[n++] = r && bits >> i & 1 ? '/' : '-';
            for (; *t; t++) if (*t == '@') { d[n++] = '%'; for (int b = 7; b >= 0; b--) d[n++] = (char)('0' | (v >> b & 1)); } else d[n++] = *t;
            d[n] = 0;
        }
        S(" org $100\n dc.b V,<F\n include \"x.inc\"\nF = V\n");
        vp_file("t.asm", SRC, SL);
        vp_file("inc/x.inc", " dc.b $77\n", 10); if (set != 2) vp_file("x.inc", " dc.b $66\n", 10);
        rc = DASM("t.asm", o[1][0], o[1][1], o[1][2], o[1][3], o[1][4], o[1][5]);
        get_out("t.bin");
        int h = set == 0 ? 2 : set == 1 ? 4 : 0;
        vp_check(rc == 0, "limits: options accepted"); if (rc) return 0;
        vp_check(OUTLEN == h + 3 && OUT[h] == (u8)v && OUT[h + 1] == (u8)v && OUT[h + 2] == (set == 2 ? 0x77 : 0x66), "limits: options obeyed");
        vp_check((vp_file_len("t.lst") > 0) == (set == 0 || set == 3) && (vp_file_len("t.sym") > 0) == (set == 0), "limits: files written");
        vp_witness("same");
    }
    return 0;
}
