/* P31: ECHO prints the values of the final pass, once and in order, on the screen and in the list file; [exp]d is the decimal text of a value. */
#include "h.h"
static const u8 *O; static long OL, at;             /* text being read */
static void lit(const char *t) { for (; *t; t++, at++) { int ok = at < OL && O[at] == (u8)*t; vp_check(ok, "echo: text"); if (!ok) vp_assume(0); } }
static void chr(u64 c) { vp_check(at < OL && O[at] == (u8)c, "echo: character"); at++; }
static void hex(u64 v) {
    lit("$");
    u64 x = 0; int n = 0;
    for (; at < OL && O[at] != ' ' && O[at] != '\n' && n < 17; at++, n++) {
        u64 c = O[at];
        if (!n && v) vp_check(c != '0', "echo: no leading zero");
        vp_check(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')), "echo: digit");
        x = x << 4 | ((c & 15) + 9 * (c >> 6));
    }
    vp_check(n >= 1 && n <= 16 && x == v, "echo: value");
}
static void dec(i64 v) {                           /* three digits at most */
    if (v < 0) { lit("-"); v = -v; }
    if (v > 99) chr('0' + (u64)v / 100);
    if (v > 9) chr('0' + (u64)v / 10 % 10);
    chr('0' + (u64)v % 10);
}
enum { KINDS = 12 };
static u64 V, W, F, X, C; static i64 N; static u64 pc0;
static const char *const src[KINDS] = { "V", "\"a@b\"", "Q", "T", "'x", "F", "lab", ".", "[N]d", "XS", "V+1", "[N+N]d" };
static void put(int k) { for (const char *t = src[k]; *t; t++) if (*t == '@') SC((int)C); else SC(*t); }
static void expect(int k, u64 pc) {
    lit(" ");
    switch (k) {
    case 0: hex(V); break;
    case 1: lit("a"); chr(C); lit("b"); break;
    case 2: hex(W + 1); break;
    case 3: lit("text"); break;
    case 4: hex('x'); break;
    case 5: hex(F); break;
    case 6: hex(pc0 + 9); break;
    case 7: hex(pc); break;
    case 8: dec(N); break;
    case 9: hex(X); break;
    case 10: hex(V + 1); break;
    case 11: dec(2 * N); break;
    }
}
static char LST[4096];
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc, n = 0;
    s_reset(); vp_exact_text = 1;
    S(" processor 6502\n");
    if (mode == 1) {                               /* the text as data */
        int how = (int)vp_choose("how", 5), i = 0;
        N = (i64)vp_sym("n", 7) - 64;
        if (N < 0) { S("N = -"); SBIN((u64)-N, 8); S("\n"); } else s_def("N", (u64)N, 8);
        S(" org 0\n");
        S(how == 0 ? " dc.b [N]d\n" : how == 1 ? " dc.b 1,[N]d,2\n" : how == 2 ? "T = [N]d\n dc.b T\n" : how == 3 ? " dc.b [N*2]d\n" : " dc.b [3+N-3]d,0\n");
        rc = assemble("-f3");
        vp_check(rc == 0, "echo: decimal text accepted"); if (rc) return 0;
        O = OUT; OL = OUTLEN; at = 0;
        if (how == 1) { chr(1); }
        dec(how == 3 ? 2 * N : N);
        if (how == 1) chr(2);
        if (how == 4) chr(0);
        vp_check(at == OL, "echo: length");
        (void)i; vp_witness("data");
        return 0;
    }
    int k0 = (int)vp_choose("k0", KINDS), k1 = (int)vp_choose("k1", KINDS), ctx = (int)vp_choose("ctx", 8), list = (int)vp_choose("list", 2), fwd = (int)vp_choose("fwd", 2), v;
#define USES(a) (k0 == (a) || k1 == (a))
    V = USES(0) || USES(10) ? vp_sym("v", ctx ? 8 : k1 == 3 ? 64 : 12) : 5; W = USES(2) ? vp_sym("w", 8) : 3; F = vp_sym("f", USES(5) ? 8 : 4); X = vp_sym("x", 4);
    N = USES(8) || USES(11) ? (i64)vp_sym("n", 4) - 8 : 7;
    C = '0';
    if (USES(1)) { C = vp_sym("c", 7); vp_assume((C == ' ') | ((C >= '0') & (C <= '9')) | ((C >= 'A') & (C <= 'Z')) | ((C == ';') & (ctx != 6)) | ((C == ',') & (ctx != 6)) | (C == '$')); }
    pc0 = 0x1000;
    if (N < 0) { S("N = -"); SBIN((u64)-N, 8); S("\n"); } else s_def("N", (u64)N, 8);
    s_def("V", V, 64); S("W = "); SBIN(W, 8); S("\nQ eqm W+1\nT = \"text\"\nXS set "); SBIN(X, 4); S("\n");
    if (!fwd) s_def("F", F, 8);
    S(" mac say\n echo {1}\n endm\n");
    if (ctx == 4) { S(" mac both\n echo "); put(k0); S(","); put(k1); S("\n endm\n"); }
    S(" org $1000\n");
#define LINE S(" echo "); put(k0); S(", "); put(k1); S("\n")
    switch (ctx) {
    case 0: LINE; break;
    case 1: S(" if 1\n"); LINE; S(" else\n echo \"no\"\n endif\n"); break;
    case 2: S(" if 0\n"); LINE; S(" else\n echo \"yes\"\n endif\n"); break;
    case 3: S(" repeat 2\n"); LINE; S(" dc.b 0\n repend\n"); break;
    case 4: S(" both\n"); break;
    case 5: { static char inc[400]; int b = SL; LINE; n = SL - b; memcpy(inc, SRC + b, (size_t)n); SL = b; vp_file("i.inc", inc, n); S(" include \"i.inc\"\n"); break; }
    case 6: S(" say "); put(k0); S("\n say "); put(k1); S("\n"); break;
    case 7: LINE; S("XS set XS+1\n"); LINE; break;
    }
    S(" ds $1009-.\nlab: nop\n echo \"last\",F\n");
    if (fwd) { S(" dc.b F\n"); s_def("F", F, 8); }        /* a value needed elsewhere: ECHO alone does not ask for another pass */
    vp_file("t.asm", SRC, SL);
    rc = list ? DASM("t.asm", "-f3", "-ot.bin", "-lt.lst") : DASM("t.asm", "-f3", "-ot.bin");
    vp_check(rc == 0, "echo: accepted"); if (rc) return 0;
    for (v = 0; v <= list; v++) {
        if (v == 0) { O = (const u8 *)vp_stdout(); OL = (long)strlen((const char *)O); }
        else {                                     /* lines of the list file that begin with one blank */
            const u8 *d = vp_file_data("t.lst"); long dl = vp_file_len("t.lst"), m = 0;
            for (long p = 0; p < dl; ) {
                long e = p; int take = d[p] == ' ' && p + 1 < dl && d[p + 1] != ' ' ;
                while (e < dl && d[e] != '\n') e++;
                if (take) for (long i = p; i <= e && i < dl && m < (long)sizeof LST; i++) LST[m++] = (char)d[i];
                p = e + 1;
            }
            O = (const u8 *)LST; OL = m;
        }
        at = 0;
        switch (ctx) {
        case 3: expect(k0, pc0); expect(k1, pc0); lit("\n"); expect(k0, pc0 + 1); expect(k1, pc0 + 1); lit("\n"); break;
        case 2: lit(" yes\n"); break;
        case 6: expect(k0, pc0); lit("\n"); expect(k1, pc0); lit("\n"); break;
        case 7: expect(k0, pc0); expect(k1, pc0); lit("\n"); X++; expect(k0, pc0); expect(k1, pc0); lit("\n"); X--; break;
        default: expect(k0, pc0); expect(k1, pc0); lit("\n"); break;
        }
        lit(" last "); hex(F); lit("\n");
        vp_check(at == OL || O[at] != ' ', "echo: nothing else");
    }
    vp_witness("printed");
    return 0;
}
