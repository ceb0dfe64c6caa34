/* P20: diagnostics name file and line.  Lines of every kind in front of the offending statement, which stands in the
 * main file, an included file, a macro, a loop or combinations of these. */
#include "h.h"
static int no;                                      /* lines written to the main file */
static void T(const char *t) { S(t); for (; *t; t++) no += *t == '\n'; }
static void lines(int kind, int slot) {
    switch (kind) {
    case 0: for (int i = 0; i < 3; i++) {           /* blank lines: three free characters, blank or newline */
            char n[4] = {'f', (char)('0' + slot), (char)('0' + i), 0};
            int nl = (int)vp_sym(n, 1); SC(nl ? '\n' : ' '); no += nl; }
        T("\n"); break;
    case 1: T("; a comment\n"); break;
    case 2: T(" nop /* one\n two\n three */ \n"); break;
    case 3: T(" if 0\n nop\n bogus 1\n endif\n"); break;
    case 4: T(" repeat 3\n nop\n nop\n repend\n"); break;
    case 5: T(slot == 0 ? " mac d0\n" : slot == 1 ? " mac d1\n" : " mac d2\n"); T(" nop\n nop\n endm\n"); break;
    case 6: T(" m0\n"); break;
    case 7: T(" include \"i.inc\"\n"); break;
    case 8: T(" m1\n"); break;
    case 9: T(" repeat 2\n m0\n include \"i.inc\"\n repend\n"); break;
    case 10: T(" m2\n"); break;
    case 11: T(" include \"j.inc\"\n"); break;
    case 12: T(" repeat 0\n nop\n repend\n"); break;
    case 13: T(" incbin \"d.bin\"\n"); break;
    case 14: T(" if 1\n nop\n else\n nop\n endif\n"); break;
    case 15: T(" m3\n"); break;
    case 16: T(" repeat 2\n repeat 2\n nop\n repend\n repend\n"); break;
    case 17: T(slot == 0 ? "lab0" : slot == 1 ? "lab1" : "lab2"); T(":\r\n\tnop ; x\r\n"); break;
    }
}
#define COUNT(a) ((int)(sizeof(a) / sizeof *(a)))
enum { KINDS = 18 };
static const char *const bad[] = { " bogus 1\n", " lda #V\n", " bne .+300\n", " err\n", " dc.b 1/0\n", " sta #5\n", " dc.b V\n", " dc.b 1+\n", " lda.l 5\n", " dc.b {3}\n", " hex 0\n", " echo 1/0\n", " include \"none\"\n", " nop */\n", " incbin \"none\"\n" };
static char INC[512]; static int IL;
static void I(const char *t) { while (*t) INC[IL++] = *t++; }
static int nerr, nfound; static const char *wfile; static int wline, fmtno;
/* count the diagnostics in a text and check where they point */
static void scan(const char *t, long len) {
    long p = 0;
    while (p < len) {
        long e = p; while (e < len && t[e] != '\n') e++;
        long q = p, n = 0; const char *f; long fl = 0; int isdiag = 0;
        if (fmtno == 1) {
            if (e - p > 13 && !memcmp(t + p, "line ", 5)) {
                isdiag = 1; q += 5; while (q < e && t[q] == ' ') q++;
                while (q < e && t[q] >= '0' && t[q] <= '9') n = n * 10 + t[q++] - '0';
                while (q < e && t[q] == ' ') q++;
                f = t + q; while (q < e && t[q] != ' ') q++; fl = t + q - f;
            }
        } else {
            long k = p;
            while (k + 7 < e && memcmp(t + k, ": error", 7)) k++;
            if (k + 7 < e) {
                isdiag = 1; f = t + p; long b = k;
                if (fmtno == 0 && b > p && t[b - 1] == ')') b--;
                long m = b; while (m > p && t[m - 1] >= '0' && t[m - 1] <= '9') m--;
                for (long i = m; i < b; i++) n = n * 10 + t[i] - '0';
                fl = m - p - (fmtno == 0 ? 2 : 1);
            }
        }
        if (isdiag) {
            nerr++;
            int same = fl == (long)strlen(wfile) && !memcmp(f, wfile, (size_t)fl);
            if (VP_NATIVE && !(same && n == wline)) { vp_dump("line", (u64)n); vp_dump("expected", (u64)wline); }
            vp_check(same, "diagnostic: file"); vp_check(n == wline, "diagnostic: line");
        }
        p = e + 1;
    }
}
int harness(void) {
    int slots = (int)vp_param("slots", 2), place = (int)vp_choose("place", 12), few = (int)vp_param("few", 0), err = few ? (vp_choose("bad", 2) ? 9 : 2) : (int)vp_choose("bad", COUNT(bad)), list = few ? 0 : (int)vp_choose("list", 2);
    static int k[4];
    fmtno = few ? 2 : (int)vp_choose("format", 3);
    if (err == 13 && (place == 1 || place == 4 || place == 7 || place == 8)) return 0;    /* comments end in the definition, not in the expansion */
    for (int i = 0; i < slots; i++) k[i] = (int)vp_choose(i == 0 ? "k0" : i == 1 ? "k1" : "k2", KINDS);
    u64 v = vp_sym("v", 64); vp_assume((i64)v > 255 || (i64)v < -255);
    s_reset(); no = 0; IL = 0;
    T(" processor 6502\n org $1000\n mac m0\n nop\n nop\n endm\n mac m1\n m0\n nop\n m0\n endm\n mac m2\n if 1\n nop\n mexit\n endif\n nop\n endm\n mac m3\n repeat 2\n nop\n repend\n endm\n");
    SL += 0; s_def("V", v, 64); no++;
    for (int i = 0; i < slots; i++) lines(k[i], i);
    wfile = "t.asm";
    const char *b = bad[err];
    switch (place) {
    case 0: T(b); wline = no; break;
    case 1: T(" mac mb\n nop\n"); T(b); T(" nop\n endm\n mb\n"); wline = no; break;
    case 2: T(" repeat 2\n nop\n"); T(b); wline = no; T(" nop\n repend\n"); break;
    case 3: I(" nop\n\n"); I(b); I(" nop\n"); T(" include \"e.inc\"\n"); wfile = "e.inc"; wline = 3; break;
    case 4: I(" mac mi\n"); I(b); I(" endm\n nop\n mi\n nop\n"); T(" include \"e.inc\"\n"); wfile = "e.inc"; wline = 5; break;
    case 5: I(" include \"i.inc\"\n"); I(b); T(" include \"e.inc\"\n"); wfile = "e.inc"; wline = 2; break;
    case 6: T(" include \"i.inc\"\n"); T(b); wline = no; break;
    case 7: T(" mac mb\n"); T(b); T(" endm\n mac mc\n nop\n mb\n endm\n nop\n mc\n"); wline = no; break;
    case 8: T(" mac mb\n"); T(b); T(" endm\n repeat 2\n nop\n mb\n"); wline = no; T(" repend\n"); break;
    case 9: T(" if 0\n nop\n else\n"); T(b); wline = no; T(" endif\n"); break;
    case 10: I(" nop\n repeat 2\n"); I(b); I(" repend\n"); T(" repeat 2\n nop\n include \"e.inc\"\n nop\n repend\n"); wfile = "e.inc"; wline = 3; break;
    case 11: T("lb"); T(b); wline = no; break;
    }
    T(" nop\n nop\n");
    vp_file("i.inc", " nop\n nop\n nop\n", 15); vp_file("j.inc", "\n nop", 5); vp_file("d.bin", "abc", 3); vp_file("e.inc", INC, IL);
    vp_file("t.asm", SRC, SL);
    int rc = DASM("t.asm", "-f3", "-ot.bin", fmtno == 0 ? "-E0" : fmtno == 1 ? "-E1" : "-E2", list ? "-lt.lst" : "-v0");
    vp_check(rc != 0, "diagnostic: error status");
    nerr = 0; scan(vp_stdout(), (long)strlen(vp_stdout()));
    vp_check(nerr > 0, "diagnostic: printed");
    if (list) { nerr = 0; scan((const char *)vp_file_data("t.lst"), vp_file_len("t.lst")); vp_check(nerr > 0, "diagnostic: in the list file"); }
    vp_witness("diagnosed");
    return 0;
}
