/* P15: symbols.  mode 0: a reference with a free name against a set of confusable definitions; mode 1: two definitions, the second name free;
 * mode 2: scopes of '.' and '$' labels; mode 3: long names. */
#include "h.h"
static int alnum(u64 c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c >= '0' && c <= '9') | (c == '_'); }
static int alpha(u64 c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '_'); }
static char nm[2][300];
/* free name of n characters; keep: bit i set = character i is taken from base */
static void name(char *d, const char *base, int n, unsigned keep) {
    for (int i = 0; i < n; i++) {
        u64 c = (unsigned char)base[i];
        if (!(keep >> i & 1)) { c = vp_sym("c", 7); vp_assume(i ? alnum(c) : alpha(c)); c = vp_concretize(c); }
        d[i] = (char)c;
    }
    d[n] = 0;
}
static int same(const char *a, const char *b) { int n = (int)strlen(b), r = 1; for (int i = 0; i <= n; i++) r &= a[i] == b[i]; return r; }

int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset();
    S(" processor 6502\n");
    if (mode == 0) {
        static const char *const defs[] = { "a", "A", "b", "ab", "Ab", "aB", "AB", "aca", "bab", "abc", "ab1", "ab_", "_ab", "a1", "a_", "lda", "org", "x", "y", "a01", "a10", "abcd", "xabc", "aaaa" };
        enum { N = sizeof defs / sizeof *defs };
        static const char *const three[] = { "abc", "aca", "AbC", "ab1", "_ab" };
        int len = 1 + (int)vp_choose("len", 4), late = (int)vp_choose("late", 2);
        if (len <= 2) name(nm[0], "ab", len, 0);
        else { const char *b = three[vp_choose("base", 5)]; name(nm[0], b, 3, ~(len == 3 ? 1u << vp_choose("free", 3) : 0)); if (len == 4) { name(nm[0] + 3, ".", 1, ~0u); u64 c = vp_sym("c", 7); vp_assume(alnum(c)); nm[0][3] = (char)vp_concretize(c); } }
        S(" org $1000\n");
        if (late) { S(" dc.b "); S(nm[0]); S("\n"); }
        for (int i = 0; i < N; i++) { S(defs[i]); S(" = "); SN((u64)(i + 1) * 7); S("\n"); }
        if (!late) { S(" dc.b "); S(nm[0]); S("\n"); }
        rc = assemble("-f3");
        int hit = 0;
        for (int i = 0; i < N; i++) {
            int eq = (int)strlen(defs[i]) == len && same(nm[0], defs[i]);
            if (eq) { hit = 1; vp_check(rc == 0 && OUTLEN == 1 && OUT[0] == (i + 1) * 7, "symbol: value of the identical name"); vp_witness("found"); }
        }
        if (!hit) { vp_check(rc != 0, "symbol: other names are undefined"); vp_witness("undefined"); }
    } else if (mode == 1) {
        static const struct { const char *a, *b; unsigned keep; } prs[] = {
            { "lab", "lab..", 7 }, { "lab", "lab..", 0xc | 1 }, { "lab", "..b", 4 }, { "lab", "l..", 1 }, { "lab", ".a.", 2 }, { "Loop1", "Loop.", 0xf }, { "Loop1", "Loop1.", 0x1f }, { "Loop1", ".oop1", 0x1e },
            { "averylonglabelnamethatneverends", "averylonglabelnamethatneverend.", 0x3fffffff }, { "ab", ".", 0 }, { "ab", "..", 0 }, { "set1", "set.", 7 },
        };
        int k = (int)vp_choose("pair", sizeof prs / sizeof *prs), kind = (int)vp_choose("kind", k < 5 ? 1 : 3);
        u64 v = vp_sym("v", 8), w = vp_sym("w", 8);
        vp_assume(v != w);
        name(nm[0], prs[k].b, (int)strlen(prs[k].b), prs[k].keep);
        s_def("V", v, 8); s_def("W", w, 8);
        int isv = same(nm[0], "V") & (strlen(nm[0]) == 1), isw = same(nm[0], "W") & (strlen(nm[0]) == 1);
        int isx = same(nm[0], "x") | same(nm[0], "y") | same(nm[0], "X") | same(nm[0], "Y") | same(nm[0], "sp") | same(nm[0], "SP") | same(nm[0], "Sp") | same(nm[0], "sP");   /* index registers after a comma */
        vp_assume(!isv && !isw && !isx);
        const char *op = kind == 0 ? " = " : kind == 1 ? " equ " : " set ";
        S(" org 0\n"); S(prs[k].a); S(op); S("V\n"); S(nm[0]); S(op); S("W\n dc.b "); S(prs[k].a); S(","); S(nm[0]); S("\n");
        rc = assemble("-f3");
        int eq = strlen(prs[k].a) == strlen(prs[k].b) && same(nm[0], prs[k].a);
        if (eq && kind < 2) { vp_check(rc != 0, "symbol: same name given two values"); vp_witness("clash"); }
        else { vp_check(rc == 0 && OUTLEN == 2, "symbol: accepted"); vp_check(OUT[0] == (eq ? w : v) && OUT[1] == w, "symbol: each has its value"); vp_witness("distinct"); }
    } else if (mode == 2) {
        int K = (int)vp_param("elements", 4), bad = 0;
        u64 a = vp_sym("org", 14);
        s_def("A", a, 14);
        S(" mac m1\n.l ds 1,1\n dc.w .l\n endm\n mac m2\n dc.w .l\n endm\n mac m3\n1$ ds 1,1\n dc.w 1$\n endm\n mac m4\n dc.w 1$\n endm\n org A+256\n");
        /* model: scopes are numbered; a local name is looked up in its own scope */
        static u64 defaddr[2][64]; static int isdef[2][64];
        static struct { int fam, scope; u64 pos; } ref[64];
        int nref = 0, sc[2] = { 0, 0 }, last[2] = { 0, 0 };
        u64 pos = 0;
        memset(isdef, 0, sizeof isdef);
        for (int i = 0; i < K; i++) {
            int e = (int)vp_choose(i ? "el" : "first", 11), f = 0;
            switch (e) {
            case 0: S("G"); SN((u64)i); S("\n"); sc[1] = ++last[1]; break;
            case 1: case 6: f = e == 6; S(f ? "1$" : ".l"); S(" ds 1,1\n"); if (isdef[f][sc[f]]) bad = 1; isdef[f][sc[f]] = 1; defaddr[f][sc[f]] = pos; pos++; break;
            case 2: case 7: f = e == 7; S(f ? " dc.w 1$\n" : " dc.w .l\n"); ref[nref].fam = f; ref[nref].scope = sc[f]; ref[nref++].pos = pos; pos += 2; break;
            case 3: S(" SUBROUTINE\n"); sc[0] = ++last[0]; break;
            case 4: case 8:
                f = e == 8; S(f ? " m3\n" : " m1\n"); last[0]++; last[1]++;
                isdef[f][last[f]] = 1; defaddr[f][last[f]] = pos; ref[nref].fam = f; ref[nref].scope = last[f]; ref[nref++].pos = pos + 1; pos += 3; break;
            case 5: case 9: f = e == 9; S(f ? " m4\n" : " m2\n"); last[0]++; last[1]++; ref[nref].fam = f; ref[nref].scope = last[f]; ref[nref++].pos = pos; pos += 2; break;
            case 10: S("S"); SN((u64)i); S(" subroutine\n"); sc[0] = ++last[0]; sc[1] = ++last[1]; break;
            }
        }
        S(" dc.b 1\n");
        rc = assemble("-f3");
        for (int i = 0; i < nref; i++) if (!isdef[ref[i].fam][ref[i].scope]) bad = 1;
        if (bad) { vp_check(rc != 0, "local: undefined or duplicate local label rejected"); vp_witness("rejected"); return 0; }
        vp_check(rc == 0 && (u64)OUTLEN == pos + 1, "local: accepted");
        for (int i = 0; i < nref; i++) {
            u64 w = a + 256 + defaddr[ref[i].fam][ref[i].scope], g = (u64)OUT[ref[i].pos] | (u64)OUT[ref[i].pos + 1] << 8;
            vp_check(g == w, "local: reference denotes the label of its own scope");
        }
        vp_witness("accepted");
    } else {
        /* names of up to 200 characters that differ in one place */
        static const int lens[] = { 8, 16, 31, 32, 33, 63, 64, 65, 128, 200 };
        int n = lens[vp_choose("len", 10)], at = (int)vp_choose("at", 3);
        at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
        u64 c = vp_sym("c", 7), d = vp_sym("d", 7), v = vp_sym("v", 8), w = vp_sym("w", 8);
        vp_assume(alpha(c) && alpha(d) && v != w && c >= 'a' && c <= 'h' && d >= 'a' && d <= 'h');
        c = vp_concretize(c); d = vp_concretize(d);
        for (int k = 0; k < 2; k++) { for (int i = 0; i < n; i++) nm[k][i] = (char)('a' + i * 7 % 26); nm[k][at] = (char)(k ? d : c); nm[k][n] = 0; }
        s_def("V", v, 8); s_def("W", w, 8);
        S(" org 0\n"); S(nm[0]); S(" = V\n"); S(nm[1]); S(" = W\n dc.b "); S(nm[0]); S(","); S(nm[1]); S("\n");
        rc = assemble("-f3");
        if (c == d) vp_check(rc != 0, "symbol: same long name given two values");
        else { vp_check(rc == 0 && OUTLEN == 2, "symbol: accepted"); vp_check(OUT[0] == v && OUT[1] == w, "symbol: each has its value"); vp_witness("distinct"); }
    }
    return 0;
}
