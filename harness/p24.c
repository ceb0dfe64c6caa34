/* P24: symbol dump.  mode 0: order by value/name/definition of symbols with free values; mode 1: the printed value;
 * mode 2: names; mode 3: kinds of definition, references, locals and strings. */
#include "h.h"
enum { MAXS = 12 };
static char NM[MAXS][40]; static int NS;
static int at[MAXS];                            /* line on which symbol i stands */
static int line[MAXS + 1], nlines;              /* symbol on line i */
static int end_[MAXS + 1], beg[MAXS + 1];       /* text of the line after the name */
static const u8 *D; static long DL;
static int add(const char *n) { strcpy(NM[NS], n); return NS++; }
static int eqn(const u8 *p, const char *n, int l) { int i; for (i = 0; i < l; i++) if (!n[i] || p[i] != (u8)n[i]) return 0; return !n[i]; }
/* every line between the title and the last line names one known symbol, each of them once */
static int parse(const char *file) {
    long p = 0; int seen[MAXS] = {0};
    D = vp_file_data(file); DL = vp_file_len(file);
    vp_check(DL > 0, "dump: written"); if (DL <= 0) return 0;
    while (p < DL && D[p] != '\n') p++;
    vp_check(p < DL && p >= 15 && !memcmp(D, "--- Symbol List", 15), "dump: title"); p++;
    nlines = 0;
    while (p < DL && !(D[p] == '-' && D[p + 1] == '-')) {
        long q = p; int i;
        while (q < DL && D[q] != ' ' && D[q] != '\n') q++;
        for (i = 0; i < NS; i++) if (eqn(D + p, NM[i], (int)(q - p))) break;
        int ok = i < NS && nlines < MAXS; vp_check(ok, "dump: only defined symbols"); if (!ok) return 0;
        vp_check(!seen[i], "dump: every symbol once"); seen[i] = 1;
        at[i] = nlines; line[nlines] = i; beg[nlines] = (int)q;
        while (q < DL && D[q] != '\n') q++;
        end_[nlines++] = (int)q; p = q + 1;
    }
    vp_check(nlines == NS, "dump: every symbol listed");
    return nlines == NS;
}
static u64 hexval(int i, int *len) {
    int p = beg[at[i]]; u64 v = 0; *len = 0;
    while (p < end_[at[i]] && D[p] == ' ') p++;
    for (; p < end_[at[i]] && D[p] != ' '; p++, ++*len) { u64 c = D[p]; v = v << 4 | ((c & 15) + 9 * (c >> 6)); }
    return v;
}
static int has(int i, const char *t) {
    int l = (int)strlen(t);
    for (int p = beg[at[i]]; p + l <= end_[at[i]]; p++) { int k; for (k = 0; k < l && D[p + k] == (u8)t[k]; k++) ; if (k == l) return 1; }
    return 0;
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int cmpname(const char *a, const char *b) { for (;; a++, b++) { int x = low((u8)*a), y = low((u8)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
static char *const sort[] = {"-T0", "-T1", "-T2", "-f3"};
int harness(void) {
    int mode = (int)vp_param("mode", 0);
    s_reset(); NS = 0;
    S(" processor 6502\n");
    if (mode == 0) {                            /* free values */
        int t = (int)vp_choose("sort", 4), perm = (int)vp_choose("perm", 6), fx = (int)vp_choose("fixed", 4);
        static const char *const nm[] = {"beta", "Alpha", "gamma"};
        static const u8 pm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        static const i64 fixed[] = {0, -1, 0x80000000ll, 0x1000};
        i64 v[4];
        for (int i = 0; i < 3; i++) { add(nm[pm[perm][i]]); v[i] = (i64)vp_sym(i == 0 ? "v0" : i == 1 ? "v1" : "v2", 64); s_def(NM[i], (u64)v[i], 64); }
        v[add("delta")] = fixed[fx]; s_def("delta", (u64)fixed[fx], 64);
        S(" org 0\n dc.b 1\n");
        vp_file("t.asm", SRC, SL);
        int rc = DASM("t.asm", "-ot.bin", "-st.sym", sort[t]);
        vp_check(rc == 0, "dump: accepted");
        if (!parse("t.sym")) return 0;
        for (int i = 0; i + 1 < NS; i++) {
            int a = line[i], b = line[i + 1];
            if (t == 1) vp_check(v[a] <= v[b], "dump: sorted by value");
            else if (t == 2) vp_check(a < b, "dump: sorted by definition");
            else vp_check(cmpname(NM[a], NM[b]) <= 0, "dump: sorted by name");
        }
        vp_witness("sorted");
    } else if (mode == 1) {                     /* printed value */
        int kind = (int)vp_choose("kind", 5), t = (int)vp_choose("sort", 3), len;
        u64 v = kind < 3 ? vp_sym("v", 64) : vp_sym("v", 16);
        vp_exact_text = 1;
        add("val"); add("one"); 
        if (kind == 3) { S(" org "); SBIN(v, 16); S("\nval nop\n dc.b one\none = 1\n"); }
        else if (kind == 4) { S(" org 0\n nop\n rorg "); SBIN(v, 16); S("\nval nop\n rend\none = 1\n"); }
        else { S(" org 0\n"); S("val"); S(kind == 0 ? " = " : kind == 1 ? " equ " : " set "); SVAL(v); S("\n dc.b one\none = 1\n"); }
        vp_file("t.asm", SRC, SL);
        int rc = DASM("t.asm", "-ot.bin", "-f3", "-st.sym", sort[t]);
        vp_check(rc == 0, "dump: accepted");
        if (!parse("t.sym")) return 0;
        vp_check(hexval(0, &len) == v, "dump: value"); vp_check(len >= 4 && len <= 16, "dump: digits");
        vp_check(hexval(1, &len) == 1, "dump: value of the other symbol");
        vp_check(!has(0, "????"), "dump: known");
        vp_witness("value");
    } else if (mode == 2) {                     /* names */
        static const char *const nm[] = {"a", "B", "aa", "Ab", "a_", "b1", "ba", "A1", "a.b", "Zz", "_a", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
        int a = (int)vp_choose("n0", 12), b = (int)vp_choose("n1", 12), c = (int)vp_choose("n2", 12), t = (int)vp_choose("sort", 3), len;
        if (a == b || b == c || a == c) return 0;
        u64 v = vp_sym("v", 8);
        vp_exact_text = 1;
        add(nm[a]); add(nm[b]); add(nm[c]);
        S(" org $10\n"); s_def(NM[0], v, 8); S(NM[1]); S(" nop\n"); S(NM[2]); S(" set "); SBIN(v, 8); S("+1\n");
        vp_file("t.asm", SRC, SL);
        int rc = DASM("t.asm", "-ot.bin", "-st.sym", sort[t]);
        vp_check(rc == 0, "dump: accepted");
        if (!parse("t.sym")) return 0;
        u64 val[3] = {v, 0x10, v + 1};
        for (int i = 0; i < 3; i++) { vp_check(hexval(i, &len) == val[i], "dump: value"); vp_check(len == 4, "dump: digits"); }
        for (int i = 0; i < 2; i++) {
            int x = line[i], y = line[i + 1];
            if (t == 0) vp_check(cmpname(NM[x], NM[y]) <= 0, "dump: sorted by name");
            if (t == 1) vp_check(val[x] <= val[y], "dump: sorted by value");
            if (t == 2) vp_check(x < y, "dump: sorted by definition");
        }
        vp_witness("names");
    } else {                                    /* kinds and references */
        int k0 = (int)vp_choose("k0", 5), k1 = (int)vp_choose("k1", 5), r0 = (int)vp_choose("r0", 4), r1 = (int)vp_choose("r1", 4), t = (int)vp_choose("sort", 3), len;
        u64 v = vp_sym("v", 8);
        vp_exact_text = 1;
        add("zero"); add("one"); add("last");
        S(" org $20\n");
        /* references: 1 after, 2 before, 3 both */
        if (r0 & 2) S(" dc.b <[zero]\n");
        if (r1 & 2) S(" dc.b <[one]\n");
        int k[2] = {k0, k1}, r[2] = {r0, r1};
        for (int i = 0; i < 2; i++) {
            S(NM[i]);
            switch (k[i]) {
            case 0: S(": nop\n"); break;
            case 1: S(" = "); SBIN(v, 8); S("\n"); break;
            case 2: S(" set "); SBIN(v, 8); S("\n"); break;
            case 3: S(" eqm "); SBIN(v, 8); S("+2\n"); break;
            case 4: S(" equ \"ab\"\n"); break;
            }
        }
        if (r0 & 1) S(" dc.b <[zero]\n");
        if (r1 & 1) S(" dc.b <[one]\n");
        S("last = 7\n subroutine\n.loc nop\n dc.b last,<.loc\n");
        if ((k0 == 4 && r0) || (k1 == 4 && r1)) return 0;
        add("1.loc");
        vp_file("t.asm", SRC, SL);
        int rc = DASM("t.asm", "-ot.bin", "-st.sym", sort[t]);
        vp_check(rc == 0, "dump: accepted");
        if (!parse("t.sym")) return 0;
        u64 pc = 0x20 + !!(r0 & 2) + !!(r1 & 2);
        for (int i = 0; i < 2; i++) {
            vp_check(!has(i, "????"), "dump: known");
            if (k[i] == 0) { vp_check(hexval(i, &len) == pc, "dump: label value"); pc++; }
            if (k[i] == 1 || k[i] == 2) vp_check(hexval(i, &len) == v, "dump: value");
            vp_check(has(i, "str") == (k[i] >= 3), "dump: string");
            vp_check(has(i, "eqm") == (k[i] == 3), "dump: eqm");
            if (k[i] == 4) vp_check(has(i, "\"ab\""), "dump: string text");
            if (k[i] != 3) vp_check(has(i, "(R") == (r[i] != 0), "dump: referenced");
        }
        vp_check(hexval(2, &len) == 7, "dump: value");
        vp_check(hexval(3, &len) == pc + (u64)(r0 & 1) + (u64)(r1 & 1), "dump: local label value");
        vp_check(has(2, "(R") && has(3, "(R"), "dump: referenced");
        if (t == 2) for (int i = 0; i + 1 < NS; i++) vp_check(line[i] == i, "dump: sorted by definition");
        if (t == 0) for (int i = 0; i + 1 < NS; i++) vp_check(cmpname(NM[line[i]], NM[line[i + 1]]) <= 0, "dump: sorted by name");
        vp_witness("kinds");
    }
    return 0;
}
