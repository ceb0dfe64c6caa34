/* P35: what a run reports.  Undefined symbols are listed by name and counted, every error of the final pass is reported once and in order with the text it is about,
 * a successful run reports none, and the segment table of -v1 gives the addresses the segments begin and end at. */
#include "h.h"
static const char *O; static long OL;
static int is(long p, char c) { return p < OL && !vp_is_sym((u8)O[p]) && O[p] == c; }      /* characters that depend on free values are digits of addresses, checked below */
static int has(long p, const char *t) { for (; *t; t++) if (!is(p++, *t)) return 0; return 1; }
static long find(long from, const char *t) { for (long p = from; p < OL; p++) if (has(p, t)) return p; return -1; }
static long eol(long p) { while (p < OL && !is(p, '\n')) p++; return p; }
static int errors(void) { int n = 0; for (long p = 0; (p = find(p, ": error: ")) >= 0; p++) n++; return n; }
static void text(void) { O = vp_stdout(); OL = (long)strlen(O); }

static const char *const name[] = { "alpha", "Beta", "gamma_9", ".loc" };
static const char *const use[] = { " lda @\n", " dc.b @\n", " dc.w @+1\n", " if @\n nop\n endif\n", " ds @\n", "dep = @\n", " jmp (@)\n", " dc.w #@,1\n", " repeat @\n nop\n repend\n", " align @\n", " dv.b twice @\n", " mm @\n" };
enum { NAMES = 4, USES = sizeof use / sizeof *use };
static void put(const char *t, const char *n) { for (; *t; t++) if (*t == '@') S(n); else SC(*t); }
static int listed(const char *n, long from, long to) {              /* lines of the list that give this name (locals with their number) */
    int k = 0, l = (int)strlen(n);
    for (long p = from; p < to; p = eol(p) + 1) {
        long b = p, e = p;
        while (e < to && O[e] != ' ' && O[e] != '\n') e++;
        if (n[0] == '.') while (b < e && O[b] >= '0' && O[b] <= '9') b++;
        k += e - b == l && !memcmp(O + b, n, (size_t)l);
    }
    return k;
}
static void unresolved(void) {
    int u = (int)vp_choose("use", USES), w = (int)vp_choose("where", 4), d[NAMES], nd = 0, dep, k, rc;
    for (k = 0; k < NAMES; k++) { static char n[] = "d0"; n[1] = (char)('0' + k); d[k] = (int)vp_sym(n, 1); if (d[k]) d[k] = 1; nd += !d[k]; }
    S(" processor 6502\ntwice eqm ..*2\n mac mm\n lda {1}\n endm\n org $1000\n");
    if (w == 0) for (k = 0; k < NAMES; k++) if (d[k]) put("@ = 1\n", name[k]);
    put(use[u], name[0]); put(" lda @\n", name[1]); put(" dc.w @\n", name[2]); put(" ldx @,y\n", name[3]); if (u == 5) S(" dc.b dep\n");    /* a name nobody uses may depend on an undefined one */
    if (w == 1) for (k = 0; k < NAMES; k++) if (d[k]) put("@ = 1\n", name[k]);
    if (w == 2) { S(" if 0\n"); for (k = 0; k < NAMES; k++) put("@ = 1\n", name[k]); S(" else\n"); for (k = 0; k < NAMES; k++) if (d[k]) put("@ set 1\n", name[k]); S(" endif\n"); }
    if (w == 3) for (k = 0; k < NAMES; k++) if (d[k]) put(k & 1 ? "@: nop\n" : "@ equ 1\n", name[k]);
    vp_file("t.asm", SRC, SL);
    rc = DASM("t.asm", "-f3", "-ot.bin", "-E2"); text();
    vp_check((rc == 0) == (nd == 0), "report: a run fails exactly when a symbol is undefined");
    vp_check(errors() == 0, "report: no other error");
    if (!nd) { vp_check(find(0, "nresolved") < 0, "report: nothing unresolved"); vp_witness("resolved"); return; }
    dep = u == 5 && !d[0];
    long p = find(0, "Unresolved Symbol List"), q = p < 0 ? -1 : find(p, "\n--- ");
    vp_check(p >= 0 && q >= 0, "report: list of the unresolved symbols"); if (p < 0 || q < 0) return;
    for (k = 0; k < NAMES; k++) vp_check(listed(name[k], eol(p) + 1, q + 1) == !d[k], "report: undefined symbols are named once, others not at all");
    vp_check(listed("dep", eol(p) + 1, q + 1) == dep, "report: symbol defined by an undefined one");
    vp_check(O[q + 5] == '0' + nd + dep && O[q + 6] == ' ', "report: number of unresolved symbols");
    vp_check(find(q, "Unresolved Symbol List") < 0, "report: listed once");
    vp_witness("unresolved");
}

enum { KINDS = 11 };
static void diagnostics(void) {
    int k[3], fwd = (int)vp_choose("fwd", 3), i, bad[3], nbad = 0, rc, letter = 'a'; u64 v[3]; long p = 0;
    for (i = 0; i < 3; i++) { static char n[] = "k0", m[] = "v0"; n[1] = m[1] = (char)('0' + i); k[i] = (int)vp_choose(n, KINDS); v[i] = 0;
        if (k[i] == 2) { v[i] = vp_sym(m, 64); bad[i] = (i64)v[i] > 255 || (i64)v[i] < -255; }
        else if (k[i] == 7) { v[i] = vp_sym(m, 64); vp_assume((v[i] == 255) | (v[i] == 256) | (v[i] == (u64)-256)); v[i] = vp_concretize(v[i]); bad[i] = (i64)v[i] > 255 || (i64)v[i] < -255; }    /* printed in the message */
        else if (k[i] == 3) { v[i] = vp_sym(m, 9); vp_assume((v[i] == 129) | (v[i] == 130) | (v[i] == 511)); v[i] = vp_concretize(v[i]); bad[i] = v[i] > 129; }
        else bad[i] = k[i] != 0;
        if (bad[i]) bad[i] = 1;
        nbad += bad[i]; }
    if (k[0] == 1) letter = 'a' + (int)vp_concretize(vp_sym("letter", 4));
    S(" processor 6502\n org $1000\n");                             /* line 2 */
    S(fwd ? " lda F\n" : " nop\n");
    for (i = 0; i < 3; i++) {                                       /* lines 4 to 6 */
        if (k[i] == 0) S(" nop\n");
        else if (k[i] == 1) { S(" qq"); SC(letter); SC('0' + i); S(" 1\n"); }
        else if (k[i] == 2) { S(" lda #V"); SC('0' + i); S("\n"); }
        else if (k[i] == 3) { S(" bne .+"); SBIN(v[i], 9); S("\n"); }
        else if (k[i] == 4) { S(" sta #"); SC('3' + i); S("\n"); }
        else if (k[i] == 5) S(" lda (5),x\n");
        else if (k[i] == 6) S(" hex 1z\n");
        else if (k[i] == 8) S(" dc.b 1+\n");
        else if (k[i] == 9) S(" lda #\n");
        else if (k[i] == 10) S(" lda.l 5\n");
        else { S(" dc.b V"); SC('0' + i); S("\n"); }
    }
    if (fwd == 1) S("F = 5\n");
    if (fwd == 2) S("F = G\nG = H\nH = 5\n");
    for (i = 0; i < 3; i++) if (k[i] == 2 || k[i] == 7) { S("V"); SC('0' + i); S(" = "); SVAL(v[i]); S("\n"); }
    vp_file("t.asm", SRC, SL);
    rc = DASM("t.asm", "-f3", "-ot.bin", "-E2"); text();
    vp_check((rc == 0) == (nbad == 0), "report: a run fails exactly when a statement is wrong");
    vp_check(errors() == nbad, "report: every error once"); if (errors() != nbad) return;
    for (i = 0; i < 3; i++) if (bad[i]) {
        char h[] = "t.asm:4: error: "; h[6] = (char)('4' + i);
        long b = find(p, ": error: "), e = eol(b); while (b > p && O[b - 1] != '\n') b--;
        vp_check(!memcmp(O + b, h, 16), "report: errors in the order of the lines");
        p = e;
        if (k[i] == 1) { char w[] = "qqa0"; w[2] = (char)letter; w[3] = (char)('0' + i); long f = find(b, w); vp_check(f >= 0 && f < e, "report: the unknown mnemonic is named"); }
        if (k[i] == 2) { char w[] = "lda #V0"; w[6] = (char)('0' + i); long f = find(b, w); vp_check(f >= 0 && f < e, "report: the operand is quoted"); }
        if (k[i] == 4) { char w[] = "sta #3"; w[5] = (char)('3' + i); long f = find(b, w); vp_check(f >= 0 && f < e, "report: the statement is quoted"); }
        if (k[i] == 3) {                                            /* (n bytes), three digits */
            long f = find(b, "("); u64 n = v[i] - 2;
            vp_check(f >= 0 && f + 4 < e && O[f + 4] == ' ', "report: distance"); if (f < 0 || f + 4 >= e) return;
            vp_check((O[f + 1] == (char)('0' + n / 100)) & (O[f + 2] == (char)('0' + n / 10 % 10)) & (O[f + 3] == (char)('0' + n % 10)), "report: distance");
        }
    }
    vp_witness(nbad ? "reported" : "silent");
}

static long at; static int known;
static u64 column(void) {                                           /* next address of the line and whether it is known */
    u64 v = 0; int n = 0;
    while (is(at, ' ')) at++;
    for (; at < OL && !is(at, ' ') && !is(at, '\n') && n < 5; at++, n++) { u64 c = (u8)O[at]; vp_check(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')), "report: address digit"); v = v << 4 | ((c & 15) + 9 * (c >> 6)); }
    vp_check(n == 4, "report: address");
    while (is(at, ' ')) at++;
    known = !has(at, "????"); if (!known) at += 4;
    return v;
}
static void segments(void) {
    int ns = 1 + (int)vp_choose("segments", 3), i, rc, order = (int)vp_choose("order", 2), fwd = (int)vp_choose("fwd", 2), un = (int)vp_choose("u", 4), level = (int)vp_choose("level", 3), rorg = (int)vp_choose("rorg", 2);
    static const char *const sn[] = { "one", "two", "three" }; u64 a[3], len[3] = { 3, 3, 3 };
    S(" processor 6502\n");
    for (i = 0; i < ns; i++) { static char n[] = "a0"; n[1] = (char)('0' + i); a[i] = vp_sym(n, 16); vp_assume(a[i] >= 0x1000); vp_assume(a[i] < 0xff00); }
    for (i = 1; i < ns; i++) vp_assume(a[i] >= a[i - 1] + 16);
    for (i = 0; i < ns; i++) {
        S(un & (1 << i) ? " seg.u " : " seg "); S(sn[i]); S("\n org "); SBIN(a[i], 16); S("\n"); if (rorg && i == ns - 1) S(" rorg $2000\n");
        S(un & (1 << i) ? " ds 3\n" : fwd ? " jmp F\n" : " dc.b 1,2,3\n");
    }
    if (order) for (i = ns - 1; i >= 0; i--) if (un & (1 << i)) { S(" seg "); S(sn[i]); S("\n ds 4\n"); len[i] += 4; }
    if (fwd) S("F = $1234\n");
    vp_file("t.asm", SRC, SL);
    rc = DASM("t.asm", "-f2", "-ot.bin", level == 0 ? "-v1" : level == 1 ? "-v2" : "-v3"); text();
    vp_check(rc == 0, "report: accepted"); if (rc) return;
    long p = -1, q = 0, n = 0;
    while ((q = find(q, "SEGMENT NAME")) >= 0) { p = q++; n++; }
    vp_check(p >= 0, "report: segment table"); if (p < 0) return;
    vp_check(n == 1 + (fwd && un != (1 << ns) - 1 && (ns != 1 || !(un & 1)) && (ns != 2 || (un & 3) != 3)), "report: one table for each pass");
    for (i = 0; i < ns; i++) {
        u64 x; char w[10] = "\n"; strcat(w, sn[i]); strcat(w, " ");
        long l = find(p, w); vp_check(l >= 0, "report: segment is in the table"); if (l < 0) return;
        at = l + (long)strlen(w);
        while (is(at, ' ')) at++;
        int u = has(at, "[u]"); if (u) at += 3;
        vp_check(u == !!(un & (1 << i)), "report: uninitialised segments are marked");
        x = column(); vp_check(known && x == a[i], "report: first address");
        x = column(); vp_check(known == (rorg && i == ns - 1), "report: first relocated address"); if (known) vp_check(x == 0x2000, "report: first relocated address");
        x = column(); vp_check(known && x == a[i] + len[i], "report: last address");
        x = column(); vp_check(known == (rorg && i == ns - 1), "report: last relocated address"); if (known) vp_check(x == 0x2000 + len[i], "report: last relocated address");
        while (is(at, ' ')) at++;
        vp_check(is(at, '\n'), "report: nothing else in the line");
    }
    vp_witness("segments");
}
/* how much is printed at each level of -v */
static int count(const char *t) { int n = 0; for (long p = 0; (p = find(p, t)) >= 0; p++) n++; return n; }
static void verbosity(void) {
    int chain = (int)vp_choose("chain", 4), level = (int)vp_choose("level", 6), inc = (int)vp_choose("include", 2), i, passes, rc;
    static char *const opt[] = { "-f3", "-v0", "-v1", "-v2", "-v3", "-v4" };
    u64 v = vp_sym("v", 8);
    S(" processor 6502\n org $1000\n"); if (inc) S(" include \"i.inc\"\n");
    if (chain) S(" lda #F1\n"); else S("F1 = 5\n lda #F1\n");
    for (i = 1; i <= chain; i++) { S("F"); SC('0' + i); S(" = "); if (i < chain) { S("F"); SC('1' + i); S("\n"); } else { SBIN(v, 8); S("\n"); } }
    vp_file("i.inc", " nop\n", 5);
    vp_file("t.asm", SRC, SL);
    rc = DASM("t.asm", "-f3", "-ot.bin", "-v1"); text();
    passes = count("START OF PASS");
    vp_check(rc == 0, "report: accepted"); if (rc) return;
    vp_check(passes == chain + 1, "report: one header for each pass");
    rc = DASM("t.asm", "-f3", "-ot.bin", opt[level]); text();
    vp_check(rc == 0, "report: accepted"); if (rc) return;
    vp_check(count("START OF PASS") == (level < 2 ? 0 : passes), "report: passes are announced from -v1");
    vp_check(count("SEGMENT NAME") == (level < 2 ? 0 : passes), "report: segments are listed from -v1");
    vp_check(count("Symbol List (") == (level < 4 ? 0 : level == 4 ? 1 : passes), "report: symbols are listed at the end with -v3 and in each pass with -v4");
    vp_check(count("error:") == 0, "report: no errors");
    vp_check(find(0, "Complete.") >= 0, "report: completion");
    vp_witness("levels");
}
int harness(void) {
    int mode = (int)vp_param("mode", 0);
    s_reset(); vp_exact_text = 1;
    if (mode == 0) unresolved(); else if (mode == 1) diagnostics(); else if (mode == 2) segments(); else verbosity();
    return 0;
}
