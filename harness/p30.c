/* P30: PROCESSOR selects one instruction set and byte order.  mode 0: two PROCESSOR statements; mode 1: names; mode 2: instructions of each set. */
#include "h.h"
static const struct { const char *name; int cpu; } cpus[] = {
    {"6502", 0}, {"65c02", 1}, {"65C02", 1}, {"6803", 2}, {"HD6303", 3}, {"hd6303", 3}, {"68705", 4}, {"68HC11", 5}, {"68hc11", 5}, {"F8", 6}, {"f8", 6}, {"68908", 7}, {"68hc908", 7},
};
enum { NC = sizeof cpus / sizeof *cpus, NO = -1, ANY = -2 };
/* bytes as the data sheets give them, first byte above the second one; NO: not an instruction of that processor */
static const struct { const char *st; int n; int code[8]; } probe[] = {
    /*              6502    65C02   6803    6303    68705   HC11    F8      HC908 */
    {" nop",     1, {0xea,   0xea,   0x01,   0x01,   0x9d,   0x01,   0x2b,   0x9d}},
    {" NOP",     1, {0xea,   0xea,   0x01,   0x01,   0x9d,   0x01,   0x2b,   0x9d}},
    {" lax $12", 2, {0xa712, NO,     NO,     NO,     NO,     NO,     NO,     NO}},
    {" phx",     1, {NO,     0xda,   NO,     NO,     NO,     NO,     NO,     NO}},
    {" bra *",   2, {NO,     0x80fe, 0x20fe, 0x20fe, 0x20fe, 0x20fe, NO,     0x20fe}},
    {" abx",     1, {NO,     NO,     0x3a,   0x3a,   NO,     0x3a,   NO,     NO}},
    {" xgdx",    1, {NO,     NO,     NO,     0x18,   NO,     0x8f,   NO,     NO}},
    {" slp",     1, {NO,     NO,     NO,     0x1a,   NO,     NO,     NO,     NO}},
    {" aby",     2, {NO,     NO,     NO,     NO,     NO,     0x183a, NO,     NO}},
    {" mul",     1, {NO,     NO,     0x3d,   0x3d,   ANY,    0x3d,   NO,     0x42}},
    {" stop",    1, {NO,     NO,     NO,     NO,     ANY,    0xcf,   NO,     0x8e}},
    {" ei",      1, {NO,     NO,     NO,     NO,     NO,     NO,     0x1b,   NO}},
    {" tax",     1, {0xaa,   0xaa,   NO,     NO,     0x97,   NO,     NO,     0x97}},
    {" inx",     1, {0xe8,   0xe8,   0x08,   0x08,   ANY,    0x08,   NO,     ANY}},
    {" rts",     1, {0x60,   0x60,   0x39,   0x39,   0x81,   0x39,   NO,     0x81}},
    {" lda #$12",2, {0xa912, 0xa912, ANY,    ANY,    0xa612, ANY,    NO,     0xa612}},
    {" pk",      1, {NO,     NO,     NO,     NO,     NO,     NO,     0x0c,   NO}},
};
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void words(u64 w, int cpu, int at) {
    u8 lo = (u8)w, hi = (u8)(w >> 8);
    vp_check(OUT[at] == (cpu < 2 ? lo : hi) && OUT[at + 1] == (cpu < 2 ? hi : lo), "processor: byte order");
}
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc, fwd;
    u64 w = vp_sym("w", 16);
    s_reset(); s_def("W", w, 16);
    if (mode == 0) {
        int a = (int)vp_choose("a", NC), b = (int)vp_choose("b", NC), between = (int)vp_choose("between", 3);
        fwd = (int)vp_choose("fwd", 2);
        S(" processor "); S(cpus[a].name); S("\n org 0\n");
        if (between) S(between == 1 ? " dc.b 1\n" : " if 0\n processor none\n endif\n dc.b 1\n");
        if (fwd) S(" dc.w F\n");
        S(" PROCESSOR "); S(cpus[b].name); S("\n dc.w W\nF = W\n");
        rc = assemble("-f3");
        if (cpus[a].cpu != cpus[b].cpu) { vp_check(rc != 0, "processor: second one refused"); vp_witness("refused"); return 0; }
        vp_check(rc == 0, "processor: same one again accepted"); if (rc) return 0;
        int n = between != 0;
        vp_check(OUTLEN == n + 2 + 2 * fwd, "processor: length");
        if (fwd) { words(w, cpus[a].cpu, n); n += 2; }
        words(w, cpus[a].cpu, n);
        vp_witness("accepted");
    } else if (mode == 1) {
        int a = (int)vp_choose("a", NC), pos = (int)vp_choose("pos", 9), kind = (int)vp_choose("kind", 3), n = (int)strlen(cpus[a].name), m = 0, hit = -1, i, k;
        u64 c = kind < 2 ? vp_sym("c", 7) : 0; u8 nm[16];
        vp_assume(pos < n || (kind == 1 && pos == n));
        if (kind < 2) vp_assume(c > ' ' && c < 127 && c != ';' && c != '"' && c != '\'' && c != '{' && c != '/' && c != '*');
        for (i = 0; i < n; i++) {            /* kind 0: one character replaced, 1: one inserted, 2: cut off */
            if (kind == 2 && i == pos) break;
            if (kind == 1 && i == pos) nm[m++] = (u8)c;
            nm[m++] = (u8)(kind == 0 && i == pos ? c : (u64)cpus[a].name[i]);
        }
        if (kind == 1 && pos == n) nm[m++] = (u8)c;
        nm[m] = 0;
        S(" processor "); for (i = 0; i < m; i++) SC(nm[i]); S("\n org 0\n dc.w W\n");
        for (k = 0; k < NC; k++) {
            int exact = 1, fold = 1;
            if ((int)strlen(cpus[k].name) != m) continue;
            for (i = 0; i < m; i++) { exact &= nm[i] == (u8)cpus[k].name[i]; fold &= low(nm[i]) == low((u8)cpus[k].name[i]); }
            if (exact) hit = k;
            if (fold && !exact && hit < 0) hit = -2;
        }
        vp_assume(hit != -2);                  /* other spellings of a supported name in mixed case are left open */
        rc = assemble("-f3");
        if (hit < 0) { vp_check(rc != 0, "processor: unknown name refused"); vp_witness("refused"); return 0; }
        vp_check(rc == 0, "processor: name accepted"); if (rc) return 0;
        vp_check(OUTLEN == 2, "processor: length");
        words(w, cpus[hit].cpu, 0);
        vp_witness("accepted");
    } else {
        int a = (int)vp_choose("a", NC), p = (int)vp_choose("probe", sizeof probe / sizeof *probe), code = probe[p].code[cpus[a].cpu], n = 0;
        fwd = (int)vp_choose("fwd", 2);
        if (code == ANY) vp_assume(0);
        S(" processor "); S(cpus[a].name); S("\n org 0\n");
        if (fwd) S(" dc.w F\n");
        S(probe[p].st); S("\n dc.w W\nF = W\n");
        rc = assemble("-f3");
        if (code == NO) { vp_check(rc != 0, "processor: instruction of another processor refused"); vp_witness("refused"); return 0; }
        vp_check(rc == 0, "processor: instruction accepted"); if (rc) return 0;
        if (fwd) { words(w, cpus[a].cpu, 0); n = 2; }
        vp_check(OUTLEN == n + probe[p].n + 2, "processor: length");
        if (probe[p].n == 2) vp_check(OUT[n++] == (u8)(code >> 8), "processor: instruction bytes");
        vp_check(OUT[n++] == (u8)code, "processor: instruction bytes");
        words(w, cpus[a].cpu, n);
        vp_witness("accepted");
    }
    return 0;
}
