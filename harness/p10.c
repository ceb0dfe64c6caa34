/* P10: data directives.  mode 0: all directives with symbolic items, mode 1: strings, mode 2: HEX, mode 3: long lists. */
#include "h.h"
static const char *const cpu[] = {"6502", "65c02", "6803", "hd6303", "68705", "68hc11", "68908", "f8"};
static u8 E[2048]; static int n;
static void put(u64 v, int size, int msb) { for (int i = 0; i < size; i++) E[n++] = (u8)(v >> (8 * (msb ? size - 1 - i : i))); }
static const struct { const char *d; int size, swap; } dirs[] = {
    {"dc", 1, 0}, {"dc.b", 1, 0}, {"byte", 1, 0}, {".byte", 1, 0}, {"DC.B", 1, 0}, {"dc.w", 2, 0}, {"word", 2, 0}, {".word", 2, 0}, {"Dc.W", 2, 0}, {"dc.l", 4, 0}, {"long", 4, 0},
    {".long", 4, 0}, {"DC.L", 4, 0}, {"dc.s", 2, 1}, {"DC.S", 2, 1}, {".dc", 1, 0},
};
enum { ND = sizeof dirs / sizeof *dirs };
static void finish(int rc) {
    vp_check(rc == 0, "data: accepted");
    vp_check(OUTLEN == n, "data: length");
    check_bytes(OUT, E, n, "data: bytes");
    vp_witness("emitted");
}
int harness(void) {
    int mode = (int)vp_param("mode", 0), c = (int)vp_choose("cpu", mode == 0 ? 8 : 2) * (mode == 0 ? 1 : 2), msb = c > 1;
    s_reset(); n = 0;
    if (mode == 0) {
        int neg = (int)vp_choose("negative", 2);
        i64 b = neg ? (i64)(vp_sym("b", 8) | ~255ull) : (i64)vp_sym("b", 8), v = (i64)vp_sym("v", 64), w = (i64)vp_sym("w", 64);
        if (neg) vp_assume(b > -256);
        S(" processor "); S(cpu[c]); S("\n");
        s_def("B", (u64)b, 64); s_def("V", (u64)v, 64);
        S("EXP eqm ..*3+1\nLOB eqm <[..+7]\n org $1000\n");
        for (int i = 0; i < ND; i++) {
            int m = dirs[i].swap ? !msb : msb, s = dirs[i].size;
            S(" "); S(dirs[i].d); S(" B\n"); put((u64)b, s, m);
            S("L"); SN((unsigned long)i); S(": "); S(dirs[i].d); S(" B,1,B,\"Z\",-B, 255-255, 'q\n");
            put((u64)b, s, m); put(1, s, m); put((u64)b, s, m); put('Z', s, m); put(-(u64)b, s, m); put(0, s, m); put('q', s, m);
            if (s > 1) { S(" "); S(dirs[i].d); S(" V,W,\"aB1\",V\n"); put((u64)v, s, m); put((u64)w, s, m); put('a', s, m); put('B', s, m); put('1', s, m); put((u64)v, s, m); }
            if (s == 1) { S(" "); S(dirs[i].d); S(" >V,<W,\"aB1\",[W>>16]&$ff\n"); put(((u64)v >> 8) & 255, 1, m); put((u64)w, 1, m); put('a', 1, m); put('B', 1, m); put('1', 1, m); put((u64)w >> 16, 1, m); }
        }
        S(" dv.w EXP V,B,\"c\"\n dv.l EXP V,W\n dv LOB V,\"ab\",W\n dv.s EXP W\n");
        put((u64)v * 3 + 1, 2, msb); put((u64)b * 3 + 1, 2, msb); put('c' * 3 + 1, 2, msb);
        put((u64)v * 3 + 1, 4, msb); put((u64)w * 3 + 1, 4, msb);
        put((u64)v + 7, 1, msb); put('a' + 7, 1, msb); put('b' + 7, 1, msb); put((u64)w + 7, 1, msb); put((u64)w * 3 + 1, 2, !msb);
        s_def("W", (u64)w, 64);
        finish(assemble("-f3"));
    } else if (mode == 1) {
        static const char *const dd[] = {"dc.b", "byte", "dc.w", "dc.l", "dc.s"}; static const int sz[] = {1, 1, 2, 4, 2};
        int d = (int)vp_choose("dir", 5), len = 1 + (int)vp_choose("len", 4); char ch[4];
        S(" processor "); S(cpu[c]); S("\n org $1000\n "); S(dd[d]); S(" \"");
        for (int i = 0; i < len; i++) {
            ch[i] = (char)vp_sym("ch", 7);
            vp_assume(ch[i] >= 32 && ch[i] < 127 && ch[i] != '"');
            if (i) vp_assume(!(ch[i - 1] == '/' && ch[i] == '*') && !(ch[i - 1] == '*' && ch[i] == '/'));   /* comment delimiters are recognised everywhere */
            SC(ch[i]);
            put((u64)(u8)ch[i], sz[d], d == 4 ? !msb : msb);
        }
        S("\"\n");
        finish(assemble("-f3"));
    } else if (mode == 2) {
        int pairs = 1 + (int)vp_choose("pairs", 2), sp = (int)vp_choose("spaces", 2), bad = (int)vp_choose("bad", 3);
        S(" processor "); S(cpu[c]); S("\n org $1000\n hex ");
        for (int i = 0; i < pairs; i++) {
            u64 d[2];
            for (int k = 0; k < 2; k++) {
                d[k] = vp_sym("digit", 7);
                int dec = d[k] >= '0' && d[k] <= '9', up = d[k] >= 'A' && d[k] <= 'F', lo = d[k] >= 'a' && d[k] <= 'f';
                if (bad == 2 && i == 0 && k == 1) vp_assume(!dec && !up && !lo && d[k] > 32 && d[k] < 127 && d[k] != ';' && d[k] != '"' && d[k] != '\'' && d[k] != '{');
                else vp_assume(dec || up || lo);
                SC((int)d[k]);
                d[k] = dec ? d[k] - '0' : (d[k] & 15) + 9;
            }
            put(d[0] * 16 + (d[1] & 15), 1, 0);
            if (sp) S(" ");
        }
        if (bad == 1) S("7");
        S("\n");
        int rc = assemble("-f3");
        if (bad) { vp_check(rc != 0, "data: bad hex rejected"); return 0; }
        finish(rc);
    } else {
        int k = 1 + (int)vp_choose("items", 120), d = (int)vp_choose("dir", 3);
        static const char *const dd[] = {"byte", "word", "long"};
        u64 v = vp_sym("v", 8);
        S(" processor "); S(cpu[c]); S("\n"); s_def("V", v, 8); S(" org $1000\n "); S(dd[d]); S(" ");
        for (int i = 0; i < k; i++) { if (i) S(","); if (i % 3 == 2) { S("V"); put(v, 1 << d, msb); } else { SN((unsigned long)i); put((u64)i, 1 << d, msb); } }
        S("\n");
        finish(assemble("-f3"));
    }
    return 0;
}
