/* P26: INCBIN and INCLUDE.  mode 0: contents, offsets and sizes; mode 1: search order; mode 2: nesting and the lines around an include. */
#include "h.h"
static u8 D[8000], want[9000]; static int WN;
static void w8(u64 v) { want[WN++] = (u8)v; }
static void w16(u64 v) { w8(v & 255); w8(v >> 8 & 255); }
static void compare(int hdr, const char *l) {
    int n = OUTLEN == hdr + WN;
    vp_check(n, "include: output length"); if (!n) return;
    check_bytes(OUT + hdr, want, WN, l);
}
static const char *const place[4] = { "", "da/", "db/", "sub/dc/" };
static void put(const char *dir, const char *name, int marker, int bin) {
    char p[64], t[16] = " dc.b $00,$c0\n"; int n = 0;
    while (*dir) p[n++] = *dir++; while (*name) p[n++] = *name++; p[n] = 0;
    t[8] = '0' + marker;
    vp_file(p, bin ? (char[]){ (char)marker, (char)0xc0 } : t, bin ? 2 : 14);
}
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset(); WN = 0;
    if (mode == 0) {
        static const int size[] = { 0, 1, 2, 5, 1023, 1024, 1025, 2047, 2048, 2049, 5000 };
        int n = size[vp_choose("size", 11)], so = (int)vp_choose("skip", 9), fw = (int)vp_choose("forward", 2), lab = (int)vp_choose("label", 2), f = (int)vp_choose("format", 3);
        int skip = so == 0 ? -1 : so == 1 ? 0 : so == 2 ? 1 : so == 3 ? 2 : so == 4 ? n - 1 : so == 5 ? n : so == 6 ? n + 1 : 1024;
        if (skip < -1 || (so == 4 && n <= 3)) vp_assume(0);
        u64 k = 1;
        if (so == 2) { k = vp_sym("k", 13); vp_assume(n < 10 ? k < 9 : k <= 3 || (k >= 1022 && k <= 1026) || (k >= (u64)n - 2 && k <= (u64)n + 2)); skip = 1; }
        if (so == 8) { k = vp_sym("k", 40); vp_assume(k > (u64)n); skip = n; }     /* any offset behind the end */
        for (int i = 0; i < n; i++) D[i] = i < 3 || i >= n - 3 || (i >= 1022 && i < 1026) ? (u8)vp_sym("d", 8) : (u8)(i * 7 + 3);
        vp_file("d.bin", D, n);
        S(" processor 6502\n org $1234\n"); s_def("K", k, so == 8 ? 40 : 13); S(" dc.b $11\n"); w8(0x11);
        if (fw) { S(" dc.w FWD\n"); w16(0x5678); }
        S(" dc.w AFTER\n"); int at = WN; w16(0);
        if (lab) S("lab incbin \"d.bin\""); else S(" incbin \"d.bin\"");
        if (skip >= 0) { S(","); if (so == 2 || so == 8) S("K"); else SN((unsigned long)skip); }
        if (so == 2) skip = (int)vp_concretize(k);
        S("\nAFTER: dc.b $22\n");
        int la = 0x1234 + WN;
        for (int i = skip > 0 ? skip : 0; i < n; i++) w8(D[i]);
        int af = 0x1234 + WN; want[at] = af & 255; want[at + 1] = af >> 8;
        w8(0x22); w16((u64)af);
        S(" dc.w AFTER\n"); if (lab) { S(" dc.w lab\n"); w16((u64)la); }
        if (fw) S("FWD = $5678\n");
        rc = assemble(f == 0 ? "-f1" : f == 1 ? "-f2" : "-f3");
        vp_check(rc == 0, "include: binary accepted"); if (rc) return 0;
        int hdr = f == 0 ? 2 : f == 1 ? 4 : 0;
        if (hdr) vp_check(OUT[0] == 0x34 && OUT[1] == 0x12, "include: header");
        if (hdr == 4) vp_check(OUT[2] == (WN & 255) && OUT[3] == WN >> 8, "include: hunk length");
        compare(hdr, "include: binary bytes");
        vp_witness("binary");
    } else if (mode == 1) {
        /* four places: current directory, two directories from -I or INCDIR, one with a longer name */
        int bin = (int)vp_choose("bin", 2), there = (int)vp_choose("there", 16), perm = (int)vp_choose("perm", 6), how = (int)vp_choose("how", 4), sl = (int)vp_choose("slash", 2), nm = (int)vp_choose("name", 4);
        static const u8 P[6][3] = { { 1, 2, 3 }, { 1, 3, 2 }, { 2, 1, 3 }, { 2, 3, 1 }, { 3, 1, 2 }, { 3, 2, 1 } };
        static char opt[3][24]; static const char *const fn[4] = { "f.inc", "x", "in/f.inc", "fa.inc" };
        u64 c = 'a';
        vp_clear_files();
        S(" processor 6502\n org 0\n");
        for (int i = 0; i < 4; i++) if (there >> i & 1) put(place[i], fn[nm], i + 1, bin);
        for (int i = 0; i < 3; i++) {
            int n = 2; const char *p = place[P[perm][i]];
            opt[i][0] = '-'; opt[i][1] = 'I';
            while (*p) opt[i][n++] = *p++;
            if (!sl) n--;
            opt[i][n] = 0;
            if (how == 1 || (how == 2 && i == 2)) { S(" incdir \""); S(opt[i] + 2); S("\"\n"); }     /* how 0: -I, 1: INCDIR, 2: mixed, 3: -I with a repeated directory */
        }
        S(bin ? " incbin \"" : nm == 1 ? " include " : " include \""); if (nm == 3) { c = vp_sym("c", 7); vp_assume(c > 0x60 && c < 0x7b); S("f"); SC((int)c); S(".inc"); } else S(fn[nm]); if (bin || nm != 1) S("\""); S("\n dc.b $ee\n");
        vp_file("t.asm", SRC, SL);
        rc = how == 1 ? DASM("t.asm", "-f3", "-ot.bin") : how == 2 ? DASM("t.asm", "-f3", "-ot.bin", opt[0], opt[1]) : how == 3 ? DASM("t.asm", opt[0], "-f3", "-ot.bin", opt[1], opt[0], opt[2]) : DASM("t.asm", "-f3", "-ot.bin", opt[0], opt[1], opt[2]);
        get_out("t.bin");
        int exp = there & 1 ? 1 : 0;
        for (int i = 0; i < 3 && !exp; i++) if (there >> P[perm][i] & 1) exp = P[perm][i] + 1;
        if (nm == 3 && c != 'a') exp = 0;
        if (!exp) { vp_check(rc != 0, "include: missing file is an error"); vp_witness("missing"); return 0; }
        vp_check(rc == 0, "include: file found"); if (rc) return 0;
        w8((u64)exp); w8(0xc0); w8(0xee);
        compare(0, "include: first place searched wins");
        vp_witness("found");
    } else {
        /* chain of include files; every file has text before and after the next include, with free values; file ends and line ends vary */
        int d = (int)vp_choose("depth", 6) + 1, eol = (int)vp_choose("eol", 3), ctx = (int)vp_choose("ctx", 5), q = (int)vp_choose("quote", 3);
        static char body[8][512]; int bl[8];
        u64 v = ctx == 3 ? vp_sym("v", 8) : 0;
        for (int i = 0; i <= d; i++) {
            char *b = body[i]; int n = 0; char nm[8] = "f0.inc";
#define T(s) for (const char *t_ = (s); *t_; t_++) { if (*t_ == '\n' && eol == 1) b[n++] = '\r'; b[n++] = *t_; }
#define NUM(v, w) { u64 v_ = (v); b[n++] = '%'; for (int k_ = (w) - 1; k_ >= 0; k_--) b[n++] = (char)('0' | (v_ >> k_ & 1)); }
            u64 x = vp_sym("x", 8), y = vp_sym("y", 8);
            if (i == 0 && ctx == 3) { T("V = "); NUM(v, 8); T("\n"); }
            if (i == 0) T(" processor 6502\nname = \"f1.inc\"\n mac minc\n include \"f1.inc\"\n endm\n org 0\n");
            T(" dc.b "); NUM(x, 8); T("\n");
            w8(x);
            if (i < d) {
                nm[1] = (char)('1' + i);
                if (i == 0 && ctx == 1) T(" minc\n") else if (i == 0 && ctx == 2) { T(" repeat 1\n include \"f1.inc\"\n repend\n") } else if (i == 0 && ctx == 3) { T(" if 0\n include \"nofile\"\n else\n if V <= 77\n include \"f1.inc\"\n endif\n endif\n") }
                else if (i == 0 && q == 2) T(" include name\n")
                else { T(i == 1 ? "lb include " : " INCLUDE "); if (q == 0) T("\""); T(nm); if (q == 0) T("\""); T("\n"); }
            } else if (ctx == 4) T(" end\n dc.b 99\n");
            if (i < d || ctx != 4) { T(" dc.b "); NUM(y, 8); if (eol != 2) T("\n"); }     /* eol 2: last line of the file is not terminated */
            bl[i] = n;
            want[100 + i] = (u8)y;
            if (i) { nm[1] = (char)('0' + i); vp_file(nm, b, n); }
        }
        if (v > 77) { WN = 1; w8(want[100]); } else if (ctx != 4) for (int i = d; i >= 0; i--) w8(want[100 + i]); else for (int i = d - 1; i >= 0; i--) w8(want[100 + i]);
        vp_file("t.asm", body[0], bl[0]);
        rc = DASM("t.asm", "-f3", "-ot.bin"); get_out("t.bin");
        vp_check(rc == 0, "include: chain accepted"); if (rc) return 0;
        compare(0, "include: lines assembled in place");
        vp_witness("nested");
    }
    return 0;
}
