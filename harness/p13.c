/* P13: hunks of format 2, and agreement of the three formats on one program. */
#include "img.h"
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    u64 o[3], len[3], b[3];
    s_reset(); EN = 0;
    S(" processor 6502\n");
    if (mode == 1) {                       /* blocks longer than the generation buffer and than a hunk can be */
        static const u64 ns[] = {1023, 1024, 1025, 2050, 65535, 65536, 65537, 70000};
        u64 n = ns[vp_choose("n", 8)], f = vp_sym("fill", 8), a = vp_choose("org", 2) ? 0 : 0x1000;
        s_def("F", f, 8);
        S(" org "); SN(a); S("\n ds "); SN(n); S(",F\n dc.b 1\n");
        rc = assemble("-f2");
        vp_check(rc == 0, "hunks: accepted");
        u64 k = 0; long pos = 0;
        while (pos < OUTLEN) {
            vp_check(pos + 4 <= OUTLEN, "hunks: complete header");
            u64 org = vp_concretize((u64)OUT[pos] | (u64)OUT[pos + 1] << 8), l = vp_concretize((u64)OUT[pos + 2] | (u64)OUT[pos + 3] << 8);
            pos += 4;
            vp_check(pos + (long)l <= OUTLEN, "hunks: length within file");
            vp_check(org == ((a + k) & 0xffff), "hunks: address");
            for (u64 i = 0; i < l; i++, k++) if (k == 0 || k + 3 > n || i < 3) vp_check(OUT[pos + (long)i] == (k < n ? (u8)f : 1), "hunks: byte");
            pos += (long)l;
        }
        vp_check(k == n + 1, "hunks: nothing missing");
        vp_witness("long");
        return 0;
    }
    for (int i = 0; i < 3; i++) { o[i] = vp_sym("org", 16); S("O"); SN((unsigned long)i); S(" = "); SBIN(o[i], 16); S("\n"); b[i] = vp_sym("byte", 8); S("B"); SN((unsigned long)i); S(" = "); SBIN(b[i], 8); S("\n"); }
    int relo = (int)vp_choose("relocated", 2), bss = (int)vp_choose("bss", 2), fwd = (int)vp_choose("fwd", 2);
    for (int i = 0; i < 3; i++) len[i] = vp_choose(i ? "len" : "len0", 3);
    for (int i = 0; i < 3; i++) {
        S(" org O"); SN((unsigned long)i); S("\n");
        if (relo && i == 1) S(" rorg $c000\n");
        for (u64 j = 0; j < len[i]; j++) { S(j ? " dc.b <[B" : " dc.b B"); SN((unsigned long)i); if (j) S("+K]"); S("\n"); img(o[i] + j, b[i] + j); }
        if (relo && i == 1) S(" rend\n");
        if (bss && i == 0) S(" seg.u vars\n org $80\n ds 4\n dc.b 1\n seg code\n");
    }
    if (fwd) S("K = 1\n");
    else { /* definition in front */ char t[16384]; int n = SL; memcpy(t, SRC, (size_t)n); s_reset(); S("K = 1\n"); for (int i = 0; i < n; i++) SC(t[i]); }
    rc = assemble("-f2");
    vp_check(rc == 0, "hunks: accepted");
    check_hunks("");
    vp_witness("hunks");
    /* formats 1 and 3 describe the same memory when addresses only increase */
    int up = 1;
    for (int k = 1; k < EN; k++) if (!(EA[k] > EA[k - 1] && EA[k] <= EA[k - 1] + 3)) up = 0;
    if (!up || !EN) return 0;
    for (int f = 0; f < 2; f++) {
        int h = f ? 0 : 2;
        rc = assemble(f ? "-f3" : "-f1");
        vp_check(rc == 0, "formats: accepted");
        u64 base = f ? EA[0] : (u64)OUT[0] | (u64)OUT[1] << 8;
        vp_check(base == EA[0], "formats: origin");
        vp_check((u64)(OUTLEN - h) == EA[EN - 1] - EA[0] + 1, "formats: length");
        for (int k = 0; k < EN; k++) { u64 at = vp_concretize(EA[k] - EA[0]); vp_check(OUT[h + (long)at] == EB[k], "formats: byte"); }
    }
    vp_witness("agreement");
    return 0;
}
