/* P12: placement in formats 1 and 3, in one program of three blocks with free origins, sizes and contents. */
#include "h.h"
/* gaps and blocks around the widths a counter may have; the data and the fill byte are free */
static int wide(void) {
    static const u64 ns[] = {255, 256, 1023, 1024, 1025, 32767, 32768, 65535, 65536, 65537, 66000, 70000};
    u64 n = ns[vp_choose("n", 12)], d = vp_sym("data", 8), f = vp_sym("fill", 8), a = vp_choose("org", 2) ? 0x1000 : 0;
    int fmt = (int)vp_choose("format", 2), given = (int)vp_choose("given", 2), block = (int)vp_choose("block", 2), rc; long h = fmt ? 0 : 2;
    u64 v = block || given ? f : 255;
    s_reset(); S(" processor 6502\nD = "); SBIN(d, 8); S("\nF = "); SBIN(f, 8); S("\n org "); SN(a); S("\n dc.b D\n");
    if (block) { S(" ds "); SN(n); S(",F\n"); } else { S(" org "); SN(a + 1 + n); if (given) S(",F"); S("\n"); }
    S("L dc.b D^1,>[L>>8],>L,<L\n");
    rc = assemble(fmt ? "-f3" : "-f1");
    vp_check(rc == 0, "placement: accepted");
    vp_check(OUTLEN == h + (long)n + 5, "placement: length");
    if (!fmt) vp_check((OUT[0] == (u8)a) & (OUT[1] == (u8)(a >> 8)), "placement: header");
    vp_check(OUT[h] == (u8)d, "placement: bytes");
    for (u64 i = 0; i < n; i++) if (i < 2 || i + 2 >= n || (i & 0xfff) == 0xfff || (i & 0xfff) == 0) vp_check(OUT[h + 1 + (long)i] == (u8)v, "placement: gap");
    long e = h + 1 + (long)n; u64 l = a + 1 + n;
    vp_check((OUT[e] == (u8)(d ^ 1)) & (OUT[e + 1] == (u8)(l >> 16)) & (OUT[e + 2] == (u8)(l >> 8)) & (OUT[e + 3] == (u8)l), "placement: bytes after");
    vp_witness("wide");
    return 0;
}
int harness(void) {
    if (vp_param("mode", 0)) return wide();
    int fmt = (int)vp_choose("format", 2), fills = (int)vp_choose("fills", 4), style = (int)vp_choose("style", 4), rc;
    u64 o[3], f[3], len[3], b[3], at = 0, fill = 255;
    static u8 E[4096]; int n = 0;
    s_reset();
    S(" processor 6502\n"); for (int i = 0; i < 3; i++) { b[i] = vp_sym("data", 8); S("B"); SN((unsigned long)i); S(" = "); SBIN(b[i], 8); S("\n"); }
    o[0] = vp_sym("o0", 16); s_def("O0", o[0], 17);
    for (int i = 1; i < 3; i++) { o[i] = vp_sym(i == 1 ? "o1" : "o2", 17); S("O"); SN((unsigned long)i); S(" = "); SBIN(o[i], 17); S("\n"); }
    for (int i = 0; i < 3; i++) { f[i] = vp_sym("fill", 8); S("F"); SN((unsigned long)i); S(" = "); SBIN(f[i], 8); S("\n"); }
    for (int i = 0; i < 3; i++) len[i] = i == 2 ? 1 : vp_choose("len", 3);
    vp_assume(o[0] < 65536);
    /* gaps of up to 5 bytes, or any address behind */
    for (int i = 1; i < 3; i++) {
        u64 pos = o[i - 1] + len[i - 1];
        vp_assume(vp_choose("backwards", 2) ? o[i] < pos : o[i] >= pos && o[i] <= pos + 5);
    }
    for (int i = 0; i < 3; i++) {
        if (style == 0) S(" org "); else if (style == 1) S(". = "); else if (style == 2) S("* = "); else S(" ORG ");
        S("O"); SN((unsigned long)i);
        if (((fills & 1) && i == 1) || ((fills & 2) && i == 2)) { S(",F"); SN((unsigned long)i); }
        S("\n");
        for (u64 j = 0; j < len[i]; j++) { S(j ? " dc.b 1^B" : " dc.b B"); SN((unsigned long)i); S("\n"); }
    }
    rc = assemble(fmt ? "-f3" : "-f1");
    /* expected image: first byte decides the base */
    int first = -1;
    for (int i = 0; i < 3; i++) {
        if ((i == 1 && (fills & 1)) || (i == 2 && (fills & 2))) fill = f[i];
        if (!len[i]) continue;
        if (first < 0) { first = i; at = o[i]; if (!fmt) { E[0] = (u8)at; E[1] = (u8)(at >> 8); n = 2; } }
        if (o[i] < at) { vp_check(rc != 0, "placement: backward origin rejected"); vp_witness("backward"); return 0; }
        u64 g = vp_concretize(o[i] - at);
        if (g > 64) return 0;
        while (g--) E[n++] = (u8)fill;
        for (u64 j = 0; j < len[i]; j++) E[n++] = (u8)(j ? 1 ^ b[i] : b[i]);
        at = o[i] + len[i];
    }
    vp_check(rc == 0, "placement: accepted");
    vp_check(OUTLEN == n, "placement: length");
    check_bytes(OUT, E, n, "placement: bytes");
    vp_witness("placed");
    return 0;
}
