/* P21: the checksum symbol.  A few items of every kind are generated; '...' is taken after each of them and written out at the end. */
#include "h.h"
static u64 sum;                                       /* reference: sum of the bytes generated so far */
static void B(u64 b) { sum += b & 255; }
static int msb;
static void W(u64 v) { B(v); B(v >> 8); }
static void item(int i, int kind, int fr) {
    char nm[3] = { 'V', (char)('a' + i), 0 };
    u64 v = fr ? vp_sym(nm, 16) : 0xc3f5u - 0x2137u * (u64)i;   /* one item at a time has a free value: sums of many free bytes are hard to compare */
    s_def(nm, v, 16);
    u64 lo = v & 255, hi = v >> 8;
    switch (kind) {
    case 0: S(" dc.b <"); S(nm); S(",7,>"); S(nm); S("\n"); B(lo); B(7); B(hi); break;
    case 1: S(" dc.w "); S(nm); S("\n"); W(v); break;
    case 2: S(" dc.l "); S(nm); S("*3\n"); { u64 t = v * 3; W(t); B(t >> 16); B(t >> 24); } break;
    case 3: S(msb ? " ldaa #<" : " lda #<"); S(nm); S("\n"); B(msb ? 0x86 : 0xa9); B(lo); break;
    case 4: S(" ds 3,<"); S(nm); S("\n"); sum += 3 * lo; break;
    case 5: S(" incbin \"d.bin\"\n"); B(0x80); B(0xff); B(1); break;
    case 6: S(" hex 80 ff 7f\n"); B(0x80); B(0xff); B(0x7f); break;
    case 7: S(" dv.b Q <"); S(nm); S("\n"); B((lo >> 1) + 1); break;
    case 8: S(" repeat 2\n dc.b <"); S(nm); S("\n repend\n"); B(lo); B(lo); break;
    case 9: S(" mm <"); S(nm); S("\n"); B(lo); B(9); break;
    case 10: S(" seg.u z\n org $40\n ds 5,<"); S(nm); S("\nz"); SC('a' + i); S(" = ..."); S("\n seg m\n"); break;   /* uninitialised: not counted */
    case 11: S(" rorg $200\n dc.b <"); S(nm); S("\n rend\n"); B(lo); break;
    case 12: S(" org .+3,5\n dc.b <"); S(nm); S("\n"); B(lo); break;               /* gaps are not counted */
    case 13: S(" dc.b \"a\",<"); S(nm); S("\n"); B('a'); B(lo); break;
    case 14: S(" if 0\n dc.b 1\n else\n dc.b <"); S(nm); S("\n endif\n"); B(lo); break;
    case 15: S(" include \"i.inc\"\n"); B(0x55); break;
    case 16: S(msb ? " ldaa $1234\n" : " lda $1234\n"); B(msb ? 0xb6 : 0xad); W(0x1234); break;
    case 17: S(" incbin \"d.bin\",1\n"); B(0xff); B(1); break;
    case 18: S(" dc.s <"); S(nm); S("\n"); break;
    }
}
int harness(void) {
    int k = (int)vp_param("items", 3), n = 18;
    s_reset(); sum = 0;
    int fm = (int)vp_choose("format", 3), fw = (int)vp_choose("forward", 2), st = (int)vp_choose("set", 2);
    msb = (int)vp_choose("msb", 2);
    u64 want[8];
    S(msb ? " processor 68HC11\n" : " processor 6502\n");
    S("Q eqm [../2]+1\n mac mm\n dc.b {1},9\n endm\n seg m\n org $1000\n");
    vp_file("d.bin", "\x80\xff\x01", 3); vp_file("i.inc", " dc.b $55\n", 10);
    if (fw) { S(" dc.w FWD\n"); W(0x1234); }
    int fr = (int)vp_choose("free", (u64)k);
    for (int i = 0; i < k; i++) {
        item(i, (int)vp_choose(i ? "kind" : "kind0", (u64)n), i == fr);
        S("C"); SC('0' + i); S(st ? " set ...\n" : " = ...\n"); want[i] = sum;
    }
    S("HERE:\n");
    for (int i = 0; i < k; i++) { S(" dc.l C"); SC('0' + i); S("\n"); }
    if (fw) S("FWD = $1234\n");
    int rc = assemble(fm == 0 ? "-f1" : fm == 1 ? "-f2" : "-f3");
    vp_check(rc == 0, "checksum: program accepted"); if (rc) return 0;
    long at = OUTLEN - 4 * k;
    vp_check(at >= 0, "checksum: output complete"); if (at < 0) return 0;
    for (int i = 0; i < k; i++) {
        const u8 *p = OUT + at + 4 * i;
        u64 got = msb ? (u64)p[0] << 24 | (u64)p[1] << 16 | (u64)p[2] << 8 | p[3] : (u64)p[3] << 24 | (u64)p[2] << 16 | (u64)p[1] << 8 | p[0];
        vp_check(got == (want[i] & 0xffffffff), "checksum: value");
    }
    vp_witness("summed");
    return 0;
}
