/* P11: DS and ALIGN.  mode 0: counts and fill, mode 1: alignment, mode 2: rejected arguments. */
#include "h.h"
static u8 E[8192]; static int n;
static void put(u64 v, int size, int msb) { for (int i = 0; i < size; i++) E[n++] = (u8)(v >> (8 * (msb ? size - 1 - i : i))); }
int harness(void) {
    int mode = (int)vp_param("mode", 0), msb = (int)vp_choose("msb", 2), rc;
    s_reset(); n = 0;
    S(msb ? " processor 6803\n" : " processor 6502\n");
    if (mode == 0) {
        static const char *const ext[] = {"", ".b", ".w", ".l", ".B", ".L"}; static const int sz[] = {1, 1, 2, 4, 1, 4};
        int e = (int)vp_choose("ext", 6), withfill = (int)vp_choose("fill", 2), big = (int)vp_choose("big", 2), fwd = (int)vp_choose("fwd", 2);
        u64 cnt = big ? 250 + vp_choose("count", 12) : vp_sym("count", 4), f = vp_sym("value", 64), a = vp_sym("org", 15);
        if (big && sz[e] == 1) cnt += 768;
        if (big && sz[e] == 2) cnt += 256;
        s_def("A", a, 15); if (!fwd) s_def("C", cnt, 16); if (!fwd) s_def("F", f, 64);
        S(" org A\n dc.b 17\nL: ds"); S(ext[e]); S(" C"); if (withfill) S(",F"); S("\nM: dc.b 18\n dc.w L,M\n");
        if (fwd) { s_def("C", cnt, 16); s_def("F", f, 64); }
        rc = assemble("-f3");
        vp_check(rc == 0, "ds: accepted");
        cnt = vp_concretize(cnt);
        put(17, 1, msb); for (u64 i = 0; i < cnt; i++) put(withfill ? f : 0, sz[e], msb);
        put(18, 1, msb); put(a + 1, 2, msb); put(a + 1 + cnt * (u64)sz[e], 2, msb);
        vp_check(OUTLEN == n, "ds: length");
        check_bytes(OUT, E, n, "ds: bytes");
        vp_witness("reserved");
    } else if (mode == 1) {
        int relo = (int)vp_choose("relocated", 2), withfill = (int)vp_choose("fill", 2), small = (int)vp_choose("small", 2), fwd = (int)vp_choose("fwd", withfill ? 3 : 2);
        u64 a = vp_sym("org", 16), f = vp_sym("value", 8), al = small ? 1 + vp_choose("n", 24) : 1ull << vp_choose("pow", 10), gap;
        if (!small) vp_assume(((0 - a) & (al - 1)) < 9 || ((0 - a) & (al - 1)) > al - 3);
        vp_assume(a > 0 && a < 65000);
        s_def("A", a, 16); if (fwd != 1) s_def("N", al, 16); if (fwd != 2) s_def("F", f, 8);
        S(relo ? " org $2001\n rorg A-1\n dc.b 1\n" : " org A-1\n dc.b 1\n");
        S(withfill ? "L: align N,F\n dc.b 2\n dc.w L\n" : " align N\nL: dc.b 2\n dc.w L\n");
        if (fwd == 1) s_def("N", al, 16);
        if (fwd == 2) s_def("F", f, 8);
        rc = assemble("-f3");
        vp_check(rc == 0, "align: accepted");
        gap = vp_concretize((al - a % al) % al);
        put(1, 1, msb); for (u64 i = 0; i < gap; i++) put(withfill ? f : 0, 1, msb);
        put(2, 1, msb); put(a + gap, 2, msb);
        vp_check(OUTLEN >= n, "align: length");
        vp_check((a + gap) % al == 0 && gap < al, "align: smallest");
        check_bytes(OUT, E, n, "align: bytes");
        vp_witness("aligned");
    } else {
        i64 c = (i64)vp_sym("count", 64);
        vp_assume(c < 0);
        s_def("C", (u64)c, 64);
        S(" org $100\n dc.b 1\n ds"); S(vp_choose("w", 2) ? ".w C\n" : " C\n"); S(" dc.b 2\n");
        vp_check(assemble("-f3") != 0, "ds: negative count rejected");
        vp_witness("rejected");
    }
    return 0;
}
