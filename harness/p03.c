/* P03: numeric and character literals denote their written value. */
#include "h.h"
static int hexdig(int nib, int lower) { return nib < 10 ? '0' + nib : (lower ? 'a' : 'A') + nib - 10; }
static const int NL[6] = {1, 2, 3, 4, 5, 6};
int harness(void) {
    int mode = (int)vp_param("mode", 0);
    u64 want = 0;
    s_reset();
    S(" processor 6502\n org $1000\n");
    if (mode == 0) {            /* hexadecimal, every digit and case free */
        int n = 1 + (int)vp_choose("n", 4), ox = (int)vp_choose("prefix", 2);
        S("R = "); S(ox ? "0x" : "$");
        for (int i = 0; i < n; i++) {
            int c = (int)vp_sym("digit", 8);
            vp_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
            SC(c);
            int d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
            want = want * 16 + (u64)d;
        }
    } else if (mode == 1) {     /* hexadecimal up to 16 digits, digits 0-7 free, one arbitrary hex digit at each place */
        int n = 5 + (int)vp_choose("n", 12), ox = (int)vp_choose("prefix", 2), at = (int)vp_choose("at", 16);
        vp_assume(at < n);
        S("R = "); S(ox ? "0x" : "$");
        for (int i = 0; i < n; i++) {
            u64 d;
            if (i == at) { d = vp_sym("hexdigit", 4); SC(hexdig((int)d, i & 1)); }
            else { d = vp_sym("digit", 3); SC('0' | (int)d); }
            want = (want << 4) | d;
        }
    } else if (mode == 2) {     /* decimal */
        int n = 1 + (int)vp_choose("n", 18);
        S("R = ");
        for (int i = 0; i < n; i++) {
            u64 d = vp_sym("digit", 4);
            vp_assume(d <= 9);
            if (i == 0) vp_assume(d >= 1);
            SC('0' + (int)d);
            want = want * 10 + d;
        }
    } else if (mode == 3) {     /* octal: leading 0 */
        int n = (int)vp_choose("n", 20);
        S("R = 0");
        for (int i = 0; i < n; i++) { u64 d = vp_sym("digit", 3); SC('0' | (int)d); want = (want << 3) | d; }
    } else if (mode == 4) {     /* binary */
        int n = 1 + (int)vp_choose("n", 64);
        S("R = %");
        for (int i = 0; i < n; i++) { u64 d = vp_sym("digit", 1); SC('0' | (int)d); want = (want << 1) | d; }
    } else if (mode == 5) {     /* character constants */
        int c = (int)vp_sym("char", 8);
        vp_assume((c > ' ') & (c < 127) & (c != ';'));
        S("R = '"); SC(c);
        want = (u64)c;
    } else if (mode == 6) {     /* literal followed directly by an operator and another literal */
        static const char *const op[3] = {"+", "|", "^"};
        int o = (int)vp_choose("op", 3), base = (int)vp_choose("base", 4);
        u64 x = vp_sym("x", 3), y = vp_sym("y", 3);
        S("R = "); S(base == 0 ? "$" : base == 1 ? "%" : base == 2 ? "0" : "1");
        if (base == 1) { SC('0' | (int)(x & 1)); SC('0' | (int)((x >> 1) & 1)); x = ((x & 1) << 1) | ((x >> 1) & 1); } else { SC('0' | (int)x); }
        if (base == 3) x += 10;
        S(op[o]); S("$"); SC('0' | (int)y);
        want = o == 0 ? x + y : o == 1 ? x | y : x ^ y;
    }
    S("\n dc.l R\n dc.l R>>32\n");
    int rc = assemble("-f3");
    vp_check(rc == 0, "literal: run succeeds");
    vp_check(OUTLEN == 8, "literal: eight bytes");
    u64 got = 0;
    for (int i = 0; i < 8; i++) got |= (u64)OUT[i] << (8 * i);
    vp_check(got == want, "literal: value");
    return 0;
}
