/* P01: operators compute the documented value. */
#include "h.h"
#include "ops.h"
int harness(void) {
    int op = (int)vp_choose("op", NBIN + NUN);
    int style = (int)vp_choose("style", 3);      /* 0: symbols, 1: literals in place, 2: bracketed literals */
    i64 a = (i64)vp_sym("a", 64), b = (i64)vp_sym("b", 64), r;
    o_fail = 0;
    r = op < NBIN ? bin_eval(op, a, b) : un_eval(op - NBIN, a);
    s_reset();
    S(" processor 6502\n org $1000\n");
    if (style == 0) { s_def("A", a, 64); s_def("B", b, 64); }
    S("R = ");
    if (op >= NBIN) S(un_txt[op - NBIN]);
    if (style == 0) S("A"); else { if (style == 2) S("["); SVAL(a); if (style == 2) S("]"); }
    if (op < NBIN) {
        S(bin_txt[op]);
        if (style == 0) S("B"); else { if (style == 2) S("["); SVAL(b); if (style == 2) S("]"); }
    }
    S("\n dc.l R\n dc.l R>>32\n");
    int rc = assemble("-f3");
    if (o_fail) { vp_check(rc != 0, "division by zero is an error"); vp_witness("div0"); return 0; }
    vp_check(rc == 0, "operator: run succeeds");
    vp_check(OUTLEN == 8, "operator: eight bytes");
    u64 got = 0;
    for (int i = 0; i < 8; i++) got |= (u64)OUT[i] << (8 * i);
    vp_check((got == (u64)r), "operator: value");
    return 0;
}
