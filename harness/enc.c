/* P05/P06: instruction encoding.  mode 0: every legal mnemonic/syntax with one symbolic operand,
 * mode 1: combinations the processor does not have must be rejected. */
#include "enc.h"
static int start;
static void line_target(int len) { S(".+"); SN((unsigned long)len); S("+D"); }
int harness(void) {
    const struct cpu *c = &cpus[vp_param("cpu", 0)];
    int n = c->n + c->n2;
    i64 v, d, mk;
    s_reset(); EL = 0;
    S(" processor "); S(c->name); S("\n");
    if (vp_param("mode", 0) == 0) {
        int cls = (int)vp_choose("class", 4);
        int bit = (int)vp_sym("bit", 3);
        v = cls == 0 ? 0 : cls == 1 ? (i64)vp_sym("v", 8) : cls == 2 ? (i64)vp_sym("v", 16) : (i64)(vp_sym("v", 8) | ~255ull);
        if (cls == 1) vp_assume(v > 0);
        if (cls == 2) vp_assume(v > 255);
        if (cls == 3) vp_assume(v > -256);
        d = (i64)(signed char)vp_sym("d", 8);
        mk = (i64)vp_sym("mask", 8);
        s_def("V", v, 64); s_def("D", d, 64); s_def("M", mk, 64); s_def("N", (u64)bit, 3);
        S(" org $4000\n");
        for (int i = 0; i < n; i++) {
            const struct ins *in = ins_at(c, i);
            int has; unsigned op;
            for (int f = 0; f < NFORM; f++) {
                if (!form_ok(c, f)) continue;
                int m = select_mode(in, f, v);
                if (m < 0 || ((f == F_CX || f == F_CY) && (in->flags & (I_MASK | I_REL)))) continue;
                op = opcode_of(in, m, &has);
                int len = 1 + (op > 0xff) + mode_size[m] + !!(in->flags & I_MASK) + !!(in->flags & I_REL);
                S(" "); S(in->name); S(" "); s_form(f, "V");
                e_op(op); e_val(mode_size[m], f == F_CX || f == F_CY ? 0 : (u64)v, c->msb);
                if (in->flags & I_MASK) { S(",M"); e1((u64)mk); }
                if (in->flags & I_REL) { S(","); line_target(len); e1((u64)d); }
                S("\n");
            }
            op = opcode_of(in, M_REL, &has);
            if (has) {
                S(" "); S(in->name); S(" "); e_op(op);
                if (in->flags & I_MASK) { S("M,"); e1((u64)mk); }
                line_target(in->flags & I_MASK ? 3 : 2); e1((u64)d); S("\n");
            }
            op = opcode_of(in, M_BYTEREL, &has);
            if (has && cls < 2) { S(" "); S(in->name); S(" V,"); line_target(3); S("\n"); e_op(op); e1((u64)v); e1((u64)d); }
            op = opcode_of(in, M_BIT, &has);
            if (has && cls < 2) { S(" "); S(in->name); S(" N,V\n"); e1(op + 2 * (unsigned)bit); e1((u64)v); }
            op = opcode_of(in, M_BITBR, &has);
            if (has && cls < 2) { S(" "); S(in->name); S(" N,V,"); line_target(3); S("\n"); e1(op + 2 * (unsigned)bit); e1((u64)v); e1((u64)d); }
        }
        int rc = assemble("-f3");
        vp_check(rc == 0, "encoding: accepted");
        vp_check(OUTLEN == EL, "encoding: length");
        check_bytes(OUT, EXP, EL, "encoding: bytes");
        vp_witness("encoded");
        return 0;
    }
    const struct ins *in = ins_at(c, (int)vp_choose("mn", (u64)n));
    int f = (int)vp_choose("form", NFORM), has;
    if (!form_ok(c, f)) return 0;
    v = (i64)vp_sym("v", 17); if (v > 65535) v = 65535 - v;     /* -65536 .. 65535 */
    vp_assume(v >= -255);
    if (select_mode(in, f, v) >= 0) return 0;
    opcode_of(in, M_REL, &has);
    if (has && f == F_V) return 0;
    s_def("V", (u64)v, 64);
    S(" org $4000\n nop\n "); S(in->name); S(" "); s_form(f, "V"); S("\n nop\n");
    vp_check(assemble("-f3") != 0, "encoding: impossible combination rejected");
    vp_witness("rejected");
    return 0;
}
