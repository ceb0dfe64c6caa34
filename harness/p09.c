/* P09: a relative branch reaches its target or the assembly fails. */
#include "enc.h"
static const char *const f8br[] = {"bc ", "bm ", "bnc ", "bno ", "bnz ", "bp ", "br ", "br7 ", "bz ", "bf 3,", "bt 2,"};
int harness(void) {
    int cpu = (int)vp_param("cpu", 0), relo = (int)vp_choose("relocated", 2), len = 0, base = 0;
    i64 a = (i64)vp_sym("address", 16), t;
    i64 pc = a;
    s_reset();
    S(" processor "); S(cpu == 7 ? "f8" : cpus[cpu].name); S("\n");
    s_def("A", (u64)a, 64);
    t = (i64)vp_sym("target", 64);
    s_def("T", (u64)t, 64);
    if (relo) { S(" org $9123\n rorg A\n"); } else S(" org A\n");
    if (cpu == 7) {
        S(" "); S(f8br[vp_choose("in", sizeof f8br / sizeof *f8br)]); S("T\n");
        len = 2; base = 1;                /* F8 displacements count from the displacement byte */
    } else {
        const struct cpu *c = &cpus[cpu];
        const struct ins *in = ins_at(c, (int)vp_choose("in", (u64)(c->n + c->n2)));
        int has = 0, f = (int)vp_choose("form", 4);
        unsigned op = 0;
        S(" "); S(in->name); S(" ");
        if (f == 0) {                     /* plain branch */
            op = opcode_of(in, M_REL, &has);
            if (!has) return 0;
            if (in->flags & I_MASK) S("3,");
            S("T"); len = 2 + (op > 0xff) + !!(in->flags & I_MASK);
        } else if (f == 1) {              /* operand and branch */
            static const int fs[] = {F_V, F_X, F_SP, F_IMM, F_Y};
            int k = (int)vp_choose("syntax", 5), m;
            if (!(in->flags & I_REL)) return 0;
            m = select_mode(in, fs[k], 5);
            if (m < 0) return 0;
            op = opcode_of(in, m, &has);
            s_form(fs[k], "5");
            if (in->flags & I_MASK) S(",3");
            S(",T"); len = 1 + (op > 0xff) + mode_size[m] + !!(in->flags & I_MASK) + 1;
        } else if (f == 2) {              /* bit test and branch */
            op = opcode_of(in, M_BITBR, &has);
            if (!has) return 0;
            S("2,5,T"); len = 3;
        } else {                          /* 65C02 BBRn/BBSn */
            op = opcode_of(in, M_BYTEREL, &has);
            if (!has) return 0;
            S("5,T"); len = 3;
        }
        base = len;
        S("\n");
    }
    i64 d = (i64)((u64)t - (u64)pc - (u64)base);
    int rc = assemble("-f3");
    if (rc) {
        vp_check(!(d >= -128 && d <= 127), "branch: reachable target accepted");
        vp_witness("rejected");
        return 0;
    }
    vp_check(d >= -128 && d <= 127, "branch: unreachable target rejected");
    vp_check(OUTLEN == len, "branch: length");
    vp_check(OUT[len - 1] == (u8)d, "branch: displacement");
    vp_witness("accepted");
    return 0;
}
