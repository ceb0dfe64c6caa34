/* P34: the way an operand is written does not change the instruction: every legal mnemonic and operand form with the operand
 * spelt in different ways (brackets, sums, symbols of every kind, forward references, letter case, blanks, comments). */
#include "enc.h"
static void SU(const char *t) { for (; *t; t++) SC(*t >= 'a' && *t <= 'z' ? *t - 32 : *t); }
static const char *const spell[] = { "[V]", "V+0", "0+V", "[V+1]-1", "V*1", "[[V]]", "Z+V", "V-Z", "xval", "y1v", "spv", "xx", "L", "E", "2*V-V", "V<<1>>1", "-[-V]", "~[~V]", "[V]+[Z]", "L+Z", ".V", "sv", "V/1", "Z|V", "1?V", "[L]" };
enum { SPELL = sizeof spell / sizeof *spell };
int harness(void) {
    const struct cpu *c = &cpus[vp_param("cpu", 0)];
    int n = c->n + c->n2, k = (int)vp_choose("spell", SPELL), style = (int)vp_choose("style", 4), cls = (int)vp_choose("class", 3);
    const char *sp = spell[k];
    s_reset(); EL = 0;
    S(" processor "); S(c->name); S("\n");
    i64 v = cls == 0 ? 0 : cls == 1 ? (i64)vp_sym("v", 8) : (i64)vp_sym("v", 16), d = (i64)(signed char)vp_sym("d", 8);
    int bit = (int)vp_sym("bit", 3); u64 mk = vp_sym("mask", 8);
    if (cls == 1) vp_assume(v > 0);
    if (cls == 2) vp_assume(v > 255);
    s_def("V", (u64)v, 64); s_def("D", (u64)d, 64); s_def("M", mk, 8); s_def("N", (u64)bit, 3);
    S("Z = 0\nxval = V\ny1v = V\nspv = V\nxx = V\nE eqm V\n.V = V\nsv set V\n org $4000\n");
    for (int i = 0; i < n; i++) {
        const struct ins *in = ins_at(c, i);
        int has; unsigned op;
        for (int f = 0; f < NFORM; f++) {
            if (!form_ok(c, f) || f == F_NONE || f == F_CX || f == F_CY) continue;
            if (f >= F_UX && strchr(sp, '[')) continue;                           /* no brackets inside [X+n] */
            int m = select_mode(in, f, v);
            if (m < 0) continue;
            op = opcode_of(in, m, &has);
            int at = SL, len = 1 + (op > 0xff) + mode_size[m] + !!(in->flags & I_MASK) + !!(in->flags & I_REL);
            S(style == 1 ? "\t" : style == 3 ? "   " : " "); if (style & 1) SU(in->name); else S(in->name);
            S(style == 1 ? "\t" : style == 3 ? "    " : " ");
            at = SL; s_form(f, sp);
            if (style == 1) for (char *p = SRC + at; p < SRC + SL; p++) if ((p[0] == 'x' || p[0] == 'y') && p > SRC && (p[-1] == ',' || (p[-1] == '[' && p[1] == '+'))) *p -= 32;
            if (style) for (char *p = SRC + at; p < SRC + SL; p++) if (p[0] == 's' && p[1] == 'p' && p > SRC + at && ((p[-1] == ',' && p + 2 == SRC + SL) || (p[-1] == '[' && p[2] == '+'))) { if (style != 2) p[0] -= 32; if (style != 3) p[1] -= 32; }
            e_op(op); e_val(mode_size[m], (u64)v, c->msb);
            if (in->flags & I_MASK) { S(",M"); e1(mk); }
            if (in->flags & I_REL) { S(",.+"); SN((unsigned long)len); S("+D"); e1((u64)d); }
            S(style == 2 ? "  ; note, x)\n" : style == 3 ? "\t\n" : "\n");
        }
        op = opcode_of(in, M_BYTEREL, &has);
        if (has && cls < 2) { S(" "); S(in->name); S(" "); S(sp); S(",.+3+D\n"); e_op(op); e1((u64)v); e1((u64)d); }
        op = opcode_of(in, M_BIT, &has);
        if (has && cls < 2) { S(" "); S(in->name); S(" N,"); S(sp); S("\n"); e1(op + 2 * (unsigned)bit); e1((u64)v); }
        op = opcode_of(in, M_BITBR, &has);
        if (has && cls < 2) { S(" "); S(in->name); S(" N,"); S(sp); S(",.+3+D\n"); e1(op + 2 * (unsigned)bit); e1((u64)v); e1((u64)d); }
    }
    S("L = V\n");
    int rc = assemble("-f3");
    vp_check(rc == 0, "spelling: accepted"); if (rc) return 0;
    int ok = OUTLEN == EL; vp_check(ok, "spelling: length"); if (!ok) return 0;
    check_bytes(OUT, EXP, EL, "spelling: bytes");
    vp_witness("spelt");
    return 0;
}
