/* P29: forced extensions.  mode 0: every extension spelling x mnemonic x operand syntax the processor has
 * selects that form; mode 1: forms the processor does not have are rejected; mode 2: element sizes. */
#include "enc.h"
static const struct ext { const char *s; char size, idx; } exts[] = {
    {"b", 1, 0}, {"w", 2, 0}, {"bx", 1, 'x'}, {"by", 1, 'y'}, {"wx", 2, 'x'}, {"wy", 2, 'y'},
    {"z", 1, 0}, {"d", 1, 0}, {"zx", 1, 'x'}, {"zy", 1, 'y'}, {"dx", 1, 'x'}, {"dy", 1, 'y'},
    {"e", 2, 0}, {"a", 2, 0}, {"ex", 2, 'x'}, {"ey", 2, 'y'}, {"ax", 2, 'x'}, {"ay", 2, 'y'},
};
enum { NEXT = COUNT(exts) };
static int up;
static void SU(const char *s) { char b[2] = {0, 0}; for (; *s; s++) { b[0] = up && *s >= 'a' && *s <= 'z' ? *s - 32 : *s; S(b); } }
/* the form requested by extension e on syntax f; -1: contradictory request, outside the property */
static int forced_mode(const struct ext *e, int f) {
    int idx = e->idx;
    if (f == F_X || f == F_Y) {
        int i = f == F_X ? 'x' : 'y';
        if (idx && idx != i) return -1;
        idx = i;
    }
    if (f == F_SP) return idx ? -1 : e->size == 1 ? M_ZSP : M_WSP;
    return e->size == 1 ? (idx == 'x' ? M_ZX : idx == 'y' ? M_ZY : M_Z) : idx == 'x' ? M_WX : idx == 'y' ? M_WY : M_W;
}
static int hasmode(const struct ins *in, int m) { int h; opcode_of(in, m, &h); return h; }
/* the plain syntax needs a plain form for the extension to override */
static int plain(const struct ins *in, int f) { return f != F_V || hasmode(in, M_Z) || hasmode(in, M_W); }
static const int forms[4] = {F_V, F_X, F_Y, F_SP};
int harness(void) {
    int mode = (int)vp_param("mode", 0);
    i64 v;
    s_reset(); EL = 0;
    if (mode == 2) {
        static const struct { const char *s; int n; } el[] = {{"b", 1}, {"z", 1}, {"d", 1}, {"B", 1}, {"Z", 1}, {"w", 2}, {"e", 2}, {"a", 2}, {"W", 2}, {"l", 4}, {"L", 4}, {"s", 2}, {"S", 2}};
        int msb = (int)vp_choose("cpu2", 2);
        S(msb ? " processor 6803\n org $4000\n" : " processor 6502\n org $4000\n");
        v = (i64)vp_sym("v", 8);
        s_def("V", (u64)v, 64);
        S("EQ eqm ..\n");
        for (int i = 0; i < (int)COUNT(el); i++) {
            int big = (el[i].s[0] | 32) == 's' ? !msb : msb;
            S(" dc."); S(el[i].s); S(" V\n DV."); S(el[i].s); S(" EQ V\n");
            for (int k = 0; k < 2; k++) for (int j = 0; j < el[i].n; j++) e1((big ? j == el[i].n - 1 : j == 0) ? (u64)v : 0);
            if ((el[i].s[0] | 32) == 's') continue;
            S(" ds."); S(el[i].s); S(" 2,V\n");
            for (int k = 0; k < 2; k++) for (int j = 0; j < el[i].n; j++) e1((msb ? j == el[i].n - 1 : j == 0) ? (u64)v : 0);
        }
        int rc = assemble("-f3");
        vp_check(rc == 0, "extension: element sizes accepted");
        vp_check(OUTLEN == EL, "extension: element size");
        check_bytes(OUT, EXP, EL, "extension: element bytes");
        vp_witness("elements");
        return 0;
    }
    const struct cpu *c = &cpus[vp_param("cpu", 0)];
    int n = c->n + c->n2, has; unsigned op;
    S(" processor "); S(c->name); S("\n");
    if (mode == 0) {
        int cls = (int)vp_choose("class", 3), fwd = (int)vp_choose("fwd", 2), part = (int)vp_choose("exts", 3);
        v = cls == 0 ? (i64)vp_sym("v", 8) : cls == 1 ? (i64)vp_sym("v", 16) : (i64)(vp_sym("v", 8) | ~255ull);
        if (cls == 1) vp_assume(v > 255);
        if (cls == 2) vp_assume(v > -256);
        up = part == 1;
        i64 mk = (i64)vp_sym("mask", 8), d = (i64)(signed char)vp_sym("d", 8), bit = (i64)vp_sym("bit", 3);
        if (!fwd) s_def("V", v, 64);
        s_def("D", d, 64); s_def("M", mk, 64); s_def("N", (u64)bit, 3);
        S(" org $4000\n");
        /* forward references: in parts, every statement leaves a message for the later passes to drop */
        int chunk = fwd ? (int)vp_choose("chunk", 8) : 0;
        for (int i = fwd ? chunk * n / 8 : 0; i < (fwd ? (chunk + 1) * n / 8 : n); i++) {
            const struct ins *in = ins_at(c, i);
            for (int k = part * 6; k < part * 6 + 6; k++) for (int q = 0; q < 4; q++) {
                int f = forms[q], m = forced_mode(&exts[k], f);
                if (m < 0 || !hasmode(in, m) || !plain(in, f) || (mode_size[m] == 1 && cls == 1)) continue;
                op = opcode_of(in, m, &has);
                S(" "); SU(in->name); S("."); SU(exts[k].s); S(" "); s_form(f, "V");
                e_op(op); e_val(mode_size[m], (u64)v, c->msb);
                if (in->flags & I_MASK) { S(",M"); e1((u64)mk); }
                if (in->flags & I_REL) { S(",.+"); SN((unsigned long)(1 + (op > 0xff) + mode_size[m] + !!(in->flags & I_MASK) + 1)); S("+D"); e1((u64)d); }
                S("\n");
            }
            op = opcode_of(in, M_INDW, &has);
            if (has) { S(" "); SU(in->name); S(".ind (V)\n"); e_op(op); e_val(2, (u64)v, c->msb); }
            op = opcode_of(in, M_IMP, &has);
            if (has) { S(" "); SU(in->name); SU(part ? ".i\n" : ".0\n"); e_op(op); }
            op = opcode_of(in, M_REL, &has);
            if (has && !(in->flags & I_MASK)) { S(" "); SU(in->name); SU(".r .+2+D\n"); e_op(op); e1((u64)d); }
            op = opcode_of(in, M_BIT, &has);
            if (has && cls != 1) { S(" "); SU(in->name); SU(".bi N,V\n"); e1(op + 2 * (unsigned)bit); e1((u64)v); }
            op = opcode_of(in, M_BITBR, &has);
            if (has && cls != 1) { S(" "); SU(in->name); SU(".bb N,V,.+3+D\n"); e1(op + 2 * (unsigned)bit); e1((u64)v); e1((u64)d); }
        }
        if (fwd) s_def("V", v, 64);
        int rc = assemble("-f3");
        vp_check(rc == 0, "extension: accepted");
        vp_check(OUTLEN == EL, "extension: length");
        check_bytes(OUT, EXP, EL, "extension: bytes");
        vp_witness("forced");
        return 0;
    }
    const struct ins *in = ins_at(c, (int)vp_choose("mn", (u64)n));
    const struct ext *e = &exts[vp_choose("ext", 6)];
    static const int bad[6] = {F_V, F_X, F_Y, F_SP, F_INDX, F_INDY};
    int f = bad[vp_choose("form", 6)];
    v = (i64)vp_sym("v", 17); if (v > 65535) v = 65535 - v;
    vp_assume(v >= -255);
    if (f != F_INDX && f != F_INDY) {
        int m = forced_mode(e, f);
        if (m < 0) return 0;
        if (hasmode(in, m) && (mode_size[m] == 2 || v <= 255)) return 0;
        if (f == F_V && hasmode(in, M_REL)) return 0;
    }
    s_def("V", (u64)v, 64);
    S(" org $4000\n nop\n "); S(in->name); S("."); S(e->s); S(" "); s_form(f, "V"); S("\n nop\n");
    vp_check(assemble("-f3") != 0, "extension: form the processor does not have rejected");
    vp_witness("rejected");
    return 0;
}
