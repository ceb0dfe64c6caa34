/* P07: F8 instructions.  mode 0: numeric operands, mode 1: register operands and LR, mode 2: implied operands and data. */
#include "h.h"
static const struct num { const char *name; unsigned op; int lim, size; } num[] = {
    {"ai", 0x24, 255, 2}, {"ci", 0x25, 255, 2}, {"in", 0x26, 255, 2}, {"li", 0x20, 255, 2}, {"ni", 0x21, 255, 2}, {"oi", 0x22, 255, 2}, {"out", 0x27, 255, 2}, {"xi", 0x23, 255, 2},
    {"dci", 0x2a, 65535, 3}, {"jmp", 0x29, 65535, 3}, {"pi", 0x28, 65535, 3},
    {"ins", 0xa0, 15, 1}, {"outs", 0xb0, 15, 1}, {"lis", 0x70, 15, 1}, {"lisl", 0x68, 7, 1}, {"lisu", 0x60, 7, 1},
    {"as", 0xc0, 14, 1}, {"asd", 0xd0, 14, 1}, {"ds", 0x30, 14, 1}, {"ns", 0xf0, 14, 1}, {"xs", 0xe0, 14, 1},
    {"lr a,", 0x40, 14, 1}, {"sl", 0x13, -1, 1}, {"sr", 0x12, -1, 1}, {"bt", 0x80, 7, 2}, {"bf", 0x90, 15, 2}, {"*,a", 0x50, 14, 1},
};
static const struct { const char *name; unsigned op; } imp[] = {
    {"adc", 0x8e}, {"am", 0x88}, {"amd", 0x89}, {"clr", 0x70}, {"cm", 0x8d}, {"com", 0x18}, {"di", 0x1a}, {"ei", 0x1b}, {"inc", 0x1f}, {"lm", 0x16}, {"lnk", 0x19}, {"nm", 0x8a},
    {"nop", 0x2b}, {"om", 0x8b}, {"pk", 0x0c}, {"pop", 0x1c}, {"st", 0x17}, {"xdc", 0x2c}, {"xm", 0x8c},
};
enum { A = 16, DC, H, IS, K, KU, KL, P0, P, Q, QU, QL, W };
static const struct { const char *name; int reg; } regs[] = {
    {"a", A}, {"A", A}, {"dc0", DC}, {"dc", DC}, {"DC0", DC}, {"h", H}, {"is", IS}, {"Is", IS}, {"k", K}, {"ku", KU}, {"kl", KL}, {"pc0", P0}, {"p0", P0}, {"pc1", P}, {"p", P}, {"q", Q},
    {"qu", QU}, {"ql", QL}, {"w", W}, {"s", 12}, {"(is)", 12}, {"i", 13}, {"(IS)+", 13}, {"d", 14}, {"(is)-", 14}, {"j", 9}, {"hu", 10}, {"HL", 11}, {"0", 0}, {"9", 9}, {"14", 14},
};
enum { NREG = sizeof regs / sizeof *regs };
static int lr_code(int d, int s) {
    static const struct { int d, s, op; } t[] = {
        {A, KU, 0x00}, {A, KL, 0x01}, {A, QU, 0x02}, {A, QL, 0x03}, {KU, A, 0x04}, {KL, A, 0x05}, {QU, A, 0x06}, {QL, A, 0x07}, {K, P, 0x08}, {P, K, 0x09}, {A, IS, 0x0a}, {IS, A, 0x0b},
        {P0, Q, 0x0d}, {Q, DC, 0x0e}, {DC, Q, 0x0f}, {DC, H, 0x10}, {H, DC, 0x11}, {W, 9, 0x1d}, {9, W, 0x1e},
    };
    for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (t[i].d == d && t[i].s == s) return t[i].op;
    if (d == A && s < 15) return 0x40 | s;
    if (s == A && d < 15) return 0x50 | d;
    return -1;
}
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset();
    S(vp_choose("cpuname", 2) ? " processor F8\n org $4000\n" : " processor f8\n org $4000\n");
    if (mode == 0) {
        const struct num *t = &num[vp_choose("in", sizeof num / sizeof *num)];
        int fwd = (int)vp_choose("fwd", 2);
        u64 v = vp_sym("v", 64);
        if (!fwd) s_def("V", v, 64);
        S(" ");
        if (t->name[0] == '*') S("lr V,a"); else { S(t->name); S(" V"); }
        if (t->name[0] == 'b') S(",.+3");
        S("\n");
        if (fwd) s_def("V", v, 64);
        rc = assemble("-f3");
        int ok = t->lim < 0 ? v == 1 || v == 4 : v <= (u64)t->lim;
        if (rc) { vp_check(!ok, "f8: legal operand accepted"); vp_witness("rejected"); return 0; }
        vp_check(ok, "f8: operand outside the field rejected");
        vp_check(OUTLEN == t->size, "f8: length");
        if (t->lim < 0) vp_check(OUT[0] == t->op + (v == 4 ? 2 : 0), "f8: shift");
        else if (t->lim < 255) { vp_check(OUT[0] == (u8)(t->op | v), "f8: short operand"); if (t->size == 2) vp_check(OUT[1] == 2, "f8: displacement"); }
        else {
            vp_check(OUT[0] == t->op, "f8: opcode");
            vp_check(OUT[t->size - 1] == (u8)v, "f8: operand low byte");
            if (t->size == 3) vp_check(OUT[1] == (u8)(v >> 8), "f8: operand high byte");
        }
        vp_witness("accepted");
    } else if (mode == 1) {
        int d = (int)vp_choose("dst", NREG), s = (int)vp_choose("src", NREG), op;
        S(" lr "); S(regs[d].name); S(vp_choose("space", 2) ? " , " : ","); S(regs[s].name); S("\n");
        op = lr_code(regs[d].reg, regs[s].reg);
        rc = assemble("-f3");
        if (op < 0) { vp_check(rc != 0, "f8: impossible transfer rejected"); vp_witness("rejected"); return 0; }
        vp_check(rc == 0, "f8: transfer accepted");
        vp_check(OUTLEN == 1 && OUT[0] == op, "f8: transfer code");
        vp_witness("accepted");
    } else {
        u8 want[256]; int n = 0;
        u64 v = vp_sym("v", 8);
        s_def("V", v, 8);
        for (unsigned i = 0; i < sizeof imp / sizeof *imp; i++) { S(" "); S(imp[i].name); S("\n"); want[n++] = (u8)imp[i].op; }
        for (int k = 16; k < 21; k++)
            for (int i = 0; i < NREG; i++) {
                if (regs[i].reg > 15) continue;
                S(" "); S(num[k].name); S(" "); S(regs[i].name); S("\n");
                want[n++] = (u8)(num[k].op | (unsigned)regs[i].reg);
            }
        S(" res 2,V\n db V,1\n dw V*3\n dd V*5\n");
        want[n++] = (u8)v; want[n++] = (u8)v; want[n++] = (u8)v; want[n++] = 1; want[n++] = (u8)((v * 3) >> 8); want[n++] = (u8)(v * 3);
        want[n++] = 0; want[n++] = 0; want[n++] = (u8)((v * 5) >> 8); want[n++] = (u8)(v * 5);
        rc = assemble("-f3");
        vp_check(rc == 0 && OUTLEN == n, "f8: implied operands accepted");
        check_bytes(OUT, want, n, "f8: bytes");
        vp_witness("accepted");
    }
    return 0;
}
