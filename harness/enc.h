/* Encoding rules shared by the instruction harnesses. */
#include "h.h"
#include "isa.h"

struct cpu { const char *name; const struct ins *t; int n; const struct ins *t2; int n2; int msb, zpind, uc; };
static const struct cpu cpus[] = {
    {"6502", isa_6502, COUNT(isa_6502), 0, 0, 0, 0, 0},
    {"65c02", isa_65c02, COUNT(isa_65c02), 0, 0, 0, 1, 0},
    {"6803", isa_6803, COUNT(isa_6803), 0, 0, 1, 0, 0},
    {"hd6303", isa_6803, COUNT(isa_6803), isa_hd6303, COUNT(isa_hd6303), 1, 0, 0},
    {"68705", isa_68705, COUNT(isa_68705), 0, 0, 1, 0, 1},
    {"68hc11", isa_68hc11, COUNT(isa_68hc11), 0, 0, 1, 0, 1},
    {"68908", isa_68908, COUNT(isa_68908), 0, 0, 1, 0, 1},
};
static const struct ins *ins_at(const struct cpu *c, int i) { return i < c->n ? &c->t[i] : &c->t2[i - c->n]; }

/* operand syntaxes, and for each the operand forms it may stand for, shortest first */
enum { F_NONE, F_IMM, F_V, F_X, F_Y, F_IND, F_INDX, F_INDY, F_SP, F_CX, F_CY, F_UX, F_UY, F_USP, NFORM };
static const signed char cand[NFORM][4] = {
    {M_IMP, -1}, {M_IMM8, M_IMM16, -1}, {M_Z, M_W, -1}, {M_0X, M_ZX, M_WX, -1}, {M_0Y, M_ZY, M_WY, -1},
    {M_INDZ, M_INDW, -1}, {M_INDX, M_INDWX, -1}, {M_INDY, -1}, {M_ZSP, M_WSP, -1}, {M_0X, M_ZX, M_WX, -1}, {M_0Y, M_ZY, M_WY, -1},
    {M_ZX, M_WX, -1}, {M_ZY, M_WY, -1}, {M_ZSP, M_WSP, -1},
};
static const int mode_size[NMODE] = {0, 1, 2, 1, 1, 1, 2, 2, 2, 0, 1, 1, 1, 2, 2, 1, 0, 0, 1, 1, 1, 2};

static unsigned opcode_of(const struct ins *in, int mode, int *has) {
    for (int i = 0; i < in->n; i++) if (in->m[i].mode == mode) { *has = 1; return in->m[i].op; }
    *has = 0;
    return 0;
}
static int form_ok(const struct cpu *c, int f) {
    if (f >= F_UX && !c->uc) return 0;
    return 1;
}
/* the mode the operand v takes in that syntax, or -1 when there is none */
static int select_mode(const struct ins *in, int f, i64 v) {
    int has;
    if (f == F_CX || f == F_CY) v = 0;
    for (int i = 0; cand[f][i] >= 0; i++) {
        int m = cand[f][i];
        opcode_of(in, m, &has);
        if (!has) continue;
        if ((m == M_0X || m == M_0Y) && v != 0) continue;
        if (mode_size[m] == 1 && v > 255) continue;
        return m;
    }
    return -1;
}
static void s_form(int f, const char *v) {
    switch (f) {
    case F_NONE: break;
    case F_IMM: S("#"); S(v); break;
    case F_V: S(v); break;
    case F_X: S(v); S(",x"); break;
    case F_Y: S(v); S(",y"); break;
    case F_IND: S("("); S(v); S(")"); break;
    case F_INDX: S("("); S(v); S(",x)"); break;
    case F_INDY: S("("); S(v); S("),y"); break;
    case F_SP: S(v); S(",sp"); break;
    case F_CX: S(",x"); break;
    case F_CY: S(",y"); break;
    case F_UX: S("[x+"); S(v); S("]"); break;
    case F_UY: S("[y+"); S(v); S("]"); break;
    case F_USP: S("[sp+"); S(v); S("]"); break;
    }
}
static u8 EXP[8192]; static int EL;
static void e1(u64 b) { EXP[EL++] = (u8)b; }
static void e_op(unsigned op) { if (op > 0xff) e1(op >> 8); e1(op); }
static void e_val(int size, u64 v, int msb) {
    if (size == 1) e1(v);
    if (size == 2) { if (msb) { e1(v >> 8); e1(v); } else { e1(v); e1(v >> 8); } }
}
