/* P02: precedence, associativity, brackets. */
#include "h.h"
#include "ops.h"
/* expression as a token list; reference parser by precedence climbing */
static int tk[64], tn, tp;      /* >=0: binary op, -1..: operand index ~x, 100+u: unary, 200 '[' 201 ']' */
static i64 val[4];
static i64 climb(int min);
static i64 prim(void) {
    int t = tk[tp++];
    if (t >= 100 && t < 200) { i64 v = prim(); return un_eval(t - 100, v); }
    if (t == 200) { i64 v = climb(0); tp++; return v; }
    return val[~t];
}
static i64 climb(int min) {
    i64 l = prim();
    while (tp < tn && tk[tp] >= 0 && tk[tp] < NBIN && bin_pri[tk[tp]] >= min) {
        int op = tk[tp++];
        i64 r = climb(bin_pri[op] + 1);
        l = bin_eval(op, l, r);
    }
    return l;
}
static const char *const names[4] = {"A", "B", "C", "D"};
static void emit(int round) {
    for (int i = 0; i < tn; i++) {
        int t = tk[i];
        if (t < 0) S(names[~t]);
        else if (t == 200) S(round ? "(" : "[");
        else if (t == 201) S(round ? ")" : "]");
        else if (t >= 100) S(un_txt[t - 100]);
        else S(bin_txt[t]);
    }
}
static void T(int t) { tk[tn++] = t; }
/* one operator per precedence level, for runs of three operators */
static const int rep[11] = {OP_MUL, OP_SUB, OP_ADD, OP_SHL, OP_LT, OP_EQEQ, OP_AND, OP_XOR, OP_OR, OP_LAND, OP_LOR};
int harness(void) {
    int mode = (int)vp_param("mode", 0);
    int round = 0;
    for (int i = 0; i < 4; i++) val[i] = (i64)vp_sym(names[i], 6);
    tn = 0; o_fail = 0;
    if (mode == 0) {            /* two binary operators, all bracketings */
        int o1 = (int)vp_choose("o1", NBIN), o2 = (int)vp_choose("o2", NBIN), g = (int)vp_choose("group", 4);
        if (g == 0) { T(~0); T(o1); T(~1); T(o2); T(~2); }
        else if (g == 1) { T(200); T(~0); T(o1); T(~1); T(201); T(o2); T(~2); }
        else { T(~0); T(o1); T(200); T(~1); T(o2); T(~2); T(201); round = g == 3; }
    } else if (mode == 1) {     /* three binary operators, one per level */
        int o1 = rep[vp_choose("o1", 11)], o2 = rep[vp_choose("o2", 11)], o3 = rep[vp_choose("o3", 11)];
        T(~0); T(o1); T(~1); T(o2); T(~2); T(o3); T(~3);
    } else {                    /* unary operators before operands and groups */
        int u1 = (int)vp_choose("u1", NUN), u2 = (int)vp_choose("u2", NUN), o1 = (int)vp_choose("o1", NBIN), g = (int)vp_choose("group", 4);
        if (g < 2 && ((o1 == OP_LT && u2 == UN_LSB) || (o1 == OP_GT && u2 == UN_MSB))) return 0;   /* << and >> are one token */
        if (g == 0) { T(100 + u1); T(~0); T(o1); T(100 + u2); T(~1); }
        else if (g == 1) { T(100 + u1); T(200); T(~0); T(o1); T(100 + u2); T(~1); T(201); }
        else if (g == 2) { T(100 + u1); T(100 + u2); T(~0); T(o1); T(~1); }
        else { T(~0); T(o1); T(200); T(100 + u2); T(~1); T(201); T(OP_ADD); T(100 + u1); T(~2); }
    }
    tp = 0;
    i64 r = climb(0);
    s_reset();
    S(" processor 6502\n org $1000\n");
    for (int i = 0; i < 4; i++) s_def(names[i], val[i], 6);
    S("R = "); emit(round);
    S("\n dc.l R\n dc.l R>>32\n");
    int rc = assemble("-f3");
    if (o_fail) { vp_check(rc != 0, "division by zero is an error"); return 0; }
    vp_check(rc == 0, "precedence: run succeeds");
    vp_check(OUTLEN == 8, "precedence: eight bytes");
    u64 got = 0;
    for (int i = 0; i < 8; i++) got |= (u64)OUT[i] << (8 * i);
    vp_check(got == (u64)r, "precedence: value");
    return 0;
}
