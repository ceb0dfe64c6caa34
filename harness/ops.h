/* Reference semantics of dasm's operators, from the manual. */
enum { OP_MUL, OP_DIV, OP_MOD, OP_ADD, OP_SUB, OP_SHL, OP_SHR, OP_LT, OP_LE, OP_GT, OP_GE, OP_EQEQ, OP_EQ, OP_NE, OP_AND, OP_XOR, OP_OR, OP_LAND, OP_LOR, OP_Q, NBIN };
static const char *const bin_txt[NBIN] = {"*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "=", "!=", "&", "^", "|", "&&", "||", "?"};
static const int bin_pri[NBIN] = {20, 20, 20, 19, 19, 18, 18, 17, 17, 17, 17, 16, 16, 16, 15, 14, 13, 12, 11, 10};
static int o_fail;              /* set when a division by zero was evaluated */
static i64 bin_eval(int op, i64 a, i64 b) {
    switch (op) {
    case OP_MUL: return (i64)((u64)a * (u64)b);
    case OP_DIV: if (b == 0) { o_fail = 1; return 0; } if (b == -1) return (i64)(0 - (u64)a); return a / b;
    case OP_MOD: if (b == 0) return a; if (b == -1) return 0; return a % b;
    case OP_ADD: return (i64)((u64)a + (u64)b);
    case OP_SUB: return (i64)((u64)a - (u64)b);
    case OP_SHL: vp_assume(b >= 0 & b < 64); return (i64)((u64)a << (b & 63));
    case OP_SHR: vp_assume(b >= 0 & b < 64); return a >> (b & 63);
    case OP_LT: return a < b;
    case OP_LE: return a <= b;
    case OP_GT: return a > b;
    case OP_GE: return a >= b;
    case OP_EQ: case OP_EQEQ: return a == b;
    case OP_NE: return a != b;
    case OP_AND: return a & b;
    case OP_XOR: return a ^ b;
    case OP_OR: return a | b;
    case OP_LAND: return (a != 0) & (b != 0);
    case OP_LOR: return (a != 0) | (b != 0);
    case OP_Q: return a ? b : 0;
    }
    return 0;
}
enum { UN_NEG, UN_INV, UN_NOT, UN_LSB, UN_MSB, NUN };
static const char *const un_txt[NUN] = {"-", "~", "!", "<", ">"};
static i64 un_eval(int op, i64 a) {
    switch (op) {
    case UN_NEG: return (i64)(0 - (u64)a);
    case UN_INV: return ~a;
    case UN_NOT: return a == 0;
    case UN_LSB: return a & 0xff;
    case UN_MSB: return (a >> 8) & 0xff;
    }
    return 0;
}
