/* P08: an operand that does not fit its field never assembles successfully.
 * Every row is one class of operand field; the operand is any 64-bit value. */
#include "h.h"
enum { BYTE, WORD, BIT, AUTO, BYTE0 };
static const struct row { const char *cpu, *pre, *post; int kind, len, off; } rows[] = {
    {"6502", "lda #", "", BYTE, 2, 1}, {"6502", "lda (", ",x)", BYTE, 2, 1}, {"6502", "lda (", "),y", BYTE, 2, 1}, {"6502", "stx ", ",y", BYTE, 2, 1},
    {"6502", "sty ", ",x", BYTE, 2, 1}, {"6502", "jmp ", "", WORD, 3, 1}, {"6502", "jmp (", ")", WORD, 3, 1}, {"6502", "lda.w ", "", WORD, 3, 1},
    {"6502", "lda.wx ", ",x", WORD, 3, 1}, {"6502", "lda.b ", "", BYTE, 2, 1}, {"6502", "lda.bx ", ",x", BYTE, 2, 1}, {"6502", "lda ", ",y", WORD, 3, 1},
    {"6502", "cpx #", "", BYTE, 2, 1}, {"6502", "lax (", "),y", BYTE, 2, 1},
    {"65c02", "sta (", ")", BYTE, 2, 1}, {"65c02", "jmp (", ",x)", WORD, 3, 1}, {"65c02", "bbr0 ", ",.+3", BYTE, 3, 1}, {"65c02", "rmb3 ", "", BYTE, 2, 1},
    {"65c02", "stz ", ",y", -1, 0, 0},
    {"6803", "ldaa #", "", BYTE, 2, 1}, {"6803", "ldx #", "", WORD, 3, 1}, {"6803", "staa ", ",x", BYTE, 2, 1}, {"6803", "jmp ", "", WORD, 3, 1},
    {"hd6303", "ldaa #", "", BYTE, 2, 1}, {"hd6303", "adcb ", ",x", BYTE, 2, 1},
    {"68705", "lda #", "", BYTE, 2, 1}, {"68705", "bset ", ",5", BIT, 2, 0}, {"68705", "bset 2,", "", BYTE, 2, 1}, {"68705", "brset ", ",5,.+3", BIT, 3, 0},
    {"68705", "brclr 3,", ",.+3", BYTE, 3, 1}, {"68705", "asl ", ",x", BYTE0, 2, 1}, {"68705", "jmp ", "", AUTO, 2, 1},
    {"68hc11", "ldaa #", "", BYTE, 2, 1}, {"68hc11", "ldd #", "", WORD, 3, 1}, {"68hc11", "bset 5,", "", BYTE, 3, 2}, {"68hc11", "bclr ", ",5", BYTE, 3, 1},
    {"68hc11", "brset ", ",1,.+4", BYTE, 4, 1}, {"68hc11", "brset 5,", ",.+4", BYTE, 4, 2}, {"68hc11", "ldaa ", ",y", BYTE, 3, 2},
    {"68908", "lda #", "", BYTE, 2, 1}, {"68908", "bset ", ",5", BIT, 2, 0}, {"68908", "bset 2,", "", BYTE, 2, 1}, {"68908", "brset ", ",5,.+3", BIT, 3, 0},
    {"68908", "brset 3,", ",.+3", BYTE, 3, 1}, {"68908", "ldhx #", "", WORD, 3, 1}, {"68908", "cbeqa ", ",.+3", BYTE, 3, 1},
    {"68908", "lda.w ", ",sp", WORD, 4, 2},
    /* shortest form that holds the value: "len" is the length of the byte form */
    {"6502", "lda ", "", AUTO, 2, 1}, {"6502", "lda ", ",x", AUTO, 2, 1}, {"65c02", "stz ", ",x", AUTO, 2, 1}, {"6803", "ldaa ", "", AUTO, 2, 1}, 
    {"68hc11", "ldaa ", "", AUTO, 2, 1}, {"68705", "lda ", "", AUTO, 2, 1}, {"68705", "lda ", ",x", AUTO, 2, 1}, {"68908", "lda ", ",x", AUTO, 2, 1}, {"68908", "lda ", ",sp", AUTO, 3, 2},
    {"6502", "dc.b ", "", BYTE, 1, 0}, {"6502", "byte 1,", "", BYTE, 2, 1}, {"6502", ".byte ", ",2", BYTE, 2, 0}, {"6502", "dc ", "", BYTE, 1, 0},
    {"6502", "dc.w ", "", WORD, 2, 0}, {"6502", "word ", "", WORD, 2, 0}, {"6502", "dc.s ", "", WORD, 2, 0}, {"6803", "dc.w ", "", WORD, 2, 0}, {"6803", "dc.s 1,", "", WORD, 4, 2},
    {"f8", "db ", "", BYTE, 1, 0}, {"f8", "dw ", "", WORD, 2, 0},
};
int harness(void) {
    const struct row *r = &rows[vp_choose("row", sizeof rows / sizeof *rows)];
    int strict = (int)vp_choose("strict", 2), fwd = (int)vp_choose("fwd", 2);
    i64 v = (i64)vp_sym("v", 64);
    s_reset();
    S(" processor "); S(r->cpu); S("\n org $4000\n");
    if (!fwd) s_def("V", (u64)v, 64);
    S(" "); S(r->pre); S("V"); S(r->post); S("\n");
    if (fwd) s_def("V", (u64)v, 64);
    vp_file("t.asm", SRC, SL);
    int rc = strict ? DASM("t.asm", "-f3", "-ot.bin", "-S") : DASM("t.asm", "-f3", "-ot.bin");
    get_out("t.bin");
    if (r->kind < 0) { vp_check(rc != 0, "field: impossible form rejected"); return 0; }
    int fits = r->kind == BYTE || r->kind == BYTE0 ? v >= -255 && v <= 255 : r->kind == BIT ? v >= 0 && v <= 7 : r->kind == AUTO && v < 0 ? v >= -255 : !strict || (v >= -65535 && v <= 65535);
    if (rc) { vp_check(!fits, "field: value that fits accepted"); vp_witness("rejected"); return 0; }
    vp_check(fits, "field: value that does not fit rejected");
    int kind = r->kind, len = r->len;
    if (kind == BYTE0) { kind = BYTE; if (v == 0) { vp_check(OUTLEN == len - 1, "field: index without offset"); return 0; } }
    if (kind == AUTO) {
        if (v == 0 && OUTLEN == len - 1) return 0;     /* index register without offset */
        kind = v > 255 ? WORD : BYTE; len += v > 255;
    }
    vp_check(OUTLEN == len, "field: length");
    int msb = r->cpu[0] == 'f' || r->cpu[0] == 'h' || r->cpu[1] == '8';
    if (r->pre[0] == 'd' && r->pre[3] == 's') msb = !msb;
    if (kind == BYTE) vp_check(OUT[r->off] == (u8)v, "field: value stored");
    if (kind == WORD) {
        vp_check(OUT[r->off + msb] == (u8)v, "field: low byte stored");
        vp_check(OUT[r->off + !msb] == (u8)(v >> 8), "field: high byte stored");
    }
    vp_witness("accepted");
    return 0;
}
