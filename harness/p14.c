/* P14: segments, relocation and uninitialised segments.  Every sequence of directives up to the bound against a model. */
#include "img.h"
struct seg { int made, bss, rel; u64 org, rorg; };
static struct seg sg[3]; static struct seg *cur; static int nl, nsym; static u64 lab[16];
static const char *const nm[] = {"alpha", "beta", "vars"};
static void advance(u64 n) { cur->org += n; if (cur->rel) cur->rorg += n; }
static void out(u64 b) { if (!cur->bss) img(cur->org, b); advance(1); }
static u64 fresh(void) { u64 v = vp_sym("addr", 16); S("A"); SN((unsigned long)nsym++); S(" = "); SBIN(v, 16); S("\n"); return v; }
static void to_seg(int i) {
    int first = !sg[i].made; u64 a = 0;
    if (first) a = fresh();
    S(i == 2 && first ? " seg.u " : i == 2 && (nl & 1) ? " SEG.U " : " seg "); S(nm[i]); S("\n");
    cur = &sg[i];
    if (first) { sg[i].made = 1; sg[i].bss = i == 2; sg[i].org = a; S(" org A"); SN((unsigned long)(nsym - 1)); S("\n"); }
}
static void emit(void) {
    u64 pc = cur->rel ? cur->rorg : cur->org;
    lab[nl] = pc;
    S("L"); SN((unsigned long)nl); S(" dc.w .,L"); SN((unsigned long)nl); S("\n");
    nl++;
    out(pc); out(pc >> 8); out(pc); out(pc >> 8);
}
int harness(void) {
    int depth = (int)vp_param("depth", 4), al = (int)vp_param("align", 0), rc;
    s_reset(); EN = 0; nl = 0; nsym = 0; memset(sg, 0, sizeof sg);
    S(" processor 6502\n");
    int fwd = (int)vp_choose("fwd", 2);
    if (fwd) S(" seg zz\n org $f800\n dc.w L0\n"), EN = 2;   /* forward reference: more passes */
    to_seg(0);
    for (int i = 0; i < depth; i++) {
        u64 a;
        switch (vp_choose(i == 0 ? "first" : "op", al ? 9 : 8)) {
        case 0: emit(); break;
        case 1: S(" ds 3\n"); for (int k = 0; k < 3; k++) out(0); break;
        case 2: to_seg(0); break;
        case 3: to_seg(1); break;
        case 4: to_seg(2); break;
        case 5: a = fresh(); S(" org A"); SN((unsigned long)(nsym - 1)); S("\n"); cur->org = a; break;
        case 6: a = fresh(); S(" rorg A"); SN((unsigned long)(nsym - 1)); S("\n"); cur->rel = 1; cur->rorg = a; break;
        case 7: S(" rend\n"); cur->rel = 0; break;
        case 8: S(" align 4\n"); while ((cur->rel ? cur->rorg : cur->org) & 3) out(0); break;
        }
    }
    emit();
    if (fwd) { EA[0] = 0xf800; EA[1] = 0xf801; EB[0] = (u8)lab[0]; EB[1] = (u8)(lab[0] >> 8); }
    S(" seg tail\n org $f000\n dc.w ");
    for (int i = 0; i < nl; i++) { if (i) S(","); S("L"); SN((unsigned long)i); img(0xf000 + 2 * (u64)i, lab[i]); img(0xf001 + 2 * (u64)i, lab[i] >> 8); }
    S("\n");
    rc = assemble("-f2");
    vp_check(rc == 0, "segments: accepted");
    check_hunks("");
    vp_witness("segments");
    return 0;
}
