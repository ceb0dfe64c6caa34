/* P33: the include files of machines/.  mode 0: SLEEP; 1: SET_POINTER; 2: start-up and vertical sync code; 3: Atari registers;
 * 4: BOUNDARY; 5: 68HC11 registers; 6: 68HC908 macros; 7: Channel F.
 * The code the 6502 macros produce is executed by the small processor model below, so only its effect and duration count. */
#include "h.h"
#include "machines.h"
static void load(const char *dir) { for (int i = 0; MACHINE[i].dir; i++) if (!strcmp(MACHINE[i].dir, dir)) vp_file(MACHINE[i].name, MACHINE[i].data, MACHINE[i].len); }
static u64 A, X, Y, SP, cyc, noise; static u64 wa[600], wv[600]; static int WN, known; static int nz, zz; static u8 zp[256];
static void flags(u64 v) { zz = (int)(v & 255); nz = (int)(v >> 7 & 1); }
static void store(u64 a, u64 v) { wa[WN] = a; wv[WN++] = v & 255; if (!vp_is_sym(a) && a < 256) zp[a] = (u8)v; }
static void run6502(long from, long to) {
    long pc = from; WN = 0; cyc = 0; known = 1;
    for (int steps = 0; pc < to && steps < 3000; steps++) {
        u64 b1 = OUT[pc + 1], ab = b1 | (u64)OUT[pc + 2] << 8;
        switch (OUT[pc]) {
        case 0xea: pc++; cyc += 2; break;
        case 0x1a: case 0x3a: case 0x5a: case 0x7a: case 0xda: case 0xfa: pc++; cyc += 2; break;
        case 0x80: case 0x82: case 0x89: case 0xc2: case 0xe2: pc += 2; cyc += 2; break;
        case 0x04: case 0x44: case 0x64: case 0x24: pc += 2; cyc += 3; break;
        case 0x14: case 0x34: case 0x54: case 0x74: case 0xd4: case 0xf4: pc += 2; cyc += 4; break;
        case 0x0c: case 0x2c: pc += 3; cyc += 4; break;
        case 0xc5: case 0xe4: case 0xc4: pc += 2; cyc += 3; break;
        case 0xa9: A = b1; flags(A); pc += 2; cyc += 2; break;
        case 0xa2: X = b1; flags(X); pc += 2; cyc += 2; break;
        case 0xa0: Y = b1; flags(Y); pc += 2; cyc += 2; break;
        case 0x85: store(b1, A); pc += 2; cyc += 3; break;
        case 0x86: store(b1, X); pc += 2; cyc += 3; break;
        case 0x84: store(b1, Y); pc += 2; cyc += 3; break;
        case 0x8d: store(ab, A); pc += 3; cyc += 4; break;
        case 0x8e: store(ab, X); pc += 3; cyc += 4; break;
        case 0x8c: store(ab, Y); pc += 3; cyc += 4; break;
        case 0x95: store(b1 + X & 255, A); pc += 2; cyc += 4; break;
        case 0x4a: A = A >> 1 & 127; flags(A); pc++; cyc += 2; break;
        case 0x0a: A = A << 1 & 255; flags(A); pc++; cyc += 2; break;
        case 0xab: A = X = (A | noise) & b1; flags(A); pc += 2; cyc += 2; break;
        case 0xaa: X = A; flags(X); pc++; cyc += 2; break;
        case 0xa8: Y = A; flags(Y); pc++; cyc += 2; break;
        case 0x8a: A = X; flags(A); pc++; cyc += 2; break;
        case 0x98: A = Y; flags(A); pc++; cyc += 2; break;
        case 0x9a: SP = X; pc++; cyc += 2; break;
        case 0xba: X = SP; flags(X); pc++; cyc += 2; break;
        case 0xca: X = X - 1 & 255; flags(X); pc++; cyc += 2; break;
        case 0xe8: X = X + 1 & 255; flags(X); pc++; cyc += 2; break;
        case 0x88: Y = Y - 1 & 255; flags(Y); pc++; cyc += 2; break;
        case 0xc8: Y = Y + 1 & 255; flags(Y); pc++; cyc += 2; break;
        case 0x48: store(SP, A); SP = SP - 1 & 255; pc++; cyc += 3; break;        /* the stack page is the zero page on this machine */
        case 0x78: case 0xd8: case 0x18: case 0x38: case 0x58: case 0xb8: pc++; cyc += 2; break;
        case 0xd0: case 0xf0: case 0x10: case 0x30: {
            int t = OUT[pc] == 0xd0 ? zz != 0 : OUT[pc] == 0xf0 ? zz == 0 : OUT[pc] == 0x10 ? !nz : nz;
            pc += 2; cyc += 2; if (t) { pc += (long)(signed char)b1; cyc++; } break; }
        case 0x4c: pc = (long)(ab - 0xf000); cyc += 3; break;
        default: known = 0; return;
        }
    }
    if (pc != to) known = 0;
}
static u64 memory(u64 a, u64 v) { for (int i = 0; i < WN; i++) { u64 m = (u64)0 - (u64)(wa[i] == a); v = (v & ~m) | (wv[i] & m); } return v; }
static u8 o[600]; static int on;
static void e1(u64 v) { o[on++] = (u8)v; }
static void e2(u64 v) { e1(v >> 8); e1(v); }
static void judge(const char *label) {
    int okl = OUTLEN == on; vp_check(okl, label); if (!okl) return;
    check_bytes(OUT, o, on, label);
}
static const char *const TIAW[] = { "VSYNC", "VBLANK", "WSYNC", "RSYNC", "NUSIZ0", "NUSIZ1", "COLUP0", "COLUP1", "COLUPF", "COLUBK", "CTRLPF", "REFP0", "REFP1", "PF0", "PF1", "PF2", "RESP0", "RESP1", "RESM0", "RESM1", "RESBL",
    "AUDC0", "AUDC1", "AUDF0", "AUDF1", "AUDV0", "AUDV1", "GRP0", "GRP1", "ENAM0", "ENAM1", "ENABL", "HMP0", "HMP1", "HMM0", "HMM1", "HMBL", "VDELP0", "VDELP1", "VDELBL", "RESMP0", "RESMP1", "HMOVE", "HMCLR", "CXCLR" };
static const char *const TIAR[] = { "CXM0P", "CXM1P", "CXP0FB", "CXP1FB", "CXM0FB", "CXM1FB", "CXBLPF", "CXPPMM", "INPT0", "INPT1", "INPT2", "INPT3", "INPT4", "INPT5" };
struct reg { const char *n; u64 a; };
static const struct reg RIOT[] = { {"SWCHA", 0x280}, {"SWACNT", 0x281}, {"SWCHB", 0x282}, {"SWBCNT", 0x283}, {"INTIM", 0x284}, {"TIMINT", 0x285}, {"TIM1T", 0x294}, {"TIM8T", 0x295}, {"TIM64T", 0x296}, {"T1024T", 0x297},
    {"TIM1I", 0x29c}, {"TIM8I", 0x29d}, {"TIM64I", 0x29e}, {"T1024I", 0x29f} };
static const struct reg MARIA[] = { {"INPTCTRL", 1}, {"VBLANK", 1}, {"INPT0", 8}, {"INPT1", 9}, {"INPT2", 10}, {"INPT3", 11}, {"INPT4", 12}, {"INPT5", 13}, {"AUDC0", 0x15}, {"AUDC1", 0x16}, {"AUDF0", 0x17}, {"AUDF1", 0x18}, {"AUDV0", 0x19}, {"AUDV1", 0x1a},
    {"BACKGRND", 0x20}, {"P0C1", 0x21}, {"P0C2", 0x22}, {"P0C3", 0x23}, {"WSYNC", 0x24}, {"P1C1", 0x25}, {"P1C2", 0x26}, {"P1C3", 0x27}, {"MSTAT", 0x28}, {"P2C1", 0x29}, {"P2C2", 0x2a}, {"P2C3", 0x2b}, {"DPPH", 0x2c}, {"P3C1", 0x2d}, {"P3C2", 0x2e}, {"P3C3", 0x2f},
    {"DPPL", 0x30}, {"P4C1", 0x31}, {"P4C2", 0x32}, {"P4C3", 0x33}, {"CHARBASE", 0x34}, {"CHBASE", 0x34}, {"P5C1", 0x35}, {"P5C2", 0x36}, {"P5C3", 0x37}, {"OFFSET", 0x38}, {"P6C1", 0x39}, {"P6C2", 0x3a}, {"P6C3", 0x3b}, {"CTRL", 0x3c}, {"P7C1", 0x3d}, {"P7C2", 0x3e}, {"P7C3", 0x3f},
    {"SWCHA", 0x280}, {"CTLSWA", 0x281}, {"SWACNT", 0x281}, {"SWCHB", 0x282}, {"CTLSWB", 0x283}, {"SWBCNT", 0x283}, {"INTIM", 0x284}, {"TIM1T", 0x294}, {"TIM8T", 0x295}, {"TIM64T", 0x296}, {"T1024T", 0x297}, {"TIM64TI", 0x29e} };
static const struct reg HC11[] = { {"PORTA", 0}, {"PORTC", 3}, {"PORTB", 4}, {"DDRC", 7}, {"PORTD", 8}, {"DDRD", 9}, {"PORTE", 10}, {"CFORC", 11}, {"OC1M", 12}, {"OC1D", 13}, {"TCNT", 14}, {"TIC1", 0x10}, {"TIC2", 0x12}, {"TIC3", 0x14}, {"TOC1", 0x16}, {"TOC2", 0x18}, {"TOC3", 0x1a},
    {"TOC4", 0x1c}, {"TOC5", 0x1e}, {"TCTL1", 0x20}, {"TCTL2", 0x21}, {"TMSK1", 0x22}, {"TFLG1", 0x23}, {"TMSK2", 0x24}, {"TFLG2", 0x25}, {"PACTL", 0x26}, {"PACNT", 0x27}, {"SPCR", 0x28}, {"BAUD", 0x2b}, {"SCCR1", 0x2c}, {"SCCR2", 0x2d}, {"SCSR", 0x2e}, {"SCDR", 0x2f},
    {"ADCTL", 0x30}, {"ADR1", 0x31}, {"ADR2", 0x32}, {"ADR3", 0x33}, {"ADR4", 0x34}, {"BPROT", 0x35}, {"OPTION", 0x39}, {"HPRIO", 0x3c}, {"CONFIG", 0x3f} };
static void regs(const struct reg *r, int n, u64 base, u64 v) {
    for (int i = 0; i < n; i++) { S(" dc.w "); S(r[i].n); S("+V\n"); u64 a = base + r[i].a + v; o[on++] = (u8)a; o[on++] = (u8)(a >> 8); }
}
#define COUNT(t) ((int)(sizeof t / sizeof *t))
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset(); on = 0;
    if (mode <= 2) {
        int a78 = mode == 2 ? 0 : (int)vp_choose("machine", 2), legal = (int)vp_choose("legal", 2), base = a78 ? 0 : (int)vp_choose("base", 2);
        load(a78 ? "atari7800" : "atari2600");
        S(" processor 6502\n");
        if (legal) S("NO_ILLEGAL_OPCODES = 1\n");
        if (base) S("TIA_BASE_ADDRESS = $40\n");
        S(a78 ? " include \"7800.h\"\n" : " include \"vcs.h\"\n"); S(" include \"macro.h\"\n org $f000\n");
        A = vp_sym("A", 8); X = vp_sym("X", 8); Y = vp_sym("Y", 8); SP = vp_sym("SP", 8); noise = vp_sym("noise", 8);
        u64 a0 = A, x0 = X, y0 = Y, s0 = SP;
        if (mode == 0) {
            u64 n = vp_sym("n", 6);
            s_def("N", n, 6); S(" SLEEP N-2\n"); i64 want = (i64)n - 2;
            int twice = (int)vp_choose("twice", 2); if (twice) S(" SLEEP 7\n");
            rc = assemble("-f3");
            if (want < 2) { vp_check(rc != 0, "machine: SLEEP of less than two cycles rejected"); vp_witness("tooshort"); return 0; }
            vp_check(rc == 0, "machine: SLEEP accepted"); if (rc) return 0;
            run6502(0, OUTLEN); if (!known) return 0;
            vp_check(cyc == (u64)want + (twice ? 7 : 0), "machine: SLEEP takes the requested cycles");
            vp_check((A == a0) & (X == x0) & (Y == y0) & (SP == s0) & (WN == 0), "machine: SLEEP changes nothing"); vp_witness("sleep");
        } else if (mode == 1) {
            u64 p = vp_sym("p", 16), q = vp_sym("q", 16); vp_assume(p < 0xffff);
            s_def("P", p, 16); s_def("Q", q, 16); S(" SET_POINTER P,Q\n");
            rc = assemble("-f3");
            vp_check(rc == 0, "machine: SET_POINTER accepted"); if (rc) return 0;
            run6502(0, OUTLEN); if (!known) return 0;
            vp_check((memory(p, 0x100) == (q & 255)) & (memory(p + 1, 0x100) == q >> 8), "machine: SET_POINTER stores the address"); vp_check(WN == 2, "machine: SET_POINTER stores nothing else"); vp_witness("pointer");
        } else if (vp_choose("which", 2)) {
            S(" CLEAN_START\n");
            rc = assemble("-f3"); vp_check(rc == 0, "machine: CLEAN_START accepted"); if (rc) return 0;
            memset(zp, 0xa5, 256);
            run6502(0, OUTLEN); if (!known) return 0;
            vp_check((A == 0) & (X == 0) & (Y == 0) & (SP == 255), "machine: CLEAN_START registers");
            int z = 0; for (int i = 0; i < 256; i++) z |= zp[i];
            vp_check(z == 0, "machine: CLEAN_START clears the zero page");
            int sei = 0, cld = 0; for (int i = 0; i < OUTLEN; i++) { sei |= OUT[i] == 0x78; cld |= OUT[i] == 0xd8; }
            vp_check(sei & cld, "machine: CLEAN_START flags"); vp_witness("clean");
        } else {
            u64 b = base ? 0x40 : 0;
            S(" VERTICAL_SYNC\n");
            rc = assemble("-f3"); vp_check(rc == 0, "machine: VERTICAL_SYNC accepted"); if (rc) return 0;
            run6502(0, OUTLEN); if (!known) return 0;
            int syncing = 0, lines = 0, first = 1, aligned = 1;
            for (int i = 0; i < WN; i++) {
                if (wa[i] == b + 2) { lines += syncing; first = 0; }
                else if (wa[i] == b) { int s = wv[i] >> 1 & 1; if (s != syncing) aligned &= i > 0 && wa[i - 1] == b + 2; syncing = s; }
                else vp_check(0, "machine: VERTICAL_SYNC writes other registers");
            }
            vp_check(lines == 3 && !syncing && aligned && !first, "machine: VERTICAL_SYNC lasts three lines"); vp_check(A == 0, "machine: VERTICAL_SYNC leaves A zero"); vp_witness("vsync");
        }
    } else if (mode == 3) {
        int k = (int)vp_choose("kind", 4); u64 v = vp_sym("v", 6);
        load(k == 3 ? "atari7800" : "atari2600");
        S(" processor 6502\n"); s_def("V", v, 6);
        u64 w = 0, r = 0;
        if (k == 1) { w = r = vp_sym("base", 16); s_def("TIA_BASE_ADDRESS", w, 16); }
        if (k == 2) { w = vp_sym("wbase", 16); r = vp_sym("rbase", 16); s_def("TIA_BASE_READ_ADDRESS", r, 16); s_def("TIA_BASE_WRITE_ADDRESS", w, 16); }
        S(k == 3 ? " include \"7800.h\"\n" : " include \"vcs.h\"\n"); S(" org $f000\n");
        if (k == 3) regs(MARIA, COUNT(MARIA), 0, v);
        else {
            struct reg t; 
            for (int i = 0; i < COUNT(TIAW); i++) { t.n = TIAW[i]; t.a = (u64)i; regs(&t, 1, w, v); }
            for (int i = 0; i < COUNT(TIAR); i++) { t.n = TIAR[i]; t.a = (u64)i; regs(&t, 1, r, v); }
            regs(RIOT, COUNT(RIOT), 0, v);
        }
        rc = assemble("-f3"); vp_check(rc == 0, "machine: header accepted"); if (rc) return 0;
        judge("machine: register addresses"); vp_witness("registers");
    } else if (mode == 4) {
        static const u64 ns[] = { 1, 2, 3, 5, 7, 16, 100, 128, 255 };
        u64 n = ns[vp_choose("n", 9)], org = vp_sym("org", 16); vp_assume(org < 0xf000);
        load("atari2600");
        S(" processor 6502\n include \"macro.h\"\n org "); SBIN(org, 16); S("\n nop\n BOUNDARY "); SN(n); S("\nhere dc.w here\n");
        rc = assemble("-f3"); vp_check(rc == 0, "machine: BOUNDARY accepted"); if (rc) return 0;
        u64 at = org + 1; int pad = 0;
        while (pad < 256 && (at & 255) % n != 0) { at++; pad++; }
        e1(0xea); for (int i = 0; i < pad; i++) e1(0); e1(at); e1(at >> 8);
        judge("machine: BOUNDARY position"); vp_witness("boundary");
    } else if (mode == 5) {
        static const char *const chip[] = { "68hc11a1.asm", "68hc11e1.asm", "68hc811e2.asm" };
        static const u64 fe[] = { 0xb800, 0xb800, 0x10000 }, re[] = { 255, 511, 255 };
        int k = (int)vp_choose("chip", 3), own = (int)vp_choose("own", 2); u64 b = 0, v = vp_sym("v", 6);
        load("68hc11");
        s_def("V", v, 6);
        if (own) { b = vp_sym("base", 16); s_def("REGBASE", b, 16); }
        S(" include \""); S(chip[k]); S("\"\n org $1000\n");
        for (int i = 0; i < COUNT(HC11); i++) { S(" dc.w "); S(HC11[i].n); S("+V\n"); e2(b + HC11[i].a + v); }
        S(" dc.w RAM_END,FLASH_END-1,"); e2(re[k]); e2(fe[k] - 1);
        for (int i = 0; i < 8; i++) { S("PA"); SC('0' + i); S(","); e2((u64)1 << i); }
        S("V\n"); e2(v);
        rc = assemble("-f3"); vp_check(rc == 0, "machine: header accepted"); if (rc) return 0;
        judge("machine: register addresses"); vp_witness("hc11");
    } else if (mode == 6) {
        static const char *const chip[] = { "mc68hc908jb8.asm", "mc68hc908jk1.asm", "mc68hc908jk3.asm", "mc68hc908mr32.asm" };
        static const u64 ram[] = { 0x40, 0x80, 0x80, 0x60 };
        int k = (int)vp_choose("chip", 4), m = (int)vp_choose("macro", 9), own = (int)vp_choose("own", 2);
        u64 r = vp_sym("r", 16), v = vp_sym("v", 8), d = ram[k];
        load("68hc908");
        s_def("R", r, 16); s_def("W", v, 8); s_def("RB", r & 255, 8);
        if (own) { d = vp_sym("ram", 16); vp_assume(d < 0xf000); s_def("RAM_START", d, 16); }
        S(" include \""); S(chip[k]); S("\"\n org $9000\n");
        switch (m) {
        case 0: S(" store_reg R,#W\n"); if (r > 255) { e1(0xa6); e1(v); e1(0xc7); e2(r); } else { e1(0x6e); e1(v); e1(r); } break;
        case 1: S(" store_reg16 RB,#R\n"); e1(0x45); e2(r); e1(0x35); e1(r); break;
        case 2: S(" set_bits R,#W\n"); e1(0x45); e2(r); e1(0xf6); e1(0xaa); e1(v); e1(0xf7); break;
        case 3: S(" clear_bits R,W\n"); e1(0x45); e2(r); e1(0xf6); e1(0xa4); e1(~v); e1(0xf7); break;
        case 4: S(" and_bits RB,#W\n or_bits RB,#W\n"); e1(0xb6); e1(r); e1(0xa4); e1(v); e1(0xb7); e1(r); e1(0xb6); e1(r); e1(0xaa); e1(v); e1(0xb7); e1(r); break;
        case 5: S(" shake_pin 1,RB\n shake_pin 6,W\n"); e1(0x02); e1(r); e1(4); e1(0x12); e1(r); e1(0x20); e1(2); e1(0x13); e1(r); e1(0x0c); e1(v); e1(4); e1(0x1c); e1(v); e1(0x20); e1(2); e1(0x1d); e1(v); break;
        case 6: S(" busy_loop_delay #W\n busy_loop_delay #W\n"); for (int i = 0; i < 2; i++) { e1(0xa6); e1(v); e1(0x4b); e1(0xfe); } break;
        case 7: S("next_var set RAM_START\n declare_var va,W\n declare_var vb,4\n dc.w va,vb,next_var\n"); e2(d); e2(d + v); e2(d + v + 4); break;
        case 8: S("start nop\n declare_vector start+4,start+R\n"); e1(0x9d); e1(255); e1(255); e1(255); e2(0x9000 + r); break;
        }
        rc = assemble("-f3"); vp_check(rc == 0, "machine: 68HC908 macro accepted"); if (rc) return 0;
        judge("machine: 68HC908 macro"); vp_witness("hc908");
    } else {
        static const struct reg VES[] = { {"BIOS_CLEAR_SCREEN", 0xd0}, {"BIOS_DELAY", 0x8f}, {"BIOS_PUSH_K", 0x107}, {"BIOS_POP_K", 0x11e}, {"BIOS_DRAW_CHARACTER", 0x679}, {"COLOR_RED", 0x40}, {"COLOR_BLUE", 0x80}, {"COLOR_GREEN", 0}, {"COLOR_BACKGROUND", 0xc0},
            {"COLOUR_RED", 0x40}, {"COLOUR_BLUE", 0x80}, {"COLOUR_GREEN", 0}, {"COLOUR_BACKGROUND", 0xc0}, {"clrscrn", 0xd0}, {"delay", 0x8f}, {"pushk", 0x107}, {"popk", 0x11e}, {"drawchar", 0x679}, {"red", 0x40}, {"blue", 0x80}, {"green", 0}, {"bkg", 0xc0} };
        u64 v = vp_sym("v", 6);
        load("channel-f");
        S(" processor f8\n"); s_def("V", v, 6); u64 pr = vp_sym("prompt", 16); s_def("prompt", pr, 16); S(" include \"ves.h\"\n include \"macro.h\"\n org $800\n CARTRIDGE_START\n"); e1(0x55); e1(0x2b);
        for (int i = 0; i < COUNT(VES); i++) { S(" dc.w "); S(VES[i].n); S("+V\n"); e2(VES[i].a + v); }
        S(" PROMPTS_NOT\n dc.w prompts\n");
        u64 at = 0x800 + (u64)on;
        e1(8); e1(0x28); e2(0x107); e1(0x20); e1(0x85); e1(0x50); e1(0x28); e2(pr); e1(0x44); e1(0x25); e1(8); e1(0x94); e1(5); e1(0x28); e2(0x11e); e1(0x0c);
        e1(0x25); e1(2); e1(0x94); e1(-7); e1(0x20); e1(0x8e); e1(0x50); e1(0x28); e2(pr); e1(0x63); e1(0x6e); e1(0x4c); e1(0xc4); e1(0x5c); e1(0x90); e1(-31); e2(at);
        rc = assemble("-f3"); vp_check(rc == 0, "machine: header accepted"); if (rc) return 0;
        judge("machine: Channel F values"); vp_witness("ves");
    }
    return 0;
}
