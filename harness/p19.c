/* P19: errors always surface.  mode 0: every class of erroneous statement, in every place, format and with -R; mode 1: correct statements in the same places; mode 2: command lines; mode 3: erroneous statements of the other processors. */
#include "h.h"
static const char *const bad[] = {
    " nosuch", " nosuch 5", "lab nosuch", " lda", " lda #", " lda #W", " lda #-W", " sta #5", " dc.b W", " dc.b -W", " dc.b 1+", " dc.b 1 2", " dc.b (1", " dc.b [1", " dc.b 1]", " dc.b 1)", " dc.b \\", " dc.b ,1", " dc.b 1,,2",
    " dc.b \"abc", " include \"nofile\"", " include nofile.inc", " incbin \"nofile\"", " incbin 5", " err", "D = 1\nD = 2", "D = 1\nD equ W", "D nop\nD nop", "D: nop\nD: nop", " dc.b U", " dc.w U+W", " org U", " beq W+$4000", " processor z80", " processor 68hc11",
    " hex 0g", " hex xy", " if U\n endif", " align U", " ds U", " ds 2,U", " repeat U\n repend", " dc.b 1/0", " dc.b W/[W-W]", " jmp.b 5", " mm", " dv NOEQM 1", " dv W 1", " lda (5),x", " lda (W),y", " lda (5,y)", " bbr0 5",
    " rmb0 5", "X eqm 1+\n dc.b X", " dc.b 'ab", " dc.b 1 ! 2", " dc.b 1 = = 2", " dc.b 5 # 6", " ldx 5,x", " sty 5,y", " jmp 5,x", " dc.b .nolocal", " dc.b 9$", " rts 5", " brk #5 6", " lda 5 5", " if [1\n endif", " repeat 1+\n repend", " ds 1+", " org 1+",
    "X = 1+", "X set 1+", " lda.z W", " lda.zx W", " asl.z W", " dc.b 1 */", " incbin \"t.asm\",U", " rec", " ldx #W",
};
static const char *const good[] = {
    " nop", " lda #5", " dc.b 255", " dc.b -255", " dc.w W", "D = W\nD = W", "D set 1\nD set 2", " include \"ok.inc\"", " incbin \"ok.inc\"", " if 0\n err\n endif", " beq .", " hex 0a", " ds 2,3", " align 4", " repeat 0\n err\n repend", " repeat -1\n err\n repend", " mm 5", " echo \"text\",W",
    "X eqm ..+1\n dv X 1,2", " lda.w 5", " dc.b \"; /x\" ; y", " subroutine", "lab", " rorg 5\n rend", " list on", " trace off", " incdir \"foo\"", " processor 6502", " ifconst U\n err\n endif", "X set W\n dc.b <X", " dc.l -1", " end\n err",
};
/* statements that are wrong on the other processors; @ is a free value above 255 */
static const struct { const char *cpu, *st; } other[] = {
    { "68705", " bset 8,5" }, { "68705", " bset @,5" }, { "68705", " brset 8,5,." }, { "68705", " bclr 1,@" }, { "68705", " brclr -1,5,." }, { "68705", " bset 1" }, { "68705", " brset 1,5" }, { "68705", " lda #@" }, { "68705", " bsr @+$200" }, { "68705", " sta #5" }, { "68705", " lda 5,y" },
    { "6803", " ldaa #@" }, { "6803", " oim #1" }, { "6803", " staa #5" }, { "hd6303", " oim #@,5" }, { "hd6303", " oim #1,@" }, { "hd6303", " bra .+@" }, { "hd6303", " staa #5" },
    { "68hc11", " bset 5,@" }, { "68hc11", " bset @,1" }, { "68hc11", " brset 5,1,.+@" }, { "68hc11", " brclr 5,1" }, { "68hc11", " ldaa @,x" }, { "68hc11", " ldaa 5,sp" }, { "68hc11", " staa #5" },
    { "68908", " lda @,y" }, { "68908", " cbeq 5,.+@" }, { "68908", " mov #@,5" }, { "68908", " ais #@" }, { "68908", " bset 8,5" }, { "68908", " ldhx 5,x" }, { "68908", " dbnz 5" }, { "68908", " sta #5" },
    { "f8", " lis 16" }, { "f8", " lis @" }, { "f8", " sl 3" }, { "f8", " sr @" }, { "f8", " bt 8,." }, { "f8", " bf 16,." }, { "f8", " bt @,." }, { "f8", " ins 16" }, { "f8", " outs @" }, { "f8", " lisu 8" }, { "f8", " lisl @" }, { "f8", " li @" }, { "f8", " lr a,b" }, { "f8", " lr w,a" },
    { "f8", " lr 5" }, { "f8", " bt 1" }, { "f8", " bnz .+@" }, { "f8", " jmp $10000+@" }, { "f8", " as 16" }, { "f8", " ds @" }, { "f8", " nosuch" }, { "f8", " dci U" },
    { "65c02", " bbr0 5" }, { "65c02", " bbr0 5,.+@" }, { "65c02", " rmb8 5" }, { "65c02", " bbs0 @,." }, { "65c02", " stz #5" }, { "65c02", " jmp (5,y)" },
};
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    s_reset();
    u64 w = vp_sym("w", 16);
    vp_assume(w > 255 && w < 0x7000);
    if (mode < 2) {
        int nb = mode ? (int)(sizeof good / sizeof *good) : (int)(sizeof bad / sizeof *bad);
        int k = (int)vp_choose("st", (u64)nb), ctx = (int)vp_choose("ctx", 8), f = (int)vp_choose("opt", 6), after = (int)vp_choose("after", 2);
        const char *st = mode ? good[k] : bad[k];
        int multi = strchr(st, '\n') != 0, mac = !strncmp(st, " mm", 3);
        int quote = k == 19 && !mode;
        if (ctx == 7 && !strncmp(st, " end\n", 5)) vp_assume(0);           /* END hides the definition */
        static char inc[256]; int n = 0;
        S(" processor 6502\n mac mm\n dc.b {1}\n endm\n mac rec\n rec\n endm\n"); s_def("W", w, 16); S(" org $100\n dc.b 1\n");
        if (ctx == 6 && (f % 3) == 1) vp_assume(0);
        if (ctx == 2 && (multi || mac)) vp_assume(0);                 /* no definitions or argument braces inside a macro body */
        switch (ctx) {
        case 0: S(st); break;
        case 1: S(" if W\n"); S(st); S("\n else\n dc.b 5\n endif"); break;
        case 2: S(" mac inner\n"); S(st); S("\n endm\n inner"); break;
        case 3: S(" repeat 2\n dc.b 3\n"); S(" if . < $103\n"); S(st); S("\n endif\n repend"); break;
        case 4: S(" include \"bad.inc\""); while (st[n]) { inc[n] = st[n]; n++; } inc[n++] = '\n'; vp_file("bad.inc", inc, n); break;
        case 5: S(" if 0\n err\n else\n if 1\n"); S(st); S("\n endif\n endif"); break;
        case 6: S(" rorg $1000\n"); S(st); S("\n rend"); break;
        case 7: S(" dc.w FWD\n"); S(st); S("\n nop\nFWD = 5"); break;
        }
        if (after) { S("\n nop\n dc.b 7\n"); }
        vp_file("ok.inc", " dc.b 1\n", 8);
        vp_file("t.asm", SRC, SL);
        char *fo = f == 0 ? "-f1" : f == 1 ? "-f2" : f == 2 ? "-f3" : f == 3 ? "-lt.lst" : f == 4 ? "-v0" : "-st.sym";
        int R = f != 4;
        rc = R ? DASM("t.asm", fo, "-ot.bin", "-R") : DASM("t.asm", "-ot.bin", "-E2", fo);
        long len = vp_file_len("t.bin");
        if (mode) {
            vp_check(rc == 0, "status: zero for a correct program");
            vp_check(len >= 0, "status: output present");
            vp_witness("correct");
        } else {
            vp_check(rc != 0, "status: error surfaces");
            if (R) vp_check(len == -1, "status: -R leaves no output file");
            const char *o = vp_stdout();
            int said = strstr(o, "rror") || strstr(o, "bort");
            if (f == 3 && !said && vp_file_len("t.lst") > 0) said = 1;
            vp_check(said, "status: error is reported");
            vp_witness("rejected");
        }
        (void)quote;
    } else if (mode == 3) {
        int k = (int)vp_choose("st", sizeof other / sizeof *other), ctx = (int)vp_choose("ctx", 5), R = (int)vp_choose("R", 2);
        static char line[64]; int n = 0;
        for (const char *q = other[k].st; *q; q++) line[n++] = *q == '@' ? 'W' : *q;
        line[n] = 0;
        S(" processor "); S(other[k].cpu); S("\n"); s_def("W", w, 16); S(" org $100\n dc.b 1\n");
        switch (ctx) {
        case 0: S(line); break;
        case 1: S(" if W\n"); S(line); S("\n endif"); break;
        case 2: S(" mac inner\n"); S(line); S("\n endm\n inner"); break;
        case 3: S(" repeat 2\n"); S(line); S("\n repend"); break;
        case 4: S(" dc.w FWD\n"); S(line); S("\nFWD = 5"); break;
        }
        S("\n nop\n");
        vp_file("t.asm", SRC, SL);
        rc = R ? DASM("t.asm", "-f3", "-ot.bin", "-R") : DASM("t.asm", "-f3", "-ot.bin");
        vp_check(rc != 0, "status: error surfaces");
        if (R) vp_check(vp_file_len("t.bin") == -1, "status: -R leaves no output file");
        vp_check(strstr(vp_stdout(), "rror") || strstr(vp_stdout(), "bort"), "status: error is reported");
        vp_witness("rejected");
    } else {
        /* command line and files: bad options, unreadable source, unwritable output, open macro or comment at the end */
        int k = (int)vp_choose("cmd", 22), R = (int)vp_choose("R", 2);
        S(" processor 6502\n org 0\n dc.b 1\n");
        if (k == 12) S(" mac q\n dc.b 1\n"); else if (k == 13) S(" /* open\n"); else if (k == 14) S(" endm\n"); else if (k == 15) S(" mac q\n dc.b 1\n /*\n endm\n"); else if (k == 21) S(" if 1\n dc.b 2\n");
        vp_file("t.asm", SRC, SL);
        static char *opt[] = { "-f0", "-f4", "-fx", "-T3", "-T-1", "-E3", "-o", "-l", "-s", "-z", "stray", "-m5", "-f1", "-f1", "-f1", "-f1", "-f1", "-lnodir/x", "-f2", "-p1", "-D=", "-f3" };
        char *src = k == 16 ? "none.asm" : "t.asm", *out = k == 18 ? "-onodir/x" : "-ot.bin";
        if (k == 20 || k == 19) vp_assume(0);
        rc = R ? DASM(src, out, "-R", opt[k]) : DASM(src, out, opt[k]);
        if (k == 21) { vp_check(rc == 0, "status: IF may stay open at the end"); return 0; }
        vp_check(rc != 0, "status: error surfaces");
        if (R && k != 10) vp_check(vp_file_len("t.bin") == -1, "status: -R leaves no output file");
        vp_witness("rejected");
    }
    return 0;
}
