/* P25: memory safety and termination of every run.  No assertions of its own: the engine reports every access outside an object,
 * division by zero, bad indirect call and run beyond the instruction bound.
 * mode 0: free characters as operand, mnemonic, label or line; 1 and 5: long tokens; 2: free operand values; 3: free
 * option characters; 4: deep nesting and recursion. */
#include "h.h"
#define COUNT(a) ((int)(sizeof(a) / sizeof *(a)))
/* '@' is the free part */
static const char *const ctx[] = {
    " dc.b @\n", " lda @\n", " dc.@\n", " lda.@ 5\n", "@\n", " @\n", "l@ nop\n", " @ 5\n", "L = @\n", "L set @\n", "L eqm @\n dc.b L\n", " dc.w L,@\n",
    " ds @\n", " align @\n", " org @\n", " rorg @\n", " if @\n nop\n endif\n", " repeat @\n nop\n repend\n", " hex @\n", " echo @\n", " include @\n", " incbin @\n",
    " dv e @\n", " dv @\n", " seg @\n", " seg.@\n", " mac @\n nop\n endm\n m1\n", " m1 @\n", " m2 @\n", " m3\n@", " processor @\n", " list @\n", " incdir @\n", " setstr @\n", "L setstr @\n", "L setsym @\n",
    "L,@ = 5\n", "L set x,@\n", " err @\n", " end @\n", " subroutine @\n", " ifconst @\n endif\n", " trace @\n", " eqm @\n", " = @\n", "@ = 5\n", ".@ nop\n dc.b .@\n", "@$ nop\n dc.b 1$\n", " dc.b \"@\"\n", " dc.b '@\n",
    " lda (@\n", " lda (5)@\n", " lda #@\n", " lda 5,@\n", " jmp.@ (5)\n", " mac q\n dc.b {@}\n endm\n q 1,2\n", " dc.b {@}\n", "/*@*/ nop\n", " nop ;@\n", " dc.b $@\n", " dc.b %@\n", " dc.b 0@\n", " bne @\n", " nop@",
    " dc.l 5@3\n", " dc.b [@]\n", " dc.b L@\n", " dc.b -@\n", " if 1\n@\n endif\n", " if 0\n@\n endif\n", " repeat 2\n@\n repend\n", " mac q\n@\n endm\n q\n", " bset @\n", " nop.@\n", " lr a,@\n", " lis @\n", " li @\n", " bf @\n", " lm @\n",
};
static const char *const pre = "e eqm ..+1\n mac m1\n dc.b 7\n endm\n mac m2\n dc.b {1},{2}\n endm\n mac m3\n m1\n endm\n";
static void expand(const char *t, void (*free_part)(void)) { for (; *t; t++) if (*t == '@') free_part(); else SC(*t); }
static int nfree, uses; static u8 fc[8];
static void put_free(void) { for (int i = 0; i < nfree; i++) SC(fc[i]); uses++; }
static int rep; static char repc; static int style;
/* long tokens: of one character, or alternating pairs */
static void put_long(void) {
    static const char *const pat[] = {"a", "1", "(", "[", "-", "1+", "1,", "\"", "{1}", "a,", "a.", ".", "~", "a b ", "$f", "x;", "'a+", "\\\"", "1==", "<"};
    const char *p = pat[style]; int l = (int)strlen(p);
    for (int i = 0; i < rep; i++) SC(p[i % l]);
}
/* long tokens: a free character, or one followed by a fixed one, repeated */
static char suffix;
static void put_rep(void) { for (int i = 0; i < rep; i++) SC(suffix && i % 2 ? suffix : (char)fc[0]); }
static char *const cpu[] = {" processor 6502\n", " processor 68705\n", " processor f8\n", " processor 65c02\n", ""};
static void run(char *opt) {
    vp_file("t.asm", SRC, SL);
    int rc = opt ? DASM("t.asm", "-ot.bin", opt) : DASM("t.asm", "-ot.bin", "-lt.lst", "-st.sym");
    (void)rc;
}
/* operands with a free value: '@' stands for the symbol V; second entry limits V (0 none, else number of bits) */
static const struct { const char *t; int bits; } val[] = {
    {" align @\n nop\n", 4}, {" align @\n nop\n", -4}, {" ds @\n", 4}, {" ds.w @,@\n", 3}, {" ds.l @\n", 3}, {" ds @\n", -1}, {" ds.w @\n", -1}, {" ds.l @\n", -1},
    {" seg.u u\n org 5\n ds @\n", 4}, {" seg.u u\n org 5\n ds @\n", -1}, {" repeat @\n nop\n repend\n", 3}, {" repeat @\n nop\n repend\n", -2}, {" org @\n nop\n", 0}, {" org @,@\n nop\n", 0}, {" rorg @\n nop\nl\n rend\n nop\n", 0},
    {" dc.b @/@\n dc.b 5%@\n", 0}, {" dc.b 5/@\n", 0}, {" dc.l @/[-1]\n", 0}, {" dc.l @%[-1]\n", 0}, {" dc.l 1<<@\n", 0}, {" dc.l @>>@\n", 0}, {" dc.b @,@>>8\n", 0}, {" lda @\n lda @,x\n lda (@),y\n", 0}, {" bne @\n", 0},
    {" incbin \"f\",@\n nop\n", -3}, {" if @\n nop\n endif\n", 0}, {"L,@ = 5\n dc.b L5\n", 8}, {"L set M,@\n", 8}, {" echo @,@d\n", 8}, {" dv.w e @,@\n", 0}, {" dc.l -@,~@,!@,<@,>@\n", 0}, {" dc.b @?1\n dc.b @?\n", 0},
    {" rorg @\n align 8\n nop\n", 4}, {" processor f8\n lis @\n li @\n", 0}, {" processor f8\n lr a,@\n", 0}, {" processor f8\n bf @,@\n", 0}, {" processor f8\n outs @\n ins @\n", 0}, {" processor f8\n dci @\n", 0}, {" processor f8\n sl @\n sr @\n", 0},
    {" processor 68705\n bset @,@\n", 0}, {" processor 68705\n brset @,@,@\n", 0}, {" processor 68908\n lda @,sp\n", 0}, {" processor hd6303\n aim @,@\n", 0}, {" processor 6811\n bset @,@\n ldaa @,y\n", 0}, {" processor 6811\n brset @,@,@\n", 0},
};
static void put_v(void) { S("V"); }
/* free characters in options */
static const char *const optc[] = {"-@", "-D@", "-DV=@", "-DV@=1", "-MV=@", "-M@", "-E@", "-T@", "-f@", "-p@", "-v@", "-d@", "-m@", "-P@", "-S@", "-R@", "-I@", "@"};
static char ob[16];
static void put_opt(const char *t) { int k = 0; for (; *t; t++) if (*t == '@') for (int i = 0; i < nfree; i++) ob[k++] = (char)fc[i]; else ob[k++] = *t; ob[k] = 0; }
/* nesting: opening part, innermost part ('@' a free character), closing part, depths tried */
static const struct { const char *open, *in, *close; } nest[] = {
    {"1+[", "@", "]"}, {"-", "@", ""}, {"[", "@", "]"}, {"1*[-", "@", "]"}, {"1,", "@", ""}, {"1 ", "@", ""}, {"~[", "1@", "]"}, {"(", "@", ")"}, {"1<[", "@]", "]"}, {"1-", "@", ""}, {"[1|", "@", "]"}, {"-[-", "@", "]"},
};
static const struct { const char *open, *in, *close; int max; } nestl[] = {
    {" if 1\n", " dc.b @\n", " endif\n", 40}, {" repeat 1\n", " dc.b @\n", " repend\n", 40}, {" if 1\n", " dc.b @\n", "", 40}, {" repeat 2\n", " dc.b @\n", "", 5}, {"", " dc.b @\n", " endif\n", 3}, {"", " dc.b @\n", " repend\n", 3}, {"", " dc.b @\n", " endm\n", 3},
    {"", " mac r\n r {1}\n endm\n r @\n", "", 1}, {"", " mac r\n r {0},{0}\n endm\n r 1\n dc.b @\n", "", 1}, {" mac q\n", " dc.b @\n", " endm\n", 3}, {"", "x eqm x@\n dc.b x\n", "", 1}, {"", "x eqm y@\ny eqm 1+x\n dc.b x\n", "", 1}, {"", " include \"t.asm\"\n dc.b @\n", "", 1},
    {"", " mac r\n include \"t.asm\"\n endm\n r @\n", "", 1}, {" rorg 5\n", " dc.b @\n", " rend\n", 4}, {" seg a\n", " dc.b @\n", " seg b\n", 4}, {" subroutine\n", ".@ dc.b .@\n", "", 4}, {"", " mac r\n if {1}<40\n r {1}+1\n endif\n endm\n r @\n", "", 1},
    {"", " mac r\n repeat 2\n r @\n repend\n endm\n r\n", "", 1}, {"", " mac r\n endm\n repeat 2\n r @\n", " endm\n repend\n", 1}, {"", " end\n dc.b @\n", "", 1}, {"", " mac r\n end\n endm\n r\n dc.b @\n", "", 1}, {"", " repeat 2\n include \"i.asm\"\n repend\n dc.b @\n", "", 1},
    {" include \"i.asm\"\n", " dc.b @\n", "", 3}, {" if 0\n", "@\n", " else\n", 4}, {" if 1\n", "@\n", " eif\n else\n", 3},
};
static const short depth[] = {1, 31, 32, 33, 65, 2, 64, 15, 16, 17, 30, 40, 62, 63, 70, 130};
static void free_chars(int n) { nfree = n; for (int i = 0; i < n; i++) { char nm[3] = {'c', (char)('0' + i), 0}; fc[i] = (u8)vp_sym(nm, 8); vp_assume(fc[i] != 0); } }
int harness(void) {
    int mode = (int)vp_param("mode", 0);
    s_reset(); uses = 0;
    if (mode == 0) {
        int c = (int)vp_choose("ctx", COUNT(ctx)), p = (int)vp_param("cpu", 0);
        free_chars(1);
        if (vp_param("n", 1) == 2) {   /* two characters: the first any but most letters and digits, the second one that dasm treats specially */
            static const char sec[] = "\"(,1 -[].a{'$%#)*}=;:@x+<?/&|^~!\n\t\r\\";
            u8 c0 = fc[0], l = c0 | 0x20;
            vp_assume(!(l >= 'b' && l <= 'w') & !(c0 >= '2' && c0 <= '9'));
            fc[1] = (u8)sec[vp_choose("second", vp_param("all", 0) ? sizeof sec - 1 : 5)]; nfree = 2;
        }
        if (c == 26) fc[0] = (u8)vp_concretize(fc[0]);   /* becomes a macro name */
        S(cpu[p]); S(pre); expand(ctx[c], put_free);
        run(0);
    } else if (mode == 1) {
        static const short win[][2] = {{1, 2}, {30, 36}, {60, 68}, {124, 132}, {252, 260}, {494, 516}, {1000, 1030}};
        int c = (int)vp_choose("ctx", COUNT(ctx)), w = (int)vp_choose("window", COUNT(win));
        style = (int)vp_choose("style", 20); vp_assume(c != 17 || style != 1);
        rep = win[w][0] + (int)vp_choose("len", (u64)(win[w][1] - win[w][0] + 1));
        S(cpu[0]); S(pre); expand(ctx[c], put_long);
        run(vp_choose("opt", 2) ? "-f3" : 0);
    } else if (mode == 5) {
        static const short len[] = {516, 1019, 129, 65, 257, 1000, 1010};
        int c = (int)vp_choose("ctx", COUNT(ctx)); u8 x;
        suffix = "\0001,"[vp_choose("suffix", 3)]; rep = len[vp_choose("len", vp_param("all", 0) ? COUNT(len) : 2)];
        free_chars(1); x = fc[0];
        vp_assume(!((x | 0x20) >= 'b' && (x | 0x20) <= 'z') & !(x >= '2' && x <= '9'));
        if (!vp_param("all", 0)) vp_assume((x < 127) & (x >= 9) & !((x > 13) & (x < 32)));
        if (c == 17) vp_assume(x != '1' && suffix != '1' && x != '$' && x != '%');   /* a large repeat count is carried out */
        fc[0] = (u8)vp_concretize(x);
        S(cpu[0]); S(pre); expand(ctx[c], put_rep);
        run(0);
    } else if (mode == 2) {
        static char *const fmt[] = {"-f1", "-f2", "-f3"};
        int c = (int)vp_choose("ctx", COUNT(val)), b = val[c].bits; u64 v = vp_sym("v", 64);
        if (b > 0) vp_assume(v >> b == 0);
        if (b == -1 || b == -4) { vp_assume(v < (b == -1 ? 4 : 1)); v |= 1ul << (40 + vp_choose("power", 24)); }
        if (b == -3) { vp_assume(v < 32); v = (v ^ 16) - 16; }
        if (b == -2) vp_assume((i64)v < 0);
        s_def("V", v, 64); if (strncmp(val[c].t, " processor", 10)) S(cpu[0]); S(pre); S(" org 5\n"); expand(val[c].t, put_v);
        vp_file("f", (const u8 *)"abc", 3);
        run(fmt[vp_choose("format", 3)]);
    } else if (mode == 3) {
        int c = (int)vp_choose("ctx", COUNT(optc));
        free_chars(1);
        if (vp_param("n", 1) == 2) { fc[1] = (u8)"1=.x\"-[,$"[vp_choose("second", 9)]; nfree = 2; fc[0] = (u8)vp_concretize(fc[0]); }
        put_opt(optc[c]);
        S(cpu[0]); S(" org 5\n dc.b V\n lda 1,2\n echo V\n include \"missing\"\nV2 = V\n");
        run(ob);
    } else {
        int c = (int)vp_choose("ctx", COUNT(nest) + COUNT(nestl));
        free_chars(1);
        S(cpu[0]); S(pre); S(" org 5\n");
        if (c < COUNT(nest)) {
            int d = depth[vp_choose("depth", vp_param("all", 0) ? COUNT(depth) : c == 10 ? 4 : 5)];
            S(vp_choose("where", 2) ? " lda " : " dc.b ");
            for (int i = 0; i < d; i++) S(nest[c].open);
            expand(nest[c].in, put_free);
            for (int i = 0; i < d; i++) S(nest[c].close);
            S("\n");
        } else {
            c -= COUNT(nest);
            int d = nestl[c].max == 1 ? 1 : 1 + (int)vp_choose("levels", (u64)(vp_param("all", 0) || nestl[c].max < 9 ? nestl[c].max : 9));
            for (int i = 0; i < d; i++) S(nestl[c].open);
            expand(nestl[c].in, put_free);
            for (int i = 0; i < d; i++) S(nestl[c].close);
            vp_file("i.asm", (const u8 *)" repeat 2\n nop\n repend\n if 1\n", 29);
        }
        run(vp_param("all", 0) && vp_choose("opt", 2) ? "-f3" : 0);
    }
    vp_witness("run");
    return 0;
}
