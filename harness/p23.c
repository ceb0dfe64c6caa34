/* P23: list file.  Every combination of statements (kinds chosen per slot) with free operands and a free origin;
 * each listed line must carry line number, address, generated bytes (first four, '*' when there are more) and source text. */
#include "h.h"
static struct ln { long no; int u; u64 addr; int n; u8 b[24]; int mark, gen; char text[48]; } L[48];
static int NL, lineno;
static u64 pc, rpc; static int inr, inu;
static struct ln *put(const char *text) {           /* source line: expected on the list unless text is 0 */
    lineno++;
    if (!text) return 0;
    struct ln *l = &L[NL++];
    l->no = lineno; l->u = inu; l->addr = pc; l->n = 0; l->mark = 0; l->gen = 0; strcpy(l->text, text);
    return l;
}
static void by(struct ln *l, u64 b) { l->b[l->n++] = (u8)b; l->gen = 1; pc++; }
static u64 V, W; static u8 B;
static void stmt(int kind, int slot) {
    struct ln *l; char nm[4] = {'q', (char)('0' + slot), 0, 0};
    switch (kind) {
    case 0: S(" dc.b B\n"); by(put("dc.b B"), B); break;
    case 1: S(" dc.w V,fwd\n"); l = put("dc.w V,fwd"); by(l, V); by(l, V >> 8); by(l, 0x34); by(l, 0x12); break;
    case 2: S("lab"); S(nm); S("\tdc.b\t1,2,B,4,5 ; note\n"); { static char t[] = "labq0 dc.b 1,2,B,4,5 ; note"; t[4] = nm[1]; l = put(t); } by(l, 1); by(l, 2); by(l, B); by(l, 4); by(l, 5); break;
    case 3: S(" lda V\n"); l = put("lda V"); if (V > 255) { by(l, 0xad); by(l, V); by(l, V >> 8); } else { by(l, 0xa5); by(l, V); } break;
    case 4: S("   LDA   #B;c\n"); l = put("LDA #B ;c"); by(l, 0xa9); by(l, B); break;
    case 5: S(" ds 6,B\n"); l = put("ds 6,B"); for (int i = 0; i < 6; i++) by(l, B); break;
    case 6: S("eq"); S(nm); S(" = W\n"); { static char t[] = "eqq0 = W"; t[3] = nm[1]; l = put(t); } if (W > 0xffff) { l->b[l->n++] = (u8)(W >> 24); l->b[l->n++] = (u8)(W >> 16); } l->b[l->n++] = (u8)(W >> 8); l->b[l->n++] = (u8)W; break;
    case 7: S("lb"); S(nm); S("\n"); { static char t[] = "lbq0"; t[3] = nm[1]; put(t)->gen = 1; } break;
    case 8: S("; only comment\n"); put("; only comment"); break;
    case 9: S("\n"); put(""); break;
    case 10: S(" if B < 9\n inx\n else\n iny\n endif\n"); l = put("if B < 9"); l->mark = B < 9 ? 0 : '-';
        l = put("inx"); if (B < 9) by(l, 0xe8); else l->mark = '-';
        l = put("else"); l->mark = B < 9 ? '-' : 0;
        l = put("iny"); if (B < 9) l->mark = '-'; else by(l, 0xc8);
        put("endif"); break;
    case 11: S(" list off\n dc.b B\n list on\n"); lineno++; lineno++; pc++; put("list on"); break;
    case 12: S(" ds.w 1\n"); l = put("ds.w 1"); by(l, 0); by(l, 0); break;
    case 13: S(" rorg $8000\n dc.w .\n rend\n"); put("rorg $8000"); l = put("dc.w ."); by(l, 0); by(l, 0x80); put("rend"); break;
    case 14: { u64 s = pc; S(" seg.u z\n org $80\n"); lineno++; L[NL].no = -1; NL++; pc = 0x80; inu = 1; put("org $80")->gen = 1; S("v"); S(nm); S(" ds 2\n"); { static char t[] = "vq0 ds 2"; t[2] = nm[1]; l = put(t); } l->n = -1; S(" seg c\n"); inu = 0; pc = s; put("seg c"); break; }
    case 15: S(" mm B\n"); lineno++; L[NL].no = -1; NL++; l = put("inx"); l->no = -2; by(l, 0xe8); l = put("dc.b B"); l->no = -2; by(l, B); lineno -= 2; break;
    case 16: S(" include \"i.inc\"\n"); lineno++; L[NL].no = -3; NL++; L[NL].no = -1; NL++; { int k = lineno; lineno = 0; l = put("iny"); by(l, 0xc8); l = put("dc.b B,7"); by(l, B); by(l, 7); lineno = k; } L[NL].no = -3; NL++; break;
    case 17: { S(" repeat 2\n dc.b B\n repend\n"); put("repeat 2"); l = put("dc.b B"); by(l, B); L[NL].no = -1; NL++; lineno--; l = put("dc.b B"); by(l, B); put("repend"); break; }
    case 18: S(" hex 0102 0304 05\n"); l = put("hex 0102 0304 05"); for (int i = 1; i < 6; i++) by(l, (u64)i); break;
    case 19: S(" bne .+2\n"); l = put("bne .+2"); by(l, 0xd0); by(l, 0); break;
    case 20: S(" dc.l W\n"); l = put("dc.l W"); for (int i = 0; i < 4; i++) by(l, W >> 8 * i); break;
    case 21: S(" incbin \"d.bin\"\n"); l = put("incbin \"d.bin\""); pc += 3; l->n = -1; l->gen = 1; break;
    case 22: S(" list localoff\n dc.b B\n list localon\n"); lineno += 2; pc++; put("list localon"); break;
    case 23: S(" include \"j.inc\"\n"); lineno++; L[NL].no = -3; NL++; L[NL].no = -1; NL++; { int k = lineno; lineno = 0; l = put("iny"); by(l, 0xc8); lineno = k; } pc++; L[NL].no = -3; NL++; break;
    case 24: S(" ml B\n"); lineno++; L[NL].no = -1; NL++; l = put("inx"); l->no = -2; by(l, 0xe8); pc++; lineno--; break;
    case 25: S(" LIST OFF\n ml B\n LIST LOCALON\n nop\n LIST ON\n"); lineno += 4; pc += 3; put("LIST ON"); break;
    case 26: S(" dc.b \"x;  y\",'z\n"); l = put("dc.b \"x;\1\1y\",'z"); by(l, 'x'); by(l, ';'); by(l, ' '); by(l, ' '); by(l, 'y'); by(l, 'z'); break;
    }
}
enum { KINDS = 27 };
static const u8 *D; static long DL, P;
static int blank(u8 c) { return c == ' ' || c == '\t'; }
static void skip(void) { while (P < DL && blank(D[P])) P++; }
static u64 hexs(int *n) { u64 v = 0; *n = 0; while (P < DL && !blank(D[P]) && D[P] != '\n') { u64 c = D[P++]; v = v << 4 | ((c & 15) + 9 * (c >> 6)); ++*n; } return v; }
static int eol(void) { while (P < DL && D[P] != '\n') P++; if (P >= DL) return 0; P++; return 1; }
int harness(void) {
    int slots = (int)vp_param("slots", 2), all = (int)vp_choose("all", 2);
    static int k[4];
    for (int i = 0; i < slots; i++) k[i] = (int)vp_choose(i == 0 ? "k0" : i == 1 ? "k1" : "k2", KINDS);
    u64 org = vp_sym("org", 17);
    vp_exact_text = 1;
    vp_assume(org >= 0x100 && org < 0x1fff0);
    V = vp_sym("v", 16); W = vp_sym("w", 32); B = (u8)vp_sym("b", 8);
    s_reset(); NL = 0; lineno = 0; pc = 0; inu = 0; inr = 0;
    S(" processor 6502\n list off\n mac mm\n inx\n dc.b {1}\n endm\n mac ml\n inx\n list localoff\n dc.b {1}\n endm\n"); lineno = 11;
    s_def("V", V, 16); s_def("W", W, 32); s_def("B", B, 8); lineno += 3;
    S(" list on\n seg c\n"); lineno += 2;
    S(" org "); SBIN(org, 17); S("\n"); lineno++; pc = org;
    int skiplines = 4;
    for (int i = 0; i < slots; i++) stmt(k[i], i);
    S("fwd = $1234\n");
    vp_file("i.inc", " iny\n dc.b B,7\n", 15); vp_file("j.inc", " iny\n list localoff\n dc.b B\n", 28); vp_file("d.bin", "abc", 3);
    vp_file("t.asm", SRC, SL);
    int rc = DASM("t.asm", "-f3", "-ot.bin", all ? "-Lt.lst" : "-lt.lst");
    vp_check(rc == 0, "listing: accepted"); if (rc) return 0;
    D = vp_file_data("t.lst"); DL = vp_file_len("t.lst"); P = 0;
    if (all) {                                      /* the last pass is the last part */
        long last = 0;
        for (long i = 0; i + 9 < DL; i++) if ((i == 0 || D[i - 1] == '\n') && D[i] == '-' && !memcmp(D + i, "------- FILE t.asm LEVEL", 24)) last = i;
        P = last;
    }
    vp_check(DL > P && !memcmp(D + P, "------- FILE t.asm", 18), "listing: title"); eol();
    for (int i = 0; i < skiplines; i++) vp_check(eol(), "listing: complete");
    for (int i = 0; i < NL; i++) {
        struct ln *l = &L[i];
        int n;
        if (l->no == -1) { vp_check(eol(), "listing: complete"); continue; }
        if (l->no == -3) { vp_check(P < DL && D[P] == '-', "listing: file title"); eol(); continue; }
        skip();
        u64 no = 0; n = 0;
        while (P < DL && D[P] >= '0' && D[P] <= '9') { no = no * 10 + (u64)(D[P++] - '0'); n++; }
        vp_check(n > 0, "listing: number");
        if (l->no >= 0) vp_check(no == (u64)l->no, "listing: line number");
        skip();
        int u = P < DL && D[P] == 'U'; if (u) P++;
        vp_check(u == l->u, "listing: uninitialised mark");
        u64 a = hexs(&n);
        vp_check(n >= 4, "listing: address shown"); if (l->gen) vp_check(a == l->addr, "listing: address");   /* other lines show the address of an earlier statement */
        skip();
        int nb = l->n > 4 ? 4 : l->n;
        if (l->n < 0) { vp_check(eol(), "listing: complete"); continue; }
        for (int j = 0; j < nb; j++) {
            int ok = P + 2 < DL; vp_check(ok, "listing: bytes shown"); if (!ok) return 0;
            u64 x = D[P], y = D[P + 1]; P += 2;
            vp_check(((((x & 15) + 9 * (x >> 6)) << 4) | ((y & 15) + 9 * (y >> 6))) == l->b[j], "listing: byte");
            if (l->n > 4 && j == 3) { vp_check(D[P] == '*', "listing: more bytes mark"); P++; }
            else vp_check(blank(D[P]) || D[P] == '\n', "listing: byte separated");
            skip();
        }
        if (l->mark) { vp_check(D[P] == (u8)l->mark, "listing: skipped mark"); P++; skip(); }
        const char *t = l->text;
        while (*t) {
            if (*t == ' ') { vp_check(P < DL && blank(D[P]), "listing: text"); skip(); t++; continue; }
            int ok = P < DL && D[P] == (u8)(*t == 1 ? ' ' : *t); vp_check(ok, "listing: text"); if (!ok) return 0;
            P++; t++;
        }
        skip();
        vp_check(P < DL && D[P] == '\n', "listing: end of line"); P++;
    }
    vp_check(eol(), "listing: last line"); vp_check(P == DL, "listing: nothing else");
    vp_witness("listed");
    return 0;
}
