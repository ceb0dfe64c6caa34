/* P28: symbol assignments.  mode 0: sequences of SET, EQM and uses; 1: EQU twice; 2: DV; 3: dynamic names; 4: SETSTR and string symbols; 5: EQM inside expressions. */
#include "h.h"
static u64 le32(const u8 *p) { return (u64)p[3] << 24 | (u64)p[2] << 16 | (u64)p[1] << 8 | p[0]; }
static u64 want[40]; static int WN;
static void judge(const char *l) {
    int ok = OUTLEN == 4 * WN;
    vp_check(ok, "assign: output length"); if (!ok) return;
    for (int i = 0; i < WN; i++) vp_check(le32(OUT + 4 * i) == (want[i] & 0xffffffff), l);
}
static void dcl(const char *e, u64 v) { S(" dc.l "); S(e); S("\n"); want[WN++] = v; }
/* reference state: X and Y, Y either a value or one of the EQM expressions */
static u64 X, Y, EK; static int eqm;
static u64 valY(void) { return eqm == 0 ? Y : eqm == 1 ? X + 1 : eqm == 2 ? X * 2 + EK : eqm == 3 ? (X & 15) << 2 : X + X; }
static void step(int i, int op) {
    char nm[3] = { 'V', (char)('a' + i), 0 };
    u64 v = vp_sym(nm, 16);
    switch (op) {
    case 0: s_def(nm, v, 16); S("P1 set "); S(nm); S("\n"); X = v; break;
    case 1: s_def(nm, v, 16); S("P1 SET P1+"); S(nm); S("\n"); X += v; break;
    case 2: S("P2 eqm P1+1\n"); eqm = 1; break;
    case 3: S("P2 eqm P1*2+EK\n"); eqm = 2; break;
    case 4: dcl("P1", X); break;
    case 5: dcl("P2", valY()); break;
    case 6: S("P2 set P1\n"); Y = X; eqm = 0; break;
    case 7: S("P1 set P2\n"); X = valY(); break;
    case 8: S(" if P1 > 100\nP1 set P1-100\n else\nP1 set P1+7\n endif\n"); X = (i64)X > 100 ? X - 100 : X + 7; break;
    case 9: S(" repeat 2\nP1 set P1+P1\n repend\n"); X *= 4; break;
    case 10: S(" mm P1+"); SBIN(v, 8); S("\n"); X += v & 255; break;
    case 11: dcl("[P2*3]-P1", valY() * 3 - X); break;
    case 12: S("P2 EQM [P1&15]<<2\n"); eqm = 3; break;
    case 13: s_def(nm, v, 16); S("Z"); SC('0' + i); S(" = P2+"); S(nm); S("\n"); { char z[3] = { 'Z', (char)('0' + i), 0 }; dcl(z, valY() + v); } break;
    }
}
static const char *const dvx[] = { "..", "..*2", "..+K", "[..+1]*K", "-..", "[..*..]+1", "~..", "G", "..>>1", "5", "..*$1234567+K" };
static u64 dvf(int e, u64 x, u64 k) { switch (e) { case 0: return x; case 1: return x * 2; case 2: return x + k; case 3: return (x + 1) * k; case 4: return 0 - x; case 5: return x * x + 1; case 6: return ~x; case 7: return x * 2 + 3; case 8: return (u64)((i64)x >> 1); case 10: return x * 0x1234567 + k; default: return 5; } }
int harness(void) {
    vp_exact_text = vp_param("mode", 0) == 3;
    int mode = (int)vp_param("mode", 0), rc;
    s_reset(); WN = 0;
    if (mode == 0) {
        int n = (int)vp_param("ops", 4), fw = (int)vp_choose("forward", 2);
        u64 x0 = vp_sym("x0", 16);
        EK = vp_sym("ek", 8);
        S(" processor 6502\n mac mm\nP1 set {1}\n endm\n org 0\n"); s_def("EK", EK, 8);
        S("P1 set "); SBIN(x0, 16); S("\nP2 set 5\n"); X = x0; Y = 5; eqm = 0;
        if (fw) dcl("FWD", 3);
        for (int i = 0; i < n; i++) step(i, (int)vp_choose(i ? "op" : "op0", 14));
        dcl("P1,P2", X); want[WN++] = valY();
        if (fw) S("FWD = 3\n");
        rc = assemble("-f3");
        vp_check(rc == 0, "assign: accepted"); if (rc) return 0;
        judge("assign: latest value"); vp_witness("sequence");
    } else if (mode == 1) {
        u64 a = vp_sym("a", 32), b = vp_sym("b", 32), f = vp_sym("f", 8);
        int w = (int)vp_choose("where", 8), sp = (int)vp_choose("spell", 4), use = (int)vp_choose("use", 3), fm = (int)vp_choose("format", 3);
        static const char *const q[4] = { " = ", " EQU ", " equ ", "=" };
        if (use == 0 && w > 1) vp_assume(0);                  /* otherwise X is only defined later */
        S(" processor 6502\n org 0\n"); s_def("A", a, 32); s_def("B", b, 32); s_def("F", f, 8);
        if (use == 0 || use == 2) dcl("P1", w == 7 ? b : a);
        int both = 1;
        switch (w) {
        case 0: S("P1"); S(q[sp]); S("A\n"); both = 0; break;                                              /* one definition */
        case 1: S("P1"); S(q[sp]); S("A\nP1"); S(q[(sp + 1) & 3]); S("B\n"); break;
        case 2: S("P1"); S(q[sp]); S("A\n mac q\nP1 = B\n endm\n q\n"); break;
        case 3: S("P1"); S(q[sp]); S("A\n if F < 128\nP1 = B\n endif\n"); both = f < 128; break;
        case 4: S("P1"); S(q[sp]); S("A\n repeat 2\nP1 = B\n repend\n"); break;
        case 5: S("P1"); S(q[sp]); S("A\n include \"i.inc\"\n"); vp_file("i.inc", "P1 = B\n", 7); break;
        case 6: S("P1"); S(q[sp]); S("FW1\nP1 = FW2\nFW1 = A\nFW2 = B\n"); break;
        case 7: S(" if F < 128\nP1"); S(q[sp]); S("A\n endif\nP1 = B\n"); both = f < 128; break;
        }
        if (use >= 1) dcl("P1", w == 7 ? b : a);
        rc = assemble(fm == 0 ? "-f1" : fm == 1 ? "-f2" : "-f3");
        if (both && a != b) { vp_check(rc != 0, "assign: second different EQU rejected"); vp_witness("rejected"); return 0; }
        vp_check(rc == 0, "assign: consistent EQU accepted"); if (rc) return 0;
        if (fm == 2) judge("assign: EQU value");
        vp_witness("accepted");
    } else if (mode == 2) {
        int e = (int)vp_choose("expr", 11), sz = (int)vp_choose("size", 4), n = (int)vp_choose("n", 3) + 1, msb = (int)vp_choose("msb", 2), str = (int)vp_choose("str", 2);
        int w = sz == 0 ? 1 : sz == 1 ? 1 : sz == 2 ? 2 : 4;
        u64 x[4], k = vp_sym("k", 4);
        static u8 o[40]; int on = 0, fits = 1;
        S(msb ? " processor 68HC11\n" : " processor 6502\n"); S(" org 0\n"); s_def("K", k, 4); S("G eqm ..*2+3\nQ EQM "); S(dvx[e]); S("\n");
        for (int i = 0; i < n; i++) { char nm[2] = { (char)('a' + i), 0 }; x[i] = vp_sym("x", w == 1 ? 8 : 16); s_def(nm, x[i], w == 1 ? 8 : 16); }
        S(sz == 0 ? " dv Q " : sz == 1 ? " dv.b Q " : sz == 2 ? " dv.w Q " : " dv.l Q ");
        for (int i = 0; i < n + str; i++) {
            u64 v;
            if (i) S(i & 1 ? "," : ", ");
            if (i < n) { SC('a' + i); v = dvf(e, x[i], k); } else { S("\"!\""); v = dvf(e, '!', k); }
            if (i < n && w == 1 && ((i64)v < -255 || (i64)v > 255)) fits = 0;
            if (i < n && w == 2 && ((i64)v < -65535 || (i64)v > 65535)) fits = 0;
            for (int j = 0; j < w; j++) o[on++] = (u8)(v >> 8 * (msb ? w - 1 - j : j));
        }
        S("\n");
        rc = assemble("-f3");
        if (!fits) { if (w == 1) vp_check(rc != 0, "assign: DV result out of range rejected"); vp_witness("range"); return 0; }
        vp_check(rc == 0, "assign: DV accepted"); if (rc) return 0;
        int ok = OUTLEN == on; vp_check(ok, "assign: DV length"); if (!ok) return 0;
        check_bytes(OUT, o, on, "assign: DV value"); vp_witness("dv");
    } else if (mode == 3) {
        /* names built from numbers and strings */
        static const u64 vals[] = { 0, 1, 7, 9, 10, 42, 99, 100, 255, 1000, 32767, 65535 };
        static const char *const txt[] = { "0", "1", "7", "9", "10", "42", "99", "100", "255", "1000", "32767", "65535" };
        int vi = (int)vp_choose("val", 12), form = (int)vp_choose("form", 10), def = (int)vp_choose("def", 5);
        u64 a = vp_sym("a", 16), i = vals[vi];
        char full[64]; int n = 0;
#define N(t) for (const char *t_ = (t); *t_; t_++) full[n++] = *t_; full[n] = 0
        S(" processor 6502\n org 0\n"); s_def("A", a, 16); S("i set "); SN(i); S("\nk = 3\n");
        const char *ref = "";
        switch (form) {
        case 0: ref = "lab,i"; N("lab"); N(txt[vi]); break;
        case 1: ref = "lab,k,i"; N("lab3"); N(txt[vi]); break;
        case 2: ref = "lab,i,k"; N("lab"); N(txt[vi]); N("3"); break;
        case 3: ref = "lab,\"_x\",i"; N("lab_x"); N(txt[vi]); break;
        case 4: ref = "lab,i,\"_y\""; N("lab"); N(txt[vi]); N("_y"); break;
        case 5: ref = "lab,i+0"; N("lab"); N(txt[vi]); break;
        case 6: ref = "q,i*1,k-2"; N("q"); N(txt[vi]); N("1"); break;
        case 7: ref = "l,\"a\",\"b\""; N("lab"); break;
        case 8: ref = "lab,[i&65535]"; N("lab"); N(txt[vi]); break;
        case 9: ref = "lab,k,k"; N("lab33"); break;
        }
        u64 v = a;
        switch (def) {
        case 0: S(ref); S(" = A\n"); break;
        case 1: S(ref); S(" set A\n"); break;
        case 2: S(" dc.l 1\n"); want[WN++] = 1; S(ref); S(" nop\n nop\n nop\n nop\n"); want[WN++] = 0xeaeaeaea; v = 4; break;
        case 3: S(full); S(" = A\n"); break;                       /* plain definition, dynamic use */
        case 4: S(ref); S(" equ A\n"); break;
        }
        S("R set "); S(ref); S("\n"); dcl("R", v); dcl(full, v);
        S("i set i+1\nA2 = A+1\n"); if (def < 2 && form == 0) { S("lab,i = A2\nR set lab,i\n"); dcl("R", a + 1); dcl(full, v); }
        rc = assemble("-f3");
        vp_check(rc == 0, "assign: dynamic name accepted"); if (rc) return 0;
        judge("assign: dynamic name"); vp_witness("dynamic");
    } else if (mode == 5) {
        static const char *const body[] = { "A", "A+1", "A*2+B", "-A", "[A|B]&$f0", "R", "R-1", "A==B", "<A", "A<<1|B", "B-A-1" };
        static const char *const use[] = { "Q", "1+Q", "Q+1", "3*Q", "Q+Q", "[Q]", "-Q", "500-Q-1", "Q-[Q-1]", "2*[Q+3]", "1-Q*2", "A+Q+B", "~Q&255", "Q==Q", "5?Q", "[[Q]*2]+[Q]", "1|2+Q", "B-Q+A-Q" };
        int k = (int)vp_choose("body", 11), u = (int)vp_choose("use", 18), late = (int)vp_choose("late", 2);
        i64 a = (i64)vp_sym("a", 8), b = (i64)vp_sym("b", 8), r = 3 - a, q, v;
        S(" processor 6502\n org 0\n");
        if (!late) { s_def("A", (u64)a, 8); s_def("B", (u64)b, 8); }
        S("R eqm 3-A\nQ eqm "); S(body[k]); S("\n");
        switch (k) { case 0: q = a; break; case 1: q = a + 1; break; case 2: q = a * 2 + b; break; case 3: q = -a; break; case 4: q = (a | b) & 0xf0; break; case 5: q = r; break; case 6: q = r - 1; break; case 7: q = a == b; break; case 8: q = a & 255; break;
        case 9: q = a << 1 | b; break; default: q = b - a - 1; break; }
        switch (u) { case 0: v = q; break; case 1: v = 1 + q; break; case 2: v = q + 1; break; case 3: v = 3 * q; break; case 4: v = q + q; break; case 5: v = q; break; case 6: v = -q; break; case 7: v = 500 - q - 1; break; case 8: v = 1; break;
        case 9: v = 2 * (q + 3); break; case 10: v = 1 - q * 2; break; case 11: v = a + q + b; break; case 12: v = ~q & 255; break; case 13: v = 1; break; case 14: v = q; break; case 15: v = 3 * q; break; case 16: v = 1 | (2 + q); break; default: v = b - q + a - q; break; }
        dcl(use[u], (u64)v);
        if (late) { s_def("A", (u64)a, 8); s_def("B", (u64)b, 8); }
        rc = assemble("-f3");
        vp_check(rc == 0, "assign: EQM in an expression accepted"); if (rc) return 0;
        judge("assign: EQM in an expression"); vp_witness("nested");
    } else if (mode == 6) {
        /* a name whose index is defined further down */
        int def = (int)vp_choose("def", 3), bare = (int)vp_choose("bare", 3), form = (int)vp_choose("form", 4);
        static const char *const ref[] = { "lab,K", "lab,K,\"_\",K", "lab,\"a\",K", "lab,K+1" }, *const full[] = { "lab7", "lab7_7", "laba7", "lab8" };
        static const char *const stem[] = { "lab", "lab_", "laba", "lab" };
        u64 a = vp_sym("a", 16), b = vp_sym("b", 16), v;
        S(" processor 6502\n org 0\n"); s_def("A", a, 16); s_def("B", b, 16);
        if (bare == 1) { S(stem[form]); S(" = B\n"); }
        S(ref[form]);
        switch (def) { case 0: S(" = A\n"); v = a; break; case 1: S(" set A\n"); v = a; break; default: S("\n"); v = 0; break; }
        dcl(full[form], v);
        if (bare) dcl(stem[form], b);
        S("K = 7\n");
        rc = assemble("-f3");
        if (bare == 2) { vp_check(rc != 0, "assign: the stem of a dynamic name stays undefined"); vp_witness("bare"); return 0; }
        vp_check(rc == 0, "assign: dynamic name with a late index accepted"); if (rc) return 0;
        judge("assign: dynamic name with a late index"); vp_witness("late");
    } else if (mode == 7) {        // SETSYM: a symbol named by a string
        int k = vp_choose("arr", 9), late = vp_choose("late", 2);
        u64 v = vp_sym("v", 16), w = vp_sym("w", 16); vp_assume(v < 65000);
        static u8 o[8]; int n = 0;
#define W16(x) (o[n++] = (u8)(x), o[n++] = (u8)((x) >> 8))
        S(" processor 6502\n mac gg\nN setstr {1}\nR setsym N\n dc.w R\n endm\n");
        if (!late) { s_def("V", v, 16); s_def("W", w, 16); }
        S(" org 0\n");
        switch (k) {
        case 0: S("N = \"V\"\nR setsym N\n dc.w R\n"); W16(v); break;
        case 1: S("N setstr V\nR setsym N\n dc.w R,N\n"); W16(v); o[n++] = 'V'; o[n++] = 0; break;
        case 2: S("R setsym \"W\"\n dc.w R\n"); W16(w); break;
        case 3: S("N set \"V+3\"\nR SETSYM N\n dc.w R\n"); W16(v + 3); break;
        case 4: S(" gg V\n gg W\n gg V\n"); W16(v); W16(w); W16(v); break;
        case 5: S("N set \"V\"\nR setsym N\n dc.w R\nN set \"W\"\n dc.w R\nR setsym N\n dc.w R\n"); W16(v); W16(v); W16(w); break;
        case 6: S("R setsym N\n dc.w R\nN = \"W\"\n"); W16(w); break;
        case 7: S("N = 5\nR setsym N\n"); break;
        case 8: S("N = \"H\"\nR setsym N\n dc.w R+1\nH dc.b 1\n"); W16(3); o[n++] = 1; break;
        }
        if (late) { s_def("V", v, 16); s_def("W", w, 16); }
        rc = assemble("-f3");
        if (k == 7) { vp_check(rc != 0, "setsym: a number does not name a symbol"); vp_witness("number"); return 0; }
        vp_check(rc == 0, "setsym: accepted"); if (rc) return 0;
        int ok = OUTLEN == n; vp_check(ok, "setsym: length"); if (!ok) return 0;
        check_bytes(OUT, o, n, "setsym: bytes"); vp_witness("setsym");
    } else {
        int k = (int)vp_choose("case", 9); u64 c = vp_sym("c", 7), d = vp_sym("d", 7);
        static u8 o[40]; int n = 0;
        vp_assume((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_' || c == '+' || c == '!' || c == '<'); vp_assume((d >= 'A' && d <= 'Z') || d == '.' || d == '-');
        S(" processor 6502\n mac ss\nP1 setstr {1}\n dc.b P1\n endm\n org 0\n");
        switch (k) {
        case 0: S("P1 setstr a"); SC((int)c); SC((int)d); S("\n dc.b P1\n"); o[n++] = 'a'; o[n++] = (u8)c; o[n++] = (u8)d; break;
        case 1: S(" ss q"); SC((int)c); SC((int)d); S("\n"); o[n++] = 'q'; o[n++] = (u8)c; o[n++] = (u8)d; break;
        case 2: S("P1 = \""); SC((int)c); SC((int)d); S("\"\n dc.b P1,1,P1\n"); o[n++] = (u8)c; o[n++] = (u8)d; o[n++] = 1; o[n++] = (u8)c; o[n++] = (u8)d; break;
        case 3: S("P1 set \""); SC((int)c); S("\"\nP2 set P1\nP1 set \""); SC((int)d); S("\"\n dc.b P1,P2\n"); o[n++] = (u8)d; o[n++] = (u8)c; break;
        case 4: S("P1 eqm \""); SC((int)c); SC((int)d); S("\"\n dc.b P1\n"); o[n++] = (u8)c; o[n++] = (u8)d; break;
        case 5: S("P1 setstr a"); SC((int)c); S("\nP1 setstr b"); SC((int)d); S("\n dc.b P1\n"); o[n++] = 'b'; o[n++] = (u8)d; break;
        case 6: S("P1 set \""); SC((int)c); SC((int)d); S("\"\n dc.w P1+0\n"); o[n++] = (u8)d; o[n++] = (u8)c; break;
        case 7: S(" dc.w FW\nP1 set \""); SC((int)c); S("\"\n dc.b P1\nP1 set 5\n dc.b P1\nP1 setstr "); S("z"); SC((int)d); S("\n dc.b P1\nFW = $8001\n"); o[n++] = 1; o[n++] = 0x80; o[n++] = (u8)c; o[n++] = 5; o[n++] = 'z'; o[n++] = (u8)d; break;
        case 8: S("P1 = \""); SC((int)c); S("\"\nP1 = \""); SC((int)c); S("\"\n dc.b P1\n"); o[n++] = (u8)c; break;
        }
        rc = assemble("-f3");
        vp_check(rc == 0, "assign: string accepted"); if (rc) return 0;
        int ok = OUTLEN == n; vp_check(ok, "assign: string length"); if (!ok) return 0;
        check_bytes(OUT, o, n, "assign: string bytes"); vp_witness("string");
    }
    return 0;
}
