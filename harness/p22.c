/* P22: ftohex.  The output is parsed record by record; what the records describe is compared with the input. */
#include "h.h"
static u8 IN[90000]; static long IL;
static u8 want[90000]; static u64 wadr[90000]; static u8 wlow[90000]; static int WN;
static const u8 *o; static long ol, op;
static int ok;
static u64 hexd(void) {                               /* one hex digit: free digits are decoded without branching */
    u64 c = op < ol ? o[op] : 0; op++;
    ok &= (int)(c - '0' < 10) | (int)(c - 'A' < 6) | (int)(c - 'a' < 6);
    return (c & 15) + 9 * (c >> 6 & 1);
}
static u64 hexb(void) { u64 h = hexd(); return h << 4 | hexd(); }
static u64 con(u64 v) { return vp_concretize(v); }
static void judge(void) {
    o = vp_file_data("t.hex"); ol = vp_file_len("t.hex"); op = 0;
    vp_check(ol >= 0, "hex: file written"); if (ol < 0) return;
    long k = 0; int end = 0;
    while (op < ol && !end) {
        ok = 1;
        int colon = con(o[op++]) == ':';
        vp_check(colon, "hex: record starts with a colon"); if (!colon) return;
        u64 n = con(hexb()), ah = hexb(), al = hexb(), t = con(hexb()), sum = n + ah + al + t;
        vp_check(t <= 1, "hex: record type"); if (t > 1) return;
        if (t == 1) { vp_check(n == 0, "hex: end record is empty"); end = 1; }
        else vp_check(n > 0, "hex: data record is not empty");
        for (u64 i = 0; i < n; i++, k++) {
            u64 b = hexb();
            int in = k < WN;
            vp_check(in, "hex: no more data than the input has"); if (!in) return;
            vp_check((b & 255) == want[k], "hex: data byte"); sum += want[k];
            if (i == 0) { vp_check((((ah << 8 | al) ^ wadr[k]) & 0xffff) == 0, "hex: record address"); sum += (wadr[k] >> 8) + wadr[k] - ah - al; }
            else vp_check(wlow[k] == 0, "hex: record does not run across a gap");
        }
        u64 c = hexb(); sum += c;
        vp_check((sum & 255) == 0, "hex: checksum");
        vp_check(ok, "hex: digits");
        if (op < ol && con(o[op]) == '\r') op++;
        int nl = op < ol && con(o[op]) == '\n'; op++;
        vp_check(nl, "hex: line end"); if (!nl) return;
    }
    vp_check(end, "hex: end record"); vp_check(op == ol, "hex: nothing after the end record"); vp_check(k == WN, "hex: all data present");
}
static void byte(u64 v) { IN[IL++] = (u8)v; }
static void word(u64 v) { byte(v & 255); byte(v >> 8 & 255); }
/* byte number `pos` is free, the others are fixed */
static void data(u64 org, int n, int pos) {
    for (int i = 0; i < n; i++) { u64 b = i == pos ? vp_sym("b", 8) : (u64)(i * 37 + n * 11 + 200) & 255; byte(b); want[WN] = (u8)b; wadr[WN] = org + (u64)i; wlow[WN] = i == 0; WN++; }
}
/* either the origin or one of the bytes is free: the checksum is a sum, and sums of many free bytes are hard to compare */
static u64 origin(int free) {
    static const u64 o[] = { 0, 0xf1, 0x1ff8, 0xfff5 };
    return free ? vp_sym("org", 16) : o[vp_choose("where", 4)];
}
int harness(void) {
    int mode = (int)vp_param("mode", 0), rc;
    IL = 0; WN = 0;
    char *fm = "1";
    if (mode == 0) {                                   /* origin + data, plain data: every length, every byte free in turn */
        int f = (int)vp_choose("format", 2), n = (int)vp_choose("len0", (u64)vp_param("max", 50)), pos = (int)vp_choose("pos", (u64)n + 1);
        u64 org = 0;
        if (!f) { org = origin(pos == n); word(org); } else fm = "3";
        data(org, n, pos); vp_witness("flat");
    } else if (mode == 1) {                            /* hunks */
        static const int ln[] = { 0, 1, 15, 16, 17, 32, 33, 256 };
        int h = (int)vp_choose("hunks", 4), fr = (int)vp_choose("free", 4); fm = "2";
        for (int i = 0; i < h; i++) { u64 org = fr == i ? vp_sym("org", 16) : (u64)(0x1f1 + 0x4321 * i); int n = ln[vp_choose(i ? "len" : "len0", 8)]; word(org); word((u64)n); data(org, n, fr == 3 ? n - 1 : -1); }
        vp_witness("hunks");
    } else if (mode == 2) {                            /* long files: record counts, addresses beyond 64K */
        static const int ln[] = { 127, 128, 129, 255, 256, 257, 511, 513, 4095, 4096, 65535, 65536, 65537, 70001 };
        int f = (int)vp_choose("format", 3), n = ln[vp_choose("len0", 14)], big = n > 4096;
        u64 org = 0;
        if (f == 2 && n > 65535) vp_assume(0);
        if (f != 1) { org = big ? origin(0) : origin(1); word(org); }
        if (f == 2) { word((u64)n); fm = "2"; } else if (f == 1) fm = "3";
        data(org, n, big ? n - 1 : -1); vp_witness("long");
    } else {                                           /* command lines */
        int k = (int)vp_choose("cmd", 8);
        word(5); byte(1); vp_file("t.in", IN, IL);
        rc = k == 0 ? FTOHEX("0", "t.in", "t.hex") : k == 1 ? FTOHEX("4", "t.in", "t.hex") : k == 2 ? FTOHEX("x", "t.in", "t.hex") : k == 3 ? FTOHEX("1", "none", "t.hex") : k == 4 ? FTOHEX("1", "t.in", "nodir/x")
           : k == 5 ? FTOHEX("1") : k == 6 ? FTOHEX("-1", "t.in", "t.hex") : FTOHEX("1", "t.in", "t.hex");
        if (k == 7) vp_check(rc == 0, "hex: status of a conversion"); else vp_check(rc != 0, "hex: status of a bad command line");
        vp_witness("command");
        return 0;
    }
    vp_file("t.in", IN, IL);
    rc = FTOHEX(fm, "t.in", "t.hex");
    vp_check(rc == 0, "hex: status");
    judge();
    return 0;
}
