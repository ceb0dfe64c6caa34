/* Helpers shared by the harnesses. */
#ifndef H_H
#define H_H
#include "vp.h"
#include <string.h>

static char SRC[65536]; static int SL;
static inline void s_reset(void) { SL = 0; }
static inline void S(const char *t) { while (*t) SRC[SL++] = *t++; }
static inline void SC(int c) { SRC[SL++] = (char)c; }
static inline void SN(unsigned long n) { char b[24]; int i = 24; do { b[--i] = '0' + n % 10; n /= 10; } while (n); while (i < 24) SRC[SL++] = b[i++]; }
/* a number written as a binary literal with one source character per bit */
static inline void SBIN(u64 v, int bits) { SRC[SL++] = '%'; for (int i = bits - 1; i >= 0; i--) SRC[SL++] = (char)('0' | ((v >> i) & 1)); }
/* signed value: two's complement in 64 digits */
static inline void SVAL(u64 v) { SBIN(v, 64); }
static inline void s_def(const char *name, u64 v, int bits) { S(name); S(" = "); SBIN(v, bits); S("\n"); }

#define ARGV(...) ((char *[]){__VA_ARGS__, (char *)0})
#define NARGS(...) ((int)(sizeof((char *[]){__VA_ARGS__}) / sizeof(char *)))
#define DASM(...) vp_dasm(NARGS("dasm", __VA_ARGS__), ARGV("dasm", __VA_ARGS__))
#define FTOHEX(...) vp_ftohex(NARGS("ftohex", __VA_ARGS__), ARGV("ftohex", __VA_ARGS__))

/* output of the last run, zero padded so that an oracle may look past a short file; OUTLEN is -1 when there is none */
static u8 OUTBUF[80000]; static long OUTMAX;
static const u8 *OUT = OUTBUF; static long OUTLEN;
static inline void get_out(const char *name) {
    long n = OUTLEN = vp_file_len(name);
    if (n > (long)sizeof OUTBUF) n = sizeof OUTBUF;
    if (n < 0) n = 0;
    if (n) memcpy(OUTBUF, vp_file_data(name), (size_t)n);
    if (OUTMAX > n) memset(OUTBUF + n, 0, (size_t)(OUTMAX - n));
    OUTMAX = n;
}
/* assemble SRC with one format option */
static inline int assemble(char *fmt) {
    vp_file("t.asm", SRC, SL);
    int rc = DASM("t.asm", fmt, "-ot.bin");
    get_out("t.bin");
    return rc;
}
/* byte-wise comparison, one assertion per byte */
static inline void check_bytes(const u8 *got, const u8 *want, long n, const char *label) {
    for (long i = 0; i < n; i++) {
        if (VP_NATIVE && got[i] != want[i]) { vp_dump("offset", (u64)i); vp_dump("got", got[i]); vp_dump("expected", want[i]); }
        vp_check(got[i] == want[i], label);
    }
}
#endif
