/* Memory image a program is expected to produce: (address, byte) pairs in order of generation. */
#include "h.h"
static u64 EA[4096]; static u8 EB[4096]; static int EN;
static inline void img(u64 addr, u64 b) { EA[EN] = addr; EB[EN++] = (u8)b; }
/* format 2 output must be well formed hunks describing exactly that image */
static inline void check_hunks(const char *what) {
    long pos = 0; int k = 0;
    (void)what;
    while (pos < OUTLEN) {
        vp_check(pos + 4 <= OUTLEN, "hunks: complete header");
        u64 org = (u64)OUT[pos] | (u64)OUT[pos + 1] << 8, len = vp_concretize((u64)OUT[pos + 2] | (u64)OUT[pos + 3] << 8);
        pos += 4;
        vp_check(pos + (long)len <= OUTLEN, "hunks: length within file");
        for (u64 i = 0; i < len; i++, k++) {
            vp_check(k < EN, "hunks: no extra bytes");
            vp_check(((org + i) & 0xffff) == (EA[k] & 0xffff), "hunks: address");
            vp_check(OUT[pos + (long)i] == EB[k], "hunks: byte");
        }
        pos += (long)len;
    }
    vp_check(k == EN, "hunks: nothing missing");
}
