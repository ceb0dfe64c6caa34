/* Harness interface: implemented by the symbolic executor (rt_sym.c + symx)
 * and, for replaying counterexamples against the real binaries, by rt_native.c. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned int u32;
typedef unsigned long u64;
typedef long i64;

/* inputs */
u64 vp_sym(const char *name, int bits);            /* any value of that many bits */
u64 vp_choose(const char *name, u64 n);            /* explores every value 0..n-1 */
i64 vp_param(const char *name, i64 dflt);          /* scenario parameter from the driver */
void vp_assume(int cond);
/* verdicts */
void vp_check(int cond, const char *label);
void vp_witness(const char *label);                /* counted once per finished path */
int vp_feasible(int cond);                         /* 0 no, 1 maybe, 2 must  (native: 0 or 2) */
int vp_is_sym(u64 v);
u64 vp_concretize(u64 v);
void vp_dump(const char *name, u64 v);

/* world: names below "nodir/" can never be opened */
void vp_file(const char *name, const void *data, long len);
long vp_file_len(const char *name);                /* -1 when absent */
const u8 *vp_file_data(const char *name);
void vp_clear_files(void);
int vp_dasm(int argc, char **argv);                /* run dasm's main(); returns exit status */
int vp_ftohex(int argc, char **argv);
const char *vp_stdout(void);                       /* text printed by the last run */
extern int vp_exact_text;                          /* 1: numbers are formatted exactly; 0: symbolic numbers print as "?" */

int harness(void);
#endif
