/* Native run-time: replays one set of inputs of a harness against the real
 * binaries.  Environment: VP_INPUTS (lines "name value"), VP_PARAMS (lines
 * "name value"), VP_DASM, VP_FTOHEX, VP_DIR (scratch directory), VP_TIMEOUT.
 * Exit: 0 all checks hold, 10 a check failed, 11 assumption not met,
 * 12 crash, 13 no termination, 14 sanitizer report, 15 usage. */
#define _GNU_SOURCE
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>

int vp_exact_text;
static FILE *in;
static void die(int c, const char *k, const char *l) { printf("REPLAY %s %s\n", k, l); fflush(stdout); exit(c); }
static u64 next(const char *name) {
    char b[256]; unsigned long v;
    if (!in || fscanf(in, "%255s %lu", b, &v) != 2) die(15, "INPUT-EXHAUSTED", name);
    if (strcmp(b, name)) die(15, "INPUT-MISMATCH", name);
    printf("input %s = %lu (0x%lx)\n", name, v, v);
    return v;
}
u64 vp_sym(const char *name, int bits) { u64 v = next(name); return bits < 64 ? v & ((1ul << bits) - 1) : v; }
u64 vp_choose(const char *name, u64 n) { return next(name); }
i64 vp_param(const char *name, i64 d) {
    const char *p = getenv("VP_PARAMS"); char b[256]; long v;
    if (!p) return d;
    FILE *f = fopen(p, "r");
    if (!f) return d;
    while (fscanf(f, "%255s %ld", b, &v) == 2) if (!strcmp(b, name)) { d = v; break; }
    fclose(f);
    return d;
}
void vp_assume(int c) { if (!c) die(11, "ASSUMPTION", "not met"); }
void vp_check(int c, const char *l) { if (!c) die(10, "FAIL", l); }
void vp_witness(const char *l) { }
int vp_feasible(int c) { return c ? 2 : 0; }
int vp_is_sym(u64 v) { return 0; }
u64 vp_concretize(u64 v) { return v; }
void vp_dump(const char *n, u64 v) { printf("%s = %lx\n", n, v); }

static const char *dir(void) { return getenv("VP_DIR"); }
static const char *path(const char *n) { static char b[4][2048]; static int k; k = (k + 1) & 3; snprintf(b[k], sizeof b[k], "%s/%s", dir(), n); return b[k]; }
void vp_file(const char *name, const void *data, long len) {
    char *p = strdup(path(name));
    for (char *q = p + strlen(dir()) + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(p, 0700); *q = '/'; }
    FILE *f = fopen(p, "wb");
    if (!f) { perror(p); exit(15); }
    fwrite(data, 1, len, f);
    fclose(f);
    free(p);
}
long vp_file_len(const char *name) { struct stat st; if (stat(path(name), &st) || !S_ISREG(st.st_mode)) return -1; return st.st_size; }
static u8 *slurp(const char *p, long *len) {
    FILE *f = fopen(p, "rb");
    if (!f) return NULL;
    fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
    u8 *d = malloc(n + 1);
    n = fread(d, 1, n, f); d[n] = 0;
    if (len) *len = n;
    fclose(f);
    return d;
}
const u8 *vp_file_data(const char *name) { if (vp_file_len(name) < 0) return NULL; return slurp(path(name), NULL); }
void vp_clear_files(void) { char c[4200]; if (!dir() || strncmp(dir(), "/", 1) || strlen(dir()) < 6) exit(15); snprintf(c, sizeof c, "find '%s' -mindepth 1 -delete", dir()); if (system(c)) exit(15); }
static char *lastout;
const char *vp_stdout(void) { return lastout ? lastout : ""; }
static int run(const char *bin, int argc, char **argv) {
    int tmo = getenv("VP_TIMEOUT") ? atoi(getenv("VP_TIMEOUT")) : 20;
    if (!bin) exit(15);
    printf("run");
    for (int i = 0; i < argc; i++) printf(" '%s'", argv[i]);
    printf("\n");
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        if (chdir(dir())) _exit(126);
        int o = open(".stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(".stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600), z = open("/dev/null", O_RDONLY);
        dup2(o, 1); dup2(e, 2); dup2(z, 0);
        struct rlimit r = {64 << 20, 64 << 20}; setrlimit(RLIMIT_FSIZE, &r);
        r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
        r.rlim_cur = r.rlim_max = tmo; setrlimit(RLIMIT_CPU, &r);
        execv(bin, argv);
        _exit(126);
    }
    int st = 0;
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) {
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p) break;
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec - t0.tv_sec > 3 * tmo) { kill(p, SIGKILL); waitpid(p, &st, 0); die(13, "HANG", "no termination within the time limit"); }
        usleep(500);
    }
    free(lastout);
    lastout = (char *)slurp(path(".stdout"), NULL);
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st); char b[64]; snprintf(b, sizeof b, "signal %d", s);
        if (s == SIGXCPU || s == SIGKILL || s == SIGXFSZ) die(13, "HANG", "no termination within the time or output limit");
        die(12, "CRASH", b);
    }
    int rc = WEXITSTATUS(st);
    if (rc == 126) exit(15);
    if (rc == 77) {
        char *e = (char *)slurp(path(".stderr"), NULL);
        char *q = e ? strstr(e, "ERROR: AddressSanitizer") : NULL;
        if (q) { q[strcspn(q, "\n")] = 0; die(14, "SANITIZER", q); }
    }
    printf("exit status %d\n", rc);
    return rc;
}
int vp_dasm(int argc, char **argv) { return run(getenv("VP_DASM"), argc, argv); }
int vp_ftohex(int argc, char **argv) { return run(getenv("VP_FTOHEX"), argc, argv); }
int main(void) {
    const char *p = getenv("VP_INPUTS");
    if (!p || !dir()) return 15;
    in = fopen(p, "r");
    harness();
    printf("REPLAY OK\n");
    return 0;
}
