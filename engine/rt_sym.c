/* Run-time for symbolic execution: a small C library over a virtual file
 * system.  Compiled to LLVM IR and executed by symx together with dasm. */
#include "vp.h"
#include <stdarg.h>

typedef unsigned long size_t_;
#define NULL ((void *)0)
void *malloc(size_t); void free(void *);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t);
size_t strlen(const char *);
void vp_exit(int); int vp_call_main(void *, int, char **); void vp_reset(void);
size_t vp_msize(void *); int vp_readable(const void *); void vp_abort(void);

/* ------------------------------------------------------------ strings */
__attribute__((noinline)) size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((noinline)) char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *stpcpy(char *d, const char *s) { strcpy(d, s); return d + strlen(d); }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
    char *p = d + strlen(d); size_t i = 0;
    for (; i < n && s[i]; i++) p[i] = s[i];
    p[i] = 0; return d;
}
static int lower(int c) { return c + (((unsigned)(c - 'A') < 26u) << 5); }
/* comparison without a path per character: the result is one expression */
static int cmpgen(const u8 *a, const u8 *b, size_t n, int fold, int nul) {
    int r = 0, decided = 0;
    for (size_t i = 0; i < n; i++) {
        if (!vp_readable(a + i) || !vp_readable(b + i)) {
            if (decided) return r;          /* forks when undecided */
        }
        int x = a[i], y = b[i];
        if (fold) { x = lower(x); y = lower(y); }
        if (!vp_is_sym(x) && !vp_is_sym(y)) {
            if (x == y) { if (nul && !x) return r; continue; }
            if (!vp_is_sym(decided)) return decided ? r : x - y;
            return decided ? r : x - y;
        }
        int d = x != y;
        r = decided ? r : x - y;
        decided |= d;
        if (!vp_is_sym(decided) && decided) return r;
        if (nul) {
            /* when one side is known to end here, the comparison ends */
            if (!vp_is_sym(x) && !x) return r;
            if (!vp_is_sym(y) && !y) return r;
            if (vp_is_sym(x) && vp_is_sym(y) && vp_feasible((x | y) == 0)) { if (x == 0 && y == 0) return r; }
        }
    }
    return r;
}
int strcmp(const char *a, const char *b) { return cmpgen((const u8 *)a, (const u8 *)b, (size_t)-1, 0, 1); }
int strncmp(const char *a, const char *b, size_t n) { return cmpgen((const u8 *)a, (const u8 *)b, n, 0, 1); }
int strcasecmp(const char *a, const char *b) { return cmpgen((const u8 *)a, (const u8 *)b, (size_t)-1, 1, 1); }
int strncasecmp(const char *a, const char *b, size_t n) { return cmpgen((const u8 *)a, (const u8 *)b, n, 1, 1); }
int memcmp(const void *a, const void *b, size_t n) { return cmpgen(a, b, n, 0, 0); }
int bcmp(const void *a, const void *b, size_t n) { return cmpgen(a, b, n, 0, 0); }
void *memchr(const void *s, int c, size_t n) { const u8 *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (u8)c) return (void *)(p + i); return NULL; }
char *strchr(const char *s, int c) {
    for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; }
}
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *index(const char *s, int c) { return strchr(s, c); }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) {
    size_t l = strlen(n);
    for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; }
}
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char *strtok_r(char *s, const char *d, char **save) {
    if (!s) s = *save;
    if (!s) return NULL;
    s += strspn(s, d);
    if (!*s) { *save = NULL; return NULL; }
    char *e = s + strcspn(s, d);
    if (*e) { *e = 0; *save = e + 1; } else *save = NULL;
    return s;
}
char *__strtok_r(char *s, const char *d, char **save) { return strtok_r(s, d, save); }
char *strtok(char *s, const char *d) { static char *save; return strtok_r(s, d, &save); }
char *strsep(char **sp, const char *d) {
    char *s = *sp;
    if (!s) return NULL;
    char *e = s + strcspn(s, d);
    if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL;
    return s;
}
char *rindex(const char *s, int c) { return strrchr(s, c); }
void *memrchr(const void *s, int c, size_t n) { const u8 *p = s; while (n--) if (p[n] == (u8)c) return (void *)(p + n); return NULL; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { u8 *p = d; const u8 *q = s; for (size_t i = 0; i < n; i++) if ((p[i] = q[i]) == (u8)c) return p + i + 1; return NULL; }
void *rawmemchr(const void *s, int c) { const u8 *p = s; while (*p != (u8)c) p++; return (void *)p; }
void bzero(void *d, size_t n) { memset(d, 0, n); }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t m = l < n - 1 ? l : n - 1; memcpy(d, s, m); d[m] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); return l == n ? n + strlen(s) : l + strlcpy(d + l, s, n - l); }
char *stpncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); strncpy(d, s, n); return d + l; }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncasecmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
char *strerror(int e) { return e == 2 ? "No such file or directory" : e ? "Unknown error" : "Success"; }
void *calloc(size_t a, size_t b) { void *p = malloc(a * b); memset(p, 0, a * b); return p; }
void *aligned_alloc(size_t a, size_t n) { return malloc(n); }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    size_t o = vp_msize(p);
    void *q = malloc(n);
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
#define IN(c, a, b) ((unsigned)((c) - (a)) <= (unsigned)((b) - (a)))
int isdigit(int c) { return IN(c, '0', '9'); }
int isupper(int c) { return IN(c, 'A', 'Z'); }
int islower(int c) { return IN(c, 'a', 'z'); }
int isalpha(int c) { return IN(c | 32, 'a', 'z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | IN(c | 32, 'a', 'f'); }
int isspace(int c) { return (c == ' ') | IN(c, 9, 13); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isprint(int c) { return IN(c, 32, 126); }
int isgraph(int c) { return IN(c, 33, 126); }
int iscntrl(int c) { return IN(c, 0, 31) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return lower(c); }
int toupper(int c) { return c - (((unsigned)(c - 'a') < 26u) << 5); }
static unsigned short ctab[384]; static const unsigned short *ctabp; static int ltab[384]; static const int *ltabp; static int utab[384]; static const int *utabp;
static void ctinit(void) {
    if (ctabp) return;
    for (int c = -128; c < 256; c++) {
        unsigned short m = 0;
        if (c >= 0 && c < 128) {
            if (isupper(c)) m |= 1 << 8;
            if (islower(c)) m |= 1 << 9;
            if (isalpha(c)) m |= 1 << 10;
            if (isdigit(c)) m |= 1 << 11;
            if (isxdigit(c)) m |= 1 << 12;
            if (isspace(c)) m |= 1 << 13;
            if (isprint(c)) m |= 1 << 14;
            if (isgraph(c)) m |= 1 << 15;
            if (isblank(c)) m |= 1 << 0;
            if (iscntrl(c)) m |= 1 << 1;
            if (ispunct(c)) m |= 1 << 2;
            if (isalnum(c)) m |= 1 << 3;
        }
        ctab[c + 128] = m;
        ltab[c + 128] = c >= 0 && c < 128 ? lower(c) : c;
        utab[c + 128] = c >= 0 && c < 128 ? toupper(c) : c;
    }
    ctabp = ctab + 128; ltabp = ltab + 128; utabp = utab + 128;
}
const unsigned short **__ctype_b_loc(void) { ctinit(); return &ctabp; }
const int **__ctype_tolower_loc(void) { ctinit(); return &ltabp; }
const int **__ctype_toupper_loc(void) { ctinit(); return &utabp; }
static int errno_; int *__errno_location(void) { return &errno_; }
static unsigned long strtox(const char *s, char **e, int base, int *neg) {
    const char *p = s;
    while (isspace(*p)) p++;
    *neg = 0;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit(p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; int any = 0;
    for (;; p++) {
        int d;
        if (isdigit(*p)) d = *p - '0'; else if (isalpha(*p)) d = (*p | 32) - 'a' + 10; else break;
        if (d >= base) break;
        v = v * base + d; any = 1;
    }
    if (e) *e = (char *)(any ? p : s);
    return v;
}
long strtol(const char *s, char **e, int base) { int n; unsigned long v = strtox(s, e, base, &n); return n ? -(long)v : (long)v; }
unsigned long strtoul(const char *s, char **e, int base) { int n; unsigned long v = strtox(s, e, base, &n); return n ? -v : v; }
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long __isoc23_strtol(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long __isoc23_strtoul(const char *s, char **e, int base) { return strtoul(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
long long __isoc23_strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long long atoll(const char *s) { return strtol(s, NULL, 10); }
long long llabs(long long x) { return x < 0 ? -x : x; }
int isascii(int c) { return (unsigned)c < 128; }
int toascii(int c) { return c & 127; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    char *b = base, *t = malloc(sz ? sz : 1);
    for (size_t i = 1; i < n; i++) {
        size_t j = i;
        memcpy(t, b + i * sz, sz);
        while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); j--; }
        memcpy(b + j * sz, t, sz);
    }
    free(t);
}
void *bsearch(const void *k, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    const char *b = base;
    while (n) { size_t m = n / 2; int c = cmp(k, b + m * sz); if (!c) return (void *)(b + m * sz); if (c > 0) { b += (m + 1) * sz; n -= m + 1; } else n = m; }
    return NULL;
}
typedef struct { int quot, rem; } div_t; typedef struct { long quot, rem; } ldiv_t;
div_t div(int a, int b) { div_t r = {a / b, a % b}; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r = {a / b, a % b}; return r; }
ldiv_t lldiv(long a, long b) { return ldiv(a, b); }
long strtoimax(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long strtoumax(const char *s, char **e, int base) { return strtoul(s, e, base); }
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
char *setlocale(int c, const char *l) { return "C"; }
void *signal(int n, void *h) { return NULL; }
char *basename(const char *s) { char *p = strrchr(s, '/'); return p ? p + 1 : (char *)s; }
char *__xpg_basename(char *s) { return basename(s); }
int ffs(int v) { for (int i = 0; i < 32; i++) if (v >> i & 1) return i + 1; return 0; }
static int white(int c) { return c == ' ' || c == 9 || c == 10 || c == 11 || c == 12 || c == 13; }
static int vsscanf_(const char *s, const char *f, __builtin_va_list ap) {
    const char *s0 = s; int n = 0;
    for (; *f; f++) {
        if (white(*f)) { while (white(*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return *s || n ? n : -1; s++; continue; }
        f++;
        if (*f == '%') { while (white(*s)) s++; if (*s != '%') return n; s++; continue; }
        int sup = 0, w = 0, l = 0;
        if (*f == '*') { sup = 1; f++; }
        while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
        while (*f == 'l' || *f == 'z' || *f == 'j') { l = 1; f++; }
        while (*f == 'h') { l--; f++; }
        if (*f == 'n') { *__builtin_va_arg(ap, int *) = (int)(s - s0); continue; }
        if (*f != 'c' && *f != '[') while (white(*s)) s++;
        if (!*s) return n ? n : -1;
        if (*f == 's' || *f == 'c' || *f == '[') {
            char set[256]; int inv = 0, any = *f != '[';
            if (*f == '[') {
                memset(set, 0, 256); f++;
                if (*f == '^') { inv = 1; f++; }
                do { if (f[1] == '-' && f[2] && f[2] != ']') { for (int c = (u8)*f; c <= (u8)f[2]; c++) set[c] = 1; f += 3; } else set[(u8)*f++] = 1; } while (*f && *f != ']');
            }
            char *d = sup ? NULL : __builtin_va_arg(ap, char *); int k = 0, chr = *f == 'c';
            if (!w) w = chr ? 1 : 1 << 30;
            while (k < w && *s && (chr || (any ? !white(*s) : set[(u8)*s] != inv))) { if (d) d[k] = *s; k++; s++; }
            if (!k) return n;
            if (d && !chr) d[k] = 0;
            if (!sup) n++;
            continue;
        }
        int base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : 10;
        char num[70]; int k = 0; if (!w || w > 68) w = 68;
        while (k < w && s[k]) { num[k] = s[k]; k++; }
        num[k] = 0;
        char *e; unsigned long v = *f == 'd' || *f == 'i' ? (unsigned long)strtol(num, &e, base) : strtoul(num, &e, base);
        if (e == num) return n;
        s += e - num;
        if (sup) continue;
        if (l > 0) *__builtin_va_arg(ap, long *) = (long)v;
        else if (l == -1) *__builtin_va_arg(ap, short *) = (short)v;
        else if (l < -1) *__builtin_va_arg(ap, char *) = (char)v;
        else *__builtin_va_arg(ap, int *) = (int)v;
        n++;
    }
    return n;
}
int sscanf(const char *s, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int n = vsscanf_(s, f, ap); __builtin_va_end(ap); return n; }
int __isoc99_sscanf(const char *s, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int n = vsscanf_(s, f, ap); __builtin_va_end(ap); return n; }
int __isoc23_sscanf(const char *s, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int n = vsscanf_(s, f, ap); __builtin_va_end(ap); return n; }
char *getenv(const char *n) { return NULL; }
long time(long *t) { if (t) *t = 1700000000; return 1700000000; }
static void (*exitfn[32])(void); static int nexit;
int atexit(void (*f)(void)) { if (nexit == 32) return -1; exitfn[nexit++] = f; return 0; }
static void at_exit(void) { while (nexit) exitfn[--nexit](); }

/* ------------------------------------------------------------ files */
#define NFILES 48
typedef struct VF { char *name; u8 *data; long len, cap; int present; } VF;
typedef struct FILE { VF *f; long pos; int mode, eof, err, open, unget; char **mb; size_t *ms; } FILE;   /* mode: 1 read 2 write */
static VF vfs[NFILES];
static int nvfs;
static VF vout = {"<stdout>"}, verr = {"<stderr>"};
static FILE fout, ferr, fin;
FILE *stdout = &fout, *stderr = &ferr, *stdin = &fin;
int vp_exact_text = 0;
#define MAXOPEN 64     /* stands for the limit of open descriptors */
static int nopen;

static VF *lookup(const char *n, int create) {
    for (int i = 0; i < nvfs; i++) if (!strcmp(vfs[i].name, n)) return &vfs[i];
    if (!create || nvfs >= NFILES) return NULL;
    VF *v = &vfs[nvfs++];
    v->name = strdup(n); v->data = NULL; v->len = v->cap = 0; v->present = 0;
    return v;
}
static void vreserve(VF *v, long n) {
    if (n <= v->cap) return;
    long c = v->cap ? v->cap * 2 : 256;
    if (c < n) c = n;
    u8 *d = malloc(c);
    if (v->len) memcpy(d, v->data, v->len);
    if (v->data) free(v->data);
    v->data = d; v->cap = c;
}
void vp_file(const char *name, const void *data, long len) {
    VF *v = lookup(name, 1);
    v->present = 1; v->len = 0;
    vreserve(v, len + 1);
    memcpy(v->data, data, len);
    v->len = len;
}
long vp_file_len(const char *name) { VF *v = lookup(name, 0); return v && v->present ? v->len : -1; }
const u8 *vp_file_data(const char *name) { VF *v = lookup(name, 0); return v && v->present ? v->data : NULL; }
void vp_clear_files(void) { nvfs = 0; }
const char *vp_stdout(void) { vreserve(&vout, vout.len + 1); vout.data[vout.len] = 0; return (char *)vout.data; }

static void fput(FILE *f, int c) {
    if (!f->open || !(f->mode & 2)) {
        if (!f->open) vp_check(0, "use of a closed or invalid FILE");
        f->err = 1; return;
    }
    VF *v = f->f;
    if (vp_is_sym(f->pos)) f->pos = vp_concretize(f->pos);
    if (f->pos > v->len) {
        vreserve(v, f->pos + 1);
        memset(v->data + v->len, 0, f->pos - v->len);
        v->len = f->pos;
    }
    vreserve(v, f->pos + 1);
    v->data[f->pos++] = c;
    if (f->pos > v->len) v->len = f->pos;
}
FILE *fopen(const char *name, const char *mode) {
    if (!name[0] || !strncmp(name, "nodir/", 6)) return NULL;
    int m = mode[0] == 'r' ? 1 : 2;
    if (strchr(mode, '+')) m = 3;
    if (nopen >= MAXOPEN) return NULL;
    VF *v = lookup(name, mode[0] != 'r');
    if (!v) { errno_ = 2; return NULL; }
    if (mode[0] == 'r' && !v->present) { errno_ = 2; return NULL; }
    if (mode[0] == 'w') v->len = 0;
    v->present = 1; nopen++;
    FILE *f = malloc(sizeof *f);
    f->f = v; f->pos = mode[0] == 'a' ? v->len : 0; f->mode = m; f->eof = f->err = 0; f->open = 1; f->unget = -1; f->mb = NULL;
    return f;
}
static FILE *nameless(int mode) {
    if (nopen >= MAXOPEN) return NULL;
    VF *v = malloc(sizeof *v); v->name = "<temporary>"; v->data = NULL; v->len = v->cap = 0; v->present = 1;
    FILE *f = malloc(sizeof *f);
    f->f = v; f->pos = 0; f->mode = mode; f->eof = f->err = 0; f->open = 1; f->unget = -1; f->mb = NULL; nopen++;
    return f;
}
FILE *tmpfile(void) { return nameless(3); }
FILE *open_memstream(char **b, size_t *n) {
    FILE *f = nameless(2);
    if (f) { f->mb = b; f->ms = n; vreserve(f->f, 1); f->f->data[0] = 0; *b = (char *)f->f->data; *n = 0; }
    return f;
}
static void memsync(FILE *f) {
    if (!f || !f->mb) return;
    vreserve(f->f, f->f->len + 1); f->f->data[f->f->len] = 0;
    *f->mb = (char *)f->f->data; *f->ms = f->f->len;
}
int fclose(FILE *f) { if (f == stdout || f == stderr || f == stdin) return 0; if (!f->open) vp_check(0, "fclose of a closed FILE"); memsync(f); f->open = 0; nopen--; free(f); return 0; }
int fflush(FILE *f) { memsync(f); return 0; }
int fgetc(FILE *f) {
    if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
    if (!f->open || !(f->mode & 1)) { f->err = 1; return -1; }
    if (f->pos >= f->f->len) { f->eof = 1; return -1; }
    if (vp_is_sym(f->pos)) f->pos = vp_concretize(f->pos);
    return f->f->data[f->pos++];
}
int getc(FILE *f) { return fgetc(f); }
int getchar(void) { return -1; }
int ungetc(int c, FILE *f) { f->unget = c; f->eof = 0; return c; }
int fputc(int c, FILE *f) { fput(f, c); return c & 255; }
int putc(int c, FILE *f) { fput(f, c); return c & 255; }
int putchar(int c) { fput(stdout, c); return c & 255; }
size_t fwrite(const void *, size_t, size_t, FILE *);
int fputs(const char *s, FILE *f) { size_t n = strlen(s); if (n) fwrite(s, 1, n, f); return 1; }
int puts(const char *s) { fputs(s, stdout); fput(stdout, '\n'); return 1; }
void perror(const char *s) { fputs(s, stderr); fputs(": error\n", stderr); }
void setbuf(FILE *f, char *b) { }
void setlinebuf(FILE *f) { }
int fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : 3; }
int isatty(int fd) { return 0; }
int access(const char *name, int mode) { VF *v = lookup(name, 0); if (v && v->present) return 0; errno_ = 2; return -1; }
int getc_unlocked(FILE *f) { return fgetc(f); }
int putc_unlocked(int c, FILE *f) { return fputc(c, f); }
int putchar_unlocked(int c) { return putchar(c); }
int fputs_unlocked(const char *s, FILE *f) { return fputs(s, f); }
long getline(char **b, size_t *cap, FILE *f) {
    size_t n = 0; int c = 0;
    if (!*b || !*cap) { *b = realloc(*b, 256); *cap = 256; }
    while (c != '\n' && (c = fgetc(f)) >= 0) { if (n + 2 > *cap) { *cap *= 2; *b = realloc(*b, *cap); } (*b)[n++] = (char)c; }
    (*b)[n] = 0;
    return n ? (long)n : -1;
}
int feof(FILE *f) { return f->eof; }
int ferror(FILE *f) { return f->err; }
void clearerr(FILE *f) { f->eof = f->err = 0; }
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) {
    size_t n = a * b;
    if (vp_is_sym(n)) n = vp_concretize(n);
    const u8 *q = p;
    if (n > 1 && f->open && (f->mode & 2) && !vp_is_sym(f->pos) && f->pos == f->f->len) {
        vreserve(f->f, f->pos + n);
        memcpy(f->f->data + f->pos, q, n);
        f->pos += n; f->f->len = f->pos;
        return b;
    }
    for (size_t i = 0; i < n; i++) fput(f, q[i]);
    return b;
}
size_t fread(void *p, size_t a, size_t b, FILE *f) {
    u8 *q = p; size_t n = a * b, i = 0;
    if (vp_is_sym(n)) n = vp_concretize(n);
    for (; i < n; i++) { int c = fgetc(f); if (!vp_is_sym(c) && c < 0) break; q[i] = c; }
    return a ? i / a : 0;
}
char *fgets(char *s, int n, FILE *f) {
    int i = 0;
    if (f->unget < 0 && f->open && (f->mode & 1) && !vp_is_sym(f->pos)) {
        const u8 *d = f->f->data; long p = f->pos, l = f->f->len;
        while (i < n - 1) {
            if (p >= l) { f->eof = 1; break; }
            u8 c = d[p++];
            s[i++] = c;
            if (c == '\n') break;
        }
        f->pos = p;
    } else while (i < n - 1) {
        int c = fgetc(f);
        if (!vp_is_sym(c) && c < 0) break;
        s[i++] = c;
        if (c == '\n') break;
    }
    if (!i) return NULL;
    s[i] = 0;
    return s;
}
int fseek(FILE *f, long off, int wh) {
    f->eof = 0; f->unget = -1;
    long p = wh == 0 ? off : wh == 1 ? f->pos + off : f->f->len + off;
    if (p < 0) return -1;
    f->pos = p;
    return 0;
}
int fseeko(FILE *f, long off, int wh) { return fseek(f, off, wh); }
long ftell(FILE *f) { return f->pos; }
long ftello(FILE *f) { return f->pos; }
void rewind(FILE *f) { fseek(f, 0, 0); }
int unlink(const char *n) { VF *v = lookup(n, 0); if (v && v->present) { v->present = 0; return 0; } return -1; }
int remove(const char *n) { return unlink(n); }
int rename(const char *a, const char *b) {
    VF *v = lookup(a, 0);
    if (!v || !v->present) { errno_ = 2; return -1; }
    if (!strcmp(a, b)) return 0;
    VF *w = lookup(b, 1);
    if (!w) return -1;
    w->data = v->data; w->len = v->len; w->cap = v->cap; w->present = 1;
    v->data = NULL; v->len = v->cap = 0; v->present = 0;
    return 0;
}
int setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }

/* ------------------------------------------------------------ formatting */
typedef struct { FILE *f; char *b; size_t cap, n; } Out;
static void o1(Out *o, int c) { if (o->f) fput(o->f, c); else if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void on(Out *o, const char *s, long n) {
    if (n < 8 || (!o->f && o->n + n + 1 >= o->cap)) { for (long i = 0; i < n; i++) o1(o, s[i]); return; }
    if (o->f) fwrite(s, 1, n, o->f); else memcpy(o->b + o->n, s, n);
    o->n += n;
}
static void fmt(Out *o, const char *f, va_list ap) {
    for (; *f; f++) {
        if (*f != '%') { o1(o, *f); continue; }
        f++;
        int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
        for (;; f++) {
            if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break;
        }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; }
        else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { if (*f == 'h') lng--; else if (*f == 'l') lng++; else lng = 2; f++; }
        char buf[72]; const char *s; long n = 0; char sign = 0;
        switch (*f) {
        case 0: return;
        case '%': o1(o, '%'); continue;
        case 'c': buf[0] = va_arg(ap, int); s = buf; n = 1; break;
        case 's': s = va_arg(ap, char *); if (!s) s = "(null)"; if (vp_is_sym(prec)) prec = vp_concretize(prec);
            if (prec < 0) n = (long)strlen(s); else while (n < prec && s[n]) n++;
            break;
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
            u64 v = 0;
            if (*f == 'p') { v = (u64)va_arg(ap, void *); alt = 1; }
            else if (lng >= 1) v = va_arg(ap, u64);
            else if (*f == 'd' || *f == 'i') { int t = va_arg(ap, int); if (lng == -1) t = (short)t; if (lng <= -2) t = (signed char)t; v = (u64)(long)t; }
            else { unsigned t = va_arg(ap, unsigned); if (lng == -1) t = (u16)t; if (lng <= -2) t = (u8)t; v = t; }
            if (vp_is_sym(v) && !vp_exact_text) { buf[0] = '?'; s = buf; n = 1; break; }
            if (*f == 'd' || *f == 'i') { if ((i64)v < 0) { sign = '-'; v = -v; } else if (plus) sign = '+'; else if (space) sign = ' '; }
            int p = 72; char *e = buf;
            unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
            int min = prec < 0 ? 1 : prec;
            if (base == 16) {
                while (v || 72 - p < min) {
                    if (p == 2) break;
                    int d = v & 15; v >>= 4;
                    int l = d >= 10;
                    e[--p] = (char)('0' + d + l * (*f == 'X' ? 7 : 39));   /* no fork on the digit */
                    if (72 - p >= min && !v) break;
                }
            } else {
                int k = 0;
                while (v || k < min) { u64 q = v / base; e[--p] = '0' + (int)(v - q * base); v = q; k++; if (k > 40) break; }
            }
            if (prec >= 0) zero = 0;
            s = buf + p; n = 72 - p;
            break; }
        default: vp_check(0, "unmodelled printf conversion"); continue;
        }
        long tot = n + (sign != 0);
        if (!left && !(zero && *f != 's' && *f != 'c')) while (tot < width) { o1(o, ' '); width--; }
        if (sign) o1(o, sign);
        if (!left) while (tot < width) { o1(o, '0'); width--; }
        on(o, s, n);
        if (left) while (tot < width) { o1(o, ' '); width--; }
    }
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { Out o = {NULL, b, n, 0}; fmt(&o, f, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return (int)o.n; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1ul << 40, f, ap); }
int vfprintf(FILE *fp, const char *f, va_list ap) { Out o = {fp, NULL, 0, 0}; fmt(&o, f, ap); return (int)o.n; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
int fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(fp, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int vasprintf(char **b, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(NULL, 0, f, c); va_end(c); *b = malloc((size_t)n + 1); return vsnprintf(*b, (size_t)n + 1, f, ap); }
int asprintf(char **b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(b, f, ap); va_end(ap); return r; }
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { vp_check(0, "assertion failure"); vp_abort(); }

/* ------------------------------------------------------------ processes */
void exit(int c) { at_exit(); vp_exit(c & 255); for (;;) ; }
void _exit(int c) { vp_exit(c & 255); for (;;) ; }
int dasm_main(int, char **) __attribute__((weak));
int ftohex_main(int, char **) __attribute__((weak));
static int run(void *m, int argc, char **argv) {
    vout.len = 0; verr.len = 0; nopen = nexit = 0;
    fout.f = &vout; fout.mode = 2; fout.open = 1; fout.pos = 0; fout.unget = -1;
    ferr.f = &verr; ferr.mode = 2; ferr.open = 1; ferr.pos = 0; ferr.unget = -1;
    fin.f = &verr; fin.mode = 0; fin.open = 1; fin.unget = -1;
    vp_reset();
    int rc = vp_call_main(m, argc, argv) & 255;
    at_exit();
    return rc;
}
int vp_dasm(int argc, char **argv) { return run((void *)dasm_main, argc, argv); }
int vp_ftohex(int argc, char **argv) { return run((void *)ftohex_main, argc, argv); }
