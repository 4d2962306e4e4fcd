/* C-locale models of the libc functions the library (or a plausible rewrite of it) calls.
 * They are executed symbolically together with the library. Written so that character classes and
 * string comparisons yield one expression instead of one path per character. */
#include <errno.h>
#include <float.h>
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#include "vsym.h"
#undef stdout
#undef stderr
#undef stdin
double vs_strtodc(const char* s);
int vs_fmtdbl(char* out, int cap, const char* fmt, double v);
typedef unsigned char uc;

/* ---- ctype */
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isprint(int c) { return (c >= 32) & (c <= 126); }
int isgraph(int c) { return (c >= 33) & (c <= 126); }
int iscntrl(int c) { return ((c >= 0) & (c <= 31)) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int tolower(int c) { return c + (isupper(c) << 5); }
int toupper(int c) { return c - (islower(c) << 5); }

/* ---- strings */
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
static int cmp(const char* a, const char* b, size_t n, int fold) {
    int res = 0, done = 0;
    size_t i;
    for (i = 0; i < n; i++) {
        int x = (uc)a[i], y = (uc)b[i];
        if (fold) { x = tolower(x); y = tolower(y); }
        res = vs_ite(done, res, x - y);
        done = done | (x != y) | (x == 0);
        if (vs_must(done)) break;
    }
    return res;
}
int strcmp(const char* a, const char* b) { return cmp(a, b, (size_t)-1, 0); }
int strcoll(const char* a, const char* b) { return cmp(a, b, (size_t)-1, 0); }
int strncmp(const char* a, const char* b, size_t n) { return cmp(a, b, n, 0); }
int strcasecmp(const char* a, const char* b) { return cmp(a, b, (size_t)-1, 1); }
int strncasecmp(const char* a, const char* b, size_t n) { return cmp(a, b, n, 1); }
int memcmp(const void* a, const void* b, size_t n) {
    const uc *x = (const uc*)a, *y = (const uc*)b;
    int res = 0, done = 0;
    size_t i;
    for (i = 0; i < n; i++) { res = vs_ite(done, res, (int)x[i] - (int)y[i]); done = done | (x[i] != y[i]); }
    return res;
}
static void overlap(const char* d, const char* s, size_t i) { if (d + i == s || s + i == d) vs_assert_(0, "string copied onto itself (overlapping ranges)"); }
char* strcpy(char* d, const char* s) { size_t i = 0; do { overlap(d, s, i); d[i] = s[i]; } while (s[i] && ++i); return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) { overlap(d, s, i); d[i] = s[i]; } for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { size_t l = strlen(d), i; for (i = 0; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
char* strchrnul(const char* s, int c) { for (;; s++) if (*s == (char)c || !*s) return (char*)s; }
char* strrchr(const char* s, int c) { size_t n = strlen(s) + 1; while (n-- > 0) if (s[n] == (char)c) return (char*)s + n; return NULL; }
void* memchr(const void* p, int c, size_t n) { const uc* s = (const uc*)p; for (; n; n--, s++) if (*s == (uc)c) return (void*)s; return NULL; }
size_t strspn(const char* s, const char* set) { size_t n = 0; for (; s[n]; n++) { int in = 0; const char* q; for (q = set; *q; q++) in = in | (*q == s[n]); if (!in) break; } return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; for (; s[n]; n++) { int in = 0; const char* q; for (q = set; *q; q++) in = in | (*q == s[n]); if (in) break; } return n; }
char* strpbrk(const char* s, const char* set) { size_t n = strcspn(s, set); return s[n] ? (char*)s + n : NULL; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return NULL; } }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); if (p) memcpy(p, s, n); return p; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char* strtok_r(char* s, const char* d, char** save) {
    if (!s) s = *save;
    s += strspn(s, d);
    if (!*s) { *save = s; return NULL; }
    { char* e = s + strcspn(s, d); if (*e) { *e = 0; *save = e + 1; } else *save = e; }
    return s;
}
static char* tok_at;
char* strtok(char* s, const char* d) { return strtok_r(s, d, &tok_at); }
char* strsep(char** sp, const char* d) { char *s = *sp, *e; if (!s) return NULL; e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL; return s; }
void* memrchr(const void* p, int c, size_t n) { const uc* s = (const uc*)p; while (n-- > 0) if (s[n] == (uc)c) return (void*)(s + n); return NULL; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void* memccpy(void* d, const void* s, int c, size_t n) { size_t i; for (i = 0; i < n; i++) { ((uc*)d)[i] = ((const uc*)s)[i]; if (((const uc*)s)[i] == (uc)c) return (char*)d + i + 1; } return NULL; }
char* index(const char* s, int c) { return strchr(s, c); }
char* rindex(const char* s, int c) { return strrchr(s, c); }
void bzero(void* p, size_t n) { memset(p, 0, n); }
size_t strlcpy(char* d, const char* s, size_t n) { size_t i; for (i = 0; n && i + 1 < n && s[i]; i++) d[i] = s[i]; if (n) d[i] = 0; return strlen(s); }
size_t strlcat(char* d, const char* s, size_t n) { size_t l = strnlen(d, n); return l == n ? n + strlen(s) : l + strlcpy(d + l, s, n - l); }
char* strcasestr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (strncasecmp(h, n, l) == 0) return (char*)h; if (!*h) return NULL; } }
void* reallocarray(void* p, size_t n, size_t sz) { return realloc(p, n * sz); }

/* ---- errno, environment */
static int vs_errno;
int* __errno_location(void) { return &vs_errno; }
static char* envn[4]; static char* envv[4];
int setenv(const char* n, const char* v, int o) { int i; (void)o; for (i = 0; i < 4; i++) if (!envn[i] || !strcmp(envn[i], n)) { envn[i] = (char*)n; envv[i] = (char*)v; return 0; } return -1; }
int unsetenv(const char* n) { int i; for (i = 0; i < 4; i++) if (envn[i] && !strcmp(envn[i], n)) envv[i] = NULL; return 0; }
char* getenv(const char* n) { int i; for (i = 0; i < 4; i++) if (envn[i] && envv[i] && !strcmp(envn[i], n)) return envv[i]; return NULL; }

/* ---- numbers */
static unsigned long parse_ul(const char* s, char** end, int base, int* neg, int* ovf) {
    const char* p = s; unsigned long v = 0; int any = 0;
    *neg = 0; *ovf = 0;
    while (isspace((uc)*p)) p++;
    if ((*p == '+') | (*p == '-')) { *neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && *p == '0' && ((p[1] == 'x') | (p[1] == 'X')) && isxdigit((uc)p[2])) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    for (;; p++) {
        int c = (uc)*p, ok; unsigned long d;
        if (base <= 10) { ok = (c >= '0') & (c < '0' + base); d = (unsigned long)(long)(c - '0'); }
        else { int dg = isdigit(c), lc = c | 32, al = (lc >= 'a') & (lc < 'a' + base - 10); ok = dg | al; d = (unsigned long)(long)vs_ite(dg, c - '0', lc - 'a' + 10); }
        if (!ok) break;
        d &= 63; /* no-op for a valid digit; keeps the range of the sum small */
        any = 1;
        { unsigned long cut = ULONG_MAX / (unsigned long)base, lim = ULONG_MAX % (unsigned long)base;
          *ovf = *ovf | (v > cut) | ((v == cut) & (d > lim)); }
        v = v * (unsigned long)base + d;
    }
    if (end) *end = (char*)(any ? p : s);
    return v;
}
long strtol(const char* s, char** end, int base) {
    int neg, ovf; unsigned long v = parse_ul(s, end, base, &neg, &ovf);
    unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : (unsigned long)LONG_MAX;
    if (ovf | (v > lim)) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? (long)(0 - v) : (long)v;
}
long long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long strtoul(const char* s, char** end, int base) {
    int neg, ovf; unsigned long v = parse_ul(s, end, base, &neg, &ovf);
    if (ovf) { errno = ERANGE; return ULONG_MAX; }
    return neg ? 0 - v : v;
}
unsigned long long strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
int atoi(const char* s) { return (int)strtol(s, NULL, 10); }
long atol(const char* s) { return strtol(s, NULL, 10); }

/* strtod: the exact end of the accepted text; the value of a text with symbolic characters is an
 * opaque 64-bit pattern that depends on nothing but the accepted characters. */
static int ci_prefix(const char* p, const char* w) { int i; for (i = 0; w[i]; i++) if (tolower((uc)p[i]) != w[i]) return 0; return 1; }
double strtod(const char* s, char** end) {
    const char *p = s, *q, *st; int any = 0, hex = 0, sym = 0;
    while (isspace((uc)*p)) p++;
    st = p;
    if ((*p == '+') | (*p == '-')) p++;
    if (ci_prefix(p, "infinity")) { p += 8; goto done; }
    if (ci_prefix(p, "inf")) { p += 3; goto done; }
    if (ci_prefix(p, "nan")) {
        p += 3;
        if (*p == '(') { q = p + 1; while (isalnum((uc)*q) | (*q == '_')) q++; if (*q == ')') p = q + 1; }
        goto done;
    }
    if (*p == '0' && ((p[1] == 'x') | (p[1] == 'X')) && (isxdigit((uc)p[2]) || (p[2] == '.' && isxdigit((uc)p[3])))) { hex = 1; p += 2; }
    while (hex ? isxdigit((uc)*p) : isdigit((uc)*p)) { any = 1; p++; }
    if (*p == '.') {
        q = p + 1;
        if (any || (hex ? isxdigit((uc)*q) : isdigit((uc)*q))) { p = q; while (hex ? isxdigit((uc)*p) : isdigit((uc)*p)) { any = 1; p++; } }
    }
    if (!any) { if (end) *end = (char*)s; return 0.0; }
    if (hex ? ((*p == 'p') | (*p == 'P')) : ((*p == 'e') | (*p == 'E'))) {
        q = p + 1;
        if ((*q == '+') | (*q == '-')) q++;
        if (isdigit((uc)*q)) { while (isdigit((uc)*q)) q++; p = q; }
    }
done:
    if (end) *end = (char*)p;
    for (q = st; q < p; q++) sym |= vs_symbolic(*q);
    if (!sym) {
        char tmp[64]; int n = 0;
        for (q = st; q < p && n < 63; q++) tmp[n++] = *q;
        tmp[n] = 0;
        {
            double v = vs_strtodc(tmp);
            int some = 0; /* a digit other than 0 before the exponent */
            for (q = st; q < p && !(hex ? (*q | 32) == 'p' : (*q | 32) == 'e'); q++) some |= isxdigit((uc)*q) & (*q != '0');
            if (any && ((v > DBL_MAX || v < -DBL_MAX) || (some && v < DBL_MIN && v > -DBL_MIN))) errno = ERANGE;
            return v;
        }
    }
    {
        union { unsigned long u; double d; } v;
        v.u = 0x3ff;
        for (q = st; q < p; q++) v.u = (v.u << 8) ^ (v.u >> 56) ^ (unsigned long)(uc)*q;
        return v.d;
    }
}
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, NULL); }
long long atoll(const char* s) { return strtol(s, NULL, 10); }
long long llabs(long long x) { return x < 0 ? -x : x; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
void qsort(void* base, size_t n, size_t sz, int (*f)(const void*, const void*)) {
    char* b = (char*)base; size_t i, j, k;
    for (i = 1; i < n; i++)
        for (j = i; j > 0 && f(b + (j - 1) * sz, b + j * sz) > 0; j--)
            for (k = 0; k < sz; k++) { char t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}
void* bsearch(const void* key, const void* base, size_t n, size_t sz, int (*f)(const void*, const void*)) {
    size_t i; for (i = 0; i < n; i++) if (f(key, (const char*)base + i * sz) == 0) return (void*)((const char*)base + i * sz); return NULL;
}

/* ---- output */
struct cap { int n; char buf[8192]; };
static struct cap vs_caps[6];
FILE* stdout = (FILE*)(void*)&vs_caps[0];
FILE* stderr = (FILE*)(void*)&vs_caps[1];
FILE* stdin = (FILE*)(void*)&vs_caps[5];
static int vs_ncap = 2;
FILE* vs_file(void) { return (FILE*)(void*)&vs_caps[vs_ncap++]; }
const char* vs_text(FILE* fp) { struct cap* c = (struct cap*)(void*)fp; c->buf[c->n] = 0; return c->buf; }
const char* vs_stdout_text(void) { return vs_text(stdout); }
const char* vs_stderr_text(void) { return vs_text(stderr); }
static void put(FILE* fp, char ch) { struct cap* c = (struct cap*)(void*)fp; c->buf[c->n] = ch; c->n++; }
int fputc(int ch, FILE* fp) { put(fp, (char)ch); return (uc)ch; }
int putc(int ch, FILE* fp) { return fputc(ch, fp); }
int putchar(int ch) { return fputc(ch, stdout); }
int fputs(const char* s, FILE* fp) { for (; *s; s++) put(fp, *s); return 1; }
int puts(const char* s) { fputs(s, stdout); put(stdout, '\n'); return 1; }
size_t fwrite(const void* p, size_t sz, size_t n, FILE* fp) { size_t i; for (i = 0; i < sz * n; i++) put(fp, ((const char*)p)[i]); return n; }
int fflush(FILE* fp) { (void)fp; return 0; }

struct sink { char* s; size_t n; size_t len; FILE* fp; };
static void emit(struct sink* k, char c) {
    if (k->fp) put(k->fp, c);
    else if (k->len + 1 < k->n) k->s[k->len] = c;
    k->len++;
}
static void pad(struct sink* k, char c, int n) { while (n-- > 0) emit(k, c); }
static void num(struct sink* k, unsigned long v, int neg, int base, int upper, int minus, int plus, int space, int alt, int zero, int width, int prec) {
    char t[72]; int n = 0, zeros, total; char pre[3]; int np = 0;
    v = (unsigned long)vs_concrete((long)v);
    if (neg) pre[np++] = '-'; else if (plus) pre[np++] = '+'; else if (space) pre[np++] = ' ';
    if (alt && base == 16 && v) { pre[np++] = '0'; pre[np++] = upper ? 'X' : 'x'; }
    while (v) { int d = (int)(v % (unsigned long)base); t[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= (unsigned long)base; }
    zeros = prec < 0 ? (n == 0 ? 1 : 0) : (n < prec ? prec - n : 0);
    if (alt && base == 8 && zeros == 0) zeros = 1;
    total = np + zeros + n;
    if (prec < 0 && zero && !minus && total < width) { zeros += width - total; total = width; }
    if (!minus) pad(k, ' ', width - total);
    { int i; for (i = 0; i < np; i++) emit(k, pre[i]); }
    pad(k, '0', zeros);
    while (n) emit(k, t[--n]);
    if (minus) pad(k, ' ', width - total);
}
static void format(struct sink* k, const char* f, va_list ap) {
    for (; *f; f++) {
        int minus = 0, plus = 0, space = 0, alt = 0, zero = 0, width = 0, prec = -1, lng = 0; const char* st = f;
        if (*f != '%') { emit(k, *f); continue; }
        for (f++;; f++) { if (*f == '-') minus = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else if (*f == '0') zero = 1; else break; }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { minus = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { prec = 0; f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') lng--; else break; }
        switch (*f) {
            case '%': emit(k, '%'); break;
            case 'c': { char c = (char)va_arg(ap, int); if (!minus) pad(k, ' ', width - 1); emit(k, c); if (minus) pad(k, ' ', width - 1); break; }
            case 's': {
                const char* s = va_arg(ap, const char*); int n, i;
                if (!s) s = "(null)";
                n = (int)(prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s));
                if (!minus) pad(k, ' ', width - n);
                for (i = 0; i < n; i++) emit(k, s[i]);
                if (minus) pad(k, ' ', width - n);
                break;
            }
            case 'd': case 'i': {
                long v = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int);
                int neg;
                v = vs_concrete(v); neg = v < 0;
                num(k, neg ? 0 - (unsigned long)v : (unsigned long)v, neg, 10, 0, minus, plus, space, 0, zero, width, prec);
                break;
            }
            case 'u': case 'x': case 'X': case 'o': {
                unsigned long v = lng > 0 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int);
                num(k, v, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', minus, 0, 0, alt, zero, width, prec);
                break;
            }
            case 'p': { unsigned long v = (unsigned long)va_arg(ap, void*); if (!v) { const char* s = "(nil)"; while (*s) emit(k, *s++); } else num(k, v, 0, 16, 0, minus, 0, 0, 1, 0, width, -1); break; }
            case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': {
                char fm[32], out[512]; int n = 0, i; double v = va_arg(ap, double);
                while (st <= f && n < 31) fm[n++] = *st++;
                fm[n] = 0;
                n = vs_fmtdbl(out, 512, fm, v);
                for (i = 0; i < n && i < 511; i++) emit(k, out[i]);
                break;
            }
            default: abort();
        }
    }
}
int vsnprintf(char* s, size_t n, const char* f, va_list ap) {
    struct sink k; k.s = s; k.n = n; k.len = 0; k.fp = NULL;
    format(&k, f, ap);
    if (n) s[k.len < n ? k.len : n - 1] = 0;
    return (int)k.len;
}
int vsprintf(char* s, const char* f, va_list ap) { return vsnprintf(s, (size_t)-1 >> 1, f, ap); }
int vfprintf(FILE* fp, const char* f, va_list ap) { struct sink k; k.s = NULL; k.n = 0; k.len = 0; k.fp = fp; format(&k, f, ap); return (int)k.len; }
int vprintf(const char* f, va_list ap) { return vfprintf(stdout, f, ap); }
int snprintf(char* s, size_t n, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(s, n, f, ap); va_end(ap); return r; }
int sprintf(char* s, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vsprintf(s, f, ap); va_end(ap); return r; }
int fprintf(FILE* fp, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vfprintf(fp, f, ap); va_end(ap); return r; }
int printf(const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int vasprintf(char** o, const char* f, va_list ap) { va_list b; int n; va_copy(b, ap); n = vsnprintf(NULL, 0, f, b); va_end(b); *o = (char*)malloc((size_t)n + 1); return *o ? vsnprintf(*o, (size_t)n + 1, f, ap) : -1; }
int asprintf(char** o, const char* f, ...) { va_list ap; int r; va_start(ap, f); r = vasprintf(o, f, ap); va_end(ap); return r; }
void warnx(const char* f, ...) { va_list ap; va_start(ap, f); vfprintf(stderr, f, ap); va_end(ap); put(stderr, '\n'); }
void warn(const char* f, ...) { va_list ap; va_start(ap, f); vfprintf(stderr, f, ap); va_end(ap); put(stderr, '\n'); }

/* ---- time */
static const char* const wd[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char* const mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
struct tb { char* s; size_t n, len; };
static void tput(struct tb* b, char c) { if (b->len < b->n) b->s[b->len] = c; b->len++; }
static void tstr(struct tb* b, const char* s, int n) { while (*s && n--) tput(b, *s++); }
static void tnum(struct tb* b, int v, int w, char p) { char t[16]; int n = 0; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (w-- > n) tput(b, p); while (n) tput(b, t[--n]); }
static void tfmt(struct tb* b, const char* f, const struct tm* t) {
    for (; *f; f++) {
        if (*f != '%') { tput(b, *f); continue; }
        f++;
        switch (*f) {
            case 'a': tstr(b, wd[t->tm_wday], 3); break; case 'A': tstr(b, wd[t->tm_wday], 99); break;
            case 'b': case 'h': tstr(b, mn[t->tm_mon], 3); break; case 'B': tstr(b, mn[t->tm_mon], 99); break;
            case 'd': tnum(b, t->tm_mday, 2, '0'); break; case 'e': tnum(b, t->tm_mday, 2, ' '); break;
            case 'm': tnum(b, t->tm_mon + 1, 2, '0'); break; case 'Y': tnum(b, t->tm_year + 1900, 4, '0'); break;
            case 'y': tnum(b, (t->tm_year + 1900) % 100, 2, '0'); break; case 'C': tnum(b, (t->tm_year + 1900) / 100, 2, '0'); break;
            case 'H': tnum(b, t->tm_hour, 2, '0'); break; case 'M': tnum(b, t->tm_min, 2, '0'); break; case 'S': tnum(b, t->tm_sec, 2, '0'); break;
            case 'I': tnum(b, t->tm_hour % 12 ? t->tm_hour % 12 : 12, 2, '0'); break; case 'p': tstr(b, t->tm_hour < 12 ? "AM" : "PM", 2); break;
            case 'j': tnum(b, t->tm_yday + 1, 3, '0'); break;
            case 'F': tfmt(b, "%Y-%m-%d", t); break; case 'D': case 'x': tfmt(b, "%m/%d/%y", t); break; case 'T': case 'X': tfmt(b, "%H:%M:%S", t); break; case 'R': tfmt(b, "%H:%M", t); break;
            case 'c': tfmt(b, "%a %b %e %H:%M:%S %Y", t); break; case 'r': tfmt(b, "%I:%M:%S %p", t); break;
            case 'n': tput(b, '\n'); break; case 't': tput(b, '\t'); break; case '%': tput(b, '%'); break;
            default: abort();
        }
    }
}
size_t strftime(char* s, size_t n, const char* f, const struct tm* t) {
    struct tb b; b.s = s; b.n = n; b.len = 0; tfmt(&b, f, t);
    if (b.len >= n) return 0;
    s[b.len] = 0;
    return b.len;
}

/* ---- the library's exit() and abort() come here */
void (*vs_exit_hook)(int code);
void vsn_exit(int c) { if (vs_exit_hook) vs_exit_hook(c); exit(c); }
void vsn_abort(void) { if (vs_exit_hook) vs_exit_hook(134); abort(); }
