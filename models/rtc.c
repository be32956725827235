// Bitcode models of libc (strings, formatted I/O, time, in-memory files).
#define _DEFAULT_SOURCE
#define _XOPEN_SOURCE 700
#define _LARGEFILE64_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <ctype.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <glob.h>
#include <inttypes.h>
#include <sys/stat.h>
#include <unistd.h>
void msym_unsupported(const char*) __attribute__((noreturn));
void msym_error(const char*);
uint64_t msym_concretize(uint64_t);
uint64_t msym_ite(int c, uint64_t a, uint64_t b);
long msym_format_double(char* buf, size_t n, const char* fmt, double v);
double msym_parse_double(const char* text, uint64_t* used);
int msym_is_symbolic(uint64_t);
bool msym_isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }

// ------------------------------------------------------------------ string.h, ctype.h, stdlib.h
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { size_t i = 0; for (;; ++i) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; ++i) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int tolower(int c) { return (int)msym_ite((c >= 'A') & (c <= 'Z'), c + 32, c); }
int toupper(int c) { return (int)msym_ite((c >= 'a') & (c <= 'z'), c - 32, c); }
int strcasecmp(const char* a, const char* b) { for (size_t i = 0;; ++i) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; ++i) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(const char* s, int c) { for (;; ++s) { if (*s == (char)c || !*s) return (char*)s; } }
char* index(const char* s, int c) { return strchr(s, c); }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = n; i-- > 0;) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char* stpcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; ++i) d[l + i] = s[i]; d[l + i] = 0; return d; }
char* strdup(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; ++h) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { for (size_t i = 0; i + nn <= hn; ++i) if (!memcmp((const char*)h + i, n, nn)) return (char*)h + i; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* r) { size_t n = 0; while (s[n] && !strchr(r, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* a) { for (; *s; ++s) if (strchr(a, *s)) return (char*)s; return 0; }
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = 0; return 0; } char* e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = 0; return s; }
char* strtok(char* s, const char* d) { static char* sv; return strtok_r(s, d, &sv); }
char* strsep(char** sp, const char* d) { char* s = *sp; if (!s) return 0; char* e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
void bzero(void* p, size_t n) { memset(p, 0, n); }
void bcopy(const void* s, void* d, size_t n) { memmove(d, s, n); }
#undef isdigit
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int isalpha(int c) { return islower(c) | isupper(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static unsigned short ctype_tab[384]; static int lower_tab[384], upper_tab[384];
const unsigned short** __ctype_b_loc(void) {
    static const unsigned short* p;
    if (!p) {
        for (int i = 0; i < 384; ++i) { int c = i - 128; unsigned short f = 0;
            // glibc little endian bit order: upper=1<<8, lower, alpha, digit, xdigit, space, print, graph, blank=1, cntrl, punct, alnum
            if (c >= 0 && c < 128) { if (isupper(c)) f |= 0x100; if (islower(c)) f |= 0x200; if (isalpha(c)) f |= 0x400; if (isdigit(c)) f |= 0x800; if (isxdigit(c)) f |= 0x1000; if (isspace(c)) f |= 0x2000; if (isprint(c)) f |= 0x4000; if (isgraph(c)) f |= 0x8000; if (isblank(c)) f |= 1; if (iscntrl(c)) f |= 2; if (ispunct(c)) f |= 4; if (isalnum(c)) f |= 8; }
            ctype_tab[i] = f; }
        p = ctype_tab + 128; }
    return &p; }
const int** __ctype_tolower_loc(void) { static const int* p; if (!p) { for (int i = 0; i < 384; ++i) { int c = i - 128; lower_tab[i] = c >= 'A' && c <= 'Z' ? c + 32 : c; } p = lower_tab + 128; } return &p; }
const int** __ctype_toupper_loc(void) { static const int* p; if (!p) { for (int i = 0; i < 384; ++i) { int c = i - 128; upper_tab[i] = c >= 'a' && c <= 'z' ? c - 32 : c; } p = upper_tab + 128; } return &p; }
static int g_errno;
int* __errno_location(void) { return &g_errno; }
char* strerror(int u0) { static char m[] = "error"; return m; }
char* __xpg_strerror_r(int u0, char* b, size_t n) { if (n) b[0] = 0; return b; }
char* gnu_strerror_r(int u0, char* b, size_t n) __asm__("strerror_r");
char* gnu_strerror_r(int u0, char* b, size_t n) { if (n) b[0] = 0; return b; }
char* getenv(const char* u0) { return 0; }
char* secure_getenv(const char* u0) { return 0; }
int setenv(const char* u0, const char* u1, int u2) { return 0; }
char** environ;

static int digitval(int c) { if (isdigit(c)) return c - '0'; if (islower(c)) return c - 'a' + 10; if (isupper(c)) return c - 'A' + 10; return 99; }
// integer parsing; neg/ovf reported separately
static unsigned long long parse_int(const char* s, char** end, int base, bool* neg, bool* ovf, size_t maxw) {
    const char* p = s; const char* lim = maxw > (1u << 20) ? (const char*)~0ULL : s + maxw;
    while (isspace((unsigned char)*p)) ++p;
    if (lim != (const char*)~0ULL) lim = p + maxw;
    *neg = false; *ovf = false;
    if (p < lim && (*p == '+' || *p == '-')) { *neg = *p == '-'; ++p; }
    if ((base == 0 || base == 16) && p + 1 < lim && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitval((unsigned char)p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; const char* st = p;
    while (p < lim) {
        int c = (unsigned char)*p; int d = -1;
        if (base <= 10) { if ((c >= '0') & (c < '0' + base)) d = c - '0'; }
        else { int q = digitval(c); if (q < base) d = q; }
        if (d < 0) break;
        if (v > (~0ULL - d) / base) *ovf = true;
        v = v * base + d; ++p;
    }
    if (end) *end = (char*)(p == st ? s : p);
    return v;
}
long strtol(const char* s, char** e, int b) { bool n, o; unsigned long long v = parse_int(s, e, b, &n, &o, ~(size_t)0); if (o || v > (n ? 1ULL << 63 : ~0ULL >> 1)) { g_errno = ERANGE; return n ? INT64_MIN : INT64_MAX; } return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { bool n, o; unsigned long long v = parse_int(s, e, b, &n, &o, ~(size_t)0); if (o) { g_errno = ERANGE; return ~0UL; } return n ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
intmax_t strtoimax(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtol(s, 0, 10); }
double strtod(const char* s, char** e) { uint64_t used; double d = msym_parse_double(s, &used); if (e) *e = (char*)s + used; return d; }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
static unsigned long g_rand = 1;
int rand(void) { g_rand = g_rand * 1103515245 + 12345; return (int)((g_rand >> 16) & 0x7fff); }
void srand(unsigned s) { g_rand = s; }
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
    char* a = (char*)b; char tmp[512]; if (sz > 512) msym_unsupported("qsort element size");
    for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; --j) { memcpy(tmp, a + j * sz, sz); memcpy(a + j * sz, a + (j - 1) * sz, sz); memcpy(a + (j - 1) * sz, tmp, sz); }
}
void* bsearch(const void* k, const void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { for (size_t i = 0; i < n; ++i) if (!cmp(k, (const char*)b + i * sz)) return (char*)b + i * sz; return 0; }
double exp10(double); 

// ------------------------------------------------------------------ formatted output
typedef struct { char* b; size_t cap, n; } Out;
static void putc_(Out* o, char c) { if (o->n < o->cap) o->b[o->n] = c; ++o->n; }
static void pad(Out* o, int n, char c) { for (int i = 0; i < n; ++i) putc_(o, c); }
static int fmt_core(Out* o, const char* f, va_list ap) {
    for (; *f; ++f) {
        if (*f != '%') { putc_(o, *f); continue; }
        const char* spec = f; ++f;
        bool left = false, zero = false, plus = false, space = false, alt = false;
        for (;; ++f) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
        int width = 0, prec = -1; bool star = false;
        if (*f == '*') { width = va_arg(ap, int); star = true; if (width < 0) { left = true; width = -width; } ++f; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); star = true; ++f; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        int lng = 0;
        for (;; ++f) { if (*f == 'l') ++lng; else if (*f == 'z' || *f == 't' || *f == 'j') lng = 2; else if (*f == 'h') --lng; else if (*f == 'L') msym_unsupported("long double format"); else break; }
        switch (*f) {
            case '%': putc_(o, '%'); break;
            case 'c': { int c = va_arg(ap, int); if (!left) pad(o, width - 1, ' '); putc_(o, (char)c); if (left) pad(o, width - 1, ' '); break; }
            case 's': {
                const char* s = va_arg(ap, const char*); if (!s) s = "(null)";
                size_t n = prec >= 0 ? strnlen(s, prec) : strlen(s);
                if (!left) pad(o, width - (int)n, ' ');
                for (size_t i = 0; i < n; ++i) putc_(o, s[i]);
                if (left) pad(o, width - (int)n, ' ');
                break; }
            case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
                unsigned long long v; bool neg = false; unsigned base = 10; bool up = *f == 'X';
                if (*f == 'p') { v = (unsigned long long)va_arg(ap, void*); base = 16; alt = true; }
                else if (*f == 'd' || *f == 'i') { long long x = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) x = (short)x; if (lng <= -2) x = (signed char)x; neg = x < 0; v = neg ? 0ULL - (unsigned long long)x : x; }
                else { v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng <= -2) v = (unsigned char)v; if (*f == 'x' || *f == 'X') base = 16; if (*f == 'o') base = 8; }
                char t[70]; int n = 0;
                bool nz = v != 0;
                do { unsigned d = (unsigned)(v % base); t[n++] = (char)msym_ite(d < 10, '0' + d, (up ? 'A' : 'a') + d - 10); v /= base; } while (v);
                if (prec == 0 && !nz) n = 0;
                while (n < prec && n < 64) t[n++] = '0';
                int extra = (neg || plus || space) + (alt && base == 16 && nz ? 2 : 0);
                if (prec >= 0) zero = false;
                if (!left && !zero) pad(o, width - n - extra, ' ');
                if (neg) putc_(o, '-'); else if (plus && (*f == 'd' || *f == 'i')) putc_(o, '+'); else if (space && (*f == 'd' || *f == 'i')) putc_(o, ' ');
                if (alt && base == 16 && nz) { putc_(o, '0'); putc_(o, up ? 'X' : 'x'); }
                if (!left && zero) pad(o, width - n - extra, '0');
                while (n) putc_(o, t[--n]);
                if (left) pad(o, width - (int)strlen("") - extra, ' ');
                break; }
            case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': {
                char fm[32]; size_t k = 0;
                if (star) { fm[k++] = '%'; if (left) fm[k++] = '-'; if (plus) fm[k++] = '+'; if (zero) fm[k++] = '0'; char nb[16]; int q = 0; int w = width; if (w) { while (w) { nb[q++] = '0' + w % 10; w /= 10; } while (q) fm[k++] = nb[--q]; } if (prec >= 0) { fm[k++] = '.'; w = prec; do { nb[q++] = '0' + w % 10; w /= 10; } while (w); while (q) fm[k++] = nb[--q]; } fm[k++] = *f; }
                else for (const char* q = spec; q <= f && k < 30; ++q) if (*q != 'l') fm[k++] = *q;
                fm[k] = 0;
                char t[400]; double d = va_arg(ap, double);
                long n = msym_format_double(t, sizeof t, fm, d);
                for (long i = 0; i < n && i < 399; ++i) putc_(o, t[i]);
                break; }
            case 'n': { int* p = va_arg(ap, int*); *p = (int)o->n; break; }
            case 'm': { const char* s = "error"; while (*s) putc_(o, *s++); break; }
            default: msym_unsupported("printf conversion");
        }
    }
    return (int)o->n;
}
int vsnprintf(char* b, size_t cap, const char* f, va_list ap) { Out o_ = {b, cap ? cap - 1 : 0, 0}, *o = &o_; int n = fmt_core(o, f, ap); if (cap) b[o->n < cap - 1 ? o->n : cap - 1] = 0; return n; }
int vsprintf(char* b, const char* f, va_list ap) { Out o_ = {b, ~(size_t)0, 0}, *o = &o_; int n = fmt_core(o, f, ap); b[o->n] = 0; return n; }
int snprintf(char* b, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(b, cap, f, ap); va_end(ap); return n; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsprintf(b, f, ap); va_end(ap); return n; }
int __snprintf_chk(char* b, size_t cap, int u2, size_t u3, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(b, cap, f, ap); va_end(ap); return n; }
int vasprintf(char** r, const char* f, va_list ap) { char* b = (char*)malloc(4096); int n = vsnprintf(b, 4096, f, ap); *r = b; return n; }
int asprintf(char** r, const char* f, ...) { va_list ap; va_start(ap, f); int n = vasprintf(r, f, ap); va_end(ap); return n; }

// ------------------------------------------------------------------ formatted input
static int vsscanf_(const char* s, const char* f, va_list ap) {
    const char* p = s; int cnt = 0;
    for (; *f; ++f) {
        if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*p)) ++p; continue; }
        if (*f != '%') { if (*p != *f) return (*p || cnt) ? cnt : -1; ++p; continue; }
        ++f;
        if (*f == '%') { while (isspace((unsigned char)*p)) ++p; if (*p != '%') return cnt; ++p; continue; }
        bool sup = false; if (*f == '*') { sup = true; ++f; }
        size_t w = 0; while (isdigit(*f)) w = w * 10 + (*f++ - '0');
        int lng = 0; for (;; ++f) { if (*f == 'l') ++lng; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') --lng; else break; }
        switch (*f) {
            case 'd': case 'u': case 'i': case 'x': case 'X': {
                while (isspace((unsigned char)*p)) ++p;
                if (!*p) return cnt ? cnt : -1;
                bool n, o; char* e; int base = (*f == 'x' || *f == 'X') ? 16 : *f == 'i' ? 0 : 10;
                unsigned long long v = w ? parse_int(p, &e, base, &n, &o, w) : parse_int(p, &e, base, &n, &o, ~(size_t)0);
                if (e == p) return cnt;
                p = e;
                if (o) v = n ? 1ULL << 63 : ~0ULL >> 1; else if (n) v = 0 - v;
                if (!sup) { void* d = va_arg(ap, void*); if (lng > 0) *(long*)d = (long)v; else if (lng == 0) *(int*)d = (int)v; else if (lng == -1) *(short*)d = (short)v; else *(char*)d = (char)v; ++cnt; }
                break; }
            case 'f': case 'g': case 'e': {
                while (isspace((unsigned char)*p)) ++p;
                if (!*p) return cnt ? cnt : -1;
                uint64_t used;
                char tmp[64]; double v;
                if (w) { size_t k = 0; while (k < w && k < 63 && p[k]) { tmp[k] = p[k]; ++k; } tmp[k] = 0; v = msym_parse_double(tmp, &used); }
                else v = msym_parse_double(p, &used);
                if (!used) return cnt;
                p += used;
                if (!sup) { if (lng > 0) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v; ++cnt; }
                break; }
            case 's': {
                while (isspace((unsigned char)*p)) ++p;
                if (!*p) return cnt ? cnt : -1;
                char* d = sup ? 0 : va_arg(ap, char*);
                size_t k = 0; while (*p && !isspace((unsigned char)*p) && (!w || k < w)) { if (d) d[k] = *p; ++p; ++k; }
                if (d) { d[k] = 0; ++cnt; }
                break; }
            case 'c': {
                if (!*p) return cnt ? cnt : -1;
                char* d = sup ? 0 : va_arg(ap, char*); size_t n = w ? w : 1;
                for (size_t k = 0; k < n; ++k) { if (!*p) return cnt; if (d) d[k] = *p; ++p; }
                if (d) ++cnt;
                break; }
            case '[': {
                ++f; bool inv = false; if (*f == '^') { inv = true; ++f; }
                const char* set = f; if (*f == ']') ++f; while (*f && *f != ']') ++f; const char* se = f;
                char* d = sup ? 0 : va_arg(ap, char*); size_t k = 0;
                if (!*p) return cnt ? cnt : -1;
                while (*p && (!w || k < w)) {
                    bool in = false;
                    for (const char* q = set; q < se; ++q) { if (q + 2 < se && q[1] == '-') { if ((unsigned char)*p >= (unsigned char)q[0] && (unsigned char)*p <= (unsigned char)q[2]) in = true; q += 2; } else if (*q == *p) in = true; }
                    if (in == inv) break;
                    if (d) d[k] = *p; ++p; ++k;
                }
                if (!k) return cnt;
                if (d) { d[k] = 0; ++cnt; }
                break; }
            case 'n': { if (!sup) *va_arg(ap, int*) = (int)(p - s); break; }
            default: msym_unsupported("scanf conversion");
        }
    }
    return cnt;
}
int vsscanf(const char* s, const char* f, va_list ap) { return vsscanf_(s, f, ap); }
int plain_sscanf_(const char* s, const char* f, ...) __asm__("sscanf");
int plain_sscanf_(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf_(s, f, ap); va_end(ap); return n; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf_(s, f, ap); va_end(ap); return n; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf_(s, f, ap); va_end(ap); return n; }

// ------------------------------------------------------------------ time
static bool leap(long y) { return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)); }
static long days_from_civil(long y, unsigned m, unsigned d) {
    y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m + (unsigned)msym_ite(m > 2, (uint64_t)-3, 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long)doe - 719468;
}
// Every intermediate is kept non-negative and range-limited by a mask that is a no-op on its true
// range, so that the value ranges stay visible to the executor.
struct tm* gmtime_r(const time_t* t, struct tm* r) {
    long v = *t; const long BIAS = 146097L * 86400;
    long shift = 0;
    if ((unsigned long)(v + BIAS) >= (1UL << 40)) { shift = v / BIAS - (v < 0 ? 1 : 0); v -= shift * BIAS; }
    unsigned long u = (unsigned long)(v + BIAS) & ((1UL << 40) - 1);
    unsigned long days = u / 86400, rem = u % 86400;           // days since 1570-01-01
    r->tm_hour = (int)(rem / 3600); r->tm_min = (int)(rem % 3600 / 60); r->tm_sec = (int)(rem % 60);
    r->tm_wday = (int)((days + 4) % 7);                        // 146097 is a multiple of 7
    unsigned long z = days + (719468 - 146097); unsigned long era = z / 146097; unsigned doe = (unsigned)(z % 146097);
    unsigned yoe = (((doe + doe / 36524) - (doe / 1460 + doe / 146096)) & 0x3ffff) / 365 & 511;
    unsigned doy = (doe - (365 * yoe + yoe / 4 - yoe / 100)) & 511; unsigned mp = (5 * doy + 2) / 153;
    unsigned d = (5 * doy + 2) % 153 / 5 + 1; unsigned m = (mp + 2) % 12 + 1;
    unsigned long y = yoe + era * 400 + msym_ite(m <= 2, 1, 0);
    r->tm_year = (int)((long)y + (shift + 0) * 400 - 1900); r->tm_mon = (int)m - 1; r->tm_mday = (int)d;
    unsigned lp = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0));
    // day of year: March based count shifted by the length of January and February
    r->tm_yday = (int)msym_ite(m <= 2, (doy + 1024 - 306) & 511, (doy + 59 + lp) & 511);
    r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "GMT";
    return r;
}
struct tm* gmtime(const time_t* t) { static struct tm r; return gmtime_r(t, &r); }
struct tm* localtime_r(const time_t* t, struct tm* r) { return gmtime_r(t, r); }
struct tm* localtime(const time_t* t) { return gmtime(t); }
time_t timegm(struct tm* t) {
    long y = t->tm_year + 1900L, m = t->tm_mon;
    y += m / 12; m %= 12; if (m < 0) { m += 12; --y; }
    long v = (days_from_civil(y, (unsigned)m + 1, 1) + t->tm_mday - 1) * 86400L + t->tm_hour * 3600L + t->tm_min * 60L + t->tm_sec;
    time_t tt = v; struct tm x; gmtime_r(&tt, &x); *t = x;
    return v;
}
time_t mktime(struct tm* t) { return timegm(t); }   // TZ is UTC in replays
time_t time(time_t* t) { time_t v = 1700000000; if (t) *t = v; return v; }
int clock_gettime(clockid_t u0, struct timespec* t) { t->tv_sec = 1700000000; t->tv_nsec = 0; return 0; }
int gettimeofday(struct timeval* t, void* u1) { t->tv_sec = 1700000000; t->tv_usec = 0; return 0; }
clock_t clock(void) { return 0; }
void tzset(void) {}
static const char wd[][10] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char mn[][10] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static void num(Out* o, long v, int w, char padc) {
    if (w == 1 && v >= 1000 && v <= 9999) w = 4;
    if (w == 2 && padc == '0' && v >= 0 && v <= 99) { unsigned x = (unsigned)v & 127; putc_(o, '0' + x / 10); putc_(o, '0' + x % 10); return; }
    if (w == 3 && padc == '0' && v >= 0 && v <= 999) { unsigned x = (unsigned)v & 1023; putc_(o, '0' + x / 100); putc_(o, '0' + x / 10 % 10); putc_(o, '0' + x % 10); return; }
    if (w == 4 && v >= 1000 && v <= 9999) { unsigned x = (unsigned)v & 16383; putc_(o, '0' + x / 1000); putc_(o, '0' + x / 100 % 10); putc_(o, '0' + x / 10 % 10); putc_(o, '0' + x % 10); return; } char t[24]; int n = 0; bool neg = v < 0; if (neg) v = -v; do { t[n++] = '0' + v % 10; v /= 10; } while (v); if (neg) putc_(o, '-'); for (int i = n; i < w; ++i) putc_(o, padc); while (n) putc_(o, t[--n]); }
static void strf(Out* o, const char* f, const struct tm* t) {
    for (; *f; ++f) {
        if (*f != '%') { putc_(o, *f); continue; }
        switch (*++f) {
            case 'Y': num(o, t->tm_year + 1900L, 1, '0'); break;
            case 'y': num(o, (t->tm_year % 100 + 100) % 100, 2, '0'); break;
            case 'm': num(o, t->tm_mon + 1, 2, '0'); break;
            case 'd': num(o, t->tm_mday, 2, '0'); break;
            case 'e': num(o, t->tm_mday, 2, ' '); break;
            case 'H': num(o, t->tm_hour, 2, '0'); break;
            case 'I': num(o, (t->tm_hour + 11) % 12 + 1, 2, '0'); break;
            case 'M': num(o, t->tm_min, 2, '0'); break;
            case 'S': num(o, t->tm_sec, 2, '0'); break;
            case 'j': num(o, t->tm_yday + 1, 3, '0'); break;
            case 'F': strf(o, "%Y-%m-%d", t); break;
            case 'T': strf(o, "%H:%M:%S", t); break;
            case 'R': strf(o, "%H:%M", t); break;
            case 'D': strf(o, "%m/%d/%y", t); break;
            case 'c': strf(o, "%a %b %e %H:%M:%S %Y", t); break;
            case 'Z': strf(o, "GMT", t); break;
            case 'z': strf(o, "+0000", t); break;
            case 'a': { const char* s = wd[t->tm_wday]; for (int i = 0; i < 3; ++i) putc_(o, s[i]); break; }
            case 'A': { const char* s = wd[t->tm_wday]; while (*s) putc_(o, *s++); break; }
            case 'b': case 'h': { const char* s = mn[t->tm_mon]; for (int i = 0; i < 3; ++i) putc_(o, s[i]); break; }
            case 'B': { const char* s = mn[t->tm_mon]; while (*s) putc_(o, *s++); break; }
            case 'n': putc_(o, '\n'); break;
            case 't': putc_(o, '\t'); break;
            case '%': putc_(o, '%'); break;
            default: msym_unsupported("strftime conversion");
        }
    }
}
size_t strftime(char* b, size_t cap, const char* f, const struct tm* t) { Out o_ = {b, cap, 0}, *o = &o_; strf(o, f, t); if (o->n >= cap) return 0; b[o->n] = 0; return o->n; }
char* asctime_r(const struct tm* t, char* b) { strftime(b, 64, "%a %b %e %H:%M:%S %Y\n", t); return b; }
char* asctime(const struct tm* t) { static char b[64]; return asctime_r(t, b); }
char* ctime(const time_t* t) { return asctime(gmtime(t)); }
int nanosleep(const struct timespec* u0, struct timespec* u1) { return 0; }
unsigned sleep(unsigned u0) { return 0; }
int usleep(unsigned u0) { return 0; }

// ------------------------------------------------------------------ in-memory files
typedef struct VFile { char name[256]; unsigned char* data; size_t size, cap; bool used; } VFile;
static VFile vfs[64];
static VFile* vfind(const char* n) { if (n[0] == '.' && n[1] == '/') n += 2; for (int i = 0; i < 64; ++i) if (vfs[i].used && !strcmp(vfs[i].name, n)) return &vfs[i]; return 0; }
static VFile* vcreate(const char* n) {
    if (n[0] == '.' && n[1] == '/') n += 2;
    VFile* f = vfind(n); if (f) { f->size = 0; return f; }
    for (int i = 0; i < 64; ++i) if (!vfs[i].used) { f = &vfs[i]; f->used = true; f->size = f->cap = 0; f->data = 0; size_t l = strlen(n); if (l > 255) msym_unsupported("path too long"); memcpy(f->name, n, l + 1); return f; }
    msym_unsupported("too many files");
}
static void vwrite(VFile* f, size_t pos, const void* p, size_t n) {
    if (!n) return;
    if (pos + n > f->cap) { size_t c = f->cap * 2 > pos + n ? f->cap * 2 : pos + n; unsigned char* d = (unsigned char*)malloc(c); memset(d, 0, c); if (f->size) memcpy(d, f->data, f->size); f->data = d; f->cap = c; }
    memcpy(f->data + pos, p, n); if (pos + n > f->size) f->size = pos + n;
}
static size_t vread(VFile* f, size_t pos, void* p, size_t n) { if (pos >= f->size) return 0; if (n > f->size - pos) n = f->size - pos; memcpy(p, f->data + pos, n); return n; }
void msym_file(const char* path, const void* data, size_t n) { VFile* f = vcreate(path); vwrite(f, 0, data, n); }
long msym_file_get(const char* path, void* buf, size_t cap) { VFile* f = vfind(path); if (!f) return -1; vread(f, 0, buf, cap); return (long)f->size; }
static bool visdir(const char* p) {
    size_t l = strlen(p); if (!l) return false; if (!strcmp(p, ".") || !strcmp(p, "./")) return true;
    if (p[0] == '.' && p[1] == '/') { p += 2; l -= 2; }
    while (l && p[l - 1] == '/') --l;
    for (int i = 0; i < 64; ++i) if (vfs[i].used && !strncmp(vfs[i].name, p, l) && vfs[i].name[l] == '/') return true;
    return false;
}
// stdio
typedef struct MFILE { VFile* f; size_t pos; bool rd, wr, app, eof, err, null; int unget; bool full; } MFILE;
static MFILE m_stdout = {0, 0, false, true, false, false, false, true, -1}, m_stderr = {0, 0, false, true, false, false, false, true, -1}, m_stdin = {0, 0, true, false, false, false, false, true, -1};
FILE* stdout_ptr_model __asm__("stdout") = (FILE*)&m_stdout;
FILE* stderr_ptr_model __asm__("stderr") = (FILE*)&m_stderr;
FILE* stdin_ptr_model __asm__("stdin") = (FILE*)&m_stdin;
static MFILE* M(FILE* f) { return (MFILE*)f; }
static const char* g_denied;
void msym_deny_open(const char* p) { g_denied = p; }
FILE* fopen64(const char* p, const char* m) {
    if (g_denied && !strcmp(p, g_denied)) { g_errno = EACCES; return 0; }
    if (!*p) { g_errno = ENOENT; return 0; }
    bool w = m[0] == 'w', a = m[0] == 'a', plus = strchr(m, '+') != 0;
    VFile* f = vfind(p);
    if (!w && !a && !f) { g_errno = ENOENT; return 0; }
    if ((w || a) && *p != '/' && strchr(p, '/')) { char dir[256]; strcpy(dir, p); *strrchr(dir, '/') = 0; if (!visdir(dir)) { g_errno = ENOENT; return 0; } }
    if (w || (a && !f)) f = vcreate(p);
    MFILE* r = (MFILE*)malloc(sizeof(MFILE)); memset(r, 0, sizeof *r);
    r->f = f; r->rd = !w && !a; r->wr = w || a; r->app = a; r->unget = -1; if (plus) r->rd = r->wr = true; if (a) r->pos = f->size;
    r->full = !strcmp(p, "/dev/full");
    return (FILE*)r;
}
FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
int fclose(FILE* f) { int r = M(f)->full && M(f)->pos ? -1 : 0; if (r) g_errno = ENOSPC; free(f); return r; }
int fflush(FILE* u0) { return 0; }
int fileno(FILE* u0) { return 3; }
size_t fread(void* p, size_t s, size_t n, FILE* fp) { MFILE* f = M(fp); if (f->null) return 0; if (!f->rd) { f->err = true; return 0; } size_t k = vread(f->f, f->pos, p, s * n); f->pos += k; if (k < s * n) f->eof = true; return s ? k / s : 0; }
size_t fwrite(const void* p, size_t s, size_t n, FILE* fp) { MFILE* f = M(fp); if (f->null) return n; if (!f->wr) { f->err = true; return 0; } if (f->full) { if (f->pos + s * n > 4096) { f->err = true; g_errno = ENOSPC; return 0; } f->pos += s * n; return n; } if (f->app) f->pos = f->f->size; vwrite(f->f, f->pos, p, s * n); f->pos += s * n; return n; }
int fgetc(FILE* fp) { unsigned char c; return fread(&c, 1, 1, fp) == 1 ? c : -1; }
int getc(FILE* fp) { return fgetc(fp); }
int ungetc(int c, FILE* fp) { if (c >= 0 && M(fp)->pos) { --M(fp)->pos; M(fp)->eof = false; } return c; }
char* fgets(char* b, int n, FILE* fp) { int i = 0; while (i < n - 1) { int c = fgetc(fp); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
int fputc(int c, FILE* fp) { char x = (char)c; fwrite(&x, 1, 1, fp); return c; }
int putc(int c, FILE* fp) { return fputc(c, fp); }
int putchar(int c) { return c; }
int puts(const char* u0) { return 0; }
int fputs(const char* s, FILE* fp) { if (M(fp)->null) return 0; fwrite(s, 1, strlen(s), fp); return 0; }
int vfprintf(FILE* fp, const char* f, va_list ap) { if (M(fp)->null) return 0; char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); fwrite(b, 1, n < 4095 ? n : 4095, fp); return n; }
int fprintf(FILE* fp, const char* f, ...) { va_list ap; va_start(ap, f); int n = vfprintf(fp, f, ap); va_end(ap); return n; }
int printf(const char* u0, ...) { return 0; }
int vprintf(const char* u0, va_list u1) { return 0; }
int fseek(FILE* fp, long o, int w) { MFILE* f = M(fp); long b = w == 0 ? 0 : w == 1 ? (long)f->pos : (long)f->f->size; if (b + o < 0) { g_errno = EINVAL; return -1; } f->pos = b + o; f->eof = false; return 0; }
int fseeko64(FILE* fp, long o, int w) { return fseek(fp, o, w); }
int fseeko(FILE* fp, long o, int w) { return fseek(fp, o, w); }
long ftell(FILE* fp) { return (long)M(fp)->pos; }
long ftello64(FILE* fp) { return (long)M(fp)->pos; }
void rewind(FILE* fp) { M(fp)->pos = 0; M(fp)->eof = false; }
int feof(FILE* fp) { return M(fp)->eof; }
int ferror(FILE* fp) { return M(fp)->err; }
void clearerr(FILE* fp) { M(fp)->eof = M(fp)->err = false; }
void perror(const char* u0) {}
int remove(const char* p) { VFile* f = vfind(p); if (!f) { g_errno = ENOENT; return -1; } f->used = false; return 0; }
int unlink(const char* p) { return remove(p); }
int rename(const char* a, const char* b) { VFile* f = vfind(a); if (!f) { g_errno = ENOENT; return -1; } VFile* t = vfind(b); if (t) t->used = false; size_t l = strlen(b); memcpy(f->name, b, l + 1); return 0; }
// descriptors
typedef struct Fd { VFile* f; size_t pos; bool open, rd, wr, app; } Fd;
static Fd fds[32];
static int vopen(const char* p, int fl) {
    VFile* f = vfind(p);
    if (!f) { if (!(fl & O_CREAT)) { g_errno = ENOENT; return -1; } f = vcreate(p); }
    else if ((fl & O_CREAT) && (fl & O_EXCL)) { g_errno = EEXIST; return -1; }
    if (fl & O_TRUNC) f->size = 0;
    for (int i = 3; i < 32; ++i) if (!fds[i].open) { fds[i].f = f; fds[i].pos = 0; fds[i].open = true; fds[i].rd = (fl & 3) != O_WRONLY; fds[i].wr = (fl & 3) != O_RDONLY; fds[i].app = fl & O_APPEND; return i; }
    msym_unsupported("too many descriptors");
}
int open64(const char* p, int fl, ...) { return vopen(p, fl); }
int open(const char* p, int fl, ...) { return vopen(p, fl); }
int creat(const char* p, mode_t u1) { return vopen(p, O_CREAT | O_TRUNC | O_WRONLY); }
static Fd* F(int fd) { if (fd < 0 || fd >= 32 || !fds[fd].open) { g_errno = EBADF; return 0; } return &fds[fd]; }
int close(int fd) { Fd* f = F(fd); if (!f) return -1; f->open = false; return 0; }
ssize_t read(int fd, void* p, size_t n) { Fd* f = F(fd); if (!f) return -1; size_t k = vread(f->f, f->pos, p, n); f->pos += k; return (ssize_t)k; }
ssize_t pread64(int fd, void* p, size_t n, off_t o) { Fd* f = F(fd); if (!f) return -1; return (ssize_t)vread(f->f, o, p, n); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { return pread64(fd, p, n, o); }
ssize_t write(int fd, const void* p, size_t n) { if (fd == 1 || fd == 2) return (ssize_t)n; Fd* f = F(fd); if (!f) return -1; if (f->app) f->pos = f->f->size; vwrite(f->f, f->pos, p, n); f->pos += n; return (ssize_t)n; }
ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) { Fd* f = F(fd); if (!f) return -1; vwrite(f->f, o, p, n); return (ssize_t)n; }
off_t lseek64(int fd, off_t o, int w) { Fd* f = F(fd); if (!f) return -1; long b = w == 0 ? 0 : w == 1 ? (long)f->pos : (long)f->f->size; if (b + o < 0) { g_errno = EINVAL; return -1; } f->pos = b + o; return (off_t)f->pos; }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off_t n) { Fd* f = F(fd); if (!f) return -1; if ((size_t)n > f->f->size) { size_t k = n - f->f->size; char* z = (char*)calloc(1, k); vwrite(f->f, f->f->size, z, k); } else f->f->size = n; return 0; }
int fsync(int u0) { return 0; }
int fdatasync(int u0) { return 0; }
static void fillstat(struct stat* st, VFile* f) { memset(st, 0, sizeof *st); st->st_mode = f ? S_IFREG | 0644 : S_IFDIR | 0755; st->st_size = f ? (off_t)f->size : 4096; st->st_nlink = 1; st->st_ino = f ? f - vfs + 1 : 1000; }
static int vstat(const char* p, struct stat* st) { VFile* f = vfind(p); if (!f && !visdir(p)) { g_errno = ENOENT; return -1; } fillstat(st, f); return 0; }
int stat64(const char* p, struct stat64* st) { return vstat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) { return vstat(p, (struct stat*)st); }
int stat(const char* p, struct stat* st) { return vstat(p, st); }
int lstat(const char* p, struct stat* st) { return vstat(p, st); }
int fstat64(int fd, struct stat64* st) { Fd* f = F(fd); if (!f) return -1; fillstat((struct stat*)st, f->f); return 0; }
int fstat(int fd, struct stat* st) { Fd* f = F(fd); if (!f) return -1; fillstat(st, f->f); return 0; }
int access(const char* p, int m) { if (vfind(p) || visdir(p)) { if (m & X_OK) { if (!visdir(p)) { g_errno = EACCES; return -1; } } return 0; } g_errno = ENOENT; return -1; }
int faccessat(int u0, const char* p, int m, int u3) { return access(p, m); }
int isatty(int u0) { return 0; }
char* getcwd(char* b, size_t n) { if (!b) b = (char*)malloc(n ? n : 4096); strcpy(b, "/work"); return b; }
char* realpath(const char* p, char* r) { if (!vfind(p) && !visdir(p)) { g_errno = ENOENT; return 0; } if (!r) r = (char*)malloc(4096); if (p[0] == '/') strcpy(r, p); else { strcpy(r, "/work/"); strcat(r, p); } return r; }
pid_t getpid(void) { return 1234; }
uid_t getuid(void) { return 0; }
uid_t geteuid(void) { return 0; }
long sysconf(int u0) { return 4096; }
// glob
static bool fnm(const char* p, const char* s) {
    for (;; ++p, ++s) {
        if (*p == 0) return *s == 0;
        if (*p == '*') { while (*p == '*') ++p; for (;; ++s) { if (fnm(p, s)) return true; if (!*s || *s == '/') return false; } }
        if (*p == '?') { if (!*s || *s == '/') return false; continue; }
        if (*p == '[') {
            const char* q = p + 1; bool inv = false; if (*q == '!' || *q == '^') { inv = true; ++q; }
            bool in = false; const char* st = q;
            while (*q && (*q != ']' || q == st)) { if (q[1] == '-' && q[2] && q[2] != ']') { if (*s >= q[0] && *s <= q[2]) in = true; q += 3; } else { if (*q == *s) in = true; ++q; } }
            if (*q == ']') { if (!*s || in == inv || *s == '/') return false; p = q; continue; }
        }
        if (*p == '\\' && p[1]) ++p;
        if (*p != *s) return false;
    }
}
int fnmatch(const char* p, const char* s, int u2) { return fnm(p, s) ? 0 : FNM_NOMATCH; }
__attribute__((weak)) int glob64(const char* pat, int flags, int (*u2)(const char*, int), glob64_t* g) {
    char* res[64]; int n = 0; bool dot = pat[0] == '.' && pat[1] == '/';
    for (int i = 0; i < 64; ++i) if (vfs[i].used && fnm(dot ? pat + 2 : pat, vfs[i].name)) res[n++] = vfs[i].name;
    g->gl_pathc = 0; g->gl_pathv = 0;
    if (!n) { if (flags & GLOB_NOCHECK) msym_unsupported("GLOB_NOCHECK"); return GLOB_NOMATCH; }
    if (!(flags & GLOB_NOSORT)) for (int i = 1; i < n; ++i) for (int j = i; j > 0 && strcmp(res[j - 1], res[j]) > 0; --j) { char* t = res[j]; res[j] = res[j - 1]; res[j - 1] = t; }
    size_t offs = flags & GLOB_DOOFFS ? g->gl_offs : (g->gl_offs = 0);
    g->gl_pathv = (char**)malloc((offs + n + 1) * sizeof(char*)); for (size_t i = 0; i < offs; ++i) g->gl_pathv[i] = 0;
    for (int i = 0; i < n; ++i) { size_t l = strlen(res[i]) + (dot ? 2 : 0); char* c = (char*)malloc(l + 1); if (dot) { c[0] = '.'; c[1] = '/'; } strcpy(c + (dot ? 2 : 0), res[i]); g->gl_pathv[offs + i] = c; }
    g->gl_pathv[offs + n] = 0; g->gl_pathc = n;
    return 0;
}
__attribute__((weak)) void globfree64(glob64_t* g) { if (!g->gl_pathv) return; for (size_t i = 0; i < g->gl_pathc; ++i) free(g->gl_pathv[g->gl_offs + i]); free(g->gl_pathv); g->gl_pathv = 0; g->gl_pathc = 0; }
__attribute__((weak)) int glob(const char* pat, int flags, int (*e)(const char*, int), glob_t* g) { return glob64(pat, flags, e, (glob64_t*)g); }
__attribute__((weak)) void globfree(glob_t* g) { globfree64((glob64_t*)g); }
int getrlimit64(int u0, void* u1) { return 0; }
int mkdir(const char* u0, mode_t u1) { return 0; }
int rmdir(const char* u0) { return 0; }
void* signal(int u0, void* u1) { return 0; }

char* __xpg_basename(char* p)
{
    if (!p || !*p) return (char*)"."; size_t n = strlen(p); while (n > 1 && p[n - 1] == '/') p[--n] = 0; char* b = p; for (size_t i = 0; i + 1 < n; ++i) if (p[i] == '/') b = p + i + 1; return b;
}
