// libc functions for symbolic execution (plain C, no tricks)
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>

void* malloc(size_t);
void* memcpy(void*, const void*, size_t);
int64_t sym_concretize(int64_t v);
int sym_fmt_double(char* buf, size_t sz, const char* fmt, double d);

size_t strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b)
{
    while(*a && *a == *b) { a++; b++; }
    return (int) (unsigned char) *a - (int) (unsigned char) *b;
}
int strncmp(const char* a, const char* b, size_t n)
{
    for(; n > 0; n--, a++, b++) {
        if (*a != *b) return (int) (unsigned char) *a - (int) (unsigned char) *b;
        if (!*a) return 0;
    }
    return 0;
}
static int lower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int tolower(int c) { return lower(c); }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { c = lower(c); return c >= 'a' && c <= 'z'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int strcasecmp(const char* a, const char* b)
{
    while(*a && lower(*a) == lower(*b)) { a++; b++; }
    return lower((unsigned char) *a) - lower((unsigned char) *b);
}
static unsigned short ctab[384]; static const unsigned short* ctabp; static int ctabinit;
const unsigned short** __ctype_b_loc(void)
{
    if (!ctabinit) {
        ctabinit = 1;
        for(int c = 0; c < 128; c++) {
            unsigned short v = 0;
            if (c >= 'A' && c <= 'Z') v |= 256 | 1024 | 8;
            if (c >= 'a' && c <= 'z') v |= 512 | 1024 | 8;
            if (c >= '0' && c <= '9') v |= 2048 | 8;
            if (isspace(c)) v |= 8192;
            if (c >= 32 && c < 127) v |= 16384;
            if (c > 32 && c < 127) v |= 32768;
            ctab[128 + c] = v;
        }
        ctabp = ctab + 128;
    }
    return &ctabp;
}
char* strcpy(char* d, const char* s) { size_t i = 0; while((d[i] = s[i])) i++; return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; while((d[i] = s[i])) i++; return d + i; }
char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for(; i < n && s[i]; i++) d[i] = s[i];
    for(; i < n; i++) d[i] = 0;
    return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n)
{
    size_t l = strlen(d), i = 0;
    for(; i < n && s[i]; i++) d[l + i] = s[i];
    d[l + i] = 0;
    return d;
}
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = malloc(n); memcpy(d, s, n); return d; }
char* __strdup(const char* s) { return strdup(s); }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* d = malloc(n + 1); memcpy(d, s, n); d[n] = 0; return d; }
char* strchr(const char* s, int c) { for(;; s++) { if (*s == (char) c) return (char*) s; if (!*s) return 0; } }
char* index(const char* s, int c) { return strchr(s, c); }
char* strrchr(const char* s, int c) { char* r = 0; for(;; s++) { if (*s == (char) c) r = (char*) s; if (!*s) return r; } }
char* strstr(const char* h, const char* n)
{
    size_t l = strlen(n);
    for(;; h++) { if (strncmp(h, n, l) == 0) return (char*) h; if (!*h) return 0; }
}
int memcmp(const void* a, const void* b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for(size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int) x[i] - (int) y[i];
    return 0;
}
void* memchr(const void* a, int c, size_t n)
{
    const unsigned char* x = a;
    for(size_t i = 0; i < n; i++) if (x[i] == (unsigned char) c) return (void*) (x + i);
    return 0;
}
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
    // stable insertion sort
    char* b = (char*) base;
    char* tmp = __builtin_alloca(sz ? sz : 1);
    for(size_t i = 1; i < n; i++) {
        size_t j = i;
        while(j > 0 && cmp(b + (j-1)*sz, b + i*sz) > 0) j--;
        if (j == i) continue;
        memcpy(tmp, b + i*sz, sz);
        for(size_t k = i; k > j; k--) memcpy(b + k*sz, b + (k-1)*sz, sz);
        memcpy(b + j*sz, tmp, sz);
    }
}
void* bsearch(const void* key, const void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
    const char* b = base;
    size_t lo = 0, hi = n;
    while(lo < hi) {
        size_t m = (lo + hi) / 2;
        int c = cmp(key, b + m * sz);
        if (c == 0) return (void*) (b + m * sz);
        if (c < 0) hi = m; else lo = m + 1;
    }
    return 0;
}
int abs(int v) { return v < 0 ? -v : v; }
long strtol(const char* s, char** end, int base)
{
    const char* p = s;
    while(isspace((unsigned char) *p)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    uint64_t v = 0;
    bool any = false;
    for(;; p++) {
        int c = (unsigned char) *p, d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (lower(c) >= 'a' && lower(c) <= 'z') d = lower(c) - 'a' + 10;
        else break;
        if (d >= base) break;
        v = v * base + d;
        any = true;
    }
    if (end) *end = (char*) (any ? p : s);
    return neg ? -(long) v : (long) v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long) strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return (unsigned long) strtol(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int) strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtol(s, 0, 10); }
double atof(const char* s)
{
    double v = 0, f = 1; bool neg = false;
    while(isspace((unsigned char) *s)) s++;
    if (*s == '-') { neg = true; s++; }
    while(isdigit((unsigned char) *s)) v = v * 10 + (*s++ - '0');
    if (*s == '.') { s++; while(isdigit((unsigned char) *s)) { f /= 10; v += f * (*s++ - '0'); } }
    return neg ? -v : v;
}

struct out { char* b; size_t sz, n; };
static void put(struct out* o, char c) { if (o->n + 1 < o->sz) o->b[o->n] = c; o->n++; }

int vsnprintf(char* buf, size_t sz, const char* f, va_list ap)
{
    struct out o = { buf, sz, 0 };
    for(; *f; f++) {
        if (*f != '%') { put(&o, *f); continue; }
        f++;
        if (*f == '%') { put(&o, '%'); continue; }
        bool left = false, zero = false, plus = false, alt = false, space = false;
        for(;; f++) {
            if (*f == '-') left = true;
            else if (*f == '0') zero = true;
            else if (*f == '+') plus = true;
            else if (*f == '#') alt = true;
            else if (*f == ' ') space = true;
            else break;
        }
        int w = 0, prec = -1;
        if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } f++; }
        else while(isdigit((unsigned char) *f)) w = w * 10 + *f++ - '0';
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else while(isdigit((unsigned char) *f)) prec = prec * 10 + *f++ - '0';
        }
        int lng = 0;
        while(*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { lng += *f == 'h' ? -1 : (*f == 'l') ? 1 : 2; f++; }
        char tmp[80];
        const char* s = tmp;
        int n = 0;
        char c = *f;
        if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'p' || c == 'o') {
            int64_t v;
            if (c == 'p') v = (int64_t) va_arg(ap, void*);
            else if (lng >= 1) v = va_arg(ap, long);
            else { v = va_arg(ap, int); if (c != 'd' && c != 'i') v = (uint32_t) v;
                if (lng == -1) v = (c == 'd' || c == 'i') ? (int16_t) v : (uint16_t) v;
                if (lng == -2) v = (c == 'd' || c == 'i') ? (int8_t) v : (uint8_t) v; }
#ifdef FMT_TOKEN
            // stand-in for the decimal representation of a 64-bit number with
            // maximal length (20 characters), which scanf below reverts
            if (lng >= 1 && c == 'd' && w == 0) {
                put(&o, '-');
                for(int k = 0; k < 16; k++) put(&o, (char) ('A' + (((uint64_t) v >> (60 - 4 * k)) & 15)));
                for(int k = 0; k < 3; k++) put(&o, 'Z');
                continue;
            }
#endif
            if (c == 'x' && w == 2 && zero && !left && prec < 0 && (uint64_t) v < 256) {
                // bytes: no paths per value
                for(int k = 4; k >= 0; k -= 4) { int d = (int) ((v >> k) & 15); put(&o, (char) ('0' + d + ('a' - '0' - 10) * (d > 9))); }
                continue;
            }
            v = sym_concretize(v);
            bool sg = (c == 'd' || c == 'i');
            bool neg = sg && v < 0;
            uint64_t u = neg ? 0 - (uint64_t) v : (uint64_t) v;
            unsigned base = (c == 'x' || c == 'X' || c == 'p') ? 16 : c == 'o' ? 8 : 10;
            char rev[70];
            int k = 0;
            do { unsigned d = u % base; rev[k++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; u /= base; } while(u);
            while(k < prec) rev[k++] = '0';
            if (zero && !left && prec < 0) { int extra = (neg || plus || space) ? 1 : 0; while(k + extra < w && k < 60) rev[k++] = '0'; }
            if (neg) tmp[n++] = '-'; else if (plus && sg) tmp[n++] = '+'; else if (space && sg) tmp[n++] = ' ';
            if (c == 'p' || (alt && base == 16)) { tmp[n++] = '0'; tmp[n++] = 'x'; }
            while(k) tmp[n++] = rev[--k];
        }
        else if (c == 'c') { tmp[n++] = (char) va_arg(ap, int); }
        else if (c == 's') {
            s = va_arg(ap, const char*);
            if (!s) s = "(null)";
            n = prec >= 0 ? (int) strnlen(s, prec) : (int) strlen(s);
        }
        else if (c == 'f' || c == 'g' || c == 'e') {
            char fm[20]; int k = 0;
            fm[k++] = '%'; fm[k++] = '.';
            int p = prec < 0 ? 6 : prec;
            if (p >= 10) fm[k++] = '0' + p / 10;
            fm[k++] = '0' + p % 10; fm[k++] = c; fm[k] = 0;
            n = sym_fmt_double(tmp, sizeof(tmp), fm, va_arg(ap, double));
            if (n > 79) n = 79;
        }
        if (!left) for(int i = n; i < w; i++) put(&o, ' ');
        for(int i = 0; i < n; i++) put(&o, s[i]);
        if (left) for(int i = n; i < w; i++) put(&o, ' ');
    }
    if (sz > 0) buf[o.n < sz ? o.n : sz - 1] = 0;
    return (int) o.n;
}
int vsprintf(char* buf, const char* f, va_list ap) { return vsnprintf(buf, (size_t) 1 << 40, f, ap); }
int snprintf(char* buf, size_t sz, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(buf, sz, f, ap); va_end(ap); return n; }
int sprintf(char* buf, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsnprintf(buf, (size_t) 1 << 40, f, ap); va_end(ap); return n; }

static int vsscanf_(const char* s, const char* f, va_list ap)
{
    int done = 0;
    const char* s0 = s;
    for(; *f; f++) {
        if (isspace((unsigned char) *f)) { while(isspace((unsigned char) *s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return (!*s && !done) ? -1 : done; s++; continue; }
        f++;
        bool sup = false;
        if (*f == '*') { sup = true; f++; }
        int w = 0;
        while(isdigit((unsigned char) *f)) w = w * 10 + *f++ - '0';
        int lng = 0;
        while(*f == 'l' || *f == 'h' || *f == 'z') { lng += *f == 'h' ? -1 : *f == 'z' ? 2 : 1; f++; }
        if (*f == 'n') { *va_arg(ap, int*) = (int) (s - s0); continue; }
        if (*f == 'c') { if (!*s) return done ? done : -1; if (!sup) { *va_arg(ap, char*) = *s; done++; } s++; continue; }
        while(isspace((unsigned char) *s)) s++;
        if (!*s) return done ? done : -1;
        if (*f == 's') {
            char* d = sup ? 0 : va_arg(ap, char*);
            int n = 0;
            while(*s && !isspace((unsigned char) *s) && (!w || n < w)) { if (d) d[n] = *s; n++; s++; }
            if (d) { d[n] = 0; done++; }
            continue;
        }
        if (*f == '[') {
            // only used: all but newline
            if (f[1] != '^' || f[2] != '\n' || f[3] != ']') return done;
            f += 3;
            char* d = sup ? 0 : va_arg(ap, char*);
            int n = 0;
            while(*s && *s != '\n' && (!w || n < w)) { if (d) d[n] = *s; n++; s++; }
            if (n == 0) return done;
            if (d) { d[n] = 0; done++; }
            continue;
        }
#ifdef FMT_TOKEN
        if (*f == 'd' && lng >= 1 && *s == '-' && s[19] == 'Z') {
            uint64_t v = 0;
            for(int k = 0; k < 16; k++) v = (v << 4) | (uint64_t) (unsigned char) (s[1 + k] - 'A');
            if (!sup) { *(va_arg(ap, uint64_t*)) = v; done++; }
            s += 20;
            continue;
        }
#endif
        // numbers
        int base = (*f == 'x' || *f == 'X') ? 16 : 10;
        const char* p = s;
        int n = 0;
        bool neg = false;
        if (*p == '-' || *p == '+') { neg = *p == '-'; p++; n++; }
        uint64_t v = 0;
        bool any = false;
        for(; (!w || n < w); p++, n++) {
            int c = (unsigned char) *p, d;
            if (c >= '0' && c <= '9') d = c - '0';
            else if (base == 16 && lower(c) >= 'a' && lower(c) <= 'f') d = lower(c) - 'a' + 10;
            else break;
            v = v * base + d;
            any = true;
        }
        if (!any) return done;
        s = p;
        if (neg) v = 0 - v;
        if (!sup) {
            void* d = va_arg(ap, void*);
            if (lng >= 1) *(uint64_t*) d = v;
            else if (lng == -1) *(uint16_t*) d = v;
            else if (lng == -2) *(uint8_t*) d = v;
            else *(uint32_t*) d = (uint32_t) v;
            done++;
        }
    }
    return done;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf_(s, f, ap); va_end(ap); return n; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf_(s, f, ap); va_end(ap); return n; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int n = vsscanf_(s, f, ap); va_end(ap); return n; }
