// Log output: nothing lost, no overflow, levels and filters, panic
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include "h.h"
static int my_fprintf(FILE* f, const char* fmt, ...);
#define fprintf my_fprintf
#define __assert_fail my_assert_fail
#define abort my_abort
#define getenv my_getenv
#define exit my_exit
static char* my_getenv(const char* n);
static void my_exit(int rc);
#include <assert.h>
#include "logging.c"
#undef fprintf
#undef abort
#undef getenv
#undef exit

#define CAP 8000
static char out[CAP], in[CAP];
static int outn, inn, calls;
static int my_fprintf(FILE* f, const char* fmt, ...)
{
    (void) f;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(out + outn, CAP - outn, fmt, ap);
    va_end(ap);
    PROP(n < CAP - outn, "limit of harness");
    outn += n;
    calls++;
    return n;
}
int gettimeofday(struct timeval* t, void* z) { (void) z; t->tv_sec = laik_log_init_time.tv_sec + 61; t->tv_usec = 0; return 0; }

static bool panic_ok;
static void ended(void);
void my_assert_fail(const char* c, const char* f, unsigned l, const char* fn)
{
    (void) c; (void) f; (void) l; (void) fn;
    PROP(panic_ok, "assertion in logging");
    ended();
    STOP();
}
void my_abort(void)
{
    PROP(panic_ok, "abort in logging");
    ended();
    STOP();
}
static Laik_Instance inst;
#ifndef PRE
#define PRE 0           // style of prefix; -1: without instance
#endif
#ifndef SYM
#define SYM 4           // symbolic characters
#endif
static const char* filler(int n)
{
    char* b = malloc(n + 1);
    for(int i = 0; i < n; i++) b[i] = 'a' + i % 26;
    b[n] = 0;
    return b;
}
static void add(const char* s)
{
    int n = (int) strlen(s);
    PROP(inn + n < CAP, "limit of harness");
    memcpy(in + inn, s, n + 1);
    inn += n;
    laik_log_append("%s", s);
}
static void setup(void)
{
    laik_loglevel = 2;
    laik_logprefix = PRE < 0 ? 2 : PRE;
    if (PRE >= 0) { laik_loginst = &inst; inst.mylocationid = 7; }
    else laik_log_mylocation = (char*) filler((int) CONC(nd_int(0, 1)) ? 200 : 5);
}
// skip prefix of line; returns position of text
static int skip(int o, bool first)
{
    PROP(out[o] == (first ? '=' : '.') && out[o+1] == out[o] && out[o+2] == ' ', "start of line tells if it is a continuation");
    o += 3;
    if (PRE == 0) return o;
    char end = PRE < 0 ? ':' : '|';
    while(out[o] && out[o] != end) o++;
    PROP(out[o] == end && out[o+1] == ' ', "prefix");
    return o + 2;
}
// all words of the message appear in order, one line per call
static void check_output(void)
{
    int i = 0, o = 0, lines = 0;
    while(o < outn) {
        o = skip(o, lines == 0);
        lines++;
        int word = -1;
        while(out[o] != '\n') {
            PROP(o < outn, "each line is terminated");
            if (out[o] != ' ') {
                while(in[i] == ' ' || in[i] == '\n') i++;
                PROP(in[i] == out[o], "characters of message in order");
                i++;
                word = o;
            }
            o++;
        }
        (void) word;
        o++;
    }
    while(in[i] == ' ' || in[i] == '\n') i++;
    PROP(i == inn, "complete message shown");
    PROP(calls == lines, "one output per line (not interleaved with other processes)");
}
void h_message(void)
{
    static const int len[] = { 0, 3, 98, 101, 260, 1021, 1200, 2100 };
    setup();
    int l0 = (int) CONC(nd_int(0, 7)), l1 = (int) CONC(nd_int(0, 7));
    char s[SYM + 1];
    for(int i = 0; i < SYM; i++) { s[i] = (char) nd_in(1, 255); ASSUME(s[i] != ':' && s[i] != '|'); }
    s[SYM] = 0;
    PROP(laik_log_begin(2), "shown: at level");
    if (CONC(nd_bool())) add(filler(len[l0]));
    else { char* b = malloc(400); memset(b, ' ', 400); b[len[l0] % 400] = 0; add(b); }
    add(s);
    add(filler(len[l1]));
    laik_log_flush("%s", "");
    check_output();
    REACHED("message");
    // next message starts from scratch
    outn = 0; inn = 0; calls = 0;
    laik_log(3, "%s", "next");
    strcpy(in, "Warning:next");
    inn = 4;
    PROP(calls == 1, "one line");
    int n = outn;
    PROP(n > 5 && memcmp(out + n - 5, "next\n", 5) == 0, "next message only");
}
// messages around multiples of the size of the buffer
void h_border(void)
{
    setup();
    int n = (int) CONC(nd_int(-4, 4)) + ((int) CONC(nd_int(0, 1)) ? 2048 : 1024);
    int first = (int) CONC(nd_int(0, 3));
    PROP(laik_log_begin(2), "shown: at level");
    if (first) { int f = (first == 1) ? 1 : (first == 2) ? 1022 : n - 1; add(filler(f)); n -= f; }
    if (n > 0) {
        char* s = (char*) filler(n);
        s[n-1] = (char) nd_in('A', 'Z');
        add(s);
    }
    laik_log_flush(0);
    check_output();
    REACHED("message");
}
void h_level(void)
{
    int lev = nd_int(0, 7), l = (int) CONC(nd_int(1, 4)), from = nd_int(-1, 9), to = nd_int(0, 9);
    setup();
    laik_set_loglevel(lev);
    laik_log_fromLID = from;
    laik_log_toLID = to;
    ASSUME(from <= to);
    int id = nd_int(0, 9);
    inst.mylocationid = id;
    bool e = (l >= lev) && (PRE < 0 || from < 0 || (id >= from && id <= to));
    PROP(laik_log_shown(l) == (l >= lev), "level shown");
    int kind = (int) CONC(nd_int(0, 1));
    if (kind == 0) laik_log(l, "%s", "text");
    else {
        bool b = laik_log_begin(l);
        PROP(b == e, "begin tells if shown");
        laik_log_append("%s", "te");
        laik_log_flush("%s", "xt");
    }
    PROP(calls == (e ? 1 : 0), "message shown exactly if level and filter allow");
    if (e) {
        PROP(memcmp(out + outn - 5, "text\n", 5) == 0, "text shown");
        char tmp[8];
        bool w = false, r = false;
        for(int i = 0; i + 7 <= outn; i++) { memcpy(tmp, out + i, 7); tmp[7] = 0; w |= !strcmp(tmp, "Warning"); tmp[5] = 0; r |= !strcmp(tmp, "ERROR"); }
        PROP(w == (l == LAIK_LL_Warning) && r == (l == LAIK_LL_Error), "warnings and errors are marked");
        REACHED("shown");
    }
    else REACHED("not shown");
}

static void ended(void)
{
    PROP(calls == 1, "panic message shown");
    bool w = false;
    for(int i = 0; i + 5 <= outn; i++) w |= !memcmp(out + i, "PANIC", 5);
    PROP(w, "panic marked");
    PROP(outn > 5 && memcmp(out + outn - 5, "text\n", 5) == 0, "text of panic shown");
    REACHED("panic ends program");
}
// a panic ends the program whatever level and filter are active
void h_panic(void)
{
    int lev = nd_int(0, 9);
    setup();
    laik_set_loglevel(lev);
    laik_log_fromLID = nd_int(-1, 9);
    laik_log_toLID = nd_int(0, 9);
    ASSUME(laik_log_fromLID <= laik_log_toLID);
    inst.mylocationid = nd_int(0, 9);
    panic_ok = true;
    int kind = (int) CONC(nd_int(0, 2));
    if (CONC(nd_bool())) laik_log_inc();
    if (kind == 0) laik_panic("text");
    else if (kind == 1) laik_log(LAIK_LL_Panic, "%s", "text");
    else {
        PROP(laik_log_begin(LAIK_LL_Panic), "panic is shown");
        laik_log_append("%s", "te");
        laik_log_flush("%s", "xt");
    }
    PROP(false, "program continues after panic");
}

// configuration by environment variable
static char env[40];
static bool exit_ok;
static char* my_getenv(const char* n) { return strcmp(n, "LAIK_LOG") == 0 ? env : 0; }
static void my_exit(int rc)
{
    PROP(exit_ok && rc != 0, "program ended with valid configuration");
    REACHED("invalid configuration");
    STOP();
}
static char* num(char* p, int v)
{
    if (v >= 10) *p++ = (char) ('0' + v / 10);
    *p++ = (char) ('0' + v % 10);
    return p;
}
void h_env(void)
{
    int opt = (int) CONC(nd_int(0, 2)), filter = (int) CONC(nd_int(0, 2));
    int big = (int) CONC(nd_bool());
    int lev = nd_int(0, 9), from = big ? nd_int(10, 99) : nd_int(0, 9), to = big ? nd_int(10, 99) : nd_int(0, 9);
    ASSUME(from <= to);
    char* p = env;
    if (opt) *p++ = opt == 1 ? 'n' : 's';
    p = num(p, lev);
    if (filter) { *p++ = ':'; p = num(p, from); }
    if (filter == 2) { *p++ = '-'; p = num(p, to); }
    *p = 0;
    exit_ok = lev == 0;
    inst.mylocationid = nd_int(0, 120);
    laik_log_init(&inst);
    PROP(lev > 0, "level 0 is not valid");
    int l = nd_int(1, 4);
    PROP(laik_log_shown(l) == (l >= lev), "level as configured");
    if (filter == 1) to = from;
    bool e = l >= lev && (!filter || (inst.mylocationid >= from && inst.mylocationid <= to));
    PROP(laik_log_begin(l) == e, "filter as configured");
    laik_log_flush("%s", "text");
    PROP(calls == (e ? 1 : 0), "message shown as configured");
    if (e) {
        int o = 3;
        if (opt == 0) PROP(memcmp(out + o, "LAIK-", 5) == 0, "long prefix");
        else if (opt == 2) PROP(memcmp(out + o, "L", 1) == 0 && memcmp(out + o, "LAIK", 4) != 0, "short prefix");
        else PROP(out[o] == 't' || out[o] == 'W' || out[o] == 'E', "no prefix");
        REACHED("shown as configured");
    }
}
