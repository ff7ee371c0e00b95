/* Linked into the real program (main.c included) to make the writes of its report fail in scripted ways. The stream that
 * freopen attaches to standard output gets the buffer size VSHIM_BUF; with VSHIM_FAIL set, its writes go through a function
 * that refuses the calls whose numbers are listed ("2", "1,3", "2+" = from the second on) or takes only half of them ("h2"). */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
FILE *__real_freopen(const char *, const char *, FILE *);
int __real_fileno(FILE *);
static FILE *cookie, *real;
static int calls;
static ssize_t put(void *c, const char *b, size_t n) {
    (void) c;
    const char *s = getenv("VSHIM_FAIL");
    size_t m = n;
    calls++;
    while (s && *s) {
        int half = *s == 'h'; char *e;
        long k = strtol(s + half, &e, 10);
        if (k == calls || (*e == '+' && calls >= k)) { if (half) m = (n + 1) / 2; else { errno = ENOSPC; return 0; } }
        s = *e == '+' ? e + 1 : e;
        if (*s == ',') s++;
    }
    ssize_t w = write(__real_fileno(real), b, m);
    return w < 0 ? 0 : w;
}
static int shut(void *c) { (void) c; const char *l = getenv("VSHIM_CALLS"); FILE *f = l ? fopen(l, "w") : NULL; if (f) { fprintf(f, "%d\n", calls); fclose(f); } return getenv("VSHIM_CLOSE") ? (errno = EIO, -1) : 0; }
FILE *__wrap_freopen(const char *p, const char *m, FILE *s) {
    int out = s == stdout;
    FILE *f = __real_freopen(p, m, s);
    const char *b = getenv("VSHIM_BUF");
    if (!f || !out) return f;
    if (getenv("VSHIM_FAIL") || getenv("VSHIM_CLOSE")) {
        cookie_io_functions_t io = {NULL, put, NULL, shut};
        real = f;
        FILE *c = fopencookie(NULL, "w", io);
        if (!c) abort();
        stdout = f = cookie = c;
    }
    static char room[1 << 16];
    if (b) setvbuf(f, room, _IOFBF, (size_t) atoi(b));
    return f;
}
int __wrap_fileno(FILE *f) { return __real_fileno(f && f == cookie ? real : f); }
