/* Virtual processor clock: every way a program can ask for the time is redirected here (linker --wrap), so that
 * a run is a pure function of its input and the time limit fires exactly where the harness says. */
#define _GNU_SOURCE
#include <time.h>
#include <stdint.h>
#include <stddef.h>
#include <sys/time.h>
#include <sys/resource.h>
uint64_t vclock_polls;              /* how often the time was asked for since vclock_reset     */
uint64_t vclock_jump_at = UINT64_MAX;   /* from this poll on, far beyond the time limit        */
double vclock_jump_seconds = 1e6;   /* how far                                                 */
double vclock_step = 0;             /* seconds per poll                                        */
double vclock_base = 1.0;
const unsigned *vclock_watch;       /* the time jumps, too, once this counter ...               */
unsigned vclock_watch_at;           /* ... has reached this value                               */
void vclock_reset(uint64_t jump_at) { vclock_polls = 0; vclock_jump_at = jump_at; }
static double now(void) {
    uint64_t k = vclock_polls++;
    return vclock_base + vclock_step * (double) k + (k >= vclock_jump_at || (vclock_watch && k && *vclock_watch >= vclock_watch_at) ? vclock_jump_seconds : 0);
}
clock_t __wrap_clock(void) { return (clock_t) (now() * CLOCKS_PER_SEC); }
time_t __wrap_time(time_t *t) { time_t r = (time_t) now(); if (t) *t = r; return r; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    double d = now(); (void) c; ts->tv_sec = (time_t) d; ts->tv_nsec = (long) ((d - (double) ts->tv_sec) * 1e9); return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) {
    double d = now(); (void) z; tv->tv_sec = (time_t) d; tv->tv_usec = (long) ((d - (double) tv->tv_sec) * 1e6); return 0;
}
int __wrap_getrusage(int who, struct rusage *u) {
    double d = now(); (void) who; for (size_t i = 0; i < sizeof *u; i++) ((char *) u)[i] = 0;
    u->ru_utime.tv_sec = (time_t) d; u->ru_utime.tv_usec = (long) ((d - (double) u->ru_utime.tv_sec) * 1e6); return 0;
}
