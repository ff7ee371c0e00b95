#define _GNU_SOURCE
#include "common.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <malloc.h>
#include <time.h>

#define NOUT (1u << 20)
#define NSAMP 6
typedef struct Shared {
    volatile uint64_t cur;          /* case being run */
    volatile uint64_t done;         /* cases finished */
    volatile int state;             /* 0 idle 1 running 2 finished 3 case timeout */
    uint64_t counter[NCOUNT];
    volatile int failed;
    uint64_t fail_case;
    char fail[8192];
    char note[8192];
    int nknown; char kkey[8][64]; char kmsg[8][1200]; uint64_t kcount[8]; uint64_t kcase[8];
    int nsamp;
    char samp[NSAMP][1200];
} Shared;

static Shared *sh, *all;
static const char *cname[NCOUNT];
static int cismax[NCOUNT];
static uint64_t *outset;            /* shared open-addressing set of outcome hashes */
static volatile uint64_t *outcount;
static int h_argc; static char **h_argv;
static int out_fd = -1;
static int case_seconds = 60;

const char *h_arg(const char *name, const char *dflt) {
    for (int i = 1; i + 1 < h_argc; i++)
        if (strcmp(h_argv[i], name) == 0) return h_argv[i + 1];
    return dflt;
}
long h_argi(const char *name, long dflt) { const char *s = h_arg(name, NULL); return s ? atol(s) : dflt; }
double h_argf(const char *name, double dflt) { const char *s = h_arg(name, NULL); return s ? atof(s) : dflt; }

uint64_t h_hash(uint64_t h, const void *p, size_t n) {
    const unsigned char *c = p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h ^ (h >> 29);
}
uint64_t h_hash_u(uint64_t h, uint64_t d) { return h_hash(h ? h : 1469598103934665603ULL, &d, sizeof d); }
uint64_t h_hash_d(uint64_t h, double d) { return h_hash_u(h, (uint64_t) (int64_t) llround(d * 1e6)); }

void h_name(int k, const char *name) { cname[k] = name; }
void h_count(int k, uint64_t d) { sh->counter[k] += d; }
void h_max(int k, uint64_t v) { cismax[k] = 1; if (v > sh->counter[k]) sh->counter[k] = v; }
void h_outcome(uint64_t x) {
    if (!x) x = 1;
    uint64_t i = (x * 0x9E3779B97F4A7C15ULL) >> 44;
    for (unsigned t = 0; t < 64; t++, i = (i + 1) & (NOUT - 1)) {
        uint64_t e = __atomic_load_n(&outset[i], __ATOMIC_RELAXED);
        if (e == x) return;
        if (e == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&outset[i], &z, x, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
                __atomic_fetch_add(outcount, 1, __ATOMIC_SEQ_CST);
                return;
            }
            if (z == x) return;
        }
    }
}
void h_fail(const char *fmt, ...) {
    if (sh->failed) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->fail, sizeof sh->fail, fmt, ap);
    va_end(ap);
    sh->fail_case = sh->cur;
    sh->failed = 1;
}
bool h_failed(void) { return sh->failed; }
void h_note(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->note, sizeof sh->note, fmt, ap);
    va_end(ap);
}
void h_sample(const char *fmt, ...) {
    if (sh->nsamp >= NSAMP) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->samp[sh->nsamp++], sizeof sh->samp[0], fmt, ap);
    va_end(ap);
}
void h_known(const char *key, const char *fmt, ...) {
    for (int i = 0; i < sh->nknown; i++) if (strcmp(sh->kkey[i], key) == 0) { sh->kcount[i]++; return; }
    if (sh->nknown >= 8) return;
    int i = sh->nknown++;
    snprintf(sh->kkey[i], sizeof sh->kkey[i], "%s", key);
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->kmsg[i], sizeof sh->kmsg[i], fmt, ap);
    va_end(ap);
    sh->kcount[i] = 1; sh->kcase[i] = sh->cur;
}
static int cap_fd = -1, cap_saved = -1; static char *cap_buf; static size_t cap_n;
void h_capture_begin(void) {
    if (cap_fd < 0) { cap_fd = memfd_create("out", 0); }
    fflush(stdout);
    cap_saved = dup(1);
    if (ftruncate(cap_fd, 0)) abort();
    lseek(cap_fd, 0, SEEK_SET);
    dup2(cap_fd, 1);
}
const char *h_capture_end(void) {
    fflush(stdout);
    off_t n = lseek(cap_fd, 0, SEEK_END);
    if ((size_t) n + 1 > cap_n) { cap_n = 2 * (size_t) n + 4096; cap_buf = realloc(cap_buf, cap_n); }
    ssize_t r = pread(cap_fd, cap_buf, (size_t) n, 0);
    cap_buf[r > 0 ? r : 0] = 0;
    dup2(cap_saved, 1); close(cap_saved); cap_saved = -1;
    return cap_buf;
}
size_t h_heap_used(void) { void *volatile q = malloc(40); free(q); struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
int h_child(void (*fn)(void *), void *ctx, int seconds) {
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &off, NULL);
        signal(SIGALRM, SIG_DFL); alarm((unsigned) seconds);
        fn(ctx); fflush(NULL); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    return st;
}
void h_devnull_stdout(void) {
    int fd = open("/dev/null", O_WRONLY);
    fflush(stdout); dup2(fd, 1); close(fd);
}
static void on_alarm(int s) { (void) s; sh->state = 3; _exit(99); }

void h_init(int argc, char **argv) {
    h_argc = argc; h_argv = argv;
    out_fd = dup(1);
    case_seconds = (int) h_argi("--case-seconds", 60);
    all = mmap(NULL, sizeof(Shared) * 65, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    outset = mmap(NULL, sizeof(uint64_t) * NOUT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    outcount = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh = &all[64];
}

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char) *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void arm(int seconds) {
    struct itimerval it = {{0, 0}, {seconds, 0}};
    setitimer(ITIMER_REAL, &it, NULL);
}

extern int __real_clock_gettime(clockid_t c, struct timespec *ts);
static double wall(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + t.tv_nsec * 1e-9; }
static double t0, deadline;
static void worker(uint64_t lo, uint64_t hi, uint64_t stride, case_fn fn, void *ctx) {
    h_devnull_stdout();
    signal(SIGALRM, on_alarm);
    sh->state = 1;
    for (uint64_t i = lo; i < hi; i += stride) {
        if (deadline > 0 && (sh->done & 15) == 0 && wall() - t0 > deadline) break;
        sh->cur = i;
        sh->note[0] = 0;
        arm(case_seconds);
        fn(i, ctx);
        arm(0);
        sh->done++;
        if (sh->failed) break;
        if (!sh->nsamp && sh->note[0] && sh->done >= 5) h_sample("%s", sh->note);
    }
    sh->state = 2;
}

int h_run(const char *family, uint64_t total, case_fn fn, void *ctx) {
    int shards = (int) h_argi("--shards", 8);
    if (shards > 64) shards = 64;
    uint64_t limit = (uint64_t) h_argi("--limit", 0);
    if (limit && limit < total) total = limit;
    const char *only = h_arg("--only", NULL);
    const char *one = h_arg("--shard", NULL);      /* replay: k:upto, all cases of worker k up to a case */
    pid_t pid[64]; int status[64];
    t0 = wall(); deadline = h_argf("--deadline", 0);
    fflush(NULL);
    int n = 0;
    for (int k = 0; k < shards; k++) {
        uint64_t lo = k, hi = total, st = shards;
        if (only) { if (k) break; lo = strtoull(only, NULL, 10); hi = lo + 1; st = 1; }
        else if (one) {
            int kk = atoi(one); const char *c = strchr(one, ':');
            if (k) break;
            lo = kk; hi = strtoull(c + 1, NULL, 10) + 1;
        }
        sh = &all[k];
        pid[k] = fork();
        if (pid[k] == 0) { worker(lo, hi, st, fn, ctx); fflush(NULL); _exit(sh->failed ? 1 : 0); }
        n++;
    }
    uint64_t done = 0, cnt[NCOUNT] = {0};
    for (int k = 0; k < n; k++) waitpid(pid[k], &status[k], 0);
    FILE *f = fdopen(out_fd, "w");
    fprintf(f, "{\"family\": "); jstr(f, family);
    fprintf(f, ", \"total\": %llu, \"max_vertex\": %d, \"hybrid\": %d", (unsigned long long) total, MAX_VERTEX_NUM, HYBRID);
    fprintf(f, ", \"findings\": [");
    int nf = 0;
    for (int k = 0; k < n; k++) {
        Shared *s = &all[k];
        done += s->done;
        for (int c = 0; c < NCOUNT; c++)
            if (cname[c] && strncmp(cname[c], "max_", 4) == 0) { if (s->counter[c] > cnt[c]) cnt[c] = s->counter[c]; }
            else cnt[c] += s->counter[c];
        const char *kind = NULL; char msg[9000];
        if (s->failed) { kind = "violation"; snprintf(msg, sizeof msg, "%s", s->fail); }
        else if (s->state == 3) { kind = "hang"; snprintf(msg, sizeof msg, "case did not end within %d s: %s", case_seconds, s->note); }
        else if (!WIFEXITED(status[k]) || WEXITSTATUS(status[k]) != 0) {
            kind = "crash";
            if (WIFSIGNALED(status[k])) snprintf(msg, sizeof msg, "killed by signal %d: %s", WTERMSIG(status[k]), s->note);
            else snprintf(msg, sizeof msg, "process exited with status %d inside the case: %s", WEXITSTATUS(status[k]), s->note);
        }
        if (kind) {
            fprintf(f, "%s{\"kind\": \"%s\", \"case\": %llu, \"worker\": %d, \"signal\": %d, \"message\": ", nf++ ? ", " : "", kind,
                    (unsigned long long) (s->failed ? s->fail_case : s->cur), k,
                    WIFSIGNALED(status[k]) ? WTERMSIG(status[k]) : 0);
            jstr(f, msg); fprintf(f, "}");
        }
    }
    fprintf(f, "], \"known\": [");
    int nk = 0;
    for (int k = 0; k < n; k++) for (int i = 0; i < all[k].nknown; i++) {
        fprintf(f, "%s{\"key\": ", nk++ ? ", " : ""); jstr(f, all[k].kkey[i]);
        fprintf(f, ", \"count\": %llu, \"case\": %llu, \"message\": ", (unsigned long long) all[k].kcount[i], (unsigned long long) all[k].kcase[i]);
        jstr(f, all[k].kmsg[i]); fprintf(f, "}");
    }
    fprintf(f, "], \"done\": %llu, \"distinct_outcomes\": %llu, \"counters\": {", (unsigned long long) done, (unsigned long long) *outcount);
    int first = 1;
    for (int c = 0; c < NCOUNT; c++) if (cname[c]) {
        if (!first) fputs(", ", f);
        first = 0;
        jstr(f, cname[c]); fprintf(f, ": %llu", (unsigned long long) cnt[c]);
    }
    fprintf(f, "}, \"samples\": [");
    int ns = 0;
    for (int k = 0; k < n && ns < 8; k++) for (int i = 0; i < all[k].nsamp && i < 2; i++) {
        if (ns++) fputs(", ", f);
        jstr(f, all[k].samp[i]);
    }
    fprintf(f, "]}\n");
    fclose(f);
    return nf ? 1 : 0;
}

/* ------------------------------------------------------------------ instances */
void inst_clear(Inst *in, int n) { memset(in, 0, sizeof *in); in->n = n; }
void inst_set(Inst *in, int i, int j, double w, double p) {
    in->w[i][j] = in->w[j][i] = w; in->p[i][j] = in->p[j][i] = p; in->has[i][j] = in->has[j][i] = 1;
}
int inst_edges(const Inst *in) {
    int m = 0;
    for (int i = 0; i < in->n; i++) for (int j = i + 1; j < in->n; j++) m += in->has[i][j];
    return m;
}
void inst_graph(const Inst *in, Graph *g) {
    static Node nodes[HMAX]; static Edge edges[HMAX * HMAX];
    List *nl = new_list(), *el = new_list();
    memset(nodes, 0, sizeof nodes);
    int z = 0;
    for (int i = 0; i < in->n; i++) {
        nodes[i].positionInGraph = (unsigned short) i; nodes[i].x = i; nodes[i].y = 0; nodes[i].num_neighbours = 0;
        add_elem_list_bottom(nl, &nodes[i]);
    }
    for (int i = 0; i < in->n; i++) for (int j = i + 1; j < in->n; j++) if (in->has[i][j]) {
        memset(&edges[z], 0, sizeof edges[z]);
        edges[z].src = (unsigned short) i; edges[z].dest = (unsigned short) j; edges[z].symbol = (unsigned short) (z + 1);
        edges[z].positionInGraph = (unsigned short) z; edges[z].weight = in->w[i][j]; edges[z].prob = HYBRID ? in->p[i][j] : 0;
        add_elem_list_bottom(el, &edges[z]);
        z++;
    }
    create_graph(g, nl, el, WEIGHTED_GRAPH);
}
char *inst_text(const Inst *in) {
    char *b = malloc(16384); size_t o = 0;
    o += snprintf(b + o, 16384 - o, "n=%d", in->n);
    for (int i = 0; i < in->n; i++) for (int j = i + 1; j < in->n; j++) if (in->has[i][j] && o < 16000)
        o += in->p[i][j] != 0 ? snprintf(b + o, 16384 - o, " %d-%d:%.17g/%.6g", i, j, in->w[i][j], in->p[i][j])
                               : snprintf(b + o, 16384 - o, " %d-%d:%.17g", i, j, in->w[i][j]);
    return b;
}

static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e-- > 0) r *= b; return r; }
static uint64_t binom(int n, int k) { if (k < 0 || k > n) return 0; uint64_t r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }

uint64_t fam_alphabet(Inst *in, int n, const double *alpha, int na, uint64_t idx) {
    int m = n * (n - 1) / 2;
    if (!in) return ipow(na, m);
    inst_clear(in, n);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        double a = alpha[idx % na]; idx /= na;
        if (a > 0) inst_set(in, i, j, a, 0);
    }
    return 0;
}
/* all n-subsets of a gx x gy lattice, Euclidean distances times scale (single-precision rounding as the readers do not apply) */
uint64_t fam_grid(Inst *in, int n, int gx, int gy, double scale, uint64_t idx) {
    int t = gx * gy;
    if (!in) return binom(t, n);
    inst_clear(in, n);
    int pts[HMAX], k = 0, need = n;
    for (int v = 0; v < t && need > 0; v++) {
        uint64_t with = binom(t - v - 1, need - 1);
        if (idx < with) { pts[k++] = v; need--; } else idx -= with;
    }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        double dx = pts[i] % gx - pts[j] % gx, dy = pts[i] / gx - pts[j] / gx;
        inst_set(in, i, j, scale * sqrt(dx * dx + dy * dy), 0);
    }
    return 0;
}
/* arithmetic family: w_ij = off + scale * ((a*i*i + b*j*j + c*i*j + (a+1)*(i+j)) mod m), i<j, every a<A, b<B, c<C, m in mods */
uint64_t fam_alg(Inst *in, int n, int A, int B, int C, const int *mods, int nm, double off, double scale, uint64_t idx) {
    if (!in) return (uint64_t) A * B * C * nm;
    inst_clear(in, n);
    int a = idx % A; idx /= A; int b = idx % B; idx /= B; int c = idx % C; idx /= C; int m = mods[idx];
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        long v = ((long) a * i * i + (long) b * j * j + (long) c * i * j + (long) (a + 1) * (i + j) + (long) b * i * j * j) % m;
        double w = off + scale * (double) v;
        if (w > 0) inst_set(in, i, j, w, 0);
    }
    return 0;
}
/* points on a circle, visited in the order of a multiplier: vertex i sits at position (i*k + i/ g) ... -> known hull optimum is not needed, the DP is the oracle */
int fam_order[HMAX], fam_order_n;
static uint64_t fam_circle(Inst *in, int n, int K, int R, double scale, uint64_t idx) {
    if (!in) return (uint64_t) K * R;
    inst_clear(in, n); fam_order_n = 0;
    int k = (int) (idx % K), r = (int) (idx / K);
    double x[HMAX], y[HMAX];
    for (int i = 0; i < n; i++) {
        /* a deterministic permutation of the positions */
        int pos = (int) (((long) (i + 1) * (2 * k + 1) + (long) i * i * r) % (2 * n + 1));
        double ang = 2 * M_PI * pos / (2 * n + 1) + 0.001 * i;
        double rad = 0.5 + 0.02 * ((i * (r + 1)) % 7) * (r ? 1 : 0);
        x[i] = rad * cos(ang); y[i] = rad * sin(ang);
    }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
        inst_set(in, i, j, scale * hypot(x[i] - x[j], y[i] - y[j]) + 1e-9, 0);
    if (r == 0) {               /* all on one circle: the tour along it is optimal */
        int o[HMAX]; double a[HMAX];
        for (int i = 0; i < n; i++) { o[i] = i; a[i] = atan2(y[i], x[i]); }
        for (int i = 1; i < n; i++) for (int j = i; j > 0 && a[o[j]] < a[o[j - 1]]; j--) { int t = o[j]; o[j] = o[j - 1]; o[j - 1] = t; }
        for (int i = 0; i < n; i++) { in->opt += in->w[o[i]][o[(i + 1) % n]]; fam_order[i] = o[i]; }
        fam_order_n = n;
    }
    return 0;
}
/* a tour is planted: w_ij = u_i + u_j + slack_ij with potentials u and slacks that are never negative and zero along the
 * tour, so that every tour costs at least twice the sum of the potentials and the planted one exactly that. Other edges
 * have slack 0 as well; with S < 0 those whose slack would be the largest are missing. */
static uint64_t fam_plant(Inst *in, int n, int A, int B, int U, int S, double scale, uint64_t idx) {
    if (!in) return (uint64_t) A * B;
    inst_clear(in, n);
    int a = (int) (idx % A), b = (int) (idx / A), sp = S < 0, m = sp ? -S : S, order[HMAX], pos[HMAX];
    for (int i = 0; i < n; i++) order[i] = i;
    for (int i = n - 1; i > 0; i--) { int j = (int) (((long) i * i * (a + 2) + 7L * i * (b + 1) + a) % (i + 1)), t = order[i]; order[i] = order[j]; order[j] = t; }
    for (int i = 0; i < n; i++) pos[order[i]] = i;
    double sum = 0, u[HMAX];
    for (int i = 0; i < n; i++) { u[i] = scale * (1 + ((long) (a + 1) * i * i + (b + 3) * i) % U); sum += u[i]; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        int d = abs(pos[i] - pos[j]);
        int s = d == 1 || d == n - 1 ? 0 : (int) (((long) a * i * i + (long) b * j * j + (long) (a + 2) * i * j + (long) (i ^ j) * (b + 1) + i + j) % m);
        if (sp && s == m - 1) continue;
        inst_set(in, i, j, u[i] + u[j] + scale * s, 0);
    }
    for (int i = 0; i < n; i++) fam_order[i] = order[i];
    fam_order_n = n; in->opt = 2 * sum;
    return 0;
}
/* clusters: n cities in c clusters; offsets from a small deterministic pattern */
static uint64_t fam_cluster(Inst *in, int n, int A, double scale, uint64_t idx) {
    if (!in) return (uint64_t) A * A;
    inst_clear(in, n);
    int a = (int) (idx % A), b = (int) (idx / A);
    double x[HMAX], y[HMAX];
    for (int i = 0; i < n; i++) {
        int c = (i * (a % 5 + 1) + a) % (2 + a % 4);
        x[i] = (c * 37 % 11) / 11.0 + 0.01 * ((i * i * (b + 1) + 3 * i) % 17);
        y[i] = (c * 53 % 13) / 13.0 + 0.01 * ((i * (b + 2) * (a + 1) + 7) % 19);
    }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
        inst_set(in, i, j, scale * hypot(x[i] - x[j], y[i] - y[j]) + 1e-6, 0);
    return 0;
}

static int parse_list(const char *s, double *out, int max) {
    int k = 0; char *e;
    while (*s && k < max) { out[k++] = strtod(s, &e); if (e == s) return k - 1; s = *e == ',' ? e + 1 : e; if (*e != ',') break; }
    return k;
}
uint64_t fam_by_name(Inst *in, const char *spec, uint64_t idx) {
    int n; char rest[400] = "";
    double v[64]; int k;
    if (sscanf(spec, "alpha:%d:%399s", &n, rest) == 2) {
        k = parse_list(rest, v, 64);
        return fam_alphabet(in, n, v, k, idx);
    }
    int gx, gy; double sc = 1;
    if (sscanf(spec, "grid:%d:%d:%d:%lf", &n, &gx, &gy, &sc) == 4) return fam_grid(in, n, gx, gy, sc, idx);
    int A, B, C; double off = 1;
    if (sscanf(spec, "alg:%d:%d:%d:%d:%lf:%lf:%399s", &n, &A, &B, &C, &off, &sc, rest) == 7) {
        k = parse_list(rest, v, 64); int m[64];
        for (int i = 0; i < k; i++) m[i] = (int) v[i];
        return fam_alg(in, n, A, B, C, m, k, off, sc, idx);
    }
    if (sscanf(spec, "circle:%d:%d:%d:%lf", &n, &A, &B, &sc) == 4) return fam_circle(in, n, A, B, sc, idx);
    int U, S;
    if (sscanf(spec, "plant:%d:%d:%d:%d:%d:%lf", &n, &A, &B, &U, &S, &sc) == 6) return fam_plant(in, n, A, B, U, S, sc, idx);
    if (sscanf(spec, "cluster:%d:%d:%lf", &n, &A, &sc) == 3) return fam_cluster(in, n, A, sc, idx);
    fprintf(stderr, "bad family %s\n", spec); exit(2);
}
/* probabilities over the present edges */
uint64_t prob_by_name(Inst *in, const char *spec, uint64_t idx) {
    double v[64]; int k, n, A, B; char rest[400];
    if (strcmp(spec, "zero") == 0) return 1;
    if (sscanf(spec, "alpha:%d:%399s", &n, rest) == 2) {     /* every assignment over the n(n-1)/2 edges */
        k = parse_list(rest, v, 64);
        if (!in) return ipow(k, n * (n - 1) / 2);
        for (int i = 0; i < in->n; i++) for (int j = i + 1; j < in->n; j++) { in->p[i][j] = in->p[j][i] = v[idx % k]; idx /= k; }
        return 0;
    }
    if (sscanf(spec, "alg:%d:%d", &A, &B) == 2) {             /* p = ((a*i + b*j + i*j) mod 11)/10 */
        if (!in) return (uint64_t) A * B;
        int a = (int) (idx % A), b = (int) (idx / A);
        for (int i = 0; i < in->n; i++) for (int j = i + 1; j < in->n; j++)
            in->p[i][j] = in->p[j][i] = ((a * i + b * j + i * j * (a + 1)) % 11) / 10.0;
        return 0;
    }
    if (sscanf(spec, "fine:%d:%d", &A, &B) == 2) {            /* seldom equal */
        if (!in) return (uint64_t) A * B;
        long a = (long) (idx % A), b = (long) (idx / A);
        for (int i = 0; i < in->n; i++) for (int j = i + 1; j < in->n; j++)
            in->p[i][j] = in->p[j][i] = (double) (((a + 2) * i * i + (b + 3) * j * j * j + (a + 5) * (b + 1) * i * j + 17 * i + j) % 9973) / 10000.0;
        return 0;
    }
    fprintf(stderr, "bad prob family %s\n", spec); exit(2);
}

/* ------------------------------------------------------------------ oracles */
double h_eps(void) { return sqrt((double) MAX_VERTEX_NUM) * 1.27 / 1000.0; }

/* Held-Karp dynamic programming; constraints are enforced by forbidding, and mandatory edges by requiring that
 * a vertex with mandatory edges uses them (an edge between u and v is unusable when u or v already has two other
 * mandatory edges; exactness for mandatory edges is obtained with a bonus on each of them). */
double opt_tour(const Inst *in, unsigned char cons[HMAX][HMAX]) {
    int n = in->n;
    if (n < 3) return HINF;
    if (n > 16 && in->opt > 0 && !cons) return in->opt;
    static double *dp; static size_t cap;
    int m = n - 1; size_t S = (size_t) 1 << m;
    if (cap < S * m) { free(dp); dp = malloc(sizeof(double) * S * m); cap = S * m; }
    double c[HMAX][HMAX]; int nm = 0; double big = 0, sum = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (in->has[i][j]) sum += fabs(in->w[i][j]);
    big = sum + 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (i == j || !in->has[i][j] || (cons && cons[i][j] == 2)) c[i][j] = HINF;
        else c[i][j] = in->w[i][j];
        if (cons && i < j && cons[i][j] == 1) { nm++; if (i == j || !in->has[i][j]) return HINF; }
    }
    if (nm) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && cons[i][j] == 1) c[i][j] -= big;
    for (size_t s = 0; s < S; s++) for (int j = 0; j < m; j++) dp[s * m + j] = HINF;
    for (int j = 0; j < m; j++) if (c[m][j] < HINF) dp[((size_t) 1 << j) * m + j] = c[m][j];
    for (size_t s = 1; s < S; s++) for (int j = 0; j < m; j++) {
        double d = dp[s * m + j];
        if (d >= HINF || !(s >> j & 1)) continue;
        for (int t = 0; t < m; t++) if (!(s >> t & 1) && c[j][t] < HINF) {
            double x = d + c[j][t]; size_t ns = s | (size_t) 1 << t;
            if (x < dp[ns * m + t]) dp[ns * m + t] = x;
        }
    }
    double best = HINF;
    for (int j = 0; j < m; j++) if (c[j][m] < HINF && dp[(S - 1) * m + j] < HINF) {
        double x = dp[(S - 1) * m + j] + c[j][m];
        if (x < best) best = x;
    }
    if (best >= HINF) return HINF;
    if (nm) { best += nm * big; if (best > big / 2 + sum) return HINF; if (best > sum + 0.5) return HINF; }
    return best;
}

static const Inst *bi; static unsigned char (*bc)[HMAX]; static double bb; static int bp[HMAX];
static void brute(int k, unsigned used, double cost) {
    int n = bi->n;
    if (k == n) {
        if (!bi->has[bp[n - 1]][0] || (bc && bc[bp[n - 1]][0] == 2)) return;
        cost += bi->w[bp[n - 1]][0];
        if (bc) {
            int nm = 0, in = 0;
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) nm += bc[i][j] == 1;
            for (int i = 0; i < n; i++) in += bc[bp[i]][bp[(i + 1) % n]] == 1;
            if (in != nm) return;
        }
        if (cost < bb) bb = cost;
        return;
    }
    for (int v = 1; v < n; v++) if (!(used >> v & 1) && bi->has[bp[k - 1]][v] && !(bc && bc[bp[k - 1]][v] == 2)) {
        bp[k] = v; brute(k + 1, used | 1u << v, cost + bi->w[bp[k - 1]][v]);
    }
}
double opt_tour_brute(const Inst *in, unsigned char cons[HMAX][HMAX]) {
    if (in->n < 3) return HINF;
    bi = in; bc = cons; bb = HINF; bp[0] = 0; brute(1, 1, 0); return bb;
}

/* ---- nearest neighbour, every tie-break ---- */
static void nn_walk(const Inst *in, bool prob, int start, int cur, city_set vis, int k, double cost, double *lo, double *hi, long *budget) {
    int n = in->n;
    if (--*budget < 0) return;
    if (k == n) {
        double c = in->has[cur][start] ? cost + in->w[cur][start] : HINF;
        if (c < *lo) *lo = c;
        if (c > *hi) *hi = c;
        return;
    }
    double best = prob ? -1 : HINF; int any = 0;
    for (int v = 0; v < n; v++) if (v != cur && !(vis >> v & 1) && in->has[cur][v]) {
        any = 1;
        if (prob) { if (in->p[cur][v] > best) best = in->p[cur][v]; }
        else if (in->w[cur][v] < best) best = in->w[cur][v];
    }
    if (!any) { *hi = HINF; return; }
    for (int v = 0; v < n; v++) if (v != cur && !(vis >> v & 1) && in->has[cur][v] && (prob ? in->p[cur][v] : in->w[cur][v]) == best)
        nn_walk(in, prob, start, v, vis | (city_set) 1 << v, k + 1, cost + in->w[cur][v], lo, hi, budget);
}
void nn_range(const Inst *in, bool prob, double *lo, double *hi) {
    *lo = HINF; *hi = HINF;
    for (int s = 0; s < in->n; s++) {
        double l = HINF, h = -HINF; long budget = 200000;
        nn_walk(in, prob, s, s, (city_set) 1 << s, 1, 0, &l, &h, &budget);
        if (budget < 0) { l = -HINF; h = HINF; }
        if (l < *lo) *lo = l;
        if (h < *hi) *hi = h;
    }
}
/* ---- tours as masks ---- */
int edge_bit(int n, int i, int j) { if (i > j) { int t = i; i = j; j = t; } return i * n - i * (i + 1) / 2 + (j - i - 1); }
static Tours tours[HMAX];
static void perm_rec(Tours *t, int n, int *p, int k, unsigned used) {
    if (k == n) {
        if (p[1] > p[n - 1]) return;
        uint64_t m = 0;
        for (int i = 0; i < n; i++) m |= 1ull << edge_bit(n, p[i], p[(i + 1) % n]);
        t->mask[t->count++] = m; return;
    }
    for (int v = 1; v < n; v++) if (!(used >> v & 1)) { p[k] = v; perm_rec(t, n, p, k + 1, used | 1u << v); }
}
const Tours *all_tours(int n) {
    Tours *t = &tours[n];
    if (t->mask) return t;
    int f = 1; for (int i = 2; i < n; i++) f *= i;
    t->mask = malloc(sizeof(uint64_t) * (size_t) (f + 1)); t->n = n; t->m = n * (n - 1) / 2;
    int p[HMAX] = {0}; perm_rec(t, n, p, 1, 1);
    return t;
}
/* ---- all labelled trees on k vertices, by Pruefer sequences ---- */
typedef struct { int k, count; unsigned char (*e)[8][2]; } Trees;
static Trees trees[9];
static const Trees *all_trees(int k) {
    Trees *t = &trees[k];
    if (t->e) return t;
    int cnt = 1; for (int i = 0; i < k - 2; i++) cnt *= k;
    t->e = malloc(sizeof *t->e * (size_t) cnt); t->k = k;
    for (int s = 0; s < cnt; s++) {
        int seq[8], deg[8], x = s;
        for (int i = 0; i < k; i++) deg[i] = 1;
        for (int i = 0; i < k - 2; i++) { seq[i] = x % k; x /= k; deg[seq[i]]++; }
        int ne = 0;
        for (int i = 0; i < k - 2; i++) for (int v = 0; v < k; v++) if (deg[v] == 1) {
            t->e[s][ne][0] = (unsigned char) v; t->e[s][ne][1] = (unsigned char) seq[i]; ne++; deg[v] = 0; deg[seq[i]]--; break;
        }
        int a = -1, b = -1;
        for (int v = 0; v < k; v++) if (deg[v] == 1) { if (a < 0) a = v; else b = v; }
        if (k >= 2) { t->e[s][ne][0] = (unsigned char) a; t->e[s][ne][1] = (unsigned char) b; }
    }
    t->count = cnt;
    return t;
}
/* the same by the greedy rule, for instances with more trees than can be enumerated */
static double greedy_tree(const Inst *in, int c, unsigned char cons[HMAX][HMAX]) {
    int n = in->n, comp[HMAX], left = n - 1; double cost = 0;
    for (int i = 0; i < n; i++) comp[i] = i;
#define JOIN(i, j) do { int f_ = comp[j], t_ = comp[i]; for (int q_ = 0; q_ < n; q_++) if (comp[q_] == f_) comp[q_] = t_; cost += in->w[i][j]; left--; } while (0)
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (cons && cons[i][j] == 1 && i != c && j != c) { if (!in->has[i][j] || comp[i] == comp[j]) return HINF; JOIN(i, j); }
    while (left > 1) {
        int bi = -1, bj = -1;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != c && j != c && in->has[i][j] && !(cons && cons[i][j] == 2) && comp[i] != comp[j] && (bi < 0 || in->w[i][j] < in->w[bi][bj])) { bi = i; bj = j; }
        if (bi < 0) return HINF;
        JOIN(bi, bj);
    }
    return cost;
}
double min_one_tree(const Inst *in, int c, unsigned char cons[HMAX][HMAX]) {
    int n = in->n, k = n - 1, id[HMAX], nm = 0;
    if (n < 3) return HINF;
    double best = HINF, greedy = greedy_tree(in, c, cons);
    if (k > 6) { best = greedy; goto ends; }
    for (int i = 0, j = 0; i < n; i++) if (i != c) id[j++] = i;
    for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (cons && cons[id[i]][id[j]] == 1) nm++;
    const Trees *t = all_trees(k);
    for (int s = 0; s < t->count; s++) {
        double cost = 0; int m = 0; bool ok = true;
        for (int e = 0; e < k - 1 && ok; e++) {
            int a = id[t->e[s][e][0]], b = id[t->e[s][e][1]];
            if (!in->has[a][b] || (cons && cons[a][b] == 2)) ok = false;
            else { cost += in->w[a][b]; if (cons && cons[a][b] == 1) m++; }
        }
        if (ok && m == nm && cost < best) best = cost;
    }
    if ((best < HINF) != (greedy < HINF) || (best < HINF && fabs(best - greedy) > 1e-9 * (1 + fabs(best)) * n)) h_fail("harness error: the greedy tree costs %.12g, the enumerated one %.12g", greedy, best);
ends:
    if (best >= HINF) return HINF;
    double be = HINF; int mc = 0;
    for (int i = 0; i < n; i++) if (cons && i != c && cons[c][i] == 1) mc++;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != c && j != c && in->has[c][i] && in->has[c][j]) {
        if (cons && (cons[c][i] == 2 || cons[c][j] == 2)) continue;
        int m = cons ? (cons[c][i] == 1) + (cons[c][j] == 1) : 0;
        if (m == mc && in->w[c][i] + in->w[c][j] < be) be = in->w[c][i] + in->w[c][j];
    }
    return be >= HINF ? HINF : best + be;
}

bool tour_ok(const Inst *in, const SubProblem *s, double *cost, double *mean_prob, char *why, size_t nwhy) {
    int n = in->n, deg[HMAX] = {0}, adj[HMAX][2];
    double c = 0, p = 0;
    if (s->num_edges_in_cycle != n) { snprintf(why, nwhy, "the reported cycle has %d edges for %d cities", s->num_edges_in_cycle, n); return false; }
    for (int i = 0; i < n; i++) {
        int a = s->cycleEdges[i].src, b = s->cycleEdges[i].dest;
        if (a < 0 || b < 0 || a >= n || b >= n || a == b) { snprintf(why, nwhy, "edge %d-%d of the reported cycle is not an edge between two cities", a, b); return false; }
        if (!in->has[a][b]) { snprintf(why, nwhy, "edge %d-%d of the reported cycle does not exist in the instance", a, b); return false; }
        if (deg[a] >= 2 || deg[b] >= 2) { snprintf(why, nwhy, "a city is visited more than once (edge %d-%d)", a, b); return false; }
        adj[a][deg[a]++] = b; adj[b][deg[b]++] = a;
        c += in->w[a][b]; p += HYBRID ? in->p[a][b] : 0;
    }
    int prev = -1, cur = 0, len = 0;
    do { int nx = adj[cur][0] != prev ? adj[cur][0] : adj[cur][1]; if (len == 0) nx = adj[0][0]; prev = cur; cur = nx; len++; } while (cur != 0 && len <= n);
    if (len != n) { snprintf(why, nwhy, "the reported edges do not form one cycle through all cities"); return false; }
    *cost = c; *mean_prob = p / n;
    return true;
}
