/* Shared machinery of the exhaustive harnesses: case driver, instance families, oracles.
 *
 * Every harness enumerates a finite, completely described space of cases 0..total-1.
 * The driver splits the space over forked workers (case i goes to worker i % shards),
 * records what each worker did in shared memory, and turns a crash, a sanitizer abort
 * or a case that never ends into a finding that names the case.
 */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "algorithms/branch_and_bound.h"
#include <stdint.h>

#if MAX_VERTEX_NUM > 40                 /* large instances only where they are asked for: the tables are cleared for every case */
#define HMAX (MAX_VERTEX_NUM + 8)
typedef unsigned _BitInt(512) city_set;
#else
#define HMAX 44
typedef unsigned __int128 city_set;
#endif
#define HINF 1e300

typedef struct Inst {
    int n;
    double w[HMAX][HMAX];     /* weight, meaningful where has[][] */
    double p[HMAX][HMAX];
    unsigned char has[HMAX][HMAX];
    double opt;               /* cost of an optimal tour, when the family knows it; else 0 */
} Inst;

/* ---- driver ---- */
typedef void (*case_fn)(uint64_t idx, void *ctx);
enum { NCOUNT = 24 };
void h_count(int k, uint64_t d);                 /* add to counter k of this worker          */
void h_max(int k, uint64_t v);
void h_name(int k, const char *name);            /* name a counter (before h_run)             */
void h_outcome(uint64_t hash);                   /* record a distinct observable outcome      */
void h_fail(const char *fmt, ...);               /* property violated in the current case     */
bool h_failed(void);
void h_note(const char *fmt, ...);               /* describe the current case (for crashes)   */
void h_sample(const char *fmt, ...);             /* keep up to a few samples for the evidence */
/* runs cases lo..hi-1 (stride 1); returns process exit code, writes a JSON object to fd out */
int h_run(const char *family, uint64_t total, case_fn fn, void *ctx);
void h_init(int argc, char **argv);              /* parses --shards/--only/--shard/--out/--limit/--case-seconds */
const char *h_arg(const char *name, const char *dflt);
long h_argi(const char *name, long dflt);
double h_argf(const char *name, double dflt);
uint64_t h_hash(uint64_t h, const void *p, size_t n);
uint64_t h_hash_d(uint64_t h, double d);
uint64_t h_hash_u(uint64_t h, uint64_t d);
void h_devnull_stdout(void);
void h_known(const char *key, const char *fmt, ...); /* a finding that may be listed as known; the run goes on */
void h_capture_begin(void);                      /* stdout of the code under test -> memory   */
const char *h_capture_end(void);
size_t h_heap_used(void);                        /* bytes of heap in use (tcache disabled by the runner) */
/* runs fn in a child process; returns its wait status; *timeout set when it did not end */
int h_child(void (*fn)(void *), void *ctx, int seconds);

/* virtual clock */
extern uint64_t vclock_polls, vclock_jump_at;
extern const unsigned *vclock_watch;
extern unsigned vclock_watch_at;
extern double vclock_jump_seconds, vclock_step, vclock_base;
void vclock_reset(uint64_t jump_at);
#ifndef TIME_LIMIT_SECONDS
#define TIME_LIMIT_SECONDS 600
#endif

/* ---- instances ---- */
void inst_clear(Inst *in, int n);
void inst_set(Inst *in, int i, int j, double w, double p);
void inst_graph(const Inst *in, Graph *g);        /* through create_graph()           */
char *inst_text(const Inst *in);                  /* malloc'ed one-line description   */
int inst_edges(const Inst *in);

/* family decoders: return the number of cases; with in != NULL also decode case idx  */
extern int fam_order[HMAX], fam_order_n;           /* the optimal tour of the last instance decoded, when its family knows it (else fam_order_n is 0 or stale: plant and circle only) */
uint64_t fam_alphabet(Inst *in, int n, const double *alpha, int na, uint64_t idx);
uint64_t fam_grid(Inst *in, int n, int gx, int gy, double scale, uint64_t idx);
uint64_t fam_alg(Inst *in, int n, int A, int B, int C, const int *mods, int nm, double off, double scale, uint64_t idx);
uint64_t fam_by_name(Inst *in, const char *spec, uint64_t idx); /* spec: "alpha:n:1,2,3" ... */
uint64_t prob_by_name(Inst *in, const char *spec, uint64_t idx);

/* ---- oracles ---- */
/* optimum Hamiltonian cycle under constraints: cons[i][j] 0 free 1 mandatory 2 forbidden; NULL = none.
 * returns HINF when there is none. */
double opt_tour(const Inst *in, unsigned char cons[HMAX][HMAX]);
double opt_tour_brute(const Inst *in, unsigned char cons[HMAX][HMAX]);
double h_eps(void);                               /* sqrt(capacity)*1.27/1000 */
/* checks the tour of a solution; writes a reason; recomputes cost and mean prob */
/* nearest neighbour tours: bounds on the best one over all cities, over every way to break ties
 * (prob: follow the most probable edge instead); HINF when no visit closes a tour */
void nn_range(const Inst *in, bool prob, double *lo, double *hi);
/* all Hamiltonian cycles of the complete graph on n nodes as bit masks over edges i<j (row major) */
typedef struct Tours { int n, m, count; uint64_t *mask; } Tours;
const Tours *all_tours(int n);
int edge_bit(int n, int i, int j);
/* minimum 1-tree with constraints, by enumeration of all labelled trees; HINF if none */
double min_one_tree(const Inst *in, int c, unsigned char cons[HMAX][HMAX]);
bool tour_ok(const Inst *in, const SubProblem *s, double *cost, double *mean_prob, char *why, size_t nwhy);
#endif
