/* The steps of the search, one at a time, on the real code: every constraint matrix (every edge free, mandatory or
 * forbidden) of small instances, every start vertex, several incumbents; oracle: enumeration of all tours / 1-trees.
 * --mode infer | branch | bound | fix | onetree | open | openrun | start | cycle                                  */
#define _GNU_SOURCE
#include "common.h"
#include <unistd.h>

/* functions that the headers do not declare: used when they exist */
extern void constrained_prim(Graph *, SubProblem *, unsigned short) __attribute__((weak));
extern void constrained_kruskal(Graph *, SubProblem *, unsigned short) __attribute__((weak));

typedef uint64_t em_t;                /* a set of edges: up to 11 cities */
static Problem prob; static Graph g0;
static Inst in;
static const char *FAM, *PROB; static uint64_t NP, NF;
static unsigned char cons[HMAX][HMAX], after[HMAX][HMAX];
static double EPS;
enum { T_TRANS, T_EXEC, T_SKIP, T_ADM, T_INF, T_OPEN, T_CLOSED, T_TOUR, T_FIXED, T_CHILD, T_BOTH, T_NOBRANCH, T_MAXLIST, T_PROB };

static uint64_t pow3(int m) { uint64_t r = 1; while (m-- > 0) r *= 3; return r; }
static const char *cons_text(int n, unsigned char c[HMAX][HMAX]) {
    static char b[2000]; size_t o = 0; b[0] = 0;
    o += snprintf(b + o, sizeof b - o, "mandatory:");
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (c[i][j] == 1) o += snprintf(b + o, sizeof b - o, " %d-%d", i, j);
    o += snprintf(b + o, sizeof b - o, ", forbidden:");
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (c[i][j] == 2) o += snprintf(b + o, sizeof b - o, " %d-%d", i, j);
    return b;
}
/* which constraint matrices: all of them (or those of the first --decided edges), --space few:K (at most K decided edges),
 * --space stars:S (every edge of S cities, whichever they are) */
static const char *SPACE;
static uint64_t choose(int n, int k) { uint64_t r = 1; for (int i = 1; i <= k; i++) r = r * (uint64_t) (n - k + i) / (uint64_t) i; return k > n ? 0 : r; }
static uint64_t space_size(int n) {
    int m = n * (n - 1) / 2, K; uint64_t r = 0;
    if (!SPACE) return pow3((int) h_argi("--decided", m));
    if (sscanf(SPACE, "few:%d", &K) == 1) { for (int k = 0; k <= K; k++) r += choose(m, k) << k; return r; }
    if (sscanf(SPACE, "stars:%d", &K) == 1) return choose(n, K) * pow3(K * (n - 1) - K * (K - 1) / 2);
    fprintf(stderr, "unknown space %s\n", SPACE); exit(2);
}
/* the code-th set of k numbers below m */
static void unrank(int m, int k, uint64_t code, int *set) {
    for (int i = 0, v = 0; i < k; i++, v++) { for (;; v++) { uint64_t c = choose(m - v - 1, k - i - 1); if (code < c) break; code -= c; } set[i] = v; }
}
/* constraint matrix number code; false when the array of mandatory edges could not hold it (not a reachable state) */
static bool cons_decode(int n, uint64_t code) {
    int nm = 0, m = n * (n - 1) / 2, set[64], K = 0, how = 0;
    unsigned char val[64] = {0};
    if (SPACE && sscanf(SPACE, "few:%d", &K) == 1) {
        int k = 0; while (code >= choose(m, k) << k) { code -= choose(m, k) << k; k++; }
        unrank(m, k, code >> k, set);
        for (int i = 0; i < k; i++) val[set[i]] = (unsigned char) (1 + (code >> i & 1));
        how = 1;
    } else if (SPACE && sscanf(SPACE, "stars:%d", &K) == 1) { unrank(n, K, code % choose(n, K), set); code /= choose(n, K); how = 2; }
    memset(cons, 0, sizeof cons);
    for (int i = 0; i < n; i++) {
        cons[i][i] = 2;
        for (int j = i + 1; j < n; j++) {
            bool on = how == 0;
            for (int q = 0; q < K && how == 2; q++) on |= set[q] == i || set[q] == j;
            unsigned char v = how == 1 ? val[edge_bit(n, i, j)] : on ? (unsigned char) (code % 3) : 0;
            if (how != 1 && on) code /= 3;
            cons[i][j] = cons[j][i] = v; nm += v == 1;
        }
    }
    return nm <= n;
}
static void cons_masks(int n, unsigned char c[HMAX][HMAX], em_t *M, em_t *F) {
    *M = *F = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { if (c[i][j] == 1) *M |= (em_t) 1 << edge_bit(n, i, j); if (c[i][j] == 2) *F |= (em_t) 1 << edge_bit(n, i, j); }
}
static void cons_put(SubProblem *s, int n, unsigned char c[HMAX][HMAX]) {
    s->num_mandatory_edges = s->num_forbidden_edges = 0;
    for (int i = 0; i < MAX_VERTEX_NUM; i++) for (int j = 0; j < MAX_VERTEX_NUM; j++) s->constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (c[i][j] == 1) {
            s->constraints[i][j] = s->constraints[j][i] = MANDATORY;
            s->mandatoryEdges[s->num_mandatory_edges].src = (unsigned short) i; s->mandatoryEdges[s->num_mandatory_edges].dest = (unsigned short) j;
            s->num_mandatory_edges++;
        } else if (c[i][j] == 2) { s->constraints[i][j] = s->constraints[j][i] = FORBIDDEN; s->num_forbidden_edges++; }
    }
}
/* reads the matrix back; NULL or the reason why it is not a proper one */
static const char *cons_get(const SubProblem *s, int n, unsigned char c[HMAX][HMAX]) {
    int nm = 0; em_t listed = 0, M, F;
    memset(c, 0, HMAX * HMAX);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        int v = (int) s->constraints[i][j];
        if (i == j) { c[i][i] = 2; continue; }
        if (s->constraints[j][i] != s->constraints[i][j]) return "the constraint matrix is not symmetric";
        c[i][j] = v == MANDATORY ? 1 : v == FORBIDDEN ? 2 : 0;
        if (v != MANDATORY && v != FORBIDDEN && v != NOTHING) return "the constraint matrix holds a value that is no constraint";
        nm += i < j && c[i][j] == 1;
    }
    cons_masks(n, c, &M, &F);
    if (s->num_mandatory_edges != nm) return "the number of mandatory edges is not that of the matrix";
    for (int k = 0; k < nm; k++) {
        int a = s->mandatoryEdges[k].src, b = s->mandatoryEdges[k].dest;
        if (a >= n || b >= n || a == b) return "the list of mandatory edges holds something that is no edge";
        listed |= (em_t) 1 << edge_bit(n, a, b);
    }
    if (listed != M) return "the list of mandatory edges is not that of the matrix";
    if (F && s->num_forbidden_edges == 0) return "there are forbidden edges, but their number is zero";
    return NULL;
}
static int adm_count(const Tours *t, em_t M, em_t F) {
    int k = 0;
    for (int i = 0; i < t->count; i++) k += (t->mask[i] & M) == M && !(t->mask[i] & F);
    return k;
}
static double mask_cost(em_t m) {
    double c = 0; int n = in.n;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (m >> edge_bit(n, i, j) & 1) c += in.has[i][j] ? in.w[i][j] : HINF;
    return c;
}
static void setup(int cand, double best) {
    int n = in.n;
    memset(&prob.bestSolution, 0, sizeof prob.bestSolution);
    prob.reformulationGraph = prob.graph;
    prob.candidateNodeId = (unsigned short) cand; prob.totTreeLevels = 1; prob.generatedBBNodes = 1; prob.exploredBBNodes = 0; prob.num_fixed_edges = 0;
    prob.interrupted = false; prob.start = prob.end = clock();
    prob.bestValue = best; prob.bestSolution.value = best; prob.bestSolution.type = CLOSED_NN;
    set_problem(&prob); (void) n;
}
static void sub_init(SubProblem *s, int level, double value) {
    memset(s, 0, sizeof *s);
    s->type = OPEN; s->id = 1; s->fatherId = 0; s->value = value; s->treeLevel = (unsigned short) level; s->edge_to_branch = -1; s->prob = 0;
}

/* ---------------------------------------------------------------- infer (P11) */
static int N;
static void m_infer(uint64_t code, void *ctx) {
    (void) ctx;
    static SubProblem s; em_t M, F, M2, F2;
    if (!cons_decode(N, code)) { h_count(T_SKIP, 1); return; }
    prob.graph.num_nodes = (unsigned short) N; set_problem(&prob); prob.num_fixed_edges = 0; prob.candidateNodeId = 0;
    const Tours *t = all_tours(N);
    sub_init(&s, 2, 0); cons_put(&s, N, cons);
    cons_masks(N, cons, &M, &F);
    h_note("n=%d %s", N, cons_text(N, cons));
    bool ok = infer_constraints(&s);
    h_count(T_EXEC, 1);
    int na = adm_count(t, M, F);
    if (na) h_count(T_ADM, 1);
    bool must_fail = false;
    int md[HMAX], us[HMAX];
    for (int i = 0; i < N; i++) {
        md[i] = us[i] = 0;
        for (int j = 0; j < N; j++) if (j != i) { md[i] += cons[i][j] == 1; us[i] += cons[i][j] != 2; }
        must_fail |= md[i] > 2 || us[i] < 2;
    }
    if (!ok) {
        h_count(T_INF, 1);
        if (na) h_fail("a contradiction is reported, but %d tours are admissible: n=%d %s", na, N, cons_text(N, cons));
        h_outcome(3);
        return;
    }
    if (must_fail) { h_fail("a city has more than two mandatory or fewer than two usable edges, but no contradiction is reported: n=%d %s", N, cons_text(N, cons)); return; }
    const char *bad = cons_get(&s, N, after);
    if (bad) { h_fail("after the inference %s: n=%d %s", bad, N, cons_text(N, cons)); return; }
    cons_masks(N, after, &M2, &F2);
    if ((M & ~M2) || (F & ~F2)) { h_fail("the inference changed an edge that was already decided: n=%d %s", N, cons_text(N, cons)); return; }
    int nb = adm_count(t, M2, F2);
    if (na != nb) { char b[2000]; snprintf(b, sizeof b, "%s", cons_text(N, cons)); h_fail("the inference changed the admissible tours (%d before, %d after): n=%d %s -> %s", na, nb, N, b, cons_text(N, after)); return; }
    for (int i = 0; i < N; i++) {
        int und = 0, man = 0;
        for (int j = 0; j < N; j++) if (j != i) { und += after[i][j] == 0; man += after[i][j] == 1; }
        if (md[i] == 2 && (und || man != 2)) { h_fail("city %d has two mandatory edges, but the others are not forbidden: n=%d %s", i, N, cons_text(N, cons)); return; }
        if (us[i] == 2 && man != 2) { h_fail("city %d has two usable edges, but they are not mandatory: n=%d %s", i, N, cons_text(N, cons)); return; }
    }
    h_count(T_TRANS, (uint64_t) __builtin_popcountll((M2 ^ M) | (F2 ^ F)));
    h_outcome(h_hash_u(h_hash_u(5, M2), F2));
    if (code % 100000 == 7) h_sample("n=%d %s: %d admissible tours", N, cons_text(N, cons), na);
}

/* ---------------------------------------------------------------- branch (P10) */
static void m_branch(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem s, saved, o1, o2;
    uint64_t P3 = space_size(N);
    uint64_t code = idx % P3; int var = (int) (idx / P3);      /* var: probabilities of the edges, values */
    if (!cons_decode(N, code)) { h_count(T_SKIP, 1); return; }
    inst_clear(&in, N);
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) inst_set(&in, i, j, 1 + i + j, ((i * 3 + j * 5 + var) % 11) / 10.0);
    em_t M, F; cons_masks(N, cons, &M, &F);
    const Tours *t = all_tours(N);
    int na = adm_count(t, M, F);
    inst_graph(&in, &prob.graph);
    for (int e = 0; e < prob.graph.num_edges; e++) {
        int a = prob.graph.edges[e].src, b = prob.graph.edges[e].dest;
        bool fixed = cons[a][b] == 1;      /* an edge that was imposed after it had been proposed for branching */
        if (cons[a][b] == 2) continue;
        h_note("n=%d branching on %d-%d: %s", N, a, b, cons_text(N, cons));
        setup(0, 1000);
        prob.generatedBBNodes = 17; prob.totTreeLevels = 6;
        sub_init(&s, 5, 42.5); s.id = 9; s.fatherId = 4; s.prob = 0.25; s.edge_to_branch = e;
        cons_put(&s, N, cons);
        saved = s;
        SubProblemsList L; new_SubProblemList(&L);
        sub_init(&o1, 3, 40); o1.id = 11; sub_init(&o2, 3, 60); o2.id = 12;
        add_elem_SubProblemList_bottom(&L, &o1); add_elem_SubProblemList_bottom(&L, &o2);
        branch(&L, &s);
        h_count(T_EXEC, 1);
        size_t nl = get_SubProblemList_size(&L);
        int nc = 0; em_t cm[4], cf[4]; unsigned ids[4]; int kept = 0;
#define FB(...) do { char z_[300]; snprintf(z_, sizeof z_, __VA_ARGS__); h_fail("%s: n=%d branching on %d-%d (probability %g), %s", z_, N, a, b, prob.graph.edges[e].prob, cons_text(N, cons)); delete_SubProblemList(&L); return; } while (0)
        if (nl < 2 || nl > 4) FB("%zu subproblems are open after branching with two open ones", nl);
        for (size_t k = 0; k < nl; k++) {
            SubProblem *c = get_SubProblemList_elem_index(&L, k);
            if (memcmp(c, &o1, sizeof o1) == 0 && !(kept & 1)) { kept |= 1; continue; }
            if (memcmp(c, &o2, sizeof o2) == 0 && !(kept & 2)) { kept |= 2; continue; }
            if (nc == 2) FB("more than two new subproblems, or another open subproblem was altered");
            static unsigned char cc[HMAX][HMAX];
            const char *bad = cons_get(c, N, cc);
            cons_masks(N, cc, &cm[nc], &cf[nc]);
            bool req = (cm[nc] >> edge_bit(N, a, b) & 1), forb = (cf[nc] >> edge_bit(N, a, b) & 1);
            if (bad && !(fixed && forb)) FB("in a child %s", bad);
            if (fixed && forb) { cm[nc] |= (em_t) 1 << edge_bit(N, a, b); }   /* admits nothing: the parent imposes the edge */
            ids[nc] = c->id;
            if ((M & ~cm[nc]) || (F & ~cf[nc])) FB("a child lost a decision of its parent");
            if (c->value != 42.5) FB("a child has bound %g instead of that of its parent", c->value);
            if (c->treeLevel != 6) FB("a child of a node at level 5 is at level %u", c->treeLevel);
            if (c->fatherId != 9) FB("the parent of a child is %u instead of 9", c->fatherId);
            if (c->id <= 17 || c->id > prob.generatedBBNodes) FB("a child has identifier %u (17 nodes were generated before, %u after)", c->id, prob.generatedBBNodes);
            if (c->type != OPEN) FB("a child is not open");
            if (req == forb) FB("a child leaves the branching edge undecided");
            nc++;
        }
        if (kept != 3) FB("an open subproblem was lost or altered");
        if (nc == 2 && ids[0] == ids[1]) FB("both children have identifier %u", ids[0]);
        if (prob.totTreeLevels < 6) FB("the number of levels decreased");
        int cover[2] = {0, 0};
        for (int i = 0; i < t->count; i++) {
            em_t m = t->mask[i]; bool adm = (m & M) == M && !(m & F); int by = 0;
            for (int k = 0; k < nc; k++) { bool x = (m & cm[k]) == cm[k] && !(m & cf[k]); by += x; cover[k] += x; }
            if (adm && by == 0) FB("a tour of the parent is in no child (%d admissible tours, %d children)", na, nc);
            if (adm && by > 1) FB("a tour of the parent is in both children");
            if (!adm && by) FB("a child admits a tour that its parent does not");
        }
        if (memcmp(s.constraints, saved.constraints, sizeof s.constraints) || s.value != saved.value || s.id != saved.id || s.treeLevel != saved.treeLevel) FB("branching altered the parent");
        h_count(T_CHILD, (uint64_t) nc); if (nc == 2) h_count(T_BOTH, 1);
        h_count(T_TRANS, (uint64_t) nc + 0);
        for (int k = 0; k < nc; k++) h_outcome(h_hash_u(h_hash_u(5, cm[k]), cf[k]));
        delete_SubProblemList(&L);
        if (code % 20011 == 7) h_sample("n=%d branching on %d-%d, %s: %d tours = %d + %d", N, a, b, cons_text(N, cons), na, cover[0], cover[1]);
    }
    if (na) h_count(T_ADM, 1);
}

/* ---------------------------------------------------------------- bound (P09), variable fixing (P12) and the 1-tree kept by the bound (P13) */
static bool FIX, ONE, SEL;
/* the 1-trees that bounding keeps, in order, as they are put in its list (P36) */
#define RMAX 4096
static struct { em_t mask; double value; } rec[RMAX];
static int nrec; static bool recording; static SubProblemsList *reclist;
void __real_add_elem_SubProblemList_bottom(SubProblemsList *list, SubProblem *element);
void __wrap_add_elem_SubProblemList_bottom(SubProblemsList *list, SubProblem *element) {
    if (recording) {
        if (!nrec) reclist = list;
        if (list == reclist && nrec < RMAX) {
            em_t m = 0;
            for (int e = 0; e < element->oneTree.num_edges && e < in.n; e++) {
                int a = element->oneTree.edges[e].src, b = element->oneTree.edges[e].dest;
                if (a < in.n && b < in.n && a != b) m |= (em_t) 1 << edge_bit(in.n, a, b);
            }
            rec[nrec].mask = m; rec[nrec].value = element->value;
        }
        nrec++;
    }
    __real_add_elem_SubProblemList_bottom(list, element);
}
/* the edge proposed for branching against Shutler's rule: NULL if it is right, or if the 1-trees cannot be told */
static const char *selection(const SubProblem *s, int lev, int *seen) {
    static char z[300];
    int n = in.n, iters = (lev == 1 ? (int) NUM_HK_INITIAL_ITERATIONS : (int) NUM_HK_ITERATIONS) + 10, cnt[64] = {0};
    *seen = 0;
    if (nrec != iters || nrec >= RMAX) return NULL;
    for (int i = nrec - 10; i < nrec; i++) for (int b = 0; b < n * (n - 1) / 2; b++) cnt[b] += rec[i].mask >> b & 1;
    int e = s->edge_to_branch, a = prob.graph.edges[e].src, b = prob.graph.edges[e].dest, be = edge_bit(n, a, b);
    bool any = false; z[0] = 0;
    for (int i = 0; i < nrec; i++) {
        if (rec[i].value != s->value || __builtin_popcountll(rec[i].mask) != n) continue;
        any = true;
        const char *why = NULL; int x = -1, y = -1;
        if (!(rec[i].mask >> be & 1)) why = "not in the best 1-tree";
        for (int u = 0; u < n && !why; u++) for (int v = u + 1; v < n && !why; v++) {
            int f = edge_bit(n, u, v);
            if (!(rec[i].mask >> f & 1) || cons[u][v]) continue;
            if (abs(cnt[f] - 5) < abs(cnt[be] - 5)) { why = "less undecided than"; x = u; y = v; }
            else if (HYBRID && cnt[f] == cnt[be] && in.p[u][v] > in.p[a][b] + 1e-9) { why = "less probable than"; x = u; y = v; }
        }
        if (!why) { *seen = 1; return NULL; }
        if (x < 0) snprintf(z, sizeof z, "the branching edge %d-%d is %s", a, b, why);
        else snprintf(z, sizeof z, "the branching edge %d-%d (in %d of the last ten 1-trees, probability %g) is %s %d-%d (in %d, probability %g)", a, b, cnt[be], in.p[a][b], why, x, y, cnt[edge_bit(n, x, y)], in.p[x][y]);
    }
    *seen = any;
    return any ? z : NULL;
}
static double incumbent(int k, double opt, double glob) {
    double o = opt < HINF ? opt : glob < HINF ? glob : 10;
    switch (k) {
        case 0: return INFINITE;
        case 1: return o + 2.5 * EPS;
        case 2: return o * 1.25 + 3 * EPS;
        case 3: return glob < HINF ? glob : o;     /* nothing cheaper can exist */
        case 4: return o * 1.6 + 1;
        default: return o + 1;
    }
}
static void m_bound(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem s;
    int n; uint64_t x = idx;
    uint64_t fi = x % NF; x /= NF; uint64_t pi = x % NP; x /= NP;
    fam_by_name(&in, FAM, fi); prob_by_name(&in, PROB, pi);
    n = in.n;
    int cand = (int) (x % (uint64_t) n); x /= (uint64_t) n;
    if (!cons_decode(n, x)) { h_count(T_SKIP, 1); return; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!in.has[i][j] && cons[i][j] != 2) { h_count(T_SKIP, 1); return; }
    char *t = inst_text(&in);
    em_t M, F, M2, F2; cons_masks(n, cons, &M, &F);
    const Tours *ts = all_tours(n);
    double opt = HINF, glob = HINF; static double *cost; static int ncost; int na = 0;
    if (ts->count > ncost) { ncost = ts->count; cost = realloc(cost, sizeof *cost * (size_t) ncost); }
    for (int i = 0; i < ts->count; i++) {
        cost[i] = mask_cost(ts->mask[i]);
        if (cost[i] < glob) glob = cost[i];
        if ((ts->mask[i] & M) == M && !(ts->mask[i] & F)) { na++; if (cost[i] < opt) opt = cost[i]; }
    }
    inst_graph(&in, &prob.graph); g0 = prob.graph;
    int levels = (int) h_argi("--levels", 2), incs = (int) h_argi("--incumbents", 5);
    for (int lev = 1; lev <= levels; lev++) for (int inc = 0; inc < incs; inc++) {
        double best = incumbent(inc, opt, glob);
        double value = lev == 1 ? INFINITE : (opt < HINF && inc % 2 == 0) ? opt : 0;   /* the bound inherited from the parent, at most the optimum */
        if (lev > 1 && !(best - value > 1.001 * EPS)) continue;                          /* only such subproblems are evaluated */
        h_note("bound, start vertex %d, level %d, incumbent %g, %s: %s", cand, lev, best, cons_text(n, cons), t);
        setup(cand, best);
        sub_init(&s, lev, value); cons_put(&s, n, cons);
        nrec = 0; recording = SEL;
        bound(&s);
        recording = false;
        h_count(T_EXEC, 1); h_count(T_TRANS, prob.exploredBBNodes);
#define FS(...) do { char z_[400]; snprintf(z_, sizeof z_, __VA_ARGS__); h_fail("%s: start vertex %d, level %d, incumbent %.9g, cheapest admissible tour %.9g, %s: %s", z_, cand, lev, best, opt, cons_text(n, cons), t); free(t); return; } while (0)
        double tol = 1e-9 * (1 + fabs(opt < HINF ? opt : 0)) * n;
        if (SEL) {
            if (s.type != OPEN || s.edge_to_branch < 0 || s.edge_to_branch >= prob.graph.num_edges) { h_count(T_CLOSED, 1); continue; }
            int seen; const char *bad = selection(&s, lev, &seen);
            if (bad) FS("%s", bad);
            h_count(seen ? T_OPEN : T_SKIP, 1);
            h_outcome(h_hash_u(h_hash_u(11, (uint64_t) s.edge_to_branch), M * 31u + F));
            continue;
        }
        if (!FIX && !ONE) {
            if (prob.bestValue != best) {
                double c, mp; char why[300];
                if (!tour_ok(&in, &prob.bestSolution, &c, &mp, why, sizeof why)) FS("the incumbent was replaced, but %s", why);
                if (fabs(c - prob.bestValue) > 1e-7 * (1 + c) || prob.bestSolution.value != prob.bestValue) FS("the new incumbent costs %.9g, %.9g is recorded", c, prob.bestValue);
                if (prob.bestValue >= best) FS("the incumbent was replaced by one that costs %.9g", prob.bestValue);
                em_t m = 0;
                for (int i = 0; i < n; i++) m |= (em_t) 1 << edge_bit(n, prob.bestSolution.cycleEdges[i].src, prob.bestSolution.cycleEdges[i].dest);
                if ((m & F) || (na && (m & M) != M)) FS("the incumbent was replaced by a tour that the subproblem does not admit");
                h_count(T_TOUR, 1);
            }
            bool kept = s.type == OPEN && s.edge_to_branch != -1;
            if (!kept && opt < HINF && prob.bestValue - opt > 1.0001 * EPS + tol)
                FS("the subproblem was discarded (type %d, edge %d) although it admits a tour cheaper than the incumbent (now %.9g)", s.type, s.edge_to_branch, prob.bestValue);
            if (s.type == OPEN && opt < HINF && s.value > opt + tol) FS("the lower bound is %.12g", s.value);
            if (kept) {
                int e = s.edge_to_branch;
                if (e < 0 || e >= prob.graph.num_edges) FS("the branching edge has index %d", e);
                int a = prob.graph.edges[e].src, b = prob.graph.edges[e].dest;
                if (cons[a][b] != 0) FS("the branching edge %d-%d is already decided", a, b);
                const char *bad = cons_get(&s, n, after); if (bad) FS("after bounding, %s", bad);
                cons_masks(n, after, &M2, &F2);
                if (M2 != M || F2 != F) FS("bounding changed the constraints");
                h_count(T_OPEN, 1);
            } else h_count(T_CLOSED, 1);
            for (int e = 0; e < in.n * (in.n - 1) / 2; e++) ;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && in.has[i][j]) {
                if (prob.graph.edges_matrix[i][j].weight != in.w[i][j]) FS("bounding changed the weight of edge %d-%d from %.9g to %.9g", i, j, in.w[i][j], prob.graph.edges_matrix[i][j].weight);
                const Edge *d = &prob.graph.edges[prob.graph.edges_matrix[i][j].positionInGraph];
                if (d->weight != in.w[i][j] || !((d->src == i && d->dest == j) || (d->src == j && d->dest == i))) FS("bounding broke the list of edges at edge %d-%d", i, j);
            }
            h_outcome(h_hash_u(h_hash_u(h_hash_d(0, s.type == OPEN ? s.value : -1), (uint64_t) s.type * 100 + (uint64_t) (s.edge_to_branch + 1)), M * 31u + F));
        }
        if (ONE && s.type == OPEN) {   /* the subproblem comes back with its minimum 1-tree */
            double mt = min_one_tree(&in, cand, cons), c = 0;
            if (mt >= HINF) { if (na) FS("harness error"); continue; }
            int deg = 0; em_t em = 0;
            if (s.oneTree.num_edges != n) FS("the 1-tree has %d edges", s.oneTree.num_edges);
            for (int e = 0; e < n; e++) { int a = s.oneTree.edges[e].src, b = s.oneTree.edges[e].dest; if (a >= n || b >= n || a == b || !in.has[a][b]) FS("the 1-tree holds %d-%d", a, b); c += in.w[a][b]; deg += a == cand || b == cand; em |= (em_t) 1 << edge_bit(n, a, b); }
            if (__builtin_popcountll(em) != n || deg != 2 || (em & F) || (em & M) != M) FS("the relaxation of the subproblem is not a 1-tree under its constraints");
            if (fabs(c - mt) > tol) FS("the relaxation costs %.9g, the minimum 1-tree %.9g", c, mt);
            if (s.value < mt - tol) FS("the lower bound %.12g of the subproblem is below its minimum 1-tree, %.12g", s.value, mt);
            h_outcome(h_hash_u(h_hash_u(7, em), M * 31u + F));
        }
        if (FIX && s.type == OPEN && s.edge_to_branch != -1) {
            const char *bad = cons_get(&s, n, after); if (bad) FS("after bounding, %s", bad);
            static unsigned char pre[HMAX][HMAX]; memcpy(pre, after, sizeof pre); cons_masks(n, pre, &M, &F);
            double bv = prob.bestValue;
            int nf = variable_fixing(&s);
            bad = cons_get(&s, n, after); if (bad) FS("after fixing edges, %s", bad);
            cons_masks(n, after, &M2, &F2);
            if ((M & ~M2) || (F & ~F2)) FS("fixing changed an edge that was already decided");
            int dec = __builtin_popcountll((M2 & ~M) | (F2 & ~F));
            if (dec != nf) FS("%d edges were decided, %d are reported", dec, nf);
            for (int i = 0; i < ts->count; i++) if ((ts->mask[i] & M) == M && !(ts->mask[i] & F) && cost[i] < bv - tol)
                if ((ts->mask[i] & M2) != M2 || (ts->mask[i] & F2)) FS("fixing (incumbent now %.9g) excludes an admissible tour of cost %.9g", bv, cost[i]);
            if (prob.bestValue != bv) FS("fixing changed the incumbent");
            h_count(T_FIXED, (uint64_t) dec); if (dec) h_count(T_ADM, 1);
            h_outcome(h_hash_u(h_hash_u(5, M2), F2));
        }
    }
    if (idx % 200003 == 7) h_sample("start vertex %d, %s: %s: %d admissible tours, cheapest %g", cand, cons_text(n, cons), t, na, opt);
    free(t);
}

/* ---------------------------------------------------------------- 1-trees of both engines (P13) */
static void check_one_tree(SubProblem *s, int cand, double mt, const char *eng, BBNodeType r, const char *t) {
    int n = in.n;
    double c = 0; int deg[HMAX] = {0}; em_t em = 0;
    if (mt >= HINF) {
        if (s->oneTree.isValid && r == OPEN) h_fail("%s: no 1-tree satisfies the constraints, but one is given: start vertex %d, %s: %s", eng, cand, cons_text(n, cons), t);
        h_count(T_INF, 1); return;
    }
    if (!s->oneTree.isValid || r != OPEN) { h_fail("%s: a 1-tree of cost %g satisfies the constraints, but the subproblem is declared infeasible: start vertex %d, %s: %s", eng, mt, cand, cons_text(n, cons), t); return; }
    if (s->oneTree.num_edges != n) { h_fail("%s: the 1-tree has %d edges instead of %d: start vertex %d, %s: %s", eng, s->oneTree.num_edges, n, cand, cons_text(n, cons), t); return; }
    int uf[HMAX]; for (int i = 0; i < n; i++) uf[i] = i;
    bool ok = true;
    for (int e = 0; e < n; e++) {
        int a = s->oneTree.edges[e].src, b = s->oneTree.edges[e].dest;
        if (a >= n || b >= n || a == b || !in.has[a][b] || cons[a][b] == 2) { ok = false; break; }
        if (em >> edge_bit(n, a, b) & 1) ok = false;
        em |= (em_t) 1 << edge_bit(n, a, b); c += in.w[a][b]; deg[a]++; deg[b]++;
        if (a != cand && b != cand) { int x = a, y = b; while (uf[x] != x) x = uf[x]; while (uf[y] != y) y = uf[y]; if (x == y) ok = false; uf[x] = y; }
        if (fabs(s->oneTree.edges[e].weight - in.w[a][b]) > 1e-9 * (1 + in.w[a][b])) ok = false;
        if (s->oneTree.edges_matrix[a][b] != e || s->oneTree.edges_matrix[b][a] != e) ok = false;
    }
    for (int i = 0; i < n && ok; i++) for (int j = i + 1; j < n; j++) if (cons[i][j] == 1 && !(em >> edge_bit(n, i, j) & 1)) ok = false;
    for (int i = 0; i < n && ok; i++) if (s->oneTree.nodes[i].num_neighbours != deg[i]) ok = false;
    if (!ok || deg[cand] != 2) { h_fail("%s: what is given is not a 1-tree under the constraints: start vertex %d, %s: %s", eng, cand, cons_text(n, cons), t); return; }
    if (fabs(c - mt) > 1e-9 * (1 + fabs(mt)) * n) { h_fail("%s: the 1-tree costs %.12g, the minimum is %.12g: start vertex %d, %s: %s", eng, c, mt, cand, cons_text(n, cons), t); return; }
    if (fabs(s->oneTree.cost - mt) > 1e-9 * (1 + fabs(mt)) * n) { h_fail("%s: the recorded cost is %.12g, the minimum is %.12g: start vertex %d, %s: %s", eng, s->oneTree.cost, mt, cand, cons_text(n, cons), t); return; }
    h_outcome(h_hash_u(h_hash_u(5, em), (uint64_t) cand));
}
static void m_onetree(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem s;
    uint64_t x = idx;
    uint64_t fi = x % NF; x /= NF;
    fam_by_name(&in, FAM, fi); int n = in.n;
    int cand = (int) (x % (uint64_t) n); x /= (uint64_t) n;
    if (!cons_decode(n, x)) { h_count(T_SKIP, 1); return; }
    int uf[HMAX]; for (int i = 0; i < n; i++) uf[i] = i;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (!in.has[i][j] && cons[i][j] != 2) { h_count(T_SKIP, 1); return; }
        if (cons[i][j] == 1 && i != cand && j != cand) {
            int a = i, b = j; while (uf[a] != a) a = uf[a]; while (uf[b] != b) b = uf[b];
            if (a == b) { h_count(T_SKIP, 1); return; }   /* mandatory edges that close a cycle: not an admissible set */
            uf[a] = b;
        }
    }
    char *t = inst_text(&in);
    double mt = min_one_tree(&in, cand, cons);
    inst_graph(&in, &prob.graph); g0 = prob.graph;
    setup(cand, INFINITE);
    for (int eng = 0; eng < 2 && !h_failed(); eng++) {
        if (eng == 0 ? !constrained_prim : !constrained_kruskal) continue;
        h_note("%s, start vertex %d, %s: %s", eng ? "Kruskal" : "Prim", cand, cons_text(n, cons), t);
        memset(&s, 0x3c, sizeof s); sub_init(&s, 2, 0); cons_put(&s, n, cons); s.num_edges_in_cycle = 0;
        prob.graph = g0;
        if (eng == 0) constrained_prim(&prob.graph, &s, (unsigned short) cand); else constrained_kruskal(&prob.graph, &s, (unsigned short) cand);
        BBNodeType r = CLOSED_UNFEASIBLE;
        if (s.oneTree.isValid) {
            for (int i = 0; i < n && eng == 0; i++) for (int j = 0; j < n; j++) if (i != j && in.has[i][j] && prob.graph.edges_matrix[i][j].weight != in.w[i][j]) h_fail("computing the 1-tree changed the graph: start vertex %d, %s: %s", cand, cons_text(n, cons), t);
            r = mst_to_one_tree(&s, &prob.graph);
        }
        h_count(T_EXEC, 1); h_count(T_TRANS, (uint64_t) s.oneTree.num_edges);
        if (!h_failed()) check_one_tree(&s, cand, mt, eng ? "Kruskal" : "Prim", r, t);
    }
    if (idx % 200003 == 7) h_sample("start vertex %d, %s: %s: minimum 1-tree %g", cand, cons_text(n, cons), t, mt);
    free(t);
}

/* ---------------------------------------------------------------- the list of open subproblems (P20) */
static bool spec_better(double av, double ap, double bv, double bp, bool *close) {   /* a goes before b */
    double d = bv - av;
    *close = fabs(d - EPS) < 1e-9;
    if (d > EPS) return true;
    if (HYBRID) { if (fabs(ap - bp - 0.05) < 1e-6) *close = true; return d >= 0 && ap - bp >= 0.05; }
    return false;
}
static void m_open(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem s, o[6];
    int len = (int) h_argi("--len", 4), na = 0; double val[16], pr[4] = {0}; int npv = 0;
    static const double steps[] = {0, 0.4, 0.9, 1.1, 2.3};   /* in units of the tolerance */
    na = 5; for (int i = 0; i < na; i++) val[i] = 10 + steps[i] * EPS;
    static const double ps[] = {0.2, 0.23, 0.27};
    npv = HYBRID ? 3 : 1; for (int i = 0; i < npv; i++) pr[i] = ps[i];
    uint64_t x = idx; int a = na * npv;
    int L = (int) (x % (uint64_t) (len + 1)); x /= (uint64_t) (len + 1);
    int cv = (int) (x % (uint64_t) a); x /= (uint64_t) a;
    double bv[6], bp[6];
    for (int k = 0; k < len; k++) { int c = (int) (x % (uint64_t) a); x /= (uint64_t) a; if (k < L) { bv[k] = val[c % na]; bp[k] = pr[c / na]; } else if (c) { h_count(T_SKIP, 1); return; } }
    double v = val[cv % na], p = pr[cv / na];
    int n = 5;
    inst_clear(&in, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inst_set(&in, i, j, 1 + i + j, 0.1 * i);
    static int built; if (!built) { inst_graph(&in, &prob.graph); built = 1; }
    setup(0, 1000);
    prob.generatedBBNodes = 50;
    SubProblemsList l; new_SubProblemList(&l);
    for (int k = 0; k < L; k++) { sub_init(&o[k], 2, bv[k]); o[k].prob = bp[k]; o[k].id = (unsigned) (k + 2); add_elem_SubProblemList_bottom(&l, &o[k]); }
    memset(cons, 0, sizeof cons); for (int i = 0; i < n; i++) cons[i][i] = 2;
    sub_init(&s, 3, v); s.prob = p; s.id = 30; s.edge_to_branch = 0; cons_put(&s, n, cons);
    char d[400]; size_t z = 0; for (int k = 0; k < L; k++) z += snprintf(d + z, sizeof d - z, " (%.6f, %.2f)", bv[k], bp[k]); if (!L) d[0] = 0;
    h_note("children of value %.6f probability %.2f into%s", v, p, d);
    branch(&l, &s);
    h_count(T_EXEC, 1); h_max(T_MAXLIST, l.size);
    size_t nl = get_SubProblemList_size(&l);
#define FO(...) do { char z_[300]; snprintf(z_, sizeof z_, __VA_ARGS__); h_fail("%s: children of value %.6f and probability %.2f into the list%s (tolerance %.6f)", z_, v, p, d, EPS); delete_SubProblemList(&l); return; } while (0)
    if (nl != (size_t) L + 2) FO("%zu subproblems instead of %d", nl, L + 2);
    int pos[2], nc = 0, seen = 0, i = 0; unsigned cid[2];
    SubProblemElem *prev = NULL;
    for (SubProblemElem *e = l.head; e; prev = e, e = e->next, i++) {
        if (e->prev != prev) FO("the list is not linked backwards");
        if (i >= (int) nl) FO("the list is longer than its size");
        if (e->subProblem.id > 50) { if (nc == 2) FO("three children"); cid[nc] = e->subProblem.id; pos[nc++] = i; continue; }
        if (seen >= L || memcmp(&e->subProblem, &o[seen], sizeof s)) FO("the other subproblems were altered or changed order");
        seen++;
    }
    if (nc != 2 || seen != L || l.tail != prev) FO("a subproblem was lost");
    if (cid[0] == cid[1]) FO("a child is there twice");
    /* each child, in order of generation, stands before the first one that is worse */
    int first = cid[0] < cid[1] ? 0 : 1;
    /* expected position among the old ones */
    int want = L; bool fuzzy = false;
    for (int k = 0; k < L; k++) { bool cl; bool w = spec_better(v, p, bv[k], bp[k], &cl); if (cl) fuzzy = true; if (w) { want = k; break; } }
    if (!fuzzy) {
        int p1 = pos[first], p2 = pos[1 - first];
        /* with both children equal, the second is put after the first, right before the same element */
        if (!(p1 == want && p2 == want + 1)) FO("the children are at positions %d and %d instead of %d and %d", p1, p2, want, want + 1);
    }
    h_count(T_TRANS, 2); h_outcome(h_hash_u(h_hash_u(h_hash_u(1, idx / 4), (uint64_t) pos[0]), (uint64_t) pos[1]));
    delete_SubProblemList(&l);
    if (idx % 3001 == 7) h_sample("children of value %.6f probability %.2f into%s -> positions %d, %d", v, p, d, pos[0], pos[1]);
}
/* the real search, step by step: the list of open subproblems after every step (P20) */
static void m_openrun(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem cur;
    fam_by_name(&in, FAM, idx / NP); prob_by_name(&in, PROB, idx % NP);
    char *t = inst_text(&in); int n = in.n;
    inst_graph(&in, &prob.graph);
    setup(0, INFINITE); prob.bestSolution.value = INFINITE;
    h_note("step by step: %s", t);
    prob.candidateNodeId = find_candidate_node();
    memset(cons, 0, sizeof cons);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) cons[i][j] = i == j || !in.has[i][j] ? 2 : 0;
    sub_init(&cur, 1, INFINITE); cons_put(&cur, n, cons); cur.id = 1; prob.generatedBBNodes = 1; prob.reformulationGraph = prob.graph;
    SubProblemsList l; new_SubProblemList(&l); add_elem_SubProblemList_bottom(&l, &cur);
    static struct { unsigned id; double v, p; } was[4096]; int nw = 0;
    static unsigned char everseen[1 << 16]; memset(everseen, 0, sizeof everseen);
    int steps = 0, max_steps = (int) h_argi("--steps", 3000);
    while (get_SubProblemList_size(&l) && steps++ < max_steps && !h_failed()) {
        cur = *get_SubProblemList_elem_index(&l, 0);
        delete_SubProblemList_elem_index(&l, 0);
        nw = 0;
        for (SubProblemElem *e = l.head; e && nw < 4096; e = e->next) { was[nw].id = e->subProblem.id; was[nw].v = e->subProblem.value; was[nw].p = e->subProblem.prob; nw++; }
        bound(&cur);
        if (!(cur.type == OPEN && cur.edge_to_branch != -1)) continue;
        unsigned gen = prob.generatedBBNodes;
        variable_fixing(&cur);
        branch(&l, &cur);
        h_count(T_TRANS, 1);
        /* old ones keep their order; children stand before the first worse one */
        int k = 0, fresh = 0; double pv = -HINF;
        SubProblemElem *prev = NULL; size_t cnt = 0;
        for (SubProblemElem *e = l.head; e && !h_failed(); prev = e, e = e->next) {
            cnt++;
            if (e->prev != prev) h_fail("the list of open subproblems is not linked backwards: %s", t);
            if (e->subProblem.id > gen) {
                fresh++;
                if (e->subProblem.id < (1 << 16)) { if (everseen[e->subProblem.id]) h_fail("subproblem %u is generated twice: %s", e->subProblem.id, t); everseen[e->subProblem.id] = 1; }
                bool cl;
                for (int q = 0; q < k; q++) if (spec_better(e->subProblem.value, e->subProblem.prob, was[q].v, was[q].p, &cl) && !cl) h_fail("a new subproblem (bound %.9g, probability %g) is after a worse one (%.9g, %g): %s", e->subProblem.value, e->subProblem.prob, was[q].v, was[q].p, t);
                if (k < nw && !(spec_better(e->subProblem.value, e->subProblem.prob, was[k].v, was[k].p, &cl)) && !cl && !h_failed()) h_fail("a new subproblem (bound %.9g, probability %g) is before one that is not worse (%.9g, %g): %s", e->subProblem.value, e->subProblem.prob, was[k].v, was[k].p, t);
            } else {
                if (k >= nw || e->subProblem.id != was[k].id) { h_fail("the open subproblems changed order, or one was lost: %s", t); break; }
                k++;
            }
            if (!HYBRID && pv > e->subProblem.value + EPS * 1.0001 + 1e-9) h_fail("an open subproblem with bound %.9g is before one with bound %.9g: %s", pv, e->subProblem.value, t);
            if (e->subProblem.value > pv) pv = e->subProblem.value;
        }
        if (!h_failed() && (k != nw || cnt != l.size || l.tail != prev || fresh > 2)) h_fail("the list of open subproblems lost elements (%d of %d old, %d new, size %zu): %s", k, nw, fresh, l.size, t);
        h_max(T_MAXLIST, l.size);
    }
    h_count(T_EXEC, 1);
    h_outcome(h_hash_u(h_hash_d(2, prob.bestValue), prob.generatedBBNodes));
    delete_SubProblemList(&l);
    if (idx % 500 == 7) h_sample("%s: %d steps", t, steps);
    free(t);
}

/* ---------------------------------------------------------------- pruning (P41) */
static void m_prune(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem s;
    int n; uint64_t x = idx;
    uint64_t fi = x % NF; x /= NF; uint64_t pi = x % NP; x /= NP;
    fam_by_name(&in, FAM, fi); prob_by_name(&in, PROB, pi);
    n = in.n;
    int cand = (int) (x % (uint64_t) n); x /= (uint64_t) n;
    if (!cons_decode(n, x)) { h_count(T_SKIP, 1); return; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!in.has[i][j] && cons[i][j] != 2) { h_count(T_SKIP, 1); return; }
    char *t = inst_text(&in);
    double mt = min_one_tree(&in, cand, cons);
    if (mt >= HINF) { h_count(T_SKIP, 1); free(t); return; }   /* P13 */
    inst_graph(&in, &prob.graph);
    double base = mt, tol = 1e-9 * (1 + fabs(base)) * n;
    static const double off[] = {-3, -0.5, 0, 0.5, 0.99, 1.5, 4, 50}, inh[] = {4, 1.02, 0.98, 0.5, 0, -2, -1e4};
    for (int lev = 1; lev <= 2; lev++) for (int k = 0; k < (int) (sizeof off / sizeof *off); k++) for (int q = 0; q < (lev == 1 ? 1 : (int) (sizeof inh / sizeof *inh)); q++) {
        double best = base + off[k] * EPS, value = lev == 1 ? INFINITE : best - inh[q] * EPS;
        if (best <= 0) continue;
        bool skip = lev > 1 && inh[q] < 1;
        h_note("pruning, start vertex %d, level %d, incumbent %.12g, inherited bound %.12g, %s: %s", cand, lev, best, value, cons_text(n, cons), t);
        setup(cand, best);
        sub_init(&s, lev, value); cons_put(&s, n, cons);
        bound(&s);
        h_count(T_EXEC, 1); h_count(T_TRANS, prob.exploredBBNodes);
#define FP(...) do { char z_[400]; snprintf(z_, sizeof z_, __VA_ARGS__); h_fail("%s: start vertex %d, level %d, incumbent %.12g, inherited bound %.12g, minimum 1-tree %.12g, tolerance %g, %s: %s", z_, cand, lev, best, value, mt, EPS, cons_text(n, cons), t); free(t); return; } while (0)
        if (prob.exploredBBNodes != (skip ? 0 : 1)) FP("%u subproblems count as explored, should be %d", prob.exploredBBNodes, skip ? 0 : 1);
        if (skip && s.type == OPEN) FP("the subproblem stays open although its bound cannot improve the incumbent");
        if (skip && (prob.bestValue != best || prob.bestSolution.num_edges_in_cycle)) FP("the incumbent was replaced by a subproblem that was to be discarded");
        if (!skip && s.type == OPEN) {
            if (best - mt < 0.999 * EPS - tol) FP("the subproblem stays open (bound %.12g) although its minimum 1-tree cannot improve the incumbent", s.value);
            if (prob.bestValue - s.value < 0.999 * EPS - tol) FP("the subproblem stays open with the bound %.12g", s.value);
        }
        h_count(s.type == OPEN ? T_OPEN : T_CLOSED, 1);
        h_outcome(h_hash_u(h_hash_u(h_hash_d(12, s.type == OPEN ? s.value : -1), (uint64_t) s.type), (uint64_t) (k * 100 + q * 10 + lev)));
    }
    if (idx % 20003 == 7) h_sample("pruning, start vertex %d, %s: %s: minimum 1-tree %g", cand, cons_text(n, cons), t, mt);
    free(t);
}
/* the whole search against the stated loop, made of the same steps (P41) */
static void m_loop(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem cur; static Problem whole;
    fam_by_name(&in, FAM, idx / NP); prob_by_name(&in, PROB, idx % NP);
    char *t = inst_text(&in); int n = in.n;
    h_note("search: %s", t);
    uint64_t polls = (uint64_t) h_argi("--polls", 3000);
    memset(&whole, 0, sizeof whole); inst_graph(&in, &whole.graph);
    vclock_reset(polls);
    branch_and_bound(&whole);
    vclock_reset(UINT64_MAX);
    h_count(T_EXEC, 1); h_count(T_TRANS, whole.exploredBBNodes);
    if (whole.exploredBBNodes == 0) { h_count(T_SKIP, 1); free(t); return; }
    inst_graph(&in, &prob.graph);
    setup(0, INFINITE); prob.bestSolution.value = INFINITE;
    prob.candidateNodeId = find_candidate_node();
    memset(cons, 0, sizeof cons);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) cons[i][j] = i == j || !in.has[i][j] ? 2 : 0;
    sub_init(&cur, 1, INFINITE); cons_put(&cur, n, cons); cur.id = 1; prob.generatedBBNodes = 1; prob.reformulationGraph = prob.graph;
    SubProblemsList l; new_SubProblemList(&l); add_elem_SubProblemList_bottom(&l, &cur);
    while (get_SubProblemList_size(&l) && !h_failed() && !(whole.interrupted && prob.exploredBBNodes == whole.exploredBBNodes)) {
        cur = *get_SubProblemList_elem_index(&l, 0);
        delete_SubProblemList_elem_index(&l, 0);
        bound(&cur);
        if (!(cur.type == OPEN && cur.edge_to_branch != -1)) continue;
        if (cur.treeLevel > 1 || prob.bestValue < INFINITE) { if (prob.bestValue - cur.value < 0.999 * EPS) h_fail("subproblem %u is split although its bound %.9g cannot improve the incumbent %.9g: %s", cur.id, cur.value, prob.bestValue, t); }
        unsigned gen = prob.generatedBBNodes;
        int had = 0;
        cons_get(&cur, n, cons); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) had += cons[i][j] != 0;
        variable_fixing(&cur);
        branch(&l, &cur);
        for (SubProblemElem *e = l.head; e && !h_failed(); e = e->next) if (e->subProblem.id > gen) {
            if (prob.bestValue - e->subProblem.value < 0.999 * EPS) h_fail("a child with bound %.9g is kept, the incumbent is %.9g: %s", e->subProblem.value, prob.bestValue, t);
            int dec = 0; cons_get(&e->subProblem, n, after);   /* whether it is consistent: P10 */
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) dec += after[i][j] != 0;
            if (!h_failed() && dec <= had) h_fail("a child has no more decisions than its parent: %s", t);
        }
        h_max(T_MAXLIST, l.size);
    }
    if (!h_failed() && (prob.exploredBBNodes != whole.exploredBBNodes || (!whole.interrupted && (prob.generatedBBNodes != whole.generatedBBNodes || prob.bestValue != whole.bestValue || prob.totTreeLevels != whole.totTreeLevels))))
        h_fail("the run explored %u and generated %u subproblems down to level %u for a tour of %.9g; taking the first open one, bounding it and splitting it if it stays open gives %u, %u, level %u, %.9g: %s", whole.exploredBBNodes, whole.generatedBBNodes, whole.totTreeLevels, whole.bestValue, prob.exploredBBNodes, prob.generatedBBNodes, prob.totTreeLevels, prob.bestValue, t);
    if (whole.interrupted) h_count(T_OPEN, 1); else h_count(T_CLOSED, 1);
    h_outcome(h_hash_u(h_hash_d(13, whole.bestValue), whole.generatedBBNodes));
    delete_SubProblemList(&l);
    if (idx % 500 == 7) h_sample("%s: %u explored, %u generated", t, whole.exploredBBNodes, whole.generatedBBNodes);
    free(t);
}

/* ---------------------------------------------------------------- the start (P29) */
/* the least and the largest mean probability of the minimum 1-trees of a start vertex (Kruskal with ties broken by probability) */
static void one_tree_prob(const Inst *g, int c, double *lo, double *hi) {
    int n = g->n;
    for (int sgn = 0; sgn < 2; sgn++) {
        int comp[HMAX]; double sum = 0; int used = 0, a[2] = {-1, -1};
        for (int i = 0; i < n; i++) comp[i] = i;
#define BEFORE(i, j, x, y) (g->w[i][j] < g->w[x][y] || (g->w[i][j] == g->w[x][y] && (sgn ? g->p[i][j] > g->p[x][y] : g->p[i][j] < g->p[x][y])))
        for (; used < n - 2; used++) {
            int bi = -1, bj = -1;
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != c && j != c && g->has[i][j] && comp[i] != comp[j] && (bi < 0 || BEFORE(i, j, bi, bj))) { bi = i; bj = j; }
            if (bi < 0) break;
            sum += g->p[bi][bj]; int from = comp[bj], to = comp[bi];
            for (int i = 0; i < n; i++) if (comp[i] == from) comp[i] = to;
        }
        for (int q = 0; q < 2; q++) for (int i = 0; i < n; i++) if (i != c && g->has[c][i] && i != a[0] && (a[q] < 0 || BEFORE(c, i, c, a[q]))) a[q] = i;
        sum += g->p[c][a[0]] + g->p[c][a[1]];
        *(sgn ? hi : lo) = sum / n;
    }
}
static void m_start(uint64_t idx, void *ctx) {
    (void) ctx;
    fam_by_name(&in, FAM, idx / NP); prob_by_name(&in, PROB, idx % NP);
    char *t = inst_text(&in); h_note("start: %s", t); int n = in.n;
    memset(&prob, 0x11, sizeof prob);
    inst_graph(&in, &prob.graph);
    vclock_reset(1);                      /* time is over as soon as the run has begun: only the start remains */
    branch_and_bound(&prob);
    vclock_reset(UINT64_MAX);
    h_count(T_EXEC, 1); h_count(T_TRANS, (uint64_t) n);
    double lo, hi, plo = HINF, phi = HINF;
    nn_range(&in, false, &lo, &hi); if (HYBRID) nn_range(&in, true, &plo, &phi);
    double L = lo < plo ? lo : plo, H = hi < phi ? hi : phi;
    double cost, mp; char why[300];
    bool have = prob.bestSolution.num_edges_in_cycle > 0;
    if (prob.exploredBBNodes) h_fail("the search went on after the time limit: %s", t);
    else if (!have && H < HINF) h_fail("no start tour, but the nearest neighbour visits give one of cost %.9g: %s", H, t);
    else if (have && L >= HINF) h_fail("a start tour of cost %.9g, but no nearest neighbour visit closes a tour: %s", prob.bestValue, t);
    else if (have && !tour_ok(&in, &prob.bestSolution, &cost, &mp, why, sizeof why)) h_fail("start tour: %s: %s", why, t);
    else if (have && (fabs(cost - prob.bestValue) > 1e-7 * (1 + cost))) h_fail("the start tour costs %.9g, %.9g is recorded: %s", cost, prob.bestValue, t);
    else if (have && (cost > H + 1e-7 * (1 + fabs(H)) || cost < L - 1e-7 * (1 + fabs(L)))) h_fail("the start tour costs %.12g, the best nearest neighbour tour %.12g%s: %s", cost, H, H != L ? " at most" : "", t);
    /* the start vertex */
    double b[HMAX], mx = -HINF; bool all = true;
    for (int c = 0; c < n && all; c++) { b[c] = min_one_tree(&in, c, NULL); if (b[c] >= HINF) all = false; else if (b[c] > mx) mx = b[c]; }
    if (!h_failed() && all) {
        int c = prob.candidateNodeId;
        if (c >= n) h_fail("the start vertex is %d: %s", c, t);
        else if (b[c] < mx - EPS * 1.0001 - 1e-9) h_fail("the start vertex %d has 1-tree bound %.9g, another has %.9g: %s", c, b[c], mx, t);
        else if (HYBRID && n > 3) {     /* equal bounds: the most probable 1-tree wins */
            bool whole = true; double lo1, hi1, lo2, hi2;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in.has[i][j] && (in.w[i][j] != floor(in.w[i][j]) || in.w[i][j] > 1e9)) whole = false;
            one_tree_prob(&in, c, &lo1, &hi1);
            for (int v = 0; v < n && !h_failed(); v++) {
                if (v == c || (whole ? b[v] < b[c] : b[v] < b[c] + 1e-7)) continue;
                one_tree_prob(&in, v, &lo2, &hi2);
                if (lo2 - hi1 > 0.05 + 1e-6) h_fail("the start vertex %d has 1-tree bound %.9g and probability %g at most, vertex %d has %.9g and %g at least: %s", c, b[c], hi1, v, b[v], lo2, t);
                h_count(T_PROB, 1);
            }
        }
        h_count(T_ADM, 1);
    }
    if (L != H) h_count(T_SKIP, 1);
    h_outcome(h_hash_u(h_hash_d(3, prob.bestValue), prob.candidateNodeId));
    if (idx % 3001 == 7) h_sample("%s -> start tour %g, start vertex %d", t, prob.bestValue, prob.candidateNodeId);
    free(t);
}

/* ---------------------------------------------------------------- the cycle of a 1-tree (P14) */
/* the 1-tree te on n cities, whose edges are added in an order: rotation and reversal of the sequence, and orientation of the edges */
static void check_cycle(int n, int te[HMAX][2], int cand, int order, uint64_t idx) {
    static SubProblem s;
    int rot = order % n, rev = order / n % 2, flip = order / n / 2 % 2, perm[HMAX];
    for (int i = 0; i < n; i++) { int z = rev ? n - 1 - i : i; perm[i] = (z + rot) % n; }
    static int built = -1;
    if (built != n) {
        inst_clear(&in, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inst_set(&in, i, j, 1 + i + 7 * j, 0);
        memset(&prob, 0, sizeof prob); inst_graph(&in, &prob.graph); built = n;
    }
    setup(cand, INFINITE);
    memset(&s, 0x77, sizeof s); s.num_edges_in_cycle = 0; s.type = OPEN;
    create_mst(&s.oneTree, prob.graph.nodes, (unsigned short) n);
    for (int i = 0; i < n; i++) {
        Edge e = prob.graph.edges_matrix[te[perm[i]][0]][te[perm[i]][1]];
        if (flip) { unsigned short q = e.src; e.src = e.dest; e.dest = q; }
        add_edge(&s.oneTree, &e);
    }
    char d[600]; size_t z = 0; for (int i = 0; i < n; i++) z += snprintf(d + z, sizeof d - z, " %d-%d", te[perm[i]][0], te[perm[i]][1]);
    h_note("1-tree, start vertex %d, edges%s", cand, d);
    bool ham = check_hamiltonian(&s);
    h_count(T_EXEC, 1); h_count(T_TRANS, s.num_edges_in_cycle);
    /* the only cycle: strip leaves */
    int dg[HMAX] = {0}; bool gone[HMAX] = {false}; int left = n;
    for (int i = 0; i < n; i++) { dg[te[i][0]]++; dg[te[i][1]]++; }
    for (bool ch = true; ch;) { ch = false; for (int e = 0; e < n; e++) if (!gone[e] && (dg[te[e][0]] == 1 || dg[te[e][1]] == 1)) { gone[e] = true; dg[te[e][0]]--; dg[te[e][1]]--; left--; ch = true; } }
    bool want[HMAX][HMAX] = {{false}}; uint64_t h = 9;
    for (int e = 0; e < n; e++) if (!gone[e]) { want[te[e][0]][te[e][1]] = want[te[e][1]][te[e][0]] = true; }
#define FC(...) do { char z_[300]; snprintf(z_, sizeof z_, __VA_ARGS__); h_fail("%s: start vertex %d, 1-tree%s", z_, cand, d); return; } while (0)
    if (s.num_edges_in_cycle != left) FC("the cycle has %d edges, %d are reported", left, s.num_edges_in_cycle);
    for (int i = 0; i < left; i++) {
        int p = s.cycleEdges[i].src, q = s.cycleEdges[i].dest, j = (i + 1) % left;
        if (p >= n || q >= n || p == q) FC("%d-%d is reported as an edge of the cycle", p, q);
        int r = s.cycleEdges[j].src, t = s.cycleEdges[j].dest;
        if (!(p == r || p == t || q == r || q == t)) FC("the edges of the cycle are not reported in cyclic order (%d-%d, then %d-%d)", p, q, r, t);
        if (!want[p][q]) FC("the reported edges are not those of the cycle");
        want[p][q] = want[q][p] = false;
        h = h_hash_u(h, (uint64_t) (p < q ? p * n + q : q * n + p));
    }
    if (ham != (left == n)) FC("the 1-tree %s a tour, but is %srecognised as one", left == n ? "is" : "is not", ham ? "" : "not ");
    h_count(T_TOUR, ham);
    h_outcome(h_hash_u(h, (uint64_t) cand * 64 + s.cycleEdges[0].src));
    if (idx % 50021 == 7) h_sample("1-tree%s, start vertex %d: cycle of %d edges", d, cand, left);
}
static void m_cycle(uint64_t idx, void *ctx) {
    (void) ctx;
    int n = N, k = n - 1; uint64_t x = idx, trees = 1; for (int i = 0; i < k - 2; i++) trees *= (uint64_t) k;
    int seq[8] = {0}, deg[8], te[HMAX][2], ne = 0; uint64_t tr = x % trees; x /= trees;
    int cand = (int) (x % (uint64_t) n); x /= (uint64_t) n;
    int np = k * (k - 1) / 2; int pr = (int) (x % (uint64_t) np); x /= (uint64_t) np;
    for (int i = 0; i < k; i++) deg[i] = 1;
    for (int i = 0; i < k - 2; i++) { seq[i] = (int) (tr % (uint64_t) k); tr /= (uint64_t) k; deg[seq[i]]++; }
    for (int i = 0; i < k - 2; i++) for (int v = 0; v < k; v++) if (deg[v] == 1) { te[ne][0] = v; te[ne++][1] = seq[i]; deg[v] = 0; deg[seq[i]]--; break; }
    int a = -1, b = -1; for (int v = 0; v < k; v++) if (deg[v] == 1) { if (a < 0) a = v; else b = v; }
    te[ne][0] = a; te[ne++][1] = b;
    for (int e = 0; e < ne; e++) for (int q = 0; q < 2; q++) if (te[e][q] >= cand) te[e][q]++;
    int u = 0, w = 0; for (int i = 0, c = 0; i < k; i++) for (int j = i + 1; j < k; j++, c++) if (c == pr) { u = i; w = j; }
    if (u >= cand) u++;
    if (w >= cand) w++;
    te[ne][0] = cand; te[ne++][1] = u; te[ne][0] = cand; te[ne++][1] = w;
    check_cycle(n, te, cand, (int) x, idx);
}
/* larger ones: a cycle of every length, with the other cities hanging from it as a path, a star, one by one, a binary tree or two paths;
 * the cities renamed v -> a*v+b in every way, the start vertex anywhere on the cycle where no other city hangs */
static void m_cycle_large(uint64_t idx, void *ctx) {
    (void) ctx;
    int n = N, te[HMAX][2], ne = 0, units[HMAX], nu = 0; uint64_t x = idx;
    for (int a = 1; a < n; a++) { int p = a, q = n; while (q) { int r = p % q; p = q; q = r; } if (p == 1) units[nu++] = a; }
    int most = (int) h_argi("--units", nu);
    if (most < nu) { for (int i = 0; i < most; i++) units[i] = units[i * (nu - 1) / (most > 1 ? most - 1 : 1)]; nu = most; }
    int k = 3 + (int) (x % (uint64_t) (n - 2)); x /= (uint64_t) (n - 2);
    int shape = (int) (x % 5); x /= 5;
    int a = units[x % (uint64_t) nu]; x /= (uint64_t) nu;
    int b = (int) (x % (uint64_t) n); x /= (uint64_t) n;
    int m = n - k;
    for (int i = 0; i < k; i++) { te[ne][0] = i; te[ne++][1] = (i + 1) % k; }
    for (int r = 0; r < m; r++) {
        int par = shape == 0 ? (r ? k + r - 1 : 1) : shape == 1 ? 1 : shape == 2 ? 1 + r % (k - 1) : shape == 3 ? (r ? k + (r - 1) / 2 : k - 1) : (r < 2 ? (r ? k - 1 : 1) : k + r - 2);
        te[ne][0] = par; te[ne++][1] = k + r;
    }
    for (int e = 0; e < n; e++) for (int q = 0; q < 2; q++) te[e][q] = (a * te[e][q] + b) % n;
    check_cycle(n, te, b, (int) x, idx);
}

int main(int argc, char **argv) {
    h_init(argc, argv);
    EPS = h_eps(); N = (int) h_argi("--n", 5);
    h_name(T_TRANS, "transitions"); h_name(T_EXEC, "executions"); h_name(T_SKIP, "cases_outside_the_domain");
    const char *m = h_arg("--mode", "infer");
    SPACE = h_arg("--space", NULL);
    FAM = h_arg("--family", NULL); PROB = h_arg("--prob", "zero");
    char title[500];
    uint64_t m3 = 0;
    if (FAM) { NF = fam_by_name(NULL, FAM, 0); NP = prob_by_name(NULL, PROB, 0); fam_by_name(&in, FAM, 0); m3 = space_size(in.n); }
    char which[60] = "all constraint matrices"; if (SPACE) snprintf(which, sizeof which, SPACE[0] == 'f' ? "all matrices of at most %s constraints" : "all constraints on the edges of %s cities", strchr(SPACE, ':') + 1);
    if (!strcmp(m, "infer")) { h_name(T_ADM, "matrices_that_admit_tours"); h_name(T_INF, "contradictions"); snprintf(title, sizeof title, "inference on %s of %d cities", which, N); return h_run(title, space_size(N), m_infer, NULL); }
    if (!strcmp(m, "branch")) { h_name(T_CHILD, "children"); h_name(T_BOTH, "branchings_with_two_children"); h_name(T_ADM, "matrices_that_admit_tours"); int v = (int) h_argi("--variants", HYBRID ? 3 : 1); snprintf(title, sizeof title, "branching on every undecided edge of %s of %d cities", which, N); return h_run(title, space_size(N) * (uint64_t) v, m_branch, NULL); }
    if (!strcmp(m, "bound") || !strcmp(m, "fix") || !strcmp(m, "onetree-bound") || !strcmp(m, "select")) {
        FIX = m[0] == 'f'; ONE = m[0] == 'o'; SEL = m[0] == 's';
        h_name(T_OPEN, "left_open"); h_name(T_CLOSED, "closed"); h_name(T_TOUR, "incumbent_replaced"); h_name(T_FIXED, "edges_fixed"); h_name(T_ADM, "subproblems_with_fixed_edges"); if (SEL) { h_name(T_OPEN, "selections_judged"); h_name(T_SKIP, "skipped"); }
        snprintf(title, sizeof title, "%s under %s and all start vertices, %s", FIX ? "variable fixing" : SEL ? "choice of the branching edge" : "bounding", which, FAM);
        return h_run(title, NF * NP * (uint64_t) in.n * m3, m_bound, NULL);
    }
    if (!strcmp(m, "onetree")) { h_name(T_INF, "infeasible"); snprintf(title, sizeof title, "constrained 1-trees under %s and all start vertices, %s", which, FAM); return h_run(title, NF * (uint64_t) in.n * m3, m_onetree, NULL); }
    if (!strcmp(m, "open")) { h_name(T_MAXLIST, "max_list"); int len = (int) h_argi("--len", 4), a = 5 * (HYBRID ? 3 : 1); uint64_t tot = (uint64_t) (len + 1) * (uint64_t) a; for (int i = 0; i < len; i++) tot *= (uint64_t) a; snprintf(title, sizeof title, "insertion of children into all lists of up to %d open subproblems", len); return h_run(title, tot, m_open, NULL); }
    if (!strcmp(m, "openrun")) { h_name(T_MAXLIST, "max_list"); snprintf(title, sizeof title, "the search step by step, %s, probabilities %s", FAM, PROB); return h_run(title, NF * NP, m_openrun, NULL); }
    if (!strcmp(m, "prune")) { h_name(T_OPEN, "left_open"); h_name(T_CLOSED, "closed"); snprintf(title, sizeof title, "pruning under %s and all start vertices, %s", which, FAM); return h_run(title, NF * NP * (uint64_t) in.n * m3, m_prune, NULL); }
    if (!strcmp(m, "loop")) { h_name(T_MAXLIST, "max_list"); h_name(T_OPEN, "runs_cut_by_the_clock"); h_name(T_CLOSED, "complete_runs"); h_name(T_SKIP, "runs_without_search"); snprintf(title, sizeof title, "whole searches against the stated loop, %s, probabilities %s", FAM, PROB); return h_run(title, NF * NP, m_loop, NULL); }
    if (!strcmp(m, "start")) { h_name(T_ADM, "start_vertices_compared"); h_name(T_PROB, "ties_judged_by_probability"); h_name(T_SKIP, "instances_with_ties"); snprintf(title, sizeof title, "start of the search, %s, probabilities %s", FAM, PROB); return h_run(title, NF * NP, m_start, NULL); }
    if (!strcmp(m, "cycle")) { h_name(T_TOUR, "tours"); uint64_t tr = 1; for (int i = 0; i < N - 3; i++) tr *= (uint64_t) (N - 1); snprintf(title, sizeof title, "all 1-trees on %d cities, every start vertex, %ld orders of the edges", N, h_argi("--orders", 4L * N)); return h_run(title, tr * (uint64_t) N * (uint64_t) ((N - 1) * (N - 2) / 2) * (uint64_t) h_argi("--orders", 4L * N), m_cycle, NULL); }
    if (!strcmp(m, "cycle-large")) {
        h_name(T_TOUR, "tours"); long o = h_argi("--orders", 4L * N); int nu = 0;
        for (int a = 1; a < N; a++) { int p = a, q = N; while (q) { int r = p % q; p = q; q = r; } nu += p == 1; }
        if (h_argi("--units", nu) < nu) nu = (int) h_argi("--units", nu);
        snprintf(title, sizeof title, "1-trees on %d cities with a cycle of every length and five kinds of branches, renamed in affine ways (%d multipliers), %ld orders of the edges", N, nu, o);
        return h_run(title, (uint64_t) (N - 2) * 5 * (uint64_t) nu * (uint64_t) N * (uint64_t) o, m_cycle_large, NULL);
    }
    fprintf(stderr, "unknown mode\n"); return 2;
}
