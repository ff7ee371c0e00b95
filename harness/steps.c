/* The steps of the search on larger instances (up to several hundred cities), where all tours cannot be enumerated: instances
 * with a known optimal tour, and a set of tracked tours (that one, its 2-opt and insertion neighbours). Every step of the real
 * search is taken in turn, and no tracked tour may be lost, duplicated or overestimated.
 * --mode infer | branch | walk (--judge bound | onetree | select | fix | branch | trees)                                     */
#define _GNU_SOURCE
#include "common.h"

extern void constrained_prim(Graph *, SubProblem *, unsigned short) __attribute__((weak));
extern void constrained_kruskal(Graph *, SubProblem *, unsigned short) __attribute__((weak));

static Problem prob;
static Inst in;
static const char *FAM, *PROB, *JUDGE; static uint64_t NP, NF;
static unsigned char cons[HMAX][HMAX], after[HMAX][HMAX];
static double EPS;
static int N;
enum { T_TRANS, T_EXEC, T_SKIP, T_INF, T_OPEN, T_CLOSED, T_TOUR, T_FIXED, T_CHILD, T_TRACK, T_DEPTH };

/* ---------------------------------------------------------------- tracked tours */
#define TMAX 400
static short tour[TMAX][HMAX]; static double tcost[TMAX]; static int nt;
static void add_tour(const int *o, int n) {
    if (nt >= TMAX) return;
    double c = 0;
    for (int i = 0; i < n; i++) { int a = o[i], b = o[(i + 1) % n]; if (!in.has[a][b]) return; c += in.w[a][b]; }
    for (int i = 0; i < n; i++) tour[nt][i] = (short) o[i];
    tcost[nt++] = c;
}
static void track(int n) {       /* the optimal tour, then neighbours at every distance */
    int o[HMAX]; nt = 0;
    add_tour(fam_order, n);
    int st = n * (n - 1) / 2 / 300 + 1, k = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (k++ % st) continue;
        for (int q = 0; q < n; q++) o[q] = fam_order[q];
        for (int a = i, b = j; a < b; a++, b--) { int z = o[a]; o[a] = o[b]; o[b] = z; }
        add_tour(o, n);
    }
    for (int i = 0; i < n && nt < TMAX; i++) {     /* city i moved by a third of the tour */
        int to = (i + n / 3 + 1) % n, q = 0;
        for (int s = 0; s < n; s++) { if (s == i) continue; o[q++] = fam_order[s]; if (s == to) o[q++] = fam_order[i]; }
        if (q == n) add_tour(o, n);
    }
}
static bool admits(int k, int n, unsigned char c[HMAX][HMAX], int nm) {
    int m = 0;
    for (int i = 0; i < n; i++) { unsigned char v = c[tour[k][i]][tour[k][(i + 1) % n]]; if (v == 2) return false; m += v == 1; }
    return m == nm;
}
static int mandatory(int n, unsigned char c[HMAX][HMAX]) { int m = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m += c[i][j] == 1; return m; }

/* ---------------------------------------------------------------- constraint matrices */
static void cons_put(SubProblem *s, int n, unsigned char c[HMAX][HMAX]) {
    s->num_mandatory_edges = s->num_forbidden_edges = 0;
    for (int i = 0; i < MAX_VERTEX_NUM; i++) for (int j = 0; j < MAX_VERTEX_NUM; j++) s->constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (c[i][j] == 1) {
            s->constraints[i][j] = s->constraints[j][i] = MANDATORY;
            s->mandatoryEdges[s->num_mandatory_edges].src = (unsigned short) i; s->mandatoryEdges[s->num_mandatory_edges].dest = (unsigned short) j;
            s->num_mandatory_edges++;
        } else if (c[i][j] == 2) { s->constraints[i][j] = s->constraints[j][i] = FORBIDDEN; s->num_forbidden_edges++; }
    }
}
static const char *cons_get(const SubProblem *s, int n, unsigned char c[HMAX][HMAX]) {
    static unsigned char listed[HMAX][HMAX];
    int nm = 0, nf = 0;
    memset(c, 0, HMAX * HMAX); memset(listed, 0, sizeof listed);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        int v = (int) s->constraints[i][j];
        if (i == j) { c[i][i] = 2; continue; }
        if (s->constraints[j][i] != s->constraints[i][j]) return "the constraint matrix is not symmetric";
        c[i][j] = v == MANDATORY ? 1 : v == FORBIDDEN ? 2 : 0;
        if (v != MANDATORY && v != FORBIDDEN && v != NOTHING) return "the constraint matrix holds a value that is no constraint";
        nm += i < j && c[i][j] == 1; nf += i < j && c[i][j] == 2;
    }
    if (s->num_mandatory_edges != nm) return "the number of mandatory edges is not that of the matrix";
    for (int k = 0; k < nm; k++) {
        int a = s->mandatoryEdges[k].src, b = s->mandatoryEdges[k].dest;
        if (a >= n || b >= n || a == b) return "the list of mandatory edges holds something that is no edge";
        if (listed[a][b] || c[a][b] != 1) return "the list of mandatory edges is not that of the matrix";
        listed[a][b] = listed[b][a] = 1;
    }
    if (nf && s->num_forbidden_edges == 0) return "there are forbidden edges, but their number is zero";
    return NULL;
}
static void setup(int cand, double best) {
    memset(&prob.bestSolution, 0, sizeof prob.bestSolution);
    prob.candidateNodeId = (unsigned short) cand; prob.totTreeLevels = 1; prob.generatedBBNodes = 1; prob.exploredBBNodes = 0; prob.num_fixed_edges = 0;
    prob.interrupted = false; prob.start = prob.end = clock();
    prob.bestValue = best; prob.bestSolution.value = best; prob.bestSolution.type = CLOSED_NN;
    set_problem(&prob);
}
static void sub_init(SubProblem *s, int level, double value) {
    memset(s, 0, sizeof *s);
    s->type = OPEN; s->id = 1; s->value = value; s->treeLevel = (unsigned short) level; s->edge_to_branch = -1;
}

/* states for infer and branch: cities renamed by a multiplier; around `len` consecutive cities every edge is forbidden except those
 * of the planted tour (and, when keep is set, of another one); `man` consecutive edges of the planted tour are mandatory; with
 * spoil, one city gets a third mandatory edge or loses all but one usable edge */
static int units[HMAX], nu;
static int lens(int n, int k) { const int l[5] = {0, 1, 2, n / 2, n}; return l[k]; }
#define STATES(n) ((uint64_t) nu * (uint64_t) (n) * 5 * 5 * 2 * 3)
static bool state(int n, uint64_t x, int *spoil) {
    int u = units[x % (uint64_t) nu]; x /= (uint64_t) nu;
    int at = (int) (x % (uint64_t) n); x /= (uint64_t) n;
    int len = lens(n, (int) (x % 5)); x /= 5; int man = lens(n, (int) (x % 5)); x /= 5;
    int keep = (int) (x % 2); x /= 2; *spoil = (int) (x % 3);
    if (man == n && len == 0 && keep) return false;
    for (int i = 0; i < n; i++) fam_order[i] = (int) ((long) i * u % n);
    fam_order_n = n;
    memset(cons, 0, sizeof cons);
    for (int i = 0; i < n; i++) cons[i][i] = 2;
    for (int k = 0; k < len; k++) {
        int p = (at + k) % n, c = fam_order[p], a = fam_order[(p + 1) % n], b = fam_order[(p + n - 1) % n], d = keep ? fam_order[(p + n / 2) % n] : -1;
        for (int j = 0; j < n; j++) if (j != c && j != a && j != b && j != d) cons[c][j] = cons[j][c] = 2;
    }
    int z = at + n / 3;           /* the mandatory ones start elsewhere */
    for (int k = 0; k < man; k++) { int a = fam_order[(z + k) % n], b = fam_order[(z + k + 1) % n]; cons[a][b] = cons[b][a] = 1; }
    if (*spoil == 1) {
        if (man < 2 || man > n - 2) return false;
        int c = fam_order[(z + 1) % n], d = fam_order[(z + n / 2 + 1) % n];
        if (cons[c][d] == 1) return false;
        cons[c][d] = cons[d][c] = 1;
    } else if (*spoil == 2) {
        int c = fam_order[(at + n / 2) % n];
        for (int j = 0; j < n; j++) if (j != c && j != fam_order[(at + n / 2 + 1) % n] && cons[c][j] != 1) cons[c][j] = cons[j][c] = 2;
        int us = 0; for (int j = 0; j < n; j++) us += cons[c][j] != 2;
        if (us >= 2) return false;
    }
    return mandatory(n, cons) <= n;
}
static const char *state_text(int n, uint64_t idx) { static char b[200]; snprintf(b, sizeof b, "%d cities, constraint matrix %llu (%d mandatory edges)", n, (unsigned long long) idx, mandatory(n, cons)); return b; }

/* ---------------------------------------------------------------- infer (P11) */
static void m_infer(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem s; int spoil, n = N;
    if (!state(n, idx, &spoil)) { h_count(T_SKIP, 1); return; }
    const char *t = state_text(n, idx);
    inst_clear(&in, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inst_set(&in, i, j, 1, 0);
    track(n);
    prob.graph.num_nodes = (unsigned short) n; setup(0, 1e9);
    sub_init(&s, 2, 0); cons_put(&s, n, cons);
    h_note("%s", t);
    bool ok = infer_constraints(&s);
    h_count(T_EXEC, 1);
    int md[HMAX], us[HMAX]; bool must = false;
    for (int i = 0; i < n; i++) { md[i] = us[i] = 0; for (int j = 0; j < n; j++) if (j != i) { md[i] += cons[i][j] == 1; us[i] += cons[i][j] != 2; } must |= md[i] > 2 || us[i] < 2; }
    int nm = mandatory(n, cons);
    if (!ok) {
        h_count(T_INF, 1);
        for (int k = 0; k < nt; k++) if (admits(k, n, cons, nm)) { h_fail("a contradiction is reported, but a tour is admissible: %s", t); return; }
        if (!spoil) h_fail("a contradiction is reported, but the planted tour is admissible: %s", t);
        return;
    }
    if (must) { h_fail("a city has more than two mandatory or fewer than two usable edges, but no contradiction is reported: %s", t); return; }
    const char *bad = cons_get(&s, n, after);
    if (bad) { h_fail("after the inference %s: %s", bad, t); return; }
    uint64_t ch = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (cons[i][j] && after[i][j] != cons[i][j]) { h_fail("the inference changed edge %d-%d, which was already decided: %s", i, j, t); return; }
        ch += cons[i][j] != after[i][j];
    }
    int nm2 = mandatory(n, after);
    for (int k = 0; k < nt; k++) if (admits(k, n, cons, nm)) { h_count(T_TRACK, 1); if (!admits(k, n, after, nm2)) { h_fail("the inference excludes an admissible tour: %s", t); return; } }
    for (int i = 0; i < n; i++) {
        int und = 0, man = 0;
        for (int j = 0; j < n; j++) if (j != i) { und += after[i][j] == 0; man += after[i][j] == 1; }
        if (md[i] == 2 && (und || man != 2)) { h_fail("city %d has two mandatory edges, but the others are not forbidden: %s", i, t); return; }
        if (us[i] == 2 && man != 2) { h_fail("city %d has two usable edges, but they are not mandatory: %s", i, t); return; }
    }
    h_count(T_TRANS, ch); h_outcome(h_hash_u(h_hash_u(5, idx), ch));
    if (idx % 1009 == 7) h_sample("%s: %llu edges decided", t, (unsigned long long) ch);
}

/* ---------------------------------------------------------------- branch (P10) */
static char ftext[300];
static int fresh_children(SubProblemsList *L, unsigned gen, SubProblem **out) { int k = 0; for (SubProblemElem *e = L->head; e; e = e->next) if (e->subProblem.id > gen) { if (k < 3) out[k] = &e->subProblem; k++; } return k; }
/* judges the children of a subproblem whose constraints are `cons`; returns false when it failed */
static bool judge_children(SubProblemsList *L, unsigned gen, int n, int a, int b, const SubProblem *par, const char *t) {
    SubProblem *c[3]; int nc = fresh_children(L, gen, c), nm = mandatory(n, cons);
    static unsigned char cc[2][HMAX][HMAX]; int cm[2];
    bool fixed = cons[a][b] == 1;
#define FB(...) do { char z_[300]; snprintf(z_, sizeof z_, __VA_ARGS__); h_fail("%s: branching on %d-%d, %s", z_, a, b, t); return false; } while (0)
    if (nc > 2) FB("%d children", nc);
    for (int k = 0; k < nc; k++) {
        const char *bad = cons_get(c[k], n, cc[k]);
        bool forb = cc[k][a][b] == 2;
        if (bad && !(fixed && forb)) FB("in a child %s", bad);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (cons[i][j] && cc[k][i][j] != cons[i][j] && !(fixed && i == (a < b ? a : b) && j == (a < b ? b : a))) FB("a child lost a decision of its parent on %d-%d", i, j);
        if (cc[k][a][b] == 0) FB("a child leaves the branching edge undecided");
        if (fixed && forb) cc[k][a][b] = cc[k][b][a] = 2;
        cm[k] = mandatory(n, cc[k]);
        if (fixed && forb) cm[k] = -1;     /* admits nothing */
        if (c[k]->value != par->value || c[k]->treeLevel != par->treeLevel + 1 || c[k]->fatherId != par->id || c[k]->type != OPEN) FB("a child has bound %g, level %u, parent %u and type %d (parent: %g, level %u, identifier %u)", c[k]->value, c[k]->treeLevel, c[k]->fatherId, c[k]->type, par->value, par->treeLevel, par->id);
    }
    if (nc == 2 && c[0]->id == c[1]->id) FB("both children have identifier %u", c[0]->id);
    for (int k = 0; k < nt; k++) {
        bool adm = admits(k, n, cons, nm); int by = 0;
        for (int q = 0; q < nc; q++) by += cm[q] >= 0 && admits(k, n, cc[q], cm[q]);
        if (adm) h_count(T_TRACK, 1);
        if (adm && by == 0) FB("a tour of the parent is in no child (of %d)", nc);
        if (adm && by > 1) FB("a tour of the parent is in both children");
        if (!adm && by) FB("a child admits a tour that its parent does not");
    }
    h_count(T_CHILD, (uint64_t) nc);
    return true;
}
static void m_branch(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem s, saved; int spoil, n = N;
    if (!state(n, idx, &spoil) || spoil) { h_count(T_SKIP, 1); return; }
    snprintf(ftext, sizeof ftext, "%s", state_text(n, idx));
    static int built;
    if (!built) { inst_clear(&in, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inst_set(&in, i, j, 1 + i + j, ((i * 3 + j * 5) % 11) / 10.0); inst_graph(&in, &prob.graph); built = 1; }
    track(n);
    for (int e = 0; e < prob.graph.num_edges; e++) {
        int a = prob.graph.edges[e].src, b = prob.graph.edges[e].dest, pa = 0, pb = 0;
        if (cons[a][b] == 2) continue;
        /* edges of the planted tour, and those of the first, the middle and the last city */
        for (int i = 0; i < n; i++) { if (fam_order[i] == a) pa = i; if (fam_order[i] == b) pb = i; }
        int d = abs(pa - pb);
        if (!((d == 1 || d == n - 1) && (pa + pb) % (n / 6 + 1) == 0) && !((a == 0 || b == n - 1 || a == n / 2) && (a + b) % (n / 8 + 1) == 0)) continue;
        setup(0, 1e9);
        prob.generatedBBNodes = 17; prob.totTreeLevels = 6;
        sub_init(&s, 5, 42.5); s.id = 9; s.fatherId = 4; s.prob = 0.25; s.edge_to_branch = e; cons_put(&s, n, cons); saved = s;
        SubProblemsList L; new_SubProblemList(&L);
        h_note("branching on %d-%d, %s", a, b, ftext);
        branch(&L, &s);
        h_count(T_EXEC, 1); h_count(T_TRANS, get_SubProblemList_size(&L));
        bool ok = judge_children(&L, 17, n, a, b, &saved, ftext);
        if (ok && (memcmp(s.constraints, saved.constraints, sizeof s.constraints) || s.value != saved.value || s.id != saved.id)) h_fail("branching on %d-%d altered the parent, %s", a, b, ftext);
        h_outcome(h_hash_u(h_hash_u(h_hash_u(3, idx), (uint64_t) e), get_SubProblemList_size(&L)));
        delete_SubProblemList(&L);
        if (h_failed()) return;
    }
    if (idx % 499 == 7) h_sample("%s", ftext);
}

/* ---------------------------------------------------------------- the search, step by step */
#define RMAX 2048
static struct { short e[HMAX][2]; int m; double value; } *rec;
static int nrec; static bool recording; static SubProblemsList *reclist;
void __real_add_elem_SubProblemList_bottom(SubProblemsList *list, SubProblem *element);
void __wrap_add_elem_SubProblemList_bottom(SubProblemsList *list, SubProblem *element) {
    if (recording) {
        if (!nrec) reclist = list;
        if (list == reclist && nrec < RMAX) {
            rec[nrec].m = element->oneTree.num_edges; rec[nrec].value = element->value;
            for (int e = 0; e < element->oneTree.num_edges && e < in.n; e++) { rec[nrec].e[e][0] = (short) element->oneTree.edges[e].src; rec[nrec].e[e][1] = (short) element->oneTree.edges[e].dest; }
        }
        nrec++;
    }
    __real_add_elem_SubProblemList_bottom(list, element);
}
static const char *selection(const SubProblem *s, int *seen) {
    static char z[300]; static unsigned char cnt[HMAX][HMAX], inb[HMAX][HMAX];
    int n = in.n, iters = (s->treeLevel == 1 ? (int) NUM_HK_INITIAL_ITERATIONS : (int) NUM_HK_ITERATIONS) + 10;
    *seen = 0;
    if (nrec != iters || nrec >= RMAX) return NULL;
    memset(cnt, 0, sizeof cnt);
    for (int i = nrec - 10; i < nrec; i++) for (int e = 0; e < rec[i].m && e < n; e++) { int a = rec[i].e[e][0], b = rec[i].e[e][1]; cnt[a][b]++; if (a != b) cnt[b][a]++; }
    int a = prob.graph.edges[s->edge_to_branch].src, b = prob.graph.edges[s->edge_to_branch].dest;
    bool any = false; z[0] = 0;
    for (int i = 0; i < nrec; i++) {
        if (rec[i].value != s->value || rec[i].m != n) continue;
        any = true;
        memset(inb, 0, sizeof inb);
        for (int e = 0; e < n; e++) inb[rec[i].e[e][0]][rec[i].e[e][1]] = inb[rec[i].e[e][1]][rec[i].e[e][0]] = 1;
        const char *why = NULL; int x = -1, y = -1;
        if (!inb[a][b]) why = "not in the best 1-tree";
        for (int u = 0; u < n && !why; u++) for (int v = u + 1; v < n && !why; v++) {
            if (!inb[u][v] || cons[u][v]) continue;
            if (abs(cnt[u][v] - 5) < abs(cnt[a][b] - 5)) { why = "less undecided than"; x = u; y = v; }
            else if (HYBRID && cnt[u][v] == cnt[a][b] && in.p[u][v] > in.p[a][b] + 1e-9) { why = "less probable than"; x = u; y = v; }
        }
        if (!why) { *seen = 1; return NULL; }
        if (x < 0) snprintf(z, sizeof z, "the branching edge %d-%d is %s", a, b, why);
        else snprintf(z, sizeof z, "the branching edge %d-%d (in %d of the last ten 1-trees, probability %g) is %s %d-%d (in %d, probability %g)", a, b, cnt[a][b], in.p[a][b], why, x, y, cnt[x][y], in.p[x][y]);
    }
    *seen = any;
    return any ? z : NULL;
}
/* one_tree of s against the constraints `cons`: NULL or what is wrong with it */
static const char *tree_bad(const SubProblem *s, int n, int cand, double mt) {
    static char z[300]; static unsigned char seen[HMAX][HMAX]; int uf[HMAX], deg = 0; double c = 0;
    memset(seen, 0, sizeof seen);
    if (s->oneTree.num_edges != n) { snprintf(z, sizeof z, "the 1-tree has %d edges", s->oneTree.num_edges); return z; }
    for (int i = 0; i < n; i++) uf[i] = i;
    for (int e = 0; e < n; e++) {
        int a = s->oneTree.edges[e].src, b = s->oneTree.edges[e].dest;
        if (a >= n || b >= n || a == b || !in.has[a][b] || cons[a][b] == 2 || seen[a][b]) { snprintf(z, sizeof z, "the 1-tree holds %d-%d, which is not usable or there twice", a, b); return z; }
        seen[a][b] = seen[b][a] = 1; c += in.w[a][b]; deg += a == cand || b == cand;
        if (a != cand && b != cand) { int x = a, y = b; while (uf[x] != x) x = uf[x]; while (uf[y] != y) y = uf[y]; if (x == y) return "the 1-tree has a cycle that does not pass through the start vertex"; uf[x] = y; }
    }
    if (deg != 2) return "the start vertex does not have two edges in the 1-tree";
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (cons[i][j] == 1 && !seen[i][j]) { snprintf(z, sizeof z, "the 1-tree lacks the mandatory edge %d-%d", i, j); return z; }
    if (fabs(c - mt) > 1e-9 * (1 + fabs(mt)) * n) { snprintf(z, sizeof z, "the 1-tree costs %.12g, the minimum is %.12g", c, mt); return z; }
    return NULL;
}
/* mandatory edges that close a cycle without the start vertex: no 1-tree contains them, the code drops one of them */
static bool closes(int n, int cand) {
    int uf[HMAX]; for (int i = 0; i < n; i++) uf[i] = i;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (cons[i][j] == 1 && i != cand && j != cand) { int a = i, b = j; while (uf[a] != a) a = uf[a]; while (uf[b] != b) b = uf[b]; if (a == b) return true; uf[a] = b; }
    return false;
}
static void m_walk(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem cur, par, s; static unsigned char fix[HMAX][HMAX];
    uint64_t x = idx;
    uint64_t fi = x % NF; x /= NF; uint64_t pi = x % NP; x /= NP;
    int inc = (int) (x % 5); x /= 5; int sv = (int) (x % 3);
    fam_by_name(&in, FAM, fi); int n = in.n; prob_by_name(&in, PROB, pi);
    if (fam_order_n != n || !in.opt) { h_count(T_SKIP, 1); return; }
    char t[300];
    bool jb = !strcmp(JUDGE, "bound"), jo = !strcmp(JUDGE, "onetree"), js = !strcmp(JUDGE, "select"), jf = !strcmp(JUDGE, "fix"), jc = !strcmp(JUDGE, "branch"), jt = !strcmp(JUDGE, "trees");
    track(n);
    double opt = in.opt, best = inc == 0 ? INFINITE : inc == 1 ? opt + 2.5 * EPS : opt * (inc == 2 ? 1.03 : inc == 3 ? 1.004 : 1.12) + 3 * EPS, tol = 1e-9 * (1 + opt) * n;
    inst_graph(&in, &prob.graph); prob.reformulationGraph = prob.graph;
    int cand = sv == 0 ? 0 : sv == 1 ? n - 1 : (int) ((fi * 7 + pi * 3 + (uint64_t) inc + 1) % (uint64_t) n), level = (int) h_argi("--level", 1);
    setup(cand, best);
    memset(cons, 0, sizeof cons);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) cons[i][j] = i == j || !in.has[i][j] ? 2 : 0;
    sub_init(&cur, level, level == 1 ? INFINITE : 0); cons_put(&cur, n, cons);
    SubProblemsList l; new_SubProblemList(&l); add_elem_SubProblemList_bottom(&l, &cur);
    int steps = 0, max_steps = (int) h_argi("--steps", 60);
    if (js && !rec) rec = malloc(sizeof *rec * RMAX);
#define FS(...) do { char z_[500]; snprintf(z_, sizeof z_, __VA_ARGS__); h_fail("%s: step %d, %s", z_, steps, t); delete_SubProblemList(&l); return; } while (0)
    while (get_SubProblemList_size(&l) && steps++ < max_steps) {
        size_t at = steps % 3 == 0 ? get_SubProblemList_size(&l) - 1 : 0;     /* best first, and every third time the worst */
        cur = *get_SubProblemList_elem_index(&l, at); delete_SubProblemList_elem_index(&l, at);
        const char *bad = cons_get(&cur, n, cons);
        if (bad) { h_count(T_SKIP, 1); continue; }                             /* judged where it was generated */
        int nm = mandatory(n, cons), na = 0; double low = HINF;
        for (int k = 0; k < nt; k++) if (admits(k, n, cons, nm)) { na++; if (tcost[k] < low) low = tcost[k]; }
        prob.bestValue = best; prob.bestSolution.value = best; prob.bestSolution.type = CLOSED_NN; prob.num_fixed_edges = 0;
        snprintf(t, sizeof t, "%s number %llu, probabilities %s number %llu, start vertex %d, incumbent %.9g, subproblem %u at level %u, bound of its parent %.9g, %d mandatory edges", FAM, (unsigned long long) fi, PROB, (unsigned long long) pi, cand, best, cur.id, cur.treeLevel, cur.value, nm);
        h_note("step %d, %s", steps, t);
        par = cur; double mt = 0;
        if (jt) {       /* the 1-trees of both engines */
            mt = min_one_tree(&in, cand, cons);
            bool cyc = closes(n, cand);
            for (int eng = 0; eng < 2 && !cyc; eng++) {
                if (eng == 0 ? !constrained_prim : !constrained_kruskal) continue;
                static Graph g; g = prob.graph;
                s = cur; s.num_edges_in_cycle = 0;
                if (eng == 0) constrained_prim(&g, &s, (unsigned short) cand); else constrained_kruskal(&g, &s, (unsigned short) cand);
                bool ok = s.oneTree.isValid && mst_to_one_tree(&s, &g) == OPEN;
                const char *e = eng ? "Kruskal" : "Prim";
                if (ok != (mt < HINF)) FS("%s: a 1-tree is %s, but there is %s", e, ok ? "given" : "denied", mt < HINF ? "one" : "none");
                if (ok && (bad = tree_bad(&s, n, cand, mt))) FS("%s: %s", e, bad);
                if (ok && fabs(s.oneTree.cost - mt) > tol) FS("%s: the recorded cost is %.12g, the minimum %.12g", e, s.oneTree.cost, mt);
                h_count(T_OPEN, ok);
            }
        }
        nrec = 0; recording = js;
        bound(&cur);
        recording = false;
        h_count(T_EXEC, 1); h_count(T_TRANS, 1); h_count(T_TRACK, (uint64_t) na); h_max(T_DEPTH, cur.treeLevel);
        bool kept = cur.type == OPEN && cur.edge_to_branch >= 0 && cur.edge_to_branch < prob.graph.num_edges;
        if (!jt) h_count(kept ? T_OPEN : T_CLOSED, 1);
        if (jb) {
            if (prob.bestValue != best) {
                double c, mp; char why[300];
                if (!tour_ok(&in, &prob.bestSolution, &c, &mp, why, sizeof why)) FS("the incumbent was replaced, but %s", why);
                if (fabs(c - prob.bestValue) > 1e-7 * (1 + c) || prob.bestSolution.value != prob.bestValue) FS("the new incumbent costs %.9g, %.9g is recorded", c, prob.bestValue);
                if (prob.bestValue >= best) FS("the incumbent was replaced by one that costs %.9g", prob.bestValue);
                int m = 0;
                for (int i = 0; i < n; i++) { unsigned char v = cons[prob.bestSolution.cycleEdges[i].src][prob.bestSolution.cycleEdges[i].dest]; m += v == 1; if (v == 2) FS("the incumbent was replaced by a tour with a forbidden edge"); }
                if (m != nm) FS("the incumbent was replaced by a tour without a mandatory edge");
                h_count(T_TOUR, 1);
            }
            if (!kept && low < HINF && prob.bestValue - low > 1.0001 * EPS + tol) FS("the subproblem was discarded (type %d, edge %d) although it admits a tour of cost %.9g", cur.type, cur.edge_to_branch, low);
            if (cur.type == OPEN && low < HINF && cur.value > low + tol) FS("the lower bound is %.12g, a tour costs %.12g", cur.value, low);
            if (cur.type == OPEN) {
                if ((bad = cons_get(&cur, n, after))) FS("after bounding, %s", bad);
                if (memcmp(cons, after, sizeof cons)) FS("bounding changed the constraints");
                int a = prob.graph.edges[cur.edge_to_branch].src, b = prob.graph.edges[cur.edge_to_branch].dest;
                if (kept && cons[a][b]) FS("the branching edge %d-%d is already decided", a, b);
            }
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && in.has[i][j] && prob.graph.edges_matrix[i][j].weight != in.w[i][j]) FS("bounding changed the weight of edge %d-%d from %.9g to %.9g", i, j, in.w[i][j], prob.graph.edges_matrix[i][j].weight);
        }
        if (jo && cur.type == OPEN && !closes(n, cand)) {
            mt = min_one_tree(&in, cand, cons);
            if ((bad = tree_bad(&cur, n, cand, mt))) FS("the relaxation of the subproblem: %s", bad);
            if (cur.value < mt - tol) FS("the lower bound %.12g of the subproblem is below its minimum 1-tree, %.12g", cur.value, mt);
        }
        h_outcome(h_hash_u(h_hash_u(h_hash_d(idx, cur.type == OPEN ? cur.value : -1), (uint64_t) cur.type), (uint64_t) (cur.edge_to_branch + 1)));
        if (!kept) continue;
        if (js) { int seen; if ((bad = selection(&cur, &seen))) FS("%s", bad); h_count(seen ? T_FIXED : T_SKIP, 1); }
        double bv = prob.bestValue;
        memcpy(fix, cons, sizeof fix);
        int nf = variable_fixing(&cur), dec = 0;
        bad = cons_get(&cur, n, after);
        if (jf) {
            if (bad) FS("after fixing edges, %s", bad);
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { if (fix[i][j] && fix[i][j] != after[i][j]) FS("fixing changed edge %d-%d, which was already decided", i, j); dec += fix[i][j] != after[i][j]; }
            if (dec != nf) FS("%d edges were decided, %d are reported", dec, nf);
            int nm2 = mandatory(n, after);
            for (int k = 0; k < nt; k++) if (tcost[k] < bv - tol && admits(k, n, fix, nm) && !admits(k, n, after, nm2)) FS("fixing (incumbent now %.9g) excludes an admissible tour of cost %.9g", bv, tcost[k]);
            if (prob.bestValue != bv) FS("fixing changed the incumbent");
            h_count(T_FIXED, (uint64_t) dec);
        }
        if (bad) continue;
        memcpy(cons, after, sizeof cons);
        unsigned gen = prob.generatedBBNodes; size_t had = get_SubProblemList_size(&l);
        par = cur;
        int ea = prob.graph.edges[cur.edge_to_branch].src, eb = prob.graph.edges[cur.edge_to_branch].dest;
        branch(&l, &cur);
        if (jc) {
            if (!judge_children(&l, gen, n, ea, eb, &par, t)) { delete_SubProblemList(&l); return; }
            SubProblem *c[3]; if (get_SubProblemList_size(&l) != had + (size_t) fresh_children(&l, gen, c)) FS("open subproblems were lost");
        }
        while (get_SubProblemList_size(&l) > 40) delete_SubProblemList_elem_index(&l, 20);
    }
    delete_SubProblemList(&l);
    if (idx % 37 == 5) h_sample("%s number %llu, incumbent %.9g: %d steps", FAM, (unsigned long long) fi, best, steps);
}

int main(int argc, char **argv) {
    h_init(argc, argv);
    EPS = h_eps(); N = (int) h_argi("--n", 20);
    h_name(T_TRANS, "transitions"); h_name(T_EXEC, "executions"); h_name(T_SKIP, "cases_outside_the_domain"); h_name(T_TRACK, "tracked_tours_judged");
    const char *m = h_arg("--mode", "infer"); char title[500];
    FAM = h_arg("--family", NULL); PROB = h_arg("--prob", "zero"); JUDGE = h_arg("--judge", "bound");
    int want = (int) h_argi("--names", 3);
    for (int a = 1; a < N && nu < want; a++) { int p = a, q = N; while (q) { int r = p % q; p = q; q = r; } if (p == 1) units[nu++] = a; }
    if (!strcmp(m, "infer")) { h_name(T_INF, "contradictions"); snprintf(title, sizeof title, "inference around one or two windows of a tour of %d cities", N); return h_run(title, STATES(N), m_infer, NULL); }
    if (!strcmp(m, "branch")) { h_name(T_CHILD, "children"); snprintf(title, sizeof title, "branching around one or two windows of a tour of %d cities", N); return h_run(title, STATES(N) / 3, m_branch, NULL); }
    if (!strcmp(m, "walk")) {
        h_name(T_OPEN, !strcmp(JUDGE, "trees") ? "1-trees" : "left_open"); h_name(T_CLOSED, "closed"); h_name(T_TOUR, "incumbent_replaced"); h_name(T_FIXED, !strcmp(JUDGE, "select") ? "selections_judged" : "edges_fixed"); h_name(T_CHILD, "children"); h_name(T_DEPTH, "max_level");
        NF = fam_by_name(NULL, FAM, 0); NP = prob_by_name(NULL, PROB, 0);
        snprintf(title, sizeof title, "the search step by step with tracked tours (%s), %s, probabilities %s, five incumbents, three start vertices", JUDGE, FAM, PROB);
        return h_run(title, NF * NP * 15, m_walk, NULL);
    }
    fprintf(stderr, "unknown mode\n"); return 2;
}
