/* End-to-end exploration: every instance of a finite family is solved by branch_and_bound() on the real code,
 * and the outcome of every run is compared with the exact optimum and with what the solver printed.
 * --mode opt | report | interrupt | history | noprob | leak | fresh                                             */
#define _GNU_SOURCE
#include "common.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static Problem prob, prob2;
static Inst in;
static const char *FAM, *PROB;
static uint64_t NP;
static long POLLS;

enum { C_SOLVED, C_MAXGEN, C_EXPLORED, C_NOTOUR, C_CAPPED, C_STATES, C_TRANS, C_EXEC, C_LINES, C_LATE, C_NNONLY, C_DISTINCT, C_MAXBYTES, C_BB, C_INT };

static void names(void) {
    h_name(C_SOLVED, "runs_completed"); h_name(C_MAXGEN, "max_generated_nodes"); h_name(C_EXPLORED, "transitions");
    h_name(C_NOTOUR, "instances_without_tour"); h_name(C_CAPPED, "runs_stopped_by_the_poll_budget"); h_name(C_EXEC, "executions");
    h_name(C_LINES, "improvement_lines"); h_name(C_NNONLY, "runs_ending_with_the_start_tour"); h_name(C_BB, "runs_that_branched"); h_name(C_INT, "interruptions_explored");
}

static void decode(uint64_t idx) { fam_by_name(&in, FAM, idx / NP); prob_by_name(&in, PROB, idx % NP); }

/* outcome of a run, as far as it can be observed */
typedef struct Sig {
    double value, best, prob; int n, type, level; unsigned id, father, gen, expl, fixed; int tree, cand, interrupted;
    int cyc[HMAX][2]; float reach;
} Sig;
static void sig(const Problem *p, Sig *s) {
    memset(s, 0, sizeof *s);
    s->best = p->bestValue; s->n = p->bestSolution.num_edges_in_cycle; s->gen = p->generatedBBNodes; s->expl = p->exploredBBNodes;
    s->fixed = p->num_fixed_edges; s->tree = p->totTreeLevels; s->cand = p->candidateNodeId; s->interrupted = p->interrupted;
    s->type = (int) p->bestSolution.type; s->value = p->bestSolution.value; s->prob = p->bestSolution.prob;
    s->level = p->bestSolution.treeLevel; s->id = p->bestSolution.id; s->father = p->bestSolution.fatherId; s->reach = p->bestSolution.timeToReach;
    for (int i = 0; i < s->n && i < HMAX; i++) { s->cyc[i][0] = p->bestSolution.cycleEdges[i].src; s->cyc[i][1] = p->bestSolution.cycleEdges[i].dest; }
}
static const char *sig_diff(const Sig *a, const Sig *b) {
    static char w[300];
    if (a->n != b->n) snprintf(w, sizeof w, "edges of the cycle: %d / %d", a->n, b->n);
    else if (a->best != b->best || a->value != b->value) snprintf(w, sizeof w, "cost: %.17g / %.17g", a->best, b->best);
    else if (memcmp(a->cyc, b->cyc, sizeof a->cyc)) snprintf(w, sizeof w, "the tour");
    else if (a->prob != b->prob) snprintf(w, sizeof w, "probability: %g / %g", a->prob, b->prob);
    else if (a->gen != b->gen || a->expl != b->expl) snprintf(w, sizeof w, "generated/explored nodes: %u/%u and %u/%u", a->gen, a->expl, b->gen, b->expl);
    else if (a->fixed != b->fixed) snprintf(w, sizeof w, "fixed edges: %u / %u", a->fixed, b->fixed);
    else if (a->tree != b->tree || a->cand != b->cand || a->interrupted != b->interrupted) snprintf(w, sizeof w, "levels, start vertex or interruption: %d,%d,%d / %d,%d,%d", a->tree, a->cand, a->interrupted, b->tree, b->cand, b->interrupted);
    else if (a->type != b->type || a->level != b->level || a->id != b->id || a->father != b->father) snprintf(w, sizeof w, "origin of the best tour");
    else return NULL;
    return w;
}

static void solve(Problem *p, uint64_t jump) {
    vclock_reset(jump);
    branch_and_bound(p);
    h_count(C_EXEC, 1); h_count(C_EXPLORED, p->exploredBBNodes); h_max(C_MAXGEN, p->generatedBBNodes);
    if (p->generatedBBNodes > 1) h_count(C_BB, 1);
}

/* what every run has to satisfy; returns true if it completed within the poll budget */
static double g_opt;
static bool check_run(const Problem *p, const char *t, bool optimality) {
    double cost, mp; char why[300];
    g_opt = opt_tour(&in, NULL);
    const SubProblem *s = &p->bestSolution;
    if (g_opt >= HINF) {
        h_count(C_NOTOUR, 1);
        if (s->num_edges_in_cycle) h_fail("the instance has no Hamiltonian cycle, but one of cost %.9g with %d edges is reported: %s", p->bestValue, s->num_edges_in_cycle, t);
        return !p->interrupted;
    }
    if (p->interrupted && s->num_edges_in_cycle == 0) return false; /* sparse graph, stopped before a tour was found */
    if (!tour_ok(&in, s, &cost, &mp, why, sizeof why)) { h_fail("%s (reported cost %.9g, optimum %.9g): %s", why, p->bestValue, g_opt, t); return true; }
    if (fabs(cost - s->value) > 1e-6 * (1 + fabs(cost)) || p->bestValue != s->value) { h_fail("reported cost %.12g, best value %.12g, but the edges of the tour cost %.12g: %s", s->value, p->bestValue, cost, t); return true; }
    if (fabs(mp - s->prob) > 1e-4) { h_fail("reported probability %g, but the mean probability of the edges of the tour is %g: %s", s->prob, mp, t); return true; }
    if (p->interrupted) return false;
    if (optimality && cost > g_opt + h_eps() * 1.0001 + 1e-9 * (1 + fabs(g_opt))) { h_fail("the reported tour costs %.12g, the optimum is %.12g (tolerance %.6g): %s", cost, g_opt, h_eps(), t); return true; }
    h_count(C_SOLVED, 1);
    h_outcome(h_hash_u(h_hash_d(h_hash_d(0, cost), g_opt), p->generatedBBNodes));
    return true;
}

/* ---------------------------------------------------------------- mode opt */
static void m_opt(uint64_t idx, void *ctx) {
    (void) ctx;
    decode(idx);
    char *t = inst_text(&in); h_note("%s", t);
    memset(&prob, (int) h_argi("--fill", 0), sizeof prob);
    inst_graph(&in, &prob.graph);
    if (h_argi("--print", 0)) { print_graph(&prob.graph); }
    solve(&prob, (uint64_t) POLLS);
    if (!check_run(&prob, t, true)) { if (prob.interrupted) h_count(C_CAPPED, 1); }
    if (h_argi("--print", 0)) { print_problem(); print_mst(&prob.bestSolution.oneTree); }
    if (idx % 1000 == 7) h_sample("%s -> cost %.9g, %u nodes", t, prob.bestValue, prob.generatedBBNodes);
    free(t);
}

/* ---------------------------------------------------------------- mode report: what is printed (P03, P28) */
static bool grab(const char *text, const char *key, double *v) {
    const char *p = strstr(text, key);
    if (!p) return false;
    return sscanf(p + strlen(key), "%lf", v) == 1;
}
static bool near(double a, double b, double tol) { return fabs(a - b) <= tol; }
static void m_report(uint64_t idx, void *ctx) {
    (void) ctx;
    decode(idx);
    bool stats = h_argi("--stats", 0);
    char *t = inst_text(&in); h_note("%s", t);
    memset(&prob, 0x5a, sizeof prob);
    inst_graph(&in, &prob.graph);
    vclock_step = h_argf("--clock-step", 0.25); vclock_base = 7;
    /* 0: not interrupted; k > 0: interrupted at a poll */
    uint64_t jump = (uint64_t) h_argi("--jump", 0);
    h_capture_begin();
    if (jump) { solve(&prob, jump); } else solve(&prob, (uint64_t) POLLS);
    char *progress = strdup(h_capture_end());
    h_capture_begin();
    print_problem();
    const char *rep = h_capture_end();
    vclock_step = 0; vclock_base = 1;
    SubProblem *s = &prob.bestSolution;
    int n = in.n;
    bool tour = s->num_edges_in_cycle > 0;
    check_run(&prob, t, false);
    if (h_failed()) goto out;
#define BAD(...) do { h_fail(__VA_ARGS__); goto out; } while (0)
    double v;
    if (!stats) {                                   /* P03: the report shows the solution */
        if (tour && (!grab(rep, "SUBPROBLEM with cost = ", &v) || !near(v, prob.bestValue, 1e-5 + 1e-6 * fabs(prob.bestValue)))) BAD("the printed cost is not that of the solution (%g): %s\n%s", prob.bestValue, t, rep);
        if (tour && (!grab(rep, "prob_tour = ", &v) || !near(v, s->prob, 1e-5))) BAD("the printed probability is not that of the solution (%g): %s\n%s", s->prob, t, rep);
        struct { const char *k; double x; } num[] = {{"generated BBNodes = ", prob.generatedBBNodes}, {"explored BBNodes = ", prob.exploredBBNodes},
            {"max tree level = ", prob.totTreeLevels}, {"Number of fixed edges = ", prob.num_fixed_edges}, {"level of the BB tree = ", s->treeLevel},
            {"BBNode number = ", s->id}, {"candidate node = ", prob.candidateNodeId}, {"Cycle with ", s->num_edges_in_cycle}};
        for (size_t i = 0; i < sizeof num / sizeof *num; i++)
            if (!grab(rep, num[i].k, &v) || v != num[i].x) BAD("the report does not show '%s%g': %s\n%s", num[i].k, num[i].x, t, rep);
        const char *want = prob.interrupted ? "interrupted = TRUE" : "interrupted = FALSE";
        if (!strstr(rep, want)) BAD("the report does not say '%s': %s\n%s", want, t, rep);
        if (tour != (strstr(rep, "Optimal tour found") != NULL)) BAD("the report %s a tour: %s\n%s", tour ? "does not announce" : "announces", t, rep);
        /* the chain */
        const char *c = strstr(rep, "Cycle with");
        c = c ? strchr(c, ':') : NULL;
        if (!c) BAD("no cycle line in the report: %s\n%s", t, rep);
        const char *eol = strchr(c, '\n');
        int a[HMAX + 2], b[HMAX + 2], k = 0;
        for (const char *q = c + 1; q && (!eol || q < eol) && k <= HMAX;) {
            int used = 0;
            if (sscanf(q, " %d <-> %d%n", &a[k], &b[k], &used) != 2 || used == 0) break;
            k++; q += used; while (*q == ',' || *q == ' ') q++;
        }
        if (k != s->num_edges_in_cycle) BAD("the printed cycle lists %d edges instead of %d: %s\n%s", k, s->num_edges_in_cycle, t, rep);
        bool used[HMAX] = {false}; int nused = 0;
        for (int i = 0; i < k; i++) {
            int j = (i + 1) % k;
            if (b[i] != a[j]) BAD("the printed cycle is not a chain of adjacent edges (edge %d ends in %d, the next starts in %d): %s\n%s", i, b[i], a[j], t, rep);
            if (a[i] < 0 || a[i] >= n || used[a[i]]) BAD("the printed cycle visits city %d twice: %s\n%s", a[i], t, rep);
            used[a[i]] = true; nused++;
            bool in_sol = false;
            for (int e = 0; e < k; e++) { int x = s->cycleEdges[e].src, y = s->cycleEdges[e].dest; in_sol |= (x == a[i] && y == b[i]) || (x == b[i] && y == a[i]); }
            if (!in_sol) BAD("the printed edge %d-%d is not in the tour: %s\n%s", a[i], b[i], t, rep);
        }
        if (k && nused != n) BAD("the printed cycle does not visit every city: %s\n%s", t, rep);
    } else {                                        /* P28: statistics and progress lines */
        if (prob.exploredBBNodes > prob.generatedBBNodes) BAD("%u nodes explored, %u generated: %s", prob.exploredBBNodes, prob.generatedBBNodes, t);
        if (tour && (s->id > prob.generatedBBNodes || s->treeLevel > prob.totTreeLevels))
            BAD("the best tour stems from node %u at level %u, but %u nodes were generated and the deepest level is %u: %s", s->id, s->treeLevel, prob.generatedBBNodes, prob.totTreeLevels, t);
        double last = HINF, lt = -1, val, tm; int lines = 0;
        double lo, hi, plo = HINF, phi = HINF;
        nn_range(&in, false, &lo, &hi); if (HYBRID) nn_range(&in, true, &plo, &phi);
        double nn_hi = hi < phi ? hi : phi, nn_lo = lo < plo ? lo : plo;
        const char *q = progress;
        while ((q = strstr(q, "Updated best value: "))) {
            if (sscanf(q, "Updated best value: %lf, at time: %lf", &val, &tm) != 2) BAD("unreadable progress line: %s\n%s", t, progress);
            double tol = 2e-6;
            if (last < HINF && !(val < last + tol)) BAD("the progress lines do not list decreasing costs (%f after %f): %s", val, last, t);
            if (last < HINF && !(val < last) && fabs(val - last) > tol) BAD("the progress lines do not list decreasing costs (%f after %f): %s", val, last, t);
            if (last >= HINF && nn_hi < HINF && !(val < nn_hi + tol)) BAD("the first progress line (%f) does not improve the start tour (%f): %s", val, nn_hi, t);
            if (tm < lt) BAD("time goes backwards in the progress lines (%f after %f): %s", tm, lt, t);
            double total = (double) (prob.end - prob.start) / CLOCKS_PER_SEC;
            if (tm > total + 1e-3) BAD("an improvement at time %f, but the run took %f: %s", tm, total, t);
            last = val; lt = tm; lines++; q += 10;
        }
        h_count(C_LINES, lines);
        const char *label = NULL;
        if (tour) {
            if (lines) {
                if (!near(last, prob.bestValue, 2e-6 + 1e-6 * fabs(prob.bestValue))) BAD("the last progress line says %f, the reported cost is %f: %s", last, prob.bestValue, t);
                if (s->type != CLOSED_1TREE && s->type != CLOSED_SUBGRADIENT) BAD("the best tour was found by the search but is labelled as type %d: %s", s->type, t);
                if (s->id < 1) BAD("the best tour was found by the search, but it stems from no generated node: %s", t);
                label = s->type == CLOSED_1TREE ? "CLOSED_1TREE" : "CLOSED_SUBGRADIENT";
                if (s->treeLevel < 1) BAD("tour of the search at level %u: %s", s->treeLevel, t);
            } else {
                h_count(C_NNONLY, 1);
                if (s->type != CLOSED_NN && s->type != CLOSED_NN_HYBRID) BAD("no progress line, but the best tour is labelled as type %d: %s", s->type, t);
                if (!HYBRID && s->type != CLOSED_NN) BAD("a hybrid start tour in classic mode: %s", t);
                label = s->type == CLOSED_NN ? "CLOSED_NEAREST_NEIGHBOR" : "CLOSED_NEAREST_NEIGHBOR_HYBRID";
                if (prob.bestValue > nn_hi + 1e-9 * (1 + nn_hi) || (nn_lo > -HINF && prob.bestValue < nn_lo - 1e-9 * (1 + nn_lo)))
                    BAD("no progress line, but the reported cost %.9g is not that of the start tour (%.9g..%.9g): %s", prob.bestValue, nn_lo, nn_hi, t);
                /* the label says which of the two heuristics gave it */
                if (HYBRID && s->type == CLOSED_NN_HYBRID && prob.bestValue < plo - 1e-9 * (1 + fabs(plo))) BAD("the start tour of cost %.9g is labelled hybrid, but that heuristic gives at best %.9g: %s", prob.bestValue, plo, t);
                if (HYBRID && s->type == CLOSED_NN && prob.bestValue < lo - 1e-9 * (1 + fabs(lo))) BAD("the start tour of cost %.9g is labelled nearest neighbour, but that heuristic gives at best %.9g: %s", prob.bestValue, lo, t);
            }
            char lab[80]; snprintf(lab, sizeof lab, "type = %s,", label);
            if (!strstr(rep, lab)) BAD("the report does not say '%s': %s\n%s", lab, t, rep);
        } else if (lines) BAD("progress lines but no tour: %s", t);
        double el = (double) (prob.end - prob.start) / CLOCKS_PER_SEC;
        if (tour && s->timeToReach > el + 1e-3) BAD("the best tour was reached at %f, but the run took %f: %s", s->timeToReach, el, t);
        if (!grab(rep, "elapsed time = ", &v) || !near(v, el, 1e-3)) BAD("the printed elapsed time is not that of the run (%f): %s\n%s", el, t, rep);
    }
out:
    h_outcome(h_hash(1, rep, strlen(rep)));
    if (idx % 1000 == 7) h_sample("%s -> %.200s", t, rep);
    free(progress); free(t);
}

/* ---------------------------------------------------------------- mode interrupt (P05) */
static void m_interrupt(uint64_t idx, void *ctx) {
    (void) ctx;
    decode(idx);
    char *t = inst_text(&in); h_note("%s", t);
    double lo, hi, plo = HINF, phi = HINF;
    nn_range(&in, false, &lo, &hi); if (HYBRID) nn_range(&in, true, &plo, &phi);
    double start = hi < phi ? hi : phi;
    g_opt = opt_tour(&in, NULL);
    static int warm;
    memset(&prob, 0, sizeof prob);
    inst_graph(&in, &prob.graph);
    vclock_base = h_argf("--clock-base", 1);
    long polls_max = h_argi("--max-polls", 2000);
    solve(&prob, (uint64_t) polls_max);
    uint64_t full = vclock_polls; bool complete = !prob.interrupted;
    unsigned expl_full = prob.exploredBBNodes; Sig fs; sig(&prob, &fs);
    if (!warm) { warm = 1; solve(&prob, 3); printf("\n"); fflush(stdout); h_capture_begin(); print_problem(); h_capture_end(); }
    if (!complete) h_count(C_CAPPED, 1);
    if (full > (uint64_t) polls_max) full = (uint64_t) polls_max;
    double prev = HINF; Sig ps; bool have = false;
    uint64_t first = (uint64_t) h_argi("--first-poll", 1);      /* points between 2 and this one are left out */
    for (uint64_t k = complete ? 0 : 1; k <= full && !h_failed(); k = k == 1 && first > 2 ? first : k + 1) { /* with 0 the clock never jumps during the run */
        h_note("clock jumps at poll %llu of %llu: %s", (unsigned long long) k, (unsigned long long) full, t);
        size_t before = h_heap_used();
        solve(&prob, k);
        h_count(C_INT, 1);
        size_t after = h_heap_used();
        if (before != after) { h_fail("%zd bytes are still allocated after a run interrupted at poll %llu: %s", (ssize_t) (after - before), (unsigned long long) k, t); break; }
        double cost, mp; char why[200];
        const SubProblem *s = &prob.bestSolution;
        if (s->num_edges_in_cycle == 0) {
            if (start < HINF) { h_fail("interrupted at poll %llu, no tour is reported although a start tour exists: %s", (unsigned long long) k, t); break; }
            if (prev < HINF) { h_fail("interrupted at poll %llu, no tour is reported although an earlier interruption gave one: %s", (unsigned long long) k, t); break; }
            if (!prob.interrupted && g_opt < HINF) { h_fail("not interrupted, but no tour: %s", t); break; }
            if (!prob.interrupted && prob.exploredBBNodes < expl_full && complete) { h_fail("the run stopped at poll %llu after %u of %u nodes without saying that it was interrupted: %s", (unsigned long long) k, prob.exploredBBNodes, expl_full, t); break; }
            continue;
        }
        if (!tour_ok(&in, s, &cost, &mp, why, sizeof why)) { h_fail("interrupted at poll %llu: %s: %s", (unsigned long long) k, why, t); break; }
        if (fabs(cost - s->value) > 1e-6 * (1 + fabs(cost)) || prob.bestValue != s->value) { h_fail("interrupted at poll %llu: reported cost %.12g / %.12g, the edges cost %.12g: %s", (unsigned long long) k, s->value, prob.bestValue, cost, t); break; }
        if (fabs(mp - s->prob) > 1e-4) { h_fail("interrupted at poll %llu: reported probability %g, mean %g: %s", (unsigned long long) k, s->prob, mp, t); break; }
        if (cost < g_opt - 1e-7 * (1 + fabs(g_opt))) { h_fail("cost %.12g below the optimum %.12g: %s", cost, g_opt, t); break; }
        if (cost > start + 1e-7 * (1 + fabs(start))) { h_fail("interrupted at poll %llu: cost %.12g, worse than the start tour (%.12g): %s", (unsigned long long) k, cost, start, t); break; }
        if (k > 0 && cost > prev + 1e-9 * (1 + fabs(prev))) { h_fail("interrupted at poll %llu the cost is %.12g, interrupted earlier it was %.12g: %s", (unsigned long long) k, cost, prev, t); break; }
        if (!prob.interrupted) {
            if (cost > g_opt + h_eps() * 1.0001 + 1e-9 * (1 + fabs(g_opt))) { h_fail("time limit exceeded at poll %llu, not marked as interrupted, cost %.12g, optimum %.12g: %s", (unsigned long long) k, cost, g_opt, t); break; }
            if (complete && prob.exploredBBNodes < expl_full && k > 0) { h_fail("the run stopped at poll %llu after %u of %u nodes without saying that it was interrupted: %s", (unsigned long long) k, prob.exploredBBNodes, expl_full, t); break; }
        }
        if (k > 0) prev = cost;   /* with k == 0 the whole run happens after the jump: it is a complete one */
        h_capture_begin(); print_problem(); const char *rep = h_capture_end();
        if ((strstr(rep, "interrupted = TRUE") != NULL) != prob.interrupted) { h_fail("the report does not say whether the run was interrupted: %s", t); break; }
        Sig cs; sig(&prob, &cs);
        if (!have || memcmp(&cs, &ps, sizeof cs)) h_outcome(h_hash_u(h_hash_u(h_hash_d(0, cost), prob.exploredBBNodes), idx));
        ps = cs; have = true;
    }
    /* the limit itself: a clock that stays below it never interrupts, one beyond it always does */
    if (!h_failed() && complete) {
        vclock_jump_seconds = TIME_LIMIT_SECONDS - 2;
        solve(&prob, 1);
        if (prob.interrupted) h_fail("interrupted after %d s, before the time limit: %s", TIME_LIMIT_SECONDS - 2, t);
        Sig cs; sig(&prob, &cs);
        const char *d = sig_diff(&fs, &cs);
        if (!h_failed() && d) h_fail("the time passed changes the outcome (%s): %s", d, t);
        vclock_jump_seconds = TIME_LIMIT_SECONDS + 2;
        solve(&prob, 1);
        if (!h_failed() && !prob.interrupted && expl_full > 0 && prob.exploredBBNodes < expl_full) h_fail("stopped without saying so: %s", t);
        if (!h_failed() && prob.exploredBBNodes > 0 && expl_full > 0) h_fail("not stopped %d s after the start: %s", TIME_LIMIT_SECONDS + 2, t);
        vclock_jump_seconds = 1e6;
    }
    /* time is over once so many subproblems have been explored: at most one more is */
    for (unsigned m = 1; m < expl_full && m <= (unsigned) polls_max && m <= (in.n < 100 ? 20000u : 6u) && !h_failed(); m++) {
        h_note("time is over after %u explored subproblems: %s", m, t);
        vclock_watch = &prob.exploredBBNodes; vclock_watch_at = m;
        solve(&prob, complete ? UINT64_MAX : (uint64_t) polls_max);
        vclock_watch = NULL;
        h_count(C_INT, 1);
        if (prob.exploredBBNodes > m + 1) h_fail("the time limit is exceeded after %u explored subproblems, %u have been explored when the run ends: %s", m, prob.exploredBBNodes, t);
        else if (!prob.interrupted && prob.exploredBBNodes < expl_full && complete) h_fail("the run stopped after %u of %u subproblems without saying that it was interrupted: %s", m, expl_full, t);
    }
    if (idx % 100 == 7) h_sample("%s -> %llu interruption points", t, (unsigned long long) full);
    vclock_base = 1;
    free(t);
}

/* ---------------------------------------------------------------- mode history (P06) */
#define KMAX 64
static int K; static Inst pool[KMAX]; static Sig ref[KMAX]; static char *refrep[KMAX];
static void graph_fp(const Graph *g, uint64_t *h) {   /* what the user sees of a graph */
    uint64_t x = h_hash_u(0, g->num_nodes); x = h_hash_u(x, g->num_edges); x = h_hash(x, &g->cost, sizeof g->cost);
    for (int i = 0; i < g->num_nodes; i++) {
        const Node *n = &g->nodes[i];
        x = h_hash_u(x, n->positionInGraph); x = h_hash_u(x, n->num_neighbours); x = h_hash(x, &n->x, 8); x = h_hash(x, &n->y, 8);
        uint64_t nb = 0;
        for (int k = 0; k < n->num_neighbours; k++) nb += (n->neighbours[k] + 1) * 2654435761u;
        x = h_hash_u(x, nb);
    }
    /* the edges as a set: the Kruskal engine is allowed to sort them */
    uint64_t es = 0;
    for (int e = 0; e < g->num_edges; e++) {
        const Edge *d = &g->edges[e]; uint64_t y = h_hash_u(h_hash_u(0, d->src), d->dest);
        y = h_hash(y, &d->weight, 8); y = h_hash(y, &d->prob, 8); es += y;
        for (int r = 0; r < 2; r++) {
            const Edge *m = r ? &g->edges_matrix[d->dest][d->src] : &g->edges_matrix[d->src][d->dest];
            y = h_hash(0, &m->weight, 8); y = h_hash(y, &m->prob, 8); es += 3 * y;
        }
    }
    *h = h_hash_u(x, es);
}
static bool one_run(Problem *p, int i, int fill, const char *what) {
    in = pool[i];
    char *t = inst_text(&in); h_note("%s: %s", what, t);
    if (fill >= 0) memset(p, fill, sizeof *p);
    inst_graph(&in, &p->graph);
    uint64_t fa, fb; graph_fp(&p->graph, &fa);
    h_capture_begin();
    solve(p, (uint64_t) POLLS);
    print_problem();
    const char *rep = h_capture_end();
    graph_fp(&p->graph, &fb);
    bool ok = false;
    if (fa != fb) h_fail("the run changed the graph it was given (%s): %s", what, t);
    else {
        Sig s; sig(p, &s);
        if (!refrep[i]) { ref[i] = s; refrep[i] = strdup(rep); ok = true; }
        else {
            const char *d = sig_diff(&ref[i], &s);
            if (d) h_fail("solving the same instance again (%s) gives a different outcome (%s): %s", what, d, t);
            else if (strcmp(rep, refrep[i])) h_fail("solving the same instance again (%s) prints a different report: %s\n%s\n----\n%s", what, t, refrep[i], rep);
            else ok = true;
        }
    }
    h_outcome(h_hash(3, rep, strlen(rep)));
    free(t);
    return ok;
}
static void load_pool(void) {
    /* comma separated specs "family@index" separated by ';' */
    char *s = strdup(h_arg("--pool", "")), *save = NULL;
    for (char *q = strtok_r(s, ";", &save); q && K < KMAX; q = strtok_r(NULL, ";", &save)) {
        char *at = strchr(q, '@'); uint64_t i = strtoull(at + 1, NULL, 10); *at = 0;
        fam_by_name(&pool[K], q, i); prob_by_name(&pool[K], PROB, i % NP); K++;
    }
    free(s);
}
/* case: an ordered sequence of --depth instances solved in one process; each outcome is the one of a fresh process */
static void m_history(uint64_t idx, void *ctx) {
    (void) ctx;
    int depth = (int) h_argi("--depth", 3), q[8]; uint64_t x = idx;
    for (int d = 0; d < depth; d++) { q[d] = (int) (x % K); x /= K; }
    int mode = (int) (x % 4); /* same object kept, same object refilled, two objects in turn, object on dirty memory */
    /* references come from the first run of each instance in this worker, each checked against a run in a fresh process */
    for (int d = 0; d < depth && !h_failed(); d++) {
        Problem *p = mode == 2 && (d & 1) ? &prob2 : &prob;
        int fill = mode == 0 ? -1 : mode == 1 ? 0 : mode == 2 ? -1 : (d * 85 + 0x2b) & 255;
        static const char *mn[] = {"same memory, kept", "same memory, cleared", "two problems in turn", "memory filled with a pattern"};
        char w[200]; snprintf(w, sizeof w, "step %d of the sequence %d,%d,%d,%d; %s", d + 1, q[0], q[1], depth > 2 ? q[2] : -1, depth > 3 ? q[3] : -1, mn[mode]);
        if (!one_run(p, q[d], fill, w)) return;
    }
    if (idx % 5000 == 7) h_sample("sequence %d,%d,%d, memory mode %d", q[0], q[1], q[2], mode);
}
/* references computed in fresh processes, before the workers start */
#include <sys/mman.h>
static void fresh_refs(void) {
    typedef struct { Sig s; int ok; char rep[6000]; } R;
    R *sh = mmap(NULL, sizeof(R) * (size_t) K, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < K; i++) {
        fflush(NULL);
        pid_t c = fork();
        if (c == 0) {
            alarm(60);
            memset(&prob, 0, sizeof prob); in = pool[i]; inst_graph(&in, &prob.graph);
            h_capture_begin(); vclock_reset((uint64_t) POLLS); branch_and_bound(&prob); print_problem(); const char *rep = h_capture_end();
            sig(&prob, &sh[i].s); snprintf(sh[i].rep, sizeof sh[i].rep, "%s", rep); sh[i].ok = 1;
            _exit(0);
        }
        int st; waitpid(c, &st, 0);
        if (sh[i].ok) { ref[i] = sh[i].s; refrep[i] = strdup(sh[i].rep); }
    }
}

/* every family instance solved in differently filled memory, and twice in a row (P06) */
static void m_fresh(uint64_t idx, void *ctx) {
    (void) ctx;
    decode(idx); pool[0] = in; free(refrep[0]); refrep[0] = NULL;
    static const int fills[] = {0, 0xff, 0x7f, 1, 0xaa, -1};
    for (size_t f = 0; f < 6 && !h_failed(); f++) {
        char w[60]; snprintf(w, sizeof w, fills[f] < 0 ? "memory of the run before" : "memory filled with 0x%02x", fills[f]);
        one_run(f == 3 ? &prob2 : &prob, 0, fills[f], w);
    }
}

/* ---------------------------------------------------------------- mode noprob: classic mode ignores probabilities (P04) */
static void m_noprob(uint64_t idx, void *ctx) {
    (void) ctx;
    fam_by_name(&in, FAM, idx / NP);
    Inst z = in;
    prob_by_name(&in, PROB, idx % NP);
    char *t = inst_text(&in); h_note("%s", t);
    /* probabilities reach the graph in the way the csv reader does it: the harness writes a csv text in memory */
    Sig a, b;
    extern void read_tsp_csv_file(Graph *, char *);
    char path[200]; snprintf(path, sizeof path, "%s/p%d.csv", h_arg("--dir", "/nonexistent"), (int) getpid());
    for (int r = 0; r < 2; r++) {
        FILE *f = fopen(path, "w");
        if (!f) { h_fail("cannot write %s", path); return; }
        for (int i = 0; i < in.n; i++) fprintf(f, "(%d, %d)%s", i, 2 * i, i + 1 < in.n ? ";" : "\n");
        for (int i = 0; i < in.n; i++) {
            for (int j = 0; j < in.n; j++) fprintf(f, "(%.17g, %.17g);", i == j || !in.has[i][j] ? 0 : in.w[i][j], r && i != j ? in.p[i][j] : 0.0);
            fputc('\n', f);
        }
        fclose(f);
        memset(&prob, 0, sizeof prob);
        read_tsp_csv_file(&prob.graph, path);
        solve(&prob, (uint64_t) POLLS);
        sig(&prob, r ? &b : &a);
    }
    remove(path);
    const char *d = sig_diff(&a, &b);
    if (d) h_fail("in classic mode the probabilities change the outcome (%s): %s", d, t);
    else if (b.prob != 0) h_fail("in classic mode the reported probability is %g: %s", b.prob, t);
    h_outcome(h_hash_u(h_hash_d(0, b.best), b.gen)); (void) z;
    if (!prob.interrupted) h_count(C_SOLVED, 1); else h_count(C_CAPPED, 1);
    if (idx % 1000 == 7) h_sample("%s", t);
    free(t);
}

/* ---------------------------------------------------------------- mode leak (P08) */
static void m_leak(uint64_t idx, void *ctx) {
    (void) ctx;
    decode(idx);
    char *t = inst_text(&in); h_note("%s", t);
    static int warm;
    for (int r = warm ? 1 : 0; r < 2; r++) {
        warm = 1;
        memset(&prob, 0, sizeof prob);
        fflush(stdout);
        size_t before = h_heap_used();
        inst_graph(&in, &prob.graph);
        size_t mid = h_heap_used();
        print_graph(&prob.graph);
        solve(&prob, (uint64_t) POLLS);
        print_problem();
        print_mst(&prob.bestSolution.oneTree); print_mst_original_weight(&prob.bestSolution.oneTree, &prob.graph);
        fflush(stdout);
        size_t after = h_heap_used();
        if (r && before != mid) h_fail("building the graph left %zd bytes allocated: %s", (ssize_t) (mid - before), t);
        else if (r && before != after) h_fail("the run left %zd bytes allocated: %s", (ssize_t) (after - before), t);
    }
    h_count(C_SOLVED, !prob.interrupted); h_count(C_CAPPED, prob.interrupted);
    h_outcome(h_hash_u(h_hash_d(0, prob.bestValue), prob.generatedBBNodes));
    if (idx % 1000 == 7) h_sample("%s", t);
    free(t);
}

int main(int argc, char **argv) {
    h_init(argc, argv);
    FAM = h_arg("--family", ""); PROB = h_arg("--prob", "zero"); NP = prob_by_name(NULL, PROB, 0);
    POLLS = h_argi("--polls", 40000);
    names();
    const char *m = h_arg("--mode", "opt");
    char title[600]; snprintf(title, sizeof title, "%s %s, probabilities %s", m, FAM, PROB);
    if (strcmp(m, "history") == 0) {
        load_pool(); fresh_refs();
        uint64_t tot = 4; for (int d = 0; d < h_argi("--depth", 3); d++) tot *= (uint64_t) K;
        snprintf(title, sizeof title, "histories of %ld runs over %d instances, 4 ways to reuse memory", h_argi("--depth", 3), K);
        return h_run(title, tot, m_history, NULL);
    }
    uint64_t tot = fam_by_name(NULL, FAM, 0) * NP;
    case_fn f = strcmp(m, "report") == 0 ? m_report : strcmp(m, "interrupt") == 0 ? m_interrupt : strcmp(m, "fresh") == 0 ? m_fresh
              : strcmp(m, "noprob") == 0 ? m_noprob : strcmp(m, "leak") == 0 ? m_leak : m_opt;
    return h_run(title, tot, f, NULL);
}
