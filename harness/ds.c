/* The data structures and the two spanning tree algorithms, on the real code.
 * --mode mst | sort | heap | heaprun | heapthin | sets | list | sublist | graph | euclid                        */
#define _GNU_SOURCE
#include "common.h"
#include "algorithms/kruskal.h"
#include "algorithms/prim.h"
#include <unistd.h>

extern void delete_node(FibonacciHeap *, OrdTreeNode *) __attribute__((weak));

static Inst in;
static const char *FAM, *PROB; static uint64_t NF, NP;
static Graph g, g1;
enum { T_TRANS, T_EXEC, T_STATES, T_VALID, T_MAX, T_OPS, T_SKIP };

/* ---------------------------------------------------------------- breadth-first exploration of the states of a data structure
 * The state is the memory of the structure (at a fixed address, so that its pointers stay meaningful) and of its model. */
typedef struct { unsigned char *mem; uint64_t a, b; uint32_t parent; int op; } Rec;
static Rec *recs; static uint32_t nrec, maxrec; static uint32_t *tab; static uint32_t tabsize;
static unsigned char *ST; static size_t SN;
static void bfs_init(void *st, size_t n, uint32_t max) {
    ST = st; SN = n; nrec = 0; maxrec = max; tabsize = 1; while (tabsize < 2 * max) tabsize *= 2;
    recs = malloc(sizeof(Rec) * max); tab = calloc(tabsize, 4);
}
static bool bfs_add(uint32_t parent, int op) {      /* true if the present state is new */
    uint64_t a = 1469598103934665603ULL, b = 88172645463325252ULL;
    for (size_t i = 0; i + 8 <= SN; i += 8) { uint64_t v; memcpy(&v, ST + i, 8); a = (a ^ v) * 0x9E3779B97F4A7C15ULL; a ^= a >> 29; b = (b + v) * 0xBF58476D1CE4E5B9ULL; b ^= b >> 31; }
    for (size_t i = SN & ~(size_t) 7; i < SN; i++) { a = (a ^ ST[i]) * 1099511628211ULL; b = (b + ST[i]) * 0xBF58476D1CE4E5B9ULL; b ^= b >> 31; }
    uint32_t p = (uint32_t) (a ^ b) & (tabsize - 1);
    for (; tab[p]; p = (p + 1) & (tabsize - 1)) { Rec *r = &recs[tab[p] - 1]; if (r->a == a && r->b == b) return false; }
    if (nrec >= maxrec) return false;
    Rec *r = &recs[nrec]; r->a = a; r->b = b; r->parent = parent; r->op = op; r->mem = malloc(SN); memcpy(r->mem, ST, SN);
    tab[p] = ++nrec;
    return true;
}
static void bfs_load(uint32_t i) { memcpy(ST, recs[i].mem, SN); }
static const char *bfs_trace(uint32_t i, int lastop, const char *(*name)(int)) {
    static char b[6000]; int ops[400], n = 0; size_t o = 0; b[0] = 0;
    if (lastop >= 0) ops[n++] = lastop;
    for (; recs[i].op >= 0 && n < 400; i = recs[i].parent) ops[n++] = recs[i].op;
    while (n-- > 0) o += (size_t) snprintf(b + o, sizeof b - o, "%s%s", o ? "; " : "", name(ops[n]));
    return b;
}

/* ---------------------------------------------------------------- Fibonacci heap (P17): all states reachable with K keys and V values */
enum { KMAX = 12 };
static struct { FibonacciHeap h; OrdTreeNode node[KMAX]; signed char val[KMAX]; } H;    /* val: the model, -1 absent */
static int K, V;
static double hv(int v) { return h_argi("--wide", 0) ? (v - 1) * 1e300 : 10.0 * v - 15; }
static const char *heap_op(int op) {
    static char b[4][60]; static int z; char *s = b[z++ & 3]; int t = op / 1000, k = op / 20 % 50, v = op % 20;
    if (t == 0) snprintf(s, 60, "insert %d with %g", k, hv(v)); else if (t == 1) snprintf(s, 60, "decrease %d to %g", k, hv(v));
    else if (t == 2) snprintf(s, 60, "extract"); else snprintf(s, 60, "delete %d", k);
    return s;
}
static int heap_size(void) { int n = 0; for (int k = 0; k < K; k++) n += H.val[k] >= 0; return n; }
static void m_heap(uint64_t idx, void *ctx) {
    (void) ctx;
    K = (int) h_argi("--keys", 4) ; V = (int) h_argi("--values", 3);
    /* the cases: every first part of a history (insertion of all the keys, in all assignments of values, then one extraction or none) */
    bool extract_first = idx & 1; uint64_t x = idx >> 1;
    memset(&H, 0, sizeof H); memset(H.val, -1, sizeof H.val);
    create_fibonacci_heap(&H.h);
    char pre[300]; size_t o = 0;
    for (int k = 0; k < K; k++) { int v = (int) (x % (uint64_t) V); x /= (uint64_t) V; create_insert_node(&H.h, &H.node[k], (unsigned short) k, hv(v)); H.val[k] = (signed char) v; o += (size_t) snprintf(pre + o, sizeof pre - o, "insert %d with %g; ", k, hv(v)); }
    uint32_t cap = (uint32_t) h_argi("--max-states", 3000000);
    bfs_init(&H, sizeof H, cap);
    bool del = delete_node != NULL;
    bfs_add(0, -1);
    uint32_t cur = 0;
    int maxn = 0; uint64_t trans = 0;
    for (; cur < nrec && !h_failed(); cur++) {
        int ops[200], n = 0, present = 0, absent = -1;
        bfs_load(cur);
        for (int k = 0; k < K; k++) { if (H.val[k] >= 0) present++; else if (absent < 0) absent = k; }
        if (present > maxn) maxn = present;
        ops[n++] = 2000;
        if (!(cur == 0 && extract_first)) {
            if (absent >= 0) for (int v = 0; v < V; v++) ops[n++] = absent * 20 + v;
            for (int k = 0; k < K; k++) if (H.val[k] >= 0) for (int v = 0; v <= H.val[k]; v++) ops[n++] = 1000 + k * 20 + v;
            if (del) for (int k = 0; k < K; k++) if (H.val[k] >= 0) ops[n++] = 3000 + k * 20;
        }
        for (int i = 0; i < n && !h_failed(); i++) {
            bfs_load(cur);
            int op = ops[i], t = op / 1000, k = op / 20 % 50, v = op % 20;
            h_note("Fibonacci heap: %s%s", pre, bfs_trace(cur, op, heap_op));
            trans++;
            if (t == 0) { create_insert_node(&H.h, &H.node[k], (unsigned short) k, hv(v)); H.val[k] = (signed char) v; }
            else if (t == 1) { decrease_value(&H.h, &H.node[k], hv(v)); H.val[k] = (signed char) v; }
            else if (t == 2) {
                int r = extract_min(&H.h), mn = 100;
                for (int q = 0; q < K; q++) if (H.val[q] >= 0 && H.val[q] < mn) mn = H.val[q];
                if (!present) { if (r != -1) h_fail("the heap is empty, but %d is extracted: %s%s", r, pre, bfs_trace(cur, op, heap_op)); }
                else if (r < 0 || r >= K || H.val[r] < 0) h_fail("%d is extracted, which is not in the heap: %s%s", r, pre, bfs_trace(cur, op, heap_op));
                else if (H.val[r] != mn) h_fail("%d with %g is extracted, the minimum is %g: %s%s", r, hv(H.val[r]), hv(mn), pre, bfs_trace(cur, op, heap_op));
                else { H.val[r] = -1; memset(&H.node[r], 0, sizeof H.node[r]); }
            } else { delete_node(&H.h, &H.node[k]); H.val[k] = -1; memset(&H.node[k], 0, sizeof H.node[k]); }
            if (!h_failed() && H.h.num_nodes != heap_size()) h_fail("%d keys are in the heap, it reports %d: %s%s", heap_size(), H.h.num_nodes, pre, bfs_trace(cur, op, heap_op));
            if (!h_failed()) bfs_add(cur, op);
        }
        free(recs[cur].mem); recs[cur].mem = NULL;
    }
    if (nrec >= maxrec) h_count(T_SKIP, 1);
    h_count(T_STATES, nrec); h_count(T_TRANS, trans); h_count(T_EXEC, trans); h_max(T_MAX, (uint64_t) maxn);
    h_outcome(h_hash_u(h_hash_u(1, nrec), trans)); h_outcome(h_hash_u(2, idx));
    if (idx % 7 == 3) h_sample("%s%u states, %llu operations", pre, nrec, (unsigned long long) trans);
    for (uint32_t i = cur; i < nrec; i++) free(recs[i].mem);
    free(recs); free(tab);
}
/* long histories of structured operations on many keys */
static void m_heaprun(uint64_t idx, void *ctx) {
    (void) ctx;
    static OrdTreeNode nd[600]; static double val[600]; static bool is[600];
    static FibonacciHeap h;
    int N = (int) h_argi("--keys", 80), steps = (int) h_argi("--steps", 400), pool = 600, cnt = 0;
    uint64_t x = idx; int a = (int) (x % 7); x /= 7; int b = (int) (x % 5); x /= 5; int c = (int) (x % 11); x /= 11; int d = (int) x;   /* parameters */
    memset(nd, 0x33, sizeof nd); memset(is, 0, sizeof is);
    create_fibonacci_heap(&h);
    h_note("Fibonacci heap history %llu (keys %d)", (unsigned long long) idx, N);
    for (int k = 0; k < N; k++) { val[k] = (k * (a + 3) * 7 + k * k * b) % (17 + 10 * d); create_insert_node(&h, &nd[k], (unsigned short) k, val[k]); is[k] = true; cnt++; }
    for (int s = 0; s < steps && !h_failed(); s++) {
        int sel = (s * (b + 2) + (s / 7) * (a + 1) + (s * s / 3) * d) % 10;
        if (sel < 2 || cnt == 0 || s % (c + 2) == c) {          /* extract */
            int r = extract_min(&h); double mn = HINF;
            for (int k = 0; k < pool; k++) if (is[k] && val[k] < mn) mn = val[k];
            if (cnt == 0) { if (r != -1) h_fail("history %llu, step %d: the heap is empty, but %d is extracted", (unsigned long long) idx, s, r); }
            else if (r < 0 || r >= pool || !is[r] || val[r] != mn) h_fail("history %llu, step %d: %d is extracted, which is not a minimum", (unsigned long long) idx, s, r);
            else { is[r] = false; cnt--; memset(&nd[r], 0x44, sizeof nd[r]); }
        } else if (sel < 8) {                                   /* decrease */
            int k = (s * 31 + c * s * s + a) % pool, q = 0; while (!is[k] && q++ < pool) k = (k + 1) % pool;
            if (!is[k]) continue;
            double nv = sel < 4 ? val[k] : sel < 6 ? val[k] - (s % 5) : val[k] - 20 - (s % 13);
            decrease_value(&h, &nd[k], nv); val[k] = nv;
        } else if (sel == 8 && delete_node) {
            int k = (s * 17 + c) % pool, q = 0; while (!is[k] && q++ < pool) k = (k + 1) % pool;
            if (!is[k]) continue;
            delete_node(&h, &nd[k]); is[k] = false; cnt--; memset(&nd[k], 0x44, sizeof nd[k]);
        } else {
            int k = 0; while (k < pool && is[k]) k++;
            if (k == pool) continue;
            val[k] = (s * 7 + c) % 40 - d * 3; create_insert_node(&h, &nd[k], (unsigned short) k, val[k]); is[k] = true; cnt++;
        }
        h_count(T_TRANS, 1);
        if (h.num_nodes != cnt && !h_failed()) h_fail("history %llu, step %d: %d keys are in the heap, it reports %d", (unsigned long long) idx, s, cnt, h.num_nodes);
    }
    while (cnt > 0 && !h_failed()) {
        int r = extract_min(&h); double mn = HINF;
        for (int k = 0; k < pool; k++) if (is[k] && val[k] < mn) mn = val[k];
        if (r < 0 || r >= pool || !is[r] || val[r] != mn) h_fail("history %llu, final extractions: %d is extracted, which is not a minimum", (unsigned long long) idx, r);
        else { is[r] = false; cnt--; }
        h_count(T_TRANS, 1);
    }
    if (!h_failed() && extract_min(&h) != -1) h_fail("history %llu: something is extracted from the empty heap", (unsigned long long) idx);
    h_count(T_EXEC, 1); h_outcome(h_hash_u(77, idx));
    if (idx % 500 == 7) h_sample("history %llu: %d keys, %d operations", (unsigned long long) idx, N, steps);
}
/* thin trees: a binomial tree of 2^k keys from which children are cut in every pattern of the listed kinds */
static void m_heapthin(uint64_t idx, void *ctx) {
    (void) ctx;
    static OrdTreeNode nd[1100]; static double val[1100]; static bool is[1100]; static FibonacciHeap h;
    int pol = (int) (idx % 6); idx /= 6; int how = (int) (idx % 3); idx /= 3; int lev = (int) (idx % 4); idx /= 4; int k = 2 + (int) idx;
    int N = (1 << k) + 1, cnt = 0;
    h_note("thin heap: %d keys, policy %d/%d/%d", N, pol, how, lev);
    create_fibonacci_heap(&h); memset(is, 0, sizeof is);
    for (int i = 0; i < N; i++) { val[i] = i; create_insert_node(&h, &nd[i], (unsigned short) i, val[i]); is[i] = true; cnt++; }
    double low = -1; int alive = N;
#define EX() do { int r_ = extract_min(&h); double mn_ = HINF; for (int q_ = 0; q_ < N; q_++) if (is[q_] && val[q_] < mn_) mn_ = val[q_]; h_count(T_TRANS, 1); \
        if (r_ < 0 || r_ >= N || !is[r_] || val[r_] != mn_) { h_fail("thin heap of %d keys, policy %d/%d/%d: %d is extracted, which is not a minimum", N, pol, how, lev, r_); return; } is[r_] = false; cnt--; } while (0)
    EX(); alive--;
    int rounds = how == 2 ? 3 : 1;
    for (int rd = 0; rd < rounds; rd++) {
        /* victims: one child of every node that is not a root */
        static int vict[1100]; int nv = 0;
        for (int i = 0; i < N; i++) if (is[i] && nd[i].parent != NULL && nd[i].num_children > 0) {
            OrdTreeNode *c = nd[i].head_child_list, *best = NULL; int m = nd[i].num_children;
            int want = pol == 0 ? m - 1 : pol == 1 ? 0 : pol == 2 ? m / 2 : pol == 3 ? (m > 1 ? m - 2 : 0) : pol == 4 ? i % m : (i * 7 + m) % m;
            if (lev && i % (lev + 1) == lev) continue;
            for (int q = 0; q < m; q++) { if (q == want) best = c; c = c->right_sibling; }
            /* by number of children for the first policies */
            if (pol == 0) { c = nd[i].head_child_list; best = c; for (int q = 0; q < m; q++) { if (c->num_children >= best->num_children) best = c; c = c->right_sibling; } }
            if (best) vict[nv++] = best->key;
        }
        static bool cutset[1100]; memset(cutset, 0, sizeof cutset);
        for (int i = 0; i < nv; i++) { int v = vict[i]; if (!is[v] || cutset[v]) continue; cutset[v] = true; low -= 1; val[v] = low; decrease_value(&h, &nd[v], low); h_count(T_TRANS, 1); }
        /* remove everything that is now in a tree of its own, but for the biggest tree */
        if (how >= 1) {
            int root = -1; unsigned best = 0;
            for (int i = 0; i < N; i++) if (is[i] && nd[i].parent == NULL && nd[i].num_children >= best) { best = nd[i].num_children; root = i; }
            static bool keep[1100]; for (int i = 0; i < N; i++) { OrdTreeNode *p = &nd[i]; if (!is[i]) { keep[i] = false; continue; } while (p->parent) p = p->parent; keep[i] = p->key == root; }
            for (int i = N - 1; i >= 0; i--) if (is[i] && !keep[i] && delete_node && cnt > 1) {
                delete_node(&h, &nd[i]); is[i] = false; cnt--; h_count(T_TRANS, 1);
                if (how == 1 && i % 7 == 0 && h.num_nodes != cnt) { h_fail("thin heap: %d keys are in the heap, it reports %d", cnt, h.num_nodes); return; }
            }
        }
    }
    h_max(T_MAX, (uint64_t) cnt);
    while (cnt > 0) EX();
    if (extract_min(&h) != -1) h_fail("thin heap of %d keys: something is extracted from the empty heap", N);
    h_count(T_EXEC, 1); h_outcome(h_hash_u(h_hash_u(9, (uint64_t) (pol + 6 * how + 18 * lev)), (uint64_t) N));
    if (pol == 0 && lev == 0) h_sample("binomial tree of %d keys, policy %d/%d/%d", N, pol, how, lev);
}

/* ---------------------------------------------------------------- union-find (P18) */
static struct { Forest f; signed char block[HMAX]; } U;
static int un, uout;
static const char *set_op(int op) { static char b[4][40]; static int z; char *s = b[z++ & 3]; if (op < 1000) snprintf(s, 40, "merge(%d,%d)", op / 32, op % 32); else snprintf(s, 40, "find(%d)", op - 1000); return s; }
static void m_sets(uint64_t idx, void *ctx) {
    (void) ctx;
    un = (int) h_argi("--n", 5); uout = (int) idx - 1;         /* case 0: all nodes; case k: node k-1 is left out */
    static Node nodes[HMAX]; memset(nodes, 0, sizeof nodes);
    for (int i = 0; i < un; i++) { nodes[i].positionInGraph = (unsigned short) i; nodes[i].x = i; nodes[i].y = -i; }
    memset(&U, 0, sizeof U);
    h_note("union-find of %d nodes, %d left out", un, uout);
    if (uout < 0) create_forest(&U.f, nodes, (unsigned short) un); else create_forest_constrained(&U.f, nodes, (unsigned short) un, (unsigned short) uout);
    for (int i = 0; i < un; i++) U.block[i] = (signed char) i;
    bfs_init(&U, sizeof U, (uint32_t) h_argi("--max-states", 2000000)); bfs_add(0, -1);
    uint64_t trans = 0; uint32_t cur = 0;
    for (; cur < nrec && !h_failed(); cur++) {
        for (int op = 0; op < 1000 + un && !h_failed(); op++) {
            int i = op / 32, j = op % 32;
            if (op < 1000 && (i >= un || j >= un || i == uout || j == uout)) { if (op == 999) continue; if (i >= un) op = 999; continue; }
            if (op >= 1000 && op - 1000 == uout) continue;
            bfs_load(cur); trans++;
            h_note("union-find of %d nodes, %d left out: %s", un, uout, bfs_trace(cur, op, set_op));
            if (op < 1000) { merge(&U.f.sets[i], &U.f.sets[j]); int a = U.block[i], b = U.block[j]; for (int q = 0; q < un; q++) if (U.block[q] == b) U.block[q] = (signed char) a; 
                /* name of a block: its smallest member */
                int mn = un; for (int q = 0; q < un; q++) if (U.block[q] == a && q < mn) mn = q; for (int q = 0; q < un; q++) if (U.block[q] == a) U.block[q] = (signed char) mn; }
            else { Set *r = find(&U.f.sets[op - 1000]); ptrdiff_t w = r - U.f.sets; if (w < 0 || w >= un || U.block[w] != U.block[op - 1000]) h_fail("%s gives a node of another block: %s", set_op(op), bfs_trace(cur, op, set_op)); }
            if (h_failed()) break;
            bool fresh = bfs_add(cur, op);
            if (!fresh) continue;
            Set *root[HMAX];
            for (int q = 0; q < un; q++) if (q != uout) { root[q] = find(&U.f.sets[q]); ptrdiff_t w = root[q] - U.f.sets; if (w < 0 || w >= un || w == uout) { h_fail("the representative of %d is outside of the forest: %s", q, bfs_trace(cur, op, set_op)); break; } }
            for (int q = 0; q < un && !h_failed(); q++) for (int r = 0; r < un && !h_failed(); r++) if (q != uout && r != uout && (root[q] == root[r]) != (U.block[q] == U.block[r]))
                h_fail("%d and %d have %s representative%s: %s", q, r, root[q] == root[r] ? "the same" : "different", root[q] == root[r] ? "" : "s", bfs_trace(cur, op, set_op));
            for (int q = 0; q < un && !h_failed(); q++) if (q != uout && (U.f.sets[q].curr.positionInGraph != q || U.f.sets[q].num_in_forest != q)) h_fail("the set of node %d holds another node: %s", q, bfs_trace(cur, op, set_op));
        }
        free(recs[cur].mem); recs[cur].mem = NULL;
    }
    if (nrec >= maxrec) h_count(T_SKIP, 1);
    h_count(T_STATES, nrec); h_count(T_TRANS, trans); h_count(T_EXEC, trans); h_outcome(h_hash_u(h_hash_u(1, idx), nrec));
    h_sample("%d nodes, %d left out: %u states, %llu operations", un, uout, nrec, (unsigned long long) trans);
    for (uint32_t i = cur; i < nrec; i++) free(recs[i].mem);
    free(recs); free(tab);
}
/* many nodes: families of merge sequences */
static void m_setsrun(uint64_t idx, void *ctx) {
    (void) ctx;
    static Forest f; static Node nodes[HMAX]; int n = (int) h_argi("--n", 16), b[HMAX];
    uint64_t x = idx; int a = (int) (x % 8); x /= 8; int c = (int) (x % 8); x /= 8; int d = (int) (x % 8); x /= 8; int out = (int) x - 1;
    if (n > 100 && out > 0 && out != n / 2 && out != n - 1) { h_count(T_SKIP, 1); return; }
    h_note("union-find sequence %d %d %d of %d nodes, %d left out", a, c, d, n, out);
    memset(&f, 0x5a, sizeof f);
    for (int i = 0; i < n; i++) { nodes[i].positionInGraph = (unsigned short) i; b[i] = i; }
    if (out < 0) create_forest(&f, nodes, (unsigned short) n); else create_forest_constrained(&f, nodes, (unsigned short) n, (unsigned short) out);
    for (int s = 0; s < 3 * n && !h_failed(); s++) {
        int i = (s * (a + 1) + s * s * d + c) % n, j = (s * (c + 2) + s / 2 + a * d) % n;
        if (i == out || j == out) continue;
        if (s % 4 == d % 4) (void) find(&f.sets[j]);
        merge(&f.sets[i], &f.sets[j]); h_count(T_TRANS, 1);
        int p = b[i], q = b[j]; for (int k = 0; k < n; k++) if (b[k] == q) b[k] = p;
        for (int u = 0; u < n && !h_failed(); u++) for (int v = 0; v < n; v++) if (u != out && v != out && s % (1 + a) == 0 && (n <= 100 || s % 29 == 0))
            if ((find(&f.sets[u]) == find(&f.sets[v])) != (b[u] == b[v])) { h_fail("sequence %d %d %d of %d nodes, step %d: %d and %d", a, c, d, n, s, u, v); break; }
    }
    for (int u = 0; u < n && !h_failed(); u++) for (int v = 0; v < n; v++) if (u != out && v != out && (find(&f.sets[u]) == find(&f.sets[v])) != (b[u] == b[v])) { h_fail("sequence %d %d %d of %d nodes, %d left out: %d and %d", a, c, d, n, out, u, v); break; }
    h_count(T_EXEC, 1); h_outcome(h_hash_u(3, idx));
}

/* ---------------------------------------------------------------- spanning trees (P15) */
static int dcmp(const void *a, const void *b) { double x = *(const double *) a, y = *(const double *) b; return x < y ? -1 : x > y; }
static double mst_w[HMAX];                     /* the weights of a minimum spanning tree, sorted (the same for all of them) */
static double mst_oracle(int *comps) {         /* Prim on the matrix */
    int n = in.n; bool inn[HMAX] = {false}; double d[HMAX], tot = 0; int nc = 0, z = 0;
    for (int i = 0; i < n; i++) d[i] = INFINITY;
    for (int k = 0; k < n; k++) {
        int b = -1; for (int i = 0; i < n; i++) if (!inn[i] && (b < 0 || d[i] < d[b])) b = i;
        if (d[b] == INFINITY) nc++; else { tot += d[b]; mst_w[z++] = d[b]; }
        inn[b] = true;
        for (int j = 0; j < n; j++) if (!inn[j] && in.has[b][j] && in.w[b][j] < d[j]) d[j] = in.w[b][j];
    }
    qsort(mst_w, (size_t) z, sizeof *mst_w, dcmp);
    *comps = nc; return tot;
}
static bool mst_check(const MST *m, const char *alg, double opt, int comps, const char *t) {
    int n = in.n; double c = 0, p = 0, sc = 0, ws[HMAX]; int uf[HMAX]; for (int i = 0; i < n; i++) uf[i] = i;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in.has[i][j]) sc += fabs(in.w[i][j]);
    if (m->isValid != (comps == 1)) { h_fail("%s flags the tree as %svalid, the graph has %d components: %s", alg, m->isValid ? "" : "not ", comps, t); return false; }
    if (!m->isValid) return true;
    if (m->num_edges != n - 1 || m->num_nodes != n) { h_fail("%s: a tree of %d nodes and %d edges: %s", alg, m->num_nodes, m->num_edges, t); return false; }
    for (int e = 0; e < n - 1; e++) {
        int a = m->edges[e].src, b = m->edges[e].dest;
        if (a >= n || b >= n || a == b || !in.has[a][b]) { h_fail("%s: the tree holds %d-%d: %s", alg, a, b, t); return false; }
        int x = a, y = b; while (uf[x] != x) x = uf[x]; while (uf[y] != y) y = uf[y];
        if (x == y) { h_fail("%s: the edges close a cycle: %s", alg, t); return false; }
        uf[x] = y; c += in.w[a][b]; p += in.p[a][b]; ws[e] = in.w[a][b];
        if (m->edges[e].weight != in.w[a][b]) { h_fail("%s: edge %d-%d has weight %g: %s", alg, a, b, m->edges[e].weight, t); return false; }
    }
    qsort(ws, (size_t) (n - 1), sizeof *ws, dcmp);
    for (int e = 0; e < n - 1; e++) if (fabs(ws[e] - mst_w[e]) > 1e-12 * fabs(mst_w[e])) { h_fail("%s: the %d-th lightest edge of the tree costs %.12g, in a minimum tree it costs %.12g: %s", alg, e + 1, ws[e], mst_w[e], t); return false; }
    if (fabs(c - opt) > 1e-12 * sc * n) { h_fail("%s: a tree of cost %.12g, the minimum is %.12g: %s", alg, c, opt, t); return false; }
    if (fabs(m->cost - c) > 1e-12 * sc * n) { h_fail("%s: cost %.12g is reported, the edges cost %.12g: %s", alg, m->cost, c, t); return false; }
    if (n > 1 && HYBRID && fabs(m->prob - p / (n - 1)) > 1e-5) { h_fail("%s: probability %g is reported, the mean is %g: %s", alg, m->prob, p / (n - 1), t); return false; }
    return true;
}
static void decode(uint64_t idx) {
    fam_by_name(&in, FAM, idx / NP); prob_by_name(&in, PROB, idx % NP);
    double sh = h_argf("--shift", 0); int n = in.n;
    if (sh != 0) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in.has[i][j]) in.w[i][j] += sh;
    if (!HYBRID) memset(in.p, 0, sizeof in.p);
}
static void m_mst(uint64_t idx, void *ctx) {
    (void) ctx;
    static MST a, b; int comps;
    decode(idx); char *t = inst_text(&in); double opt = mst_oracle(&comps);
    for (int k = 0; k < 2 && !h_failed(); k++) {          /* in both orders */
        memset(&a, 0x5a, sizeof a); memset(&b, 0x66, sizeof b); inst_graph(&in, &g); 
        h_note("spanning trees: %s", t);
        if (k == 0) { prim(&g, &a); kruskal(&g, &b); } else { kruskal(&g, &b); prim(&g, &a); kruskal(&g, &b); }
        if (!mst_check(&a, "Prim", opt, comps, t) || !mst_check(&b, "Kruskal", opt, comps, t)) break;
        if (a.isValid && fabs(a.cost - b.cost) > 1e-9 * (1 + fabs(a.cost)) * in.n) h_fail("Prim finds a tree of cost %.12g, Kruskal one of cost %.12g: %s", a.cost, b.cost, t);
        h_count(T_EXEC, 1); h_count(T_TRANS, (uint64_t) a.num_edges + b.num_edges); if (a.isValid) h_count(T_VALID, 1);
        uint64_t h = 7; for (int e = 0; a.isValid && e < in.n - 1; e++) h = h_hash_u(h_hash_u(h, (uint64_t) a.edges[e].src * 32 + a.edges[e].dest), (uint64_t) b.edges[e].src * 32 + b.edges[e].dest); h_outcome(h);
    }
    if (idx % 5003 == 7) h_sample("%s: %g, %d components", t, opt, comps);
    free(t);
}

/* ---------------------------------------------------------------- sorting (P16) */
static bool sorted_ok(const char *when, const char *t) {
    int n = in.n, m = inst_edges(&in); bool seen[HMAX][HMAX] = {{false}};
    if (g.num_edges != m || g.num_nodes != n) { h_fail("%s: %d nodes and %d edges: %s", when, g.num_nodes, g.num_edges, t); return false; }
    for (int e = 0; e < m; e++) {
        const Edge *d = &g.edges[e]; int a = d->src, b = d->dest;
        if (a >= n || b >= n || !in.has[a][b] || seen[a][b]) { h_fail("%s: edge %d-%d at position %d is %s: %s", when, a, b, e, a < n && b < n && seen[a][b] ? "there twice" : "not in the graph", t); return false; }
        seen[a][b] = seen[b][a] = true;
        if (d->weight != in.w[a][b] || d->prob != in.p[a][b]) { h_fail("%s: edge %d-%d changed weight or probability: %s", when, a, b, t); return false; }
        if (d->positionInGraph != e || g.edges_matrix[a][b].positionInGraph != e || g.edges_matrix[b][a].positionInGraph != e) { h_fail("%s: edge %d-%d is at position %d, its index says %d, %d, %d: %s", when, a, b, e, d->positionInGraph, g.edges_matrix[a][b].positionInGraph, g.edges_matrix[b][a].positionInGraph, t); return false; }
        for (int q = 0; q < 2; q++) { const Edge *x = q ? &g.edges_matrix[b][a] : &g.edges_matrix[a][b]; if (x->weight != in.w[a][b] || x->prob != in.p[a][b] || !((x->src == a && x->dest == b) || (x->src == b && x->dest == a))) { h_fail("%s: the matrix holds another edge at %d-%d: %s", when, a, b, t); return false; } }
        if (e && (d->weight < d[-1].weight || (HYBRID && d->weight == d[-1].weight && d->prob > d[-1].prob))) { h_fail("%s: position %d (%g, %g) is before %d (%g, %g): %s", when, e - 1, d[-1].weight, d[-1].prob, e, d->weight, d->prob, t); return false; }
    }
    return true;
}
static void m_sort(uint64_t idx, void *ctx) {
    (void) ctx;
    decode(idx); int n = in.n; char *t = inst_text(&in);
    /* the edges are given to the graph in an order that is not the sorted one: by rows */
    inst_graph(&in, &g);
    h_note("sort: %s", t);
    wrap_quick_sort(&g); h_count(T_EXEC, 1); h_count(T_TRANS, g.num_edges);
    if (sorted_ok("sorted", t)) {
        g1 = g; wrap_quick_sort(&g);
        for (int e = 0; e < g.num_edges && !h_failed(); e++) if (g.edges[e].src != g1.edges[e].src || g.edges[e].dest != g1.edges[e].dest) h_fail("sorting again changes the order: %s", t);
        if (!h_failed()) sorted_ok("sorted twice", t);
        /* weights change, as in the search, and the edges are sorted again */
        for (int k = 0; k < 3 && !h_failed(); k++) {
            for (int e = 0; e < g.num_edges; e++) {
                int a = g.edges[e].src, b = g.edges[e].dest; double w = k == 0 ? -in.w[a][b] : k == 1 ? (a * 7 + b * 3) % 5 : in.w[a][b] + ((a + b) % 2 ? 1.5 : 0);
                in.w[a][b] = in.w[b][a] = w; g.edges[e].weight = w; g.edges_matrix[a][b].weight = w; g.edges_matrix[b][a].weight = w;
            }
            g.orderedEdges = false;
            wrap_quick_sort(&g); h_count(T_EXEC, 1); h_count(T_TRANS, g.num_edges);
            sorted_ok("sorted after the weights have changed", t);
        }
    }
    uint64_t h = 5; for (int e = 0; e < g.num_edges; e++) h = h_hash_u(h, (uint64_t) g.edges[e].src * 32 + g.edges[e].dest); h_outcome(h);
    if (idx % 5003 == 7) h_sample("%s", t);
    (void) n; free(t);
}

/* ---------------------------------------------------------------- lists (P19) */
static int D;
static char lt[600]; static size_t lto;
static bool list_check(List *l, int **m, int n) {
    if (get_list_size(l) != (size_t) n || is_list_empty(l) != (n == 0)) { h_fail("size %zu instead of %d:%s", get_list_size(l), n, lt); return false; }
    DllElem *p = NULL; int i = 0;
    for (DllElem *e = l->head; e && i <= n; p = e, e = e->next, i++) if (i >= n || e->value != m[i] || e->prev != p) { h_fail("wrong element or link at position %d:%s", i, lt); return false; }
    if (i != n || l->tail != p) { h_fail("the list has %d elements linked instead of %d, or a wrong last one:%s", i, n, lt); return false; }
    for (int k = 0; k < n + 2; k++) if (get_list_elem_index(l, (size_t) k) != (k < n ? m[k] : NULL)) { h_fail("wrong element at index %d:%s", k, lt); return false; }
    ListIterator *it = create_list_iterator(l);
    for (int k = 0; k < n; k++) {
        if (!is_list_iterator_valid(it) || get_current_list_iterator_element(it) != m[k] || list_iterator_get_next(it) != m[k]) { h_fail("wrong element %d of the iteration:%s", k, lt); delete_list_iterator(it); return false; }
    }
    if (is_list_iterator_valid(it) || list_iterator_get_next(it) != NULL) { h_fail("the iteration does not end:%s", lt); delete_list_iterator(it); return false; }
    delete_list_iterator(it);
    it = create_list_iterator(l);
    for (int k = 0; k < n; k += 2) { if (get_current_list_iterator_element(it) != m[k]) h_fail("wrong element %d of the iteration by steps:%s", k, lt); list_iterator_next(it); list_iterator_next(it); }
    delete_list_iterator(it);
    return !h_failed();
}
static void m_list(uint64_t idx, void *ctx) {
    (void) ctx;
    static int cell[400]; int *m[400], L0 = (int) h_argi("--start", 0), n = 0; uint64_t x = idx; int B = 2 * (L0 + D + 3) + 2, len = (int) (x % (uint64_t) D) + 1; x /= (uint64_t) D;
    int ops[16]; for (int s = 0; s < D; s++) { ops[s] = (int) (x % (uint64_t) B); x /= (uint64_t) B; if (s >= len && ops[s]) { h_count(T_SKIP, 1); return; } }
    size_t before = h_heap_used();
    List *l = new_list(); lto = 0; lt[0] = 0;
    if (L0) lto += (size_t) snprintf(lt, sizeof lt, " add 100 to %d;", 99 + L0);
    for (int q = 0; q < L0; q++) { cell[100 + q] = 100 + q; add_elem_list_bottom(l, &cell[100 + q]); m[n++] = &cell[100 + q]; }
    for (int s = 0; s < len && !h_failed(); s++) {
        int o = ops[s], i = (o - 2) / 2;
        if (o >= 2 && i > n + 1) { h_count(T_SKIP, 1); break; }      /* the same as index n+1 */
        cell[s] = s;
        if (o == 0) { lto += (size_t) snprintf(lt + lto, sizeof lt - lto, " add %d;", s); h_note("list:%s", lt); add_elem_list_bottom(l, &cell[s]); m[n++] = &cell[s]; }
        else if (o == 1) { lto += (size_t) snprintf(lt + lto, sizeof lt - lto, " delete last;"); h_note("list:%s", lt); delete_list_elem_bottom(l); if (n) n--; }
        else if (o % 2 == 0) { lto += (size_t) snprintf(lt + lto, sizeof lt - lto, " add %d at %d;", s, i); h_note("list:%s", lt); add_elem_list_index(l, &cell[s], (size_t) i); if (i <= n) { for (int q = n; q > i; q--) m[q] = m[q - 1]; m[i] = &cell[s]; n++; } }
        else { lto += (size_t) snprintf(lt + lto, sizeof lt - lto, " delete at %d;", i); h_note("list:%s", lt); delete_list_elem_index(l, (size_t) i); if (i < n) { for (int q = i; q + 1 < n; q++) m[q] = m[q + 1]; n--; } }
        h_count(T_TRANS, 1);
        list_check(l, m, n);
    }
    uint64_t h = 3; for (int i = 0; i < n; i++) h = h_hash_u(h, (uint64_t) *m[i]); h_outcome(h);
    if (!h_failed()) del_list(l);
    if (!h_failed() && h_heap_used() > before) h_fail("%zu bytes are still allocated after the list was deleted:%s", h_heap_used() - before, lt);
    h_count(T_EXEC, 1);
    if (idx % 700001 == 7) h_sample("%s", lt);
}
static void m_sublist(uint64_t idx, void *ctx) {
    (void) ctx;
    static SubProblem src; int m[400], L0 = (int) h_argi("--start", 0), n = 0; uint64_t x = idx; int B = 2 * (L0 + D + 3) + 1, len = (int) (x % (uint64_t) D) + 1; x /= (uint64_t) D;
    int ops[16]; for (int s = 0; s < D; s++) { ops[s] = (int) (x % (uint64_t) B); x /= (uint64_t) B; if (s >= len && ops[s]) { h_count(T_SKIP, 1); return; } }
    size_t before = h_heap_used();
    SubProblemsList l; memset(&l, 0x77, sizeof l); new_SubProblemList(&l); lto = 0; lt[0] = 0;
    if (L0) lto += (size_t) snprintf(lt, sizeof lt, " add 100 to %d;", 99 + L0);
    for (int q = 0; q < L0; q++) { memset(&src, 100 + q + 1, sizeof src); src.id = (unsigned) (100 + q); src.value = (100 + q) * 1.5; add_elem_SubProblemList_bottom(&l, &src); m[n++] = 100 + q; }
    for (int s = 0; s < len && !h_failed(); s++) {
        int o = ops[s], i = (o - 1) / 2;
        if (o >= 1 && i > n + 1) { h_count(T_SKIP, 1); break; }
        memset(&src, s + 1, sizeof src); src.id = (unsigned) s; src.value = s * 1.5;
        if (o == 0) { lto += (size_t) snprintf(lt + lto, sizeof lt - lto, " add %d;", s); h_note("subproblems:%s", lt); add_elem_SubProblemList_bottom(&l, &src); m[n++] = s; }
        else if (o % 2 == 1) { lto += (size_t) snprintf(lt + lto, sizeof lt - lto, " add %d at %d;", s, i); h_note("subproblems:%s", lt); add_elem_SubProblemList_index(&l, &src, (size_t) i); if (i <= n) { for (int q = n; q > i; q--) m[q] = m[q - 1]; m[i] = s; n++; } }
        else { lto += (size_t) snprintf(lt + lto, sizeof lt - lto, " delete at %d;", i); h_note("subproblems:%s", lt); delete_SubProblemList_elem_index(&l, (size_t) i); if (i < n) { for (int q = i; q + 1 < n; q++) m[q] = m[q + 1]; n--; } }
        h_count(T_TRANS, 1);
        memset(&src, 0xEE, sizeof src);               /* the list holds copies */
        if (get_SubProblemList_size(&l) != (size_t) n || is_SubProblemList_empty(&l) != (n == 0)) { h_fail("size %zu instead of %d:%s", get_SubProblemList_size(&l), n, lt); break; }
        SubProblemElem *p = NULL; int k = 0;
        for (SubProblemElem *e = l.head; e && k <= n; p = e, e = e->next, k++) if (k >= n || e->prev != p || e->subProblem.id != (unsigned) m[k] || e->subProblem.value != m[k] * 1.5 || ((unsigned char *) e->subProblem.constraints)[5] != (unsigned char) (m[k] + 1) || ((unsigned char *) &e->subProblem.oneTree)[40] != (unsigned char) (m[k] + 1)) { h_fail("wrong subproblem or link at position %d:%s", k, lt); break; }
        if (!h_failed() && (k != n || l.tail != p)) h_fail("%d subproblems are linked instead of %d, or the last one is wrong:%s", k, n, lt);
        for (int q = 0; q < n + 2 && !h_failed(); q++) { SubProblem *e = get_SubProblemList_elem_index(&l, (size_t) q); if (q >= n ? e != NULL : (!e || e->id != (unsigned) m[q])) h_fail("wrong subproblem at index %d:%s", q, lt); }
        if (h_failed()) break;
        SubProblemsListIterator *it = create_SubProblemList_iterator(&l);
        for (int q = 0; q < n && !h_failed(); q++) { if (!is_SubProblemList_iterator_valid(it)) { h_fail("the iteration ends at %d:%s", q, lt); break; } SubProblem *e = SubProblemList_iterator_get_next(it); if (!e || e->id != (unsigned) m[q]) h_fail("wrong subproblem %d of the iteration:%s", q, lt); }
        if (!h_failed() && (is_SubProblemList_iterator_valid(it) || SubProblemList_iterator_get_next(it) != NULL)) h_fail("the iteration does not end:%s", lt);
        delete_SubProblemList_iterator(it);
    }
    uint64_t h = 4; for (int i = 0; i < n; i++) h = h_hash_u(h, (uint64_t) m[i]); h_outcome(h);
    if (!h_failed()) delete_SubProblemList(&l);
    if (!h_failed() && h_heap_used() > before) h_fail("%zu bytes are still allocated after the list was deleted:%s", h_heap_used() - before, lt);
    h_count(T_EXEC, 1);
    if (idx % 70001 == 7) h_sample("%s", lt);
}

/* ---------------------------------------------------------------- building and printing graphs (P30) */
static bool graph_ok(const Inst *w, const double (*xy)[2], double wtol, const char *t) {
    int n = w->n, m = inst_edges(w); bool seen[HMAX][HMAX] = {{false}}; double cost = 0, sc = 1;
    if (g.num_nodes != n || g.num_edges != m) { h_fail("the graph has %d nodes and %d edges instead of %d and %d: %s", g.num_nodes, g.num_edges, n, m, t); return false; }
    for (int e = 0; e < m; e++) {
        int a = g.edges[e].src, b = g.edges[e].dest;
        if (a >= n || b >= n || a == b || !w->has[a][b] || seen[a][b]) { h_fail("edge %d is %d-%d: %s", e, a, b, t); return false; }
        seen[a][b] = seen[b][a] = true; cost += g.edges[e].weight; sc += fabs(g.edges[e].weight);
        if (fabs(g.edges[e].weight - w->w[a][b]) > wtol * (1 + fabs(w->w[a][b])) || fabs(g.edges[e].prob - w->p[a][b]) > 1e-12) { h_fail("edge %d-%d has weight %.9g and probability %g instead of %.9g and %g: %s", a, b, g.edges[e].weight, g.edges[e].prob, w->w[a][b], w->p[a][b], t); return false; }
        if (g.edges[e].positionInGraph != e) { h_fail("edge %d-%d has position %d instead of %d: %s", a, b, g.edges[e].positionInGraph, e, t); return false; }
        for (int q = 0; q < 2; q++) { const Edge *x = q ? &g.edges_matrix[b][a] : &g.edges_matrix[a][b]; if (x->weight != g.edges[e].weight || x->prob != g.edges[e].prob || x->positionInGraph != e || !((x->src == a && x->dest == b) || (x->src == b && x->dest == a))) { h_fail("the adjacency matrix does not hold edge %d-%d: %s", a, b, t); return false; } }
    }
    if (fabs(g.cost - cost) > 1e-9 * sc) { h_fail("the graph costs %.12g, its edges %.12g: %s", g.cost, cost, t); return false; }
    for (int i = 0; i < n; i++) {
        bool nb[HMAX] = {false}; int deg = 0;
        for (int j = 0; j < n; j++) deg += i != j && w->has[i][j];
        if (g.nodes[i].num_neighbours != deg || g.nodes[i].positionInGraph != i || g.nodes[i].x != xy[i][0] || g.nodes[i].y != xy[i][1]) { h_fail("node %d has position %d, %d neighbours and coordinates (%g, %g): %s", i, g.nodes[i].positionInGraph, g.nodes[i].num_neighbours, g.nodes[i].x, g.nodes[i].y, t); return false; }
        for (int k = 0; k < deg; k++) { int j = g.nodes[i].neighbours[k]; if (j >= n || j == i || !w->has[i][j] || nb[j]) { h_fail("neighbour %d of node %d is %d: %s", k, i, j, t); return false; } nb[j] = true; }
    }
    return true;
}
/* the edges in a printed text, in the form  <number> <--> <number> ... weight = <w> ... prob = <p> */
static bool printed_ok(const char *s, const Inst *w, int count, city_set only[HMAX], double wscale, const char *what, const char *t) {
    bool seen[HMAX][HMAX] = {{false}}; int n = w->n, k = 0;
    for (const char *p = strstr(s, "<-->"); p; p = strstr(p + 4, "<-->")) {
        const char *q = p; while (q > s && (q[-1] == ' ' || q[-1] == '\t')) q--;
        while (q > s && q[-1] >= '0' && q[-1] <= '9') q--;
        int a = atoi(q), b = atoi(p + 4); const char *eol = strchrnul(p, '\n');
        const char *pw = strstr(p, "weight ="), *pp = strstr(p, "prob =");
        if (a < 0 || b < 0 || a >= n || b >= n || a == b || !(only[a] >> b & 1) || seen[a][b]) { h_fail("%s: edge %d-%d is printed%s: %s", what, a, b, a < n && b < n && a >= 0 && b >= 0 && seen[a][b] ? " twice" : "", t); return false; }
        seen[a][b] = seen[b][a] = true; k++;
        if (!pw || pw > eol || !pp || pp > eol) { h_fail("%s: no weight or probability is printed for %d-%d: %s", what, a, b, t); return false; }
        double x = atof(pw + 8), y = atof(pp + 6);
        if (fabs(x - w->w[a][b]) > 1e-6 + wscale * fabs(w->w[a][b]) || fabs(y - w->p[a][b]) > 2e-6) { h_fail("%s: weight %.9g and probability %g are printed for %d-%d instead of %.9g and %g: %s", what, x, y, a, b, w->w[a][b], w->p[a][b], t); return false; }
    }
    if (k != count) { h_fail("%s: %d edges are printed instead of %d: %s", what, k, count, t); return false; }
    return true;
}
static void m_graph(uint64_t idx, void *ctx) {
    (void) ctx;
    static Node nd[HMAX]; static Edge ed[HMAX * HMAX]; static double xy[HMAX][2]; static MST mst;
    int variants = (int) h_argi("--variants", 6), var = (int) (idx % (uint64_t) variants); uint64_t x = idx / (uint64_t) variants;
    decode(x); int n = in.n, m = 0; char *t = inst_text(&in);
    List *nl = new_list(), *el = new_list();
    memset(nd, 0x21, sizeof nd); memset(ed, 0x21, sizeof ed); memset(&g, 0x5b, sizeof g);
    for (int i = 0; i < n; i++) { nd[i].positionInGraph = (unsigned short) i; nd[i].x = xy[i][0] = i * 0.37 - var; nd[i].y = xy[i][1] = 1.0 / (i + 1 + var); nd[i].num_neighbours = 0; add_elem_list_bottom(nl, &nd[i]); }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (in.has[i][j]) {
        bool flip = var % 3 == 1 || (var % 3 == 2 && (i + j) % 2); Edge *e = &ed[m];
        e->src = (unsigned short) (flip ? j : i); e->dest = (unsigned short) (flip ? i : j); e->weight = in.w[i][j]; e->prob = in.p[i][j]; e->symbol = (unsigned short) (m + 1); e->positionInGraph = (unsigned short) m; m++;
    }
    for (int k = 0; k < m; k++) { int e = var < 3 ? k : m - 1 - k; add_elem_list_bottom(el, &ed[e]); }
    h_note("graph: %s", t);
    create_graph(&g, nl, el, WEIGHTED_GRAPH);
    h_count(T_EXEC, 1); h_count(T_TRANS, (uint64_t) m);
    city_set all[HMAX] = {0}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in.has[i][j]) all[i] |= (city_set) 1 << j;
    if (graph_ok(&in, (const double (*)[2]) xy, 0, t)) {
        h_capture_begin(); print_graph(&g); const char *s = h_capture_end();
        if (printed_ok(s, &in, m, all, 1e-9, "graph", t)) {
            memset(&mst, 0x44, sizeof mst); prim(&g, &mst);
            city_set tr[HMAX] = {0}; for (int e = 0; e < mst.num_edges; e++) { tr[mst.edges[e].src] |= (city_set) 1 << mst.edges[e].dest; tr[mst.edges[e].dest] |= (city_set) 1 << mst.edges[e].src; }
            h_capture_begin(); print_mst(&mst); s = h_capture_end();
            if (printed_ok(s, &in, mst.num_edges, tr, 1e-9, "tree", t)) {
                for (int e = 0; e < mst.num_edges; e++) mst.edges[e].weight += 5;       /* the tree of modified weights, printed with the original ones */
                h_capture_begin(); print_mst_original_weight(&mst, &g); s = h_capture_end();
                printed_ok(s, &in, mst.num_edges, tr, 1e-9, "tree with original weights", t);
            }
        }
        h_outcome(h_hash(3, s, strlen(s)));
    }
    if (idx % 5003 == 7) h_sample("%s, order and orientation %d", t, var);
    free(t);
}
static void m_euclid(uint64_t idx, void *ctx) {
    (void) ctx;
    static Node nd[HMAX]; static double xy[HMAX][2]; Inst w; char d[6000]; size_t o = 0; d[0] = 0;
    int n = (int) h_argi("--n", 4), gx = (int) h_argi("--gx", 3); double sc = h_argf("--scale", 1); uint64_t x = idx;
    size_t before = h_heap_used();
    List *nl = new_list(); memset(nd, 0x21, sizeof nd); memset(&g, 0x5b, sizeof g); inst_clear(&w, n);
    for (int i = 0; i < n; i++) { int c = n > 12 ? (int) (((idx % 16 + 1) * (uint64_t) i + idx / 16 * (uint64_t) i * (uint64_t) i + (uint64_t) i / 7) % (uint64_t) (gx * gx)) : (int) (x % (uint64_t) (gx * gx)); x /= (uint64_t) (gx * gx); xy[i][0] = sc * (c % gx - 1); xy[i][1] = sc * (c / gx) * 1.5; o += (size_t) snprintf(d + o, sizeof d - o, " (%g,%g)", xy[i][0], xy[i][1]); nd[i].x = xy[i][0]; nd[i].y = xy[i][1]; nd[i].positionInGraph = (unsigned short) i; nd[i].num_neighbours = 0; add_elem_list_bottom(nl, &nd[i]); }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inst_set(&w, i, j, hypot(xy[i][0] - xy[j][0], xy[i][1] - xy[j][1]), 0);
    h_note("points%s", d);
    create_euclidean_graph(&g, nl);
    if (h_argi("--heap", 0)) { size_t after = h_heap_used(); if (after > before) h_fail("building the graph left %zu bytes allocated: points%s", after - before, d); }
    h_count(T_EXEC, 1); h_count(T_TRANS, g.num_edges);
    if (!h_argi("--heap", 0) && !h_argi("--memory", 0)) graph_ok(&w, (const double (*)[2]) xy, 1e-6, d);
    uint64_t h = 9; for (int e = 0; e < g.num_edges; e++) h = h_hash_d(h, g.edges[e].weight); h_outcome(h);
    if (idx % 5003 == 7) h_sample("points%s", d);
}

int main(int argc, char **argv) {
    h_init(argc, argv);
    h_name(T_TRANS, "transitions"); h_name(T_EXEC, "executions");
    const char *m = h_arg("--mode", "mst");
    FAM = h_arg("--family", NULL); PROB = h_arg("--prob", "zero");
    char title[500];
    if (FAM) { NF = fam_by_name(NULL, FAM, 0); NP = prob_by_name(NULL, PROB, 0); }
    if (!strcmp(m, "mst")) { h_name(T_VALID, "connected"); snprintf(title, sizeof title, "spanning trees of %s, probabilities %s, weights shifted by %s", FAM, PROB, h_arg("--shift", "0")); return h_run(title, NF * NP, m_mst, NULL); }
    if (!strcmp(m, "sort")) { snprintf(title, sizeof title, "sorting the edges of %s, probabilities %s, four times with changed weights", FAM, PROB); return h_run(title, NF * NP, m_sort, NULL); }
    if (!strcmp(m, "heap")) {
        int k = (int) h_argi("--keys", 4), v = (int) h_argi("--values", 3); uint64_t t = 2; for (int i = 0; i < k; i++) t *= (uint64_t) v;
        h_name(T_STATES, "states"); h_name(T_MAX, "max_keys"); h_name(T_SKIP, "state_limit_reached"); snprintf(title, sizeof title, "all states of the Fibonacci heap from %d keys with %d values", k, v); return h_run(title, t, m_heap, NULL);
    }
    if (!strcmp(m, "heaprun")) { snprintf(title, sizeof title, "histories of the Fibonacci heap with %ld keys", h_argi("--keys", 80)); return h_run(title, 7 * 5 * 11 * (uint64_t) h_argi("--variants", 6), m_heaprun, NULL); }
    if (!strcmp(m, "heapthin")) { h_name(T_MAX, "max_keys_left"); snprintf(title, sizeof title, "thin trees of the Fibonacci heap, up to 2^%ld keys", h_argi("--log", 8)); return h_run(title, 6 * 3 * 4 * (uint64_t) (h_argi("--log", 8) - 1), m_heapthin, NULL); }
    if (!strcmp(m, "sets")) { h_name(T_STATES, "states"); h_name(T_SKIP, "state_limit_reached"); snprintf(title, sizeof title, "all states of the union-find of %ld nodes", h_argi("--n", 5)); return h_run(title, 1 + (uint64_t) h_argi("--n", 5), m_sets, NULL); }
    if (!strcmp(m, "setsrun")) { snprintf(title, sizeof title, "sequences of merges of %ld nodes", h_argi("--n", 16)); return h_run(title, 512 * (1 + (uint64_t) h_argi("--n", 16)), m_setsrun, NULL); }
    if (!strcmp(m, "list") || !strcmp(m, "sublist")) {
        D = (int) h_argi("--depth", 5); bool l = m[0] == 'l'; int L0 = (int) h_argi("--start", 0), B = 2 * (L0 + D + 3) + (l ? 2 : 1); uint64_t t = (uint64_t) D; for (int i = 0; i < D; i++) t *= (uint64_t) B;
        h_name(T_SKIP, "equivalent_to_another_case"); if (L0) snprintf(title, sizeof title, "all sequences of up to %d operations on a list of %d %s", D, L0, l ? "elements" : "subproblems"); else snprintf(title, sizeof title, "all sequences of up to %d operations on a list%s", D, l ? "" : " of subproblems"); return h_run(title, t, l ? m_list : m_sublist, NULL);
    }
    if (!strcmp(m, "graph")) { snprintf(title, sizeof title, "graphs of %s, probabilities %s, in 6 orders and orientations of the edges", FAM, PROB); return h_run(title, NF * NP * (uint64_t) h_argi("--variants", 6), m_graph, NULL); }
    if (!strcmp(m, "euclid")) { int n = (int) h_argi("--n", 4), gx = (int) h_argi("--gx", 3); uint64_t t = 1; for (int i = 0; i < n && n <= 12; i++) t *= (uint64_t) (gx * gx); if (n > 12) { t = 256; snprintf(title, sizeof title, "Euclidean graphs of %d points of a %dx%d lattice, scale %s, in 256 arrangements", n, gx, gx, h_arg("--scale", "1")); } else snprintf(title, sizeof title, "Euclidean graphs of all %d-tuples of points of a %dx%d lattice, scale %s", n, gx, gx, h_arg("--scale", "1")); return h_run(title, t, m_euclid, NULL); }
    fprintf(stderr, "unknown mode\n"); return 2;
}
