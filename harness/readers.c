/* The readers of instances, on the real code: well-formed files of every instance of a family, and every mutation of small files.
 * --mode csv | csvmut | tsp | tspmut                                                                                    */
#define _GNU_SOURCE
#include "common.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <ctype.h>
#include <fcntl.h>
#include <unistd.h>

extern void read_tsp_csv_file(Graph *, char *);
extern void read_tsp_lib_file(Graph *, char *);

static Inst in;
static const char *FAM, *PROB; static uint64_t NF, NP;
static Graph *G;                                 /* in shared memory: the reader runs in a child */
static char text[MAX_VERTEX_NUM > 100 ? 8000000 : 1000000]; static size_t tl;
static char path[64]; static int fd = -1;
enum { T_EXEC, T_TRANS, T_ACC, T_REJ, T_FREE, T_FREEACC };

static void put(void) {
    if (fd < 0) { fd = memfd_create("instance", 0); snprintf(path, sizeof path, "/proc/self/fd/%d", fd); }
    if (ftruncate(fd, 0) || pwrite(fd, text, tl, 0) != (ssize_t) tl) abort();
}
static void (*reader)(Graph *, char *);
static int nfds(void) { int n = 0; for (int i = 0; i < 64; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static long *LEAK;                               /* in shared memory: bytes and descriptors that an accepted file left */
static void child_read(void *x) {
    if (LEAK) {                                  /* the second of two readings is measured, when buffers of the C library exist */
        reader(G, x ? x : path); memset(G, 0, sizeof *G);
        size_t before = h_heap_used(); int fds = nfds();
        reader(G, x ? x : path);
        LEAK[0] = (long) h_heap_used() - (long) before; LEAK[1] = nfds() - fds;
    } else reader(G, x ? x : path);
    fflush(NULL); _exit(40);
}
/* 0 accepted, 1 rejected, 2 anything else (described) */
static bool MEMORY;                              /* only memory safety and what is left allocated are judged */
static int run_reader(char *file, char *why, size_t nw) {
    if (!G) {                                    /* one for each worker */
        G = mmap(NULL, sizeof(Graph), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (h_argi("--heap", 0)) LEAK = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (!freopen("/dev/null", "w", stderr)) abort();
    }
    memset(G, 0, sizeof *G);
    if (!file) put();
    int st = h_child(child_read, file, 20); h_count(T_EXEC, 1);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 40 && LEAK && (LEAK[0] > 0 || LEAK[1] > 0)) { snprintf(why, nw, "reading the file left %ld bytes and %ld descriptors allocated", LEAK[0], LEAK[1]); return 2; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 40) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { snprintf(why, nw, "the sanitizer reports an error"); return 2; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { snprintf(why, nw, "the program ends with status 0 inside the reader"); return 2; }
    if (WIFEXITED(st)) return 1;
    snprintf(why, nw, "the reader is killed by signal %d", WTERMSIG(st));
    return 2;
}
static const char *show(void) {
    static char b[6000]; size_t o = 0;
    for (size_t i = 0; i < tl && o + 8 < sizeof b; i++) { unsigned char c = (unsigned char) text[i]; if (c == '\n') { b[o++] = '\\'; b[o++] = 'n'; } else if (c < 32 || c > 126) o += (size_t) sprintf(b + o, "\\x%02x", c); else b[o++] = (char) c; }
    b[o] = 0; return b;
}
/* the graph read is exactly w, with coordinates xy; wtol relative to scale */
static bool same_graph(const Inst *w, double xy[][2], double wtol, double xtol, bool with_prob, char *why, size_t nw) {
    int n = w->n, m = 0; double cost = 0, sc = 1; bool seen[HMAX][HMAX] = {{false}};
#define BAD(...) do { snprintf(why, nw, __VA_ARGS__); return false; } while (0)
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w->has[i][j]) { m++; cost += w->w[i][j]; sc += fabs(w->w[i][j]); }
    if (G->num_nodes != n) BAD("%d nodes instead of %d", G->num_nodes, n);
    if (G->num_edges != m) BAD("%d edges instead of %d", G->num_edges, m);
    for (int e = 0; e < m; e++) {
        const Edge *x = &G->edges[e]; int a = x->src, b = x->dest;
        if (a >= n || b >= n || a == b || !w->has[a][b] || seen[a][b]) BAD("edge %d is %d-%d", e, a, b);
        seen[a][b] = seen[b][a] = true;
        double p = with_prob ? w->p[a][b] : 0;
        if (fabs(x->weight - w->w[a][b]) > wtol * (1 + fabs(w->w[a][b])) || fabs(x->prob - p) > 1e-6) BAD("edge %d-%d has weight %.12g and probability %.9g instead of %.12g and %.9g", a, b, x->weight, x->prob, w->w[a][b], p);
        if (x->positionInGraph != e) BAD("edge %d-%d says it is at position %d instead of %d", a, b, x->positionInGraph, e);
        for (int q = 0; q < 2; q++) { const Edge *y = q ? &G->edges_matrix[b][a] : &G->edges_matrix[a][b]; if (y->weight != x->weight || y->prob != x->prob || y->positionInGraph != e || !((y->src == a && y->dest == b) || (y->src == b && y->dest == a))) BAD("the adjacency matrix does not hold edge %d-%d", a, b); }
    }
    if (fabs(G->cost - cost) > wtol * sc * n + 1e-9 * sc) BAD("the graph costs %.12g instead of %.12g", G->cost, cost);
    if (G->orderedEdges) BAD("the edges are said to be sorted");
    for (int i = 0; i < n; i++) {
        const Node *v = &G->nodes[i]; bool nb[HMAX] = {false}; int deg = 0;
        for (int j = 0; j < n; j++) deg += w->has[i][j] && i != j;
        if (v->positionInGraph != i || v->num_neighbours != deg) BAD("node %d has position %d and %d neighbours instead of %d", i, v->positionInGraph, v->num_neighbours, deg);
        if (fabs(v->x - xy[i][0]) > xtol * (1 + fabs(xy[i][0])) || fabs(v->y - xy[i][1]) > xtol * (1 + fabs(xy[i][1]))) BAD("node %d is at (%.12g, %.12g) instead of (%.12g, %.12g)", i, v->x, v->y, xy[i][0], xy[i][1]);
        for (int k = 0; k < deg; k++) { int j = v->neighbours[k]; if (j >= n || j == i || !w->has[i][j] || nb[j]) BAD("neighbour %d of node %d is %d", k, i, j); nb[j] = true; }
    }
    return true;
}
static void ap(const char *f, ...) { va_list a; va_start(a, f); tl += (size_t) vsnprintf(text + tl, sizeof text - tl, f, a); va_end(a); }

/* ---------------------------------------------------------------- csv */
static double XY[HMAX + 8][2];
static const char *num(double v, int style) {
    static char b[8][40]; static int z; char *s = b[z++ & 7];
    if (style == 1) snprintf(s, 40, "%.17g", v); else if (style == 2) snprintf(s, 40, "%.12e", v);
    else { snprintf(s, 40, "%.12g", v); if (style == 3 && !strpbrk(s, ".e")) strcat(s, ".0"); }
    return s;
}
/* style: 0-3 numbers; sep 1: no ';' after the last entry; 2: and none after the last city; 4: blank lines; 8: no final newline; 16: diagonal entries with a value */
static void write_csv(const Inst *w, int style, int flags) {
    int n = w->n; tl = 0;
    for (int i = 0; i < n; i++) ap("(%s, %s)%s", num(XY[i][0], style), num(XY[i][1], style), i + 1 < n || !(flags & 2) ? ";" : "");
    ap("\n");
    for (int i = 0; i < n; i++) {
        if (flags & 4) ap("\n");
        for (int j = 0; j < n; j++) { bool e = i != j && w->has[i][j]; ap("(%s, %s)%s", num(e ? w->w[i][j] : i == j && (flags & 16) ? 3.5 : 0, style), num(e ? w->p[i][j] : 0, style), j + 1 < n || !(flags & 1) ? ";" : ""); }
        if (i + 1 < n || !(flags & 8)) ap("\n");
    }
    if (flags & 4 && !(flags & 8)) ap("\n\n");
}
static void m_csv(uint64_t idx, void *ctx) {
    (void) ctx;
    static const int FL[8] = {0, 2, 3, 1, 8, 3 | 8, 4, 16 | 4};
    int v = (int) (idx % 8); uint64_t x = idx / 8;
    fam_by_name(&in, FAM, x / NP); prob_by_name(&in, PROB, x % NP);
    int n = in.n, style = (int) ((idx + idx / 8) % 4); char why[600] = "";
    double sh = h_argf("--coord", 1);
    for (int i = 0; i < n; i++) { XY[i][0] = sh * (i * 0.37 - 1); XY[i][1] = sh / (i + 3.0) * (i % 2 ? -1 : 1); }
    for (int i = 0; i < n; i++) { XY[i][0] = atof(num(XY[i][0], style)); XY[i][1] = atof(num(XY[i][1], style)); }
    write_csv(&in, style, FL[v]); h_note("csv file: %s", show());
    reader = read_tsp_csv_file;
    int r = run_reader(NULL, why, sizeof why);
    if (MEMORY && r < 2) ;
    else if (n > MAX_VERTEX_NUM || n == 0) { if (r == 0) h_fail("a file with %d cities is accepted by a program for %d: %s", n, MAX_VERTEX_NUM, show()); else if (r == 2) h_fail("%s: %s", why, show()); h_count(T_REJ, 1); }
    else if (r == 1) h_fail("a well-formed file is rejected: %s", show());
    else if (r == 2) h_fail("%s: %s", why, show());
    else { if (!same_graph(&in, XY, 1e-11, 1e-11, HYBRID, why, sizeof why)) h_fail("%s: %s", why, show()); h_count(T_ACC, 1); }
    h_outcome(h_hash(5, text, tl)); h_count(T_TRANS, 1);
    if (idx % 4001 == 7) h_sample("%s", show());
}
/* what must happen with a text: 1 accept (w, XY hold the graph), 0 either, -1 reject, -2 strictly too few rows (known finding) */
static const char *WHY;
static Inst W; static bool checkw[HMAX][HMAX];
static int tokens(char *line, char **tok, int max) { int k = 0; for (char *t = strtok(line, ";"); t && strcmp(t, "\n"); t = strtok(NULL, ";")) { if (k < max) tok[k] = t; k++; } return k; }
static bool strict_pair(const char *t, double *a, double *b) {
    int o = 0; if (sscanf(t, "(%lf, %lf)%n", a, b, &o) != 2 || o == 0) return false;
    if (t[o] == '\n') o++;
    if (t[o]) return false;
    for (const char *c = t; *c; c++) if (!strchr("0123456789+-.e(), \n", *c)) return false;
    return isfinite(*a) && isfinite(*b) && t[1] != ' ' && t[0] == '(';
}
static bool weird; static int lenient_n;
static int classify_csv(void) {
    static char c[sizeof text]; memcpy(c, text, tl); c[tl] = 0;
    weird = false; lenient_n = 0; WHY = "";
    if (memchr(text, 0, tl)) { weird = true; return 0; }
    char *lines[60]; int nl = 0; char *p = c; bool strict = true;
    static char store[sizeof text + 100]; char *q = store;
    while (*p) {                                         /* the lines, each with its newline */
        char *e = strchr(p, '\n'); size_t l = e ? (size_t) (e - p) + 1 : strlen(p);
        if (nl >= 60) { weird = true; return 0; }
        memcpy(q, p, l); q[l] = 0; lines[nl++] = q; q += l + 1; p += l;
    }
    if (nl == 0) { WHY = "no cities"; return -1; }
    if (strstr(text, ";;") || strstr(text, ";\n;") || strstr(text, "\n;") || text[0] == ';') strict = false;
    char *tok[80]; double a, b;
    int n = tokens(lines[0], tok, 80);
    for (int i = 0; i < n && i < 80; i++) { if (sscanf(tok[i], "(%lf, %lf)", &a, &b) != 2) { WHY = "a malformed city"; return -1; } if (!strict_pair(tok[i], &a, &b)) strict = false; else if (i < HMAX) { XY[i][0] = a; XY[i][1] = b; } }
    if (n == 0) { WHY = "no cities"; return -1; }
    if (n > MAX_VERTEX_NUM) { WHY = "more cities than the capacity"; return -1; }
    if (n > HMAX) { weird = true; return 0; }
    lenient_n = n;
    static double w[HMAX][HMAX], pr[HMAX][HMAX]; int row = 0;
    for (int l = 1; l < nl; l++) {
        if (!strcmp(lines[l], "\n")) continue;
        if (row >= n) { WHY = "more rows than cities"; return -1; }
        int k = tokens(lines[l], tok, 80);
        for (int j = 0; j < k && j < n; j++) {
            bool ok = sscanf(tok[j], "(%lf, %lf)", &a, &b) == 2;
            if (!ok && j != row) { WHY = "a malformed entry"; return -1; }
            double sa, sb; if (!strict_pair(tok[j], &sa, &sb)) strict = false;
            w[row][j] = ok ? a : 0; pr[row][j] = ok ? b : 0;
            if (!isfinite(a) || !isfinite(b)) strict = false;
        }
        if (k != n) { WHY = k < n ? "an incomplete row" : "too long a row"; return -1; }
        row++;
    }
    if (row < n) { WHY = "fewer rows than cities"; return -2; }
    inst_clear(&W, n); bool mixed = false; memset(checkw, 0, sizeof checkw);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if ((w[i][j] > 0) != (w[j][i] > 0)) mixed = true;
        if (w[i][j] > 0) { inst_set(&W, i, j, w[i][j], pr[i][j]); if (w[i][j] != w[j][i] || pr[i][j] != pr[j][i]) mixed = true; }
    }
    if (!strict || mixed) return 0;
    return 1;
}
static const char CH[] = ";(), \n-9.ae0\r\0\x80"; enum { NCH = 15 };
static char base[MAX_VERTEX_NUM > 100 ? 8000000 : 1000000]; static size_t bl;
static uint64_t nmut(void) { uint64_t L = bl; return L + 1 + L * NCH + (L + 1) * NCH + L * (L + 1) / 2 * 2; }
static void unrank(uint64_t r, size_t *i, size_t *j) { size_t L = bl, a = 0; while (r >= L - a) { r -= L - a; a++; } *i = a; *j = a + (size_t) r + 1; }
/* applies mutation r to base -> text */
static void mutate(uint64_t r) {
    uint64_t L = bl, R = L * (L + 1) / 2; size_t i, j;
    memcpy(text, base, bl); tl = bl;
    if (r < L + 1) { tl = r; return; }
    r -= L + 1;
    if (r < L * NCH) { text[r / NCH] = CH[r % NCH]; return; }
    r -= L * NCH;
    if (r < (L + 1) * NCH) { i = r / NCH; memmove(text + i + 1, text + i, bl - i); text[i] = CH[r % NCH]; tl = bl + 1; return; }
    r -= (L + 1) * NCH;
    if (r < R) { unrank(r, &i, &j); memmove(text + i, text + j, bl - j); tl = bl - (j - i); return; }
    unrank(r - R, &i, &j); memmove(text + j + (j - i), text + j, bl - j); memcpy(text + j, base + i, j - i); tl = bl + (j - i);
}
static int (*classify)(void);
static double WT, XT;
static void judge(uint64_t idx) {
    char why[600] = ""; text[tl] = 0;
    int must = classify();
    h_note("file (%s): %s", must == 1 ? "well-formed" : must < 0 ? WHY : "either", show());
    int r = run_reader(NULL, why, sizeof why);
    h_outcome(h_hash(h_hash_u(3, (uint64_t) r), text, tl)); h_count(T_TRANS, 1);
    if (r == 2) { h_fail("%s: %s", why, show()); return; }
    if (MEMORY) return;
    if (must == 1) { h_count(T_ACC, 1); if (r == 1) h_fail("a well-formed file is rejected: %s", show()); else if (!same_graph(&W, XY, WT, XT, HYBRID, why, sizeof why)) h_fail("%s: %s", why, show()); }
    else if (must == -1) { h_count(T_REJ, 1); if (r == 0) h_fail("a file with %s is accepted: %s", WHY, show()); }
    else if (must == -2) { if (r == 0) h_known("csv-missing-rows", "a file with %s is accepted: %s", WHY, show()); h_count(T_REJ, 1); }
    else { h_count(T_FREE, 1); if (r == 0) h_count(T_FREEACC, 1); }
    if (idx % 9001 == 7) h_sample("%s (%s): %s", show(), must == 1 ? "well-formed" : must < 0 ? WHY : "either", r ? "rejected" : "accepted");
}
static uint64_t M;
static void csv_base(int k) {
    Inst w; int n = k == 0 ? 3 : k == 1 ? 4 : k == 2 ? 5 : 2; inst_clear(&w, n);
    for (int i = 0; i < n; i++) { XY[i][0] = i; XY[i][1] = k == 1 ? -0.5 : 2; for (int j = i + 1; j < n; j++) if (!(k == 1 && i == 0 && j == 2)) inst_set(&w, i, j, k == 1 ? 1.5 + i : 1 + i + j, (i + j) % 2 ? 0.5 : 1); }
    write_csv(&w, 0, k == 0 ? 2 : k == 1 ? 3 | 8 : k == 2 ? 0 : 3);
    memcpy(base, text, tl); bl = tl;
}
static void m_mut(uint64_t idx, void *ctx) {
    (void) ctx;
    if (h_argi("--pairs", 0)) {          /* two mutations: of the first M single ones (replacements), the second applied to the result */
        uint64_t a = idx / M, b = idx % M; static char keep[sizeof base]; size_t kl = bl;
        memcpy(keep, base, bl);
        size_t L = bl; if (b / NCH <= a / NCH) return;
        base[a / NCH] = CH[a % NCH]; base[b / NCH] = CH[b % NCH]; (void) L;
        memcpy(text, base, bl); tl = bl; memcpy(base, keep, kl);
    } else mutate(idx);
    judge(idx);
}

/* ---------------------------------------------------------------- TSPLIB */
static const char *HEAD[8] = {"NAME : x\nTYPE : TSP\nDIMENSION : %d\nEDGE_WEIGHT_TYPE : EUC_2D\n", "EDGE_WEIGHT_TYPE: EUC_2D\n", "NAME: berlin\nCOMMENT: 3 locations, GEO and ATT\nTYPE: TSP\nEDGE_WEIGHT_TYPE: EUC_2D\nDIMENSION: %d\nDISPLAY_DATA_TYPE: COORD_DISPLAY\n",
    "DIMENSION : %d\nEDGE_WEIGHT_TYPE : EUC_2D\nCOMMENT : EDGE_WEIGHT_TYPE : GEO\n", "EDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_TYPE : TWOD_COORDS\nCAPACITY : 100\n", "COMMENT : the EOF line ends the file\nDIMENSION : %d\nEDGE_WEIGHT_TYPE : EUC_2D\n", "NAME :\nEDGE_WEIGHT_TYPE:EUC_2D\n", "TYPE : TSP (M.~Hofmeister)\nDIMENSION : %d\nEDGE_WEIGHT_FORMAT : FUNCTION\nEDGE_WEIGHT_TYPE : EUC_2D\nNAME : EUC_2D\n"};
static const char *OTHER[8] = {"EXPLICIT", "GEO", "ATT", "CEIL_2D", "MAN_2D", "MAX_2D", "EUC_3D", "XRAY1"};
static void m_tsp(uint64_t idx, void *ctx) {
    (void) ctx;
    int gx = (int) h_argi("--gx", 3), n = (int) h_argi("--n", 4), head = (int) (idx % 8), form = (int) (idx / 8 % 8); uint64_t x = idx / 64;
    double sc = h_argf("--scale", 1), big = 0; char why[600] = ""; int other = (int) (idx / 64 % 9) - 1; if (!h_argi("--types", 0)) other = -1;
    Inst w; inst_clear(&w, n); tl = 0;
    ap(HEAD[head], n);
    if (other >= 0) { char *e = NULL; for (char *q = text; (q = strstr(q, "EDGE_WEIGHT_TYPE")); q++) if (q == text || q[-1] == '\n') { e = strstr(q, "EUC_2D"); break; } char rest[600]; snprintf(rest, sizeof rest, "%s", e + 6); tl = (size_t) (e - text); ap("%s%s", OTHER[other], rest); if (head == 7) { /* NAME : EUC_2D remains */ } }
    ap("NODE_COORD_SECTION%s\n", form & 1 ? " " : "");
    for (int i = 0; i < n; i++) {
        int c = (int) (x % (uint64_t) (gx * gx)); x /= (uint64_t) (gx * gx);
        XY[i][0] = sc * (c % gx - 1); XY[i][1] = sc * 1.5 * (c / gx);
        if (form & 2) { char t[60]; snprintf(t, 60, "%.7e", XY[i][0]); XY[i][0] = atof(t); }
        ap(form & 2 ? "%s%d %.7e  %.9g\n" : "%s%d %.9g %.9g\n", form & 4 ? "  " : "", i + 1, XY[i][0], XY[i][1]);
        big = fmax(big, fmax(fabs(XY[i][0]), fabs(XY[i][1])));
    }
    int tail = (form + head) % 3; if (tail == 0) ap("EOF\n"); else if (tail == 1) ap("EOF");
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) inst_set(&w, i, j, hypot(XY[i][0] - XY[j][0], XY[i][1] - XY[j][1]), 0);
    h_note("tsp file: %s", show());
    reader = read_tsp_lib_file;
    int r = run_reader(NULL, why, sizeof why);
    if (MEMORY && r < 2) ;
    else if (n > MAX_VERTEX_NUM || other >= 0) { if (r == 0) h_fail("a file with %d cities and %s edge weights is accepted by a program for %d: %s", n, other >= 0 ? OTHER[other] : "EUC_2D", MAX_VERTEX_NUM, show()); else if (r == 2) h_fail("%s: %s", why, show()); h_count(T_REJ, 1); }
    else if (r == 1) h_fail("a well-formed file is rejected: %s", show());
    else if (r == 2) h_fail("%s: %s", why, show());
    else { if (!same_graph(&w, XY, 1e-6 * (1 + big) / (1 + big * 0), 1e-6, HYBRID, why, sizeof why)) h_fail("%s: %s", why, show()); h_count(T_ACC, 1); }
    h_outcome(h_hash(6, text, tl)); h_count(T_TRANS, 1);
    if (idx % 4001 == 7) h_sample("%s", show());
}
static int classify_tsp(void) {
    static char c[sizeof text]; memcpy(c, text, tl); c[tl] = 0; WHY = "";
    if (memchr(text, 0, tl)) return 0;
    int types = 0, euc = 0, n = 0, other = 0, dim = -1; bool coords = false, strict = true, end = false, bad = false;
    for (char *p = c; *p && !end;) {
        char *e = strchr(p, '\n'); bool nlx = e != NULL; if (e) *e = 0; else e = p + strlen(p);
        if (!coords) {
            if (!strncmp(p, "EDGE_WEIGHT_TYPE", 16)) { types++; if (strstr(p, "EUC_2D")) { euc++; if (strcmp(p, "EDGE_WEIGHT_TYPE : EUC_2D")) strict = false; } else other++; }
            else if (strstr(p, "DIM")) { if (sscanf(p, "DIMENSION : %d", &dim) != 1) strict = false; }
            else if (strstr(p, "EDGE") || strstr(p, "WEIGHT")) strict = false;
            if (strstr(p, "NODE_COORD_SECTION")) { coords = true; if (strcmp(p, "NODE_COORD_SECTION")) strict = false; }
            else if (strstr(p, "COORD")) strict = false;
        } else if (strstr(p, "EOF")) { end = true; if (strcmp(p, "EOF")) strict = false; }
        else {
            unsigned short id; float fx, fy; double a, b, d; int o = 0, k;
            bool three = sscanf(p, "%hu %f %f", &id, &fx, &fy) == 3 || sscanf(p, "%lf %lf %lf", &d, &a, &b) == 3;
            bool blank = p[strspn(p, " \t\r")] == 0;
            if (!three && !blank) bad = true;
            if (blank) strict = false;
            if (sscanf(p, "%d %lf %lf%n", &k, &a, &b, &o) != 3 || p[o] || strspn(p, "0123456789+-.e ") != strlen(p) || !isdigit((unsigned char) p[0]) || k != n + 1 || !strchr(" ", p[strspn(p, "0123456789")])) strict = false;
            else if (n < HMAX) { if (fabs(a) > 1e9 || fabs(b) > 1e9 || (a != 0 && fabs(a) < 1e-9) || (b != 0 && fabs(b) < 1e-9)) strict = false; XY[n][0] = a; XY[n][1] = b; }
            n++;
        }
        p = nlx ? e + 1 : e;
    }
    if (!coords) return 0;
    if (types == 1 && other == 1) { WHY = "another edge weight type"; return -1; }
    if (types != 1 || euc != 1) return 0;
    if (bad) { WHY = "a malformed line"; return -1; }
    if (n > MAX_VERTEX_NUM) { if (!strict) return 0; WHY = "more cities than the capacity"; return -1; }
    if (!strict || n > HMAX || n < 1 || (dim >= 0 && dim != n)) return 0;
    double big = 1; inst_clear(&W, n);
    for (int i = 0; i < n; i++) { big = fmax(big, fmax(fabs(XY[i][0]), fabs(XY[i][1]))); for (int j = i + 1; j < n; j++) inst_set(&W, i, j, hypot(XY[i][0] - XY[j][0], XY[i][1] - XY[j][1]), 0); }
    WT = 1e-6 * big; XT = 1e-6;
    return 1;
}
static void tsp_base(int k) {
    tl = 0;
    if (k == 0) ap("NAME : a\nEDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION\n1 0.5 2\n2 3 -1\n3 4e1 7\nEOF\n");
    else if (k == 1) ap("EDGE_WEIGHT_TYPE : EUC_2D\nDIMENSION : 4\nNODE_COORD_SECTION\n1 565.0 575.0\n2 25.0 185.0\n3 345.0 750.0\n4 945.5 685.25\n");
    else ap("EDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION\n1 0 0\n2 1 0\n3 0 1\n4 1 1\n5 2 2\nEOF");
    memcpy(base, text, tl); bl = tl;
}
/* files that are not there, are directories, or are the two examples */
static void m_none(uint64_t idx, void *ctx) {
    (void) ctx;
    static char *F[5] = {"/nonexistent/x.csv", "/", "", "/dev/null", "/proc/self/mem"}; char why[600] = "";
    reader = idx < 5 ? read_tsp_csv_file : read_tsp_lib_file;
    h_note("reading %s", F[idx % 5]);
    int r = run_reader(F[idx % 5], why, sizeof why);
    h_count(T_TRANS, 1); h_count(T_REJ, 1); h_outcome(h_hash_u(4, idx));
    if (r == 0 && !(reader == read_tsp_lib_file && idx % 5 == 9)) h_fail("'%s' is accepted", F[idx % 5]);
    if (r == 2) h_fail("%s: '%s'", why, F[idx % 5]);
    h_sample("'%s' is rejected", F[idx % 5]);
}

int main(int argc, char **argv) {
    h_init(argc, argv);
    h_name(T_TRANS, "transitions"); h_name(T_EXEC, "executions"); h_name(T_ACC, "must_be_accepted"); h_name(T_REJ, "must_be_rejected"); h_name(T_FREE, "may_be_either"); h_name(T_FREEACC, "may_be_either_and_accepted");
    const char *m = h_arg("--mode", "csv"); char title[300];
    WT = XT = 1e-11; MEMORY = h_argi("--memory", 0) || h_argi("--heap", 0);
    if (!strcmp(m, "csv")) { FAM = h_arg("--family", "alpha:3:0,1"); PROB = h_arg("--prob", "zero"); NF = fam_by_name(NULL, FAM, 0); NP = prob_by_name(NULL, PROB, 0); snprintf(title, sizeof title, "csv files of %s, probabilities %s, in 8 formats", FAM, PROB); return h_run(title, NF * NP * 8, m_csv, NULL); }
    if (!strcmp(m, "none")) return h_run("files that cannot be read", 10, m_none, NULL);
    if (!strcmp(m, "tsp")) { int n = (int) h_argi("--n", 4), gx = (int) h_argi("--gx", 3); uint64_t t = 64; for (int i = 0; i < n; i++) t *= (uint64_t) (gx * gx); if (h_argi("--types", 0)) t = 64 * 9; else if (n > 8) t = 64 * 81; snprintf(title, sizeof title, "TSPLIB files with %d points of a %dx%d lattice, scale %s, in 8 headers and 8 formats%s", n, gx, gx, h_arg("--scale", "1"), h_argi("--types", 0) ? ", all edge weight types" : ""); return h_run(title, t, m_tsp, NULL); }
    int k = (int) h_argi("--base", 0); bool csv = !strcmp(m, "csvmut");
    if (!csv && strcmp(m, "tspmut")) { fprintf(stderr, "unknown mode\n"); return 2; }
    if (csv) { csv_base(k); classify = classify_csv; reader = read_tsp_csv_file; } else { tsp_base(k); classify = classify_tsp; reader = read_tsp_lib_file; }
    M = bl * NCH;
    memcpy(text, base, bl); tl = bl;
    snprintf(title, sizeof title, "%s of %s file %d (%zu bytes)", h_argi("--pairs", 0) ? "every pair of replaced bytes" : "every truncation, replaced or inserted byte, deleted or doubled range", csv ? "csv" : "TSPLIB", k, bl);
    return h_run(title, h_argi("--pairs", 0) ? M * M : nmut(), m_mut, NULL);
}
