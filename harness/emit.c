/* Solves the instances of a family, uninterrupted and interrupted at the listed polls of the clock, and writes for each
 * run the printed report (r<k>.txt) and what the solver computed (truth.jsonl), for the harnesses that read reports. */
#define _GNU_SOURCE
#include "common.h"
extern void read_tsp_csv_file(Graph *, char *);
static Problem prob; static Inst in;
static const char *kind(int t) { return t == CLOSED_NN ? "nn" : t == CLOSED_NN_HYBRID ? "nnh" : t == CLOSED_1TREE ? "1tree" : t == CLOSED_SUBGRADIENT ? "subgradient" : "other"; }
int main(int argc, char **argv) {
    h_init(argc, argv);
    const char *F = h_arg("--family", ""), *P = h_arg("--prob", "zero"), *dir = h_arg("--dir", "."); char path[600];
    const char *list = h_arg("--csvs", NULL);
    if (list) { /* the reports of the csv files that are listed, one path per line */
        FILE *l = fopen(list, "r"); char csv[600]; int k = 0;
        if (!l) return 3;
        for (; fgets(csv, sizeof csv, l); k++) {
            csv[strcspn(csv, "\n")] = 0;
            memset(&prob, 0, sizeof prob);
            h_capture_begin(); vclock_reset(UINT64_MAX); read_tsp_csv_file(&prob.graph, csv); branch_and_bound(&prob); print_problem();
            const char *s = h_capture_end();
            snprintf(path, sizeof path, "%s/r%d.txt", dir, k);
            FILE *f = fopen(path, "w"); if (!f) return 3;
            fputs(s, f); fclose(f);
        }
        return 0;
    }
    uint64_t nf = fam_by_name(NULL, F, 0), np = prob_by_name(NULL, P, 0), lo = (uint64_t) h_argi("--lo", 0), hi = (uint64_t) h_argi("--hi", 1), step = (uint64_t) h_argi("--step", 1);
    vclock_step = h_argf("--clock-step", 0.01); vclock_base = h_argf("--clock-base", 1); vclock_jump_seconds = h_argf("--jump-seconds", 1234.5);
    snprintf(path, sizeof path, "%s/truth.jsonl", dir);
    FILE *t = fopen(path, "w"); if (!t) return 3;
    int k = 0; char js[400];
    for (uint64_t idx = lo; idx < hi && idx < nf * np; idx += step) {
        snprintf(js, sizeof js, "%s", h_arg("--jumps", "0"));
        for (char *q = strtok(js, ","); q; q = strtok(NULL, ",")) {
            long j = atol(q);
            fam_by_name(&in, F, idx / np); prob_by_name(&in, P, idx % np);
            memset(&prob, 0, sizeof prob); inst_graph(&in, &prob.graph);
            h_capture_begin(); vclock_reset(j ? (uint64_t) j : UINT64_MAX); branch_and_bound(&prob); print_problem();
            const char *s = h_capture_end();
            snprintf(path, sizeof path, "%s/r%d.txt", dir, k);
            FILE *f = fopen(path, "w"); if (!f) return 3;
            fputs(s, f); fclose(f);
            const SubProblem *b = &prob.bestSolution;
            fprintf(t, "{\"k\": %d, \"n\": %d, \"interrupted\": %d, \"tour\": %d, \"cost\": %.9f, \"value\": %.9f, \"prob\": %.9f, \"generated\": %u, \"explored\": %u, \"levels\": %u, \"level\": %u, \"id\": %u, \"elapsed\": %.9f, \"reach\": %.9f, \"kind\": \"%s\"}\n",
                    k, in.n, prob.interrupted, b->num_edges_in_cycle, prob.bestValue, b->value, b->prob, prob.generatedBBNodes, prob.exploredBBNodes, prob.totTreeLevels, (unsigned) b->treeLevel, (unsigned) b->id,
                    (double) (prob.end - prob.start) / CLOCKS_PER_SEC, (double) b->timeToReach, kind((int) b->type));
            k++;
        }
    }
    fclose(t);
    return 0;
}
