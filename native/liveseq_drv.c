#include "src/liveseq/liveseq.h"
#include "src/liveseq/liveness.h"
#include "src/x64gen/util.h"
#include "src/x64/register.h"
#include "src/set/set.h"
#include <stdio.h>
#include <stdlib.h>
typedef struct { int f, l; } R;
static unsigned long long s = 1;
static unsigned rnd(unsigned n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33) % n; }
static int cover(R* r, int n, int p) { for (int i = 0; i < n; i++) if (r[i].f <= p && p < r[i].l) return 1; return 0; }
static Liveseq* mk(R* r, int n) {
    Liveseq* q = new_liveseq();
    for (int i = 0; i < n; i++) { Liveness* v = new_liveness(r[i].f); v->last_use_index = r[i].l; vector_push(q->livenesses, v); }
    return q;
}
static void show(R* r, int n) { printf("ranges:"); for (int i = 0; i < n; i++) printf(" [%d,%d)", r[i].f, r[i].l); printf("\n"); }
static int one(R* r, int n, int steps) {
    Liveseq* q = mk(r, n);
    for (int p = 0; p < steps; p++) {
        if (!!liveseq_isalive(q) != cover(r, n, p)) { show(r, n); printf("position %d: reported %d, expected %d\n", p, liveseq_isalive(q), cover(r, n, p)); return 1; }
        if (rnd(7) == 0) { Liveseq* c = liveseq_copy(q); delete_liveseq(q); q = c; }
        liveseq_goto_next(q);
    }
    delete_liveseq(q); return 0;
}
static int enumerate(R* r, int k, int n, int lo) {
    if (k == n) return one(r, n, 9);
    for (int f = lo; f < 7; f++) for (int l = f; l < 8; l++) {
        r[k].f = f; r[k].l = l;
        if (enumerate(r, k + 1, n, l > f ? l : f + 1)) return 1;
    }
    return 0;
}
static int many(void) {
    R r[8][8]; int n[8]; Vector* v = new_vector(&t_liveseq);
    for (int k = 0; k < 8; k++) {
        n[k] = rnd(9); int p = rnd(3);
        for (int i = 0; i < n[k]; i++) { r[k][i].f = p; r[k][i].l = p + rnd(4); p = r[k][i].l + rnd(3); if (p == r[k][i].f) p++; }
        vector_push(v, mk(r[k], n[k]));
    }
    for (int p = 0; p < 50; p++) {
        Set* a = create_alive_reg_induces_set(v); Set* b = create_alive_regs_set(v);
                for (int k = 0; k < 8; k++) {
            int e = cover(r[k], n[k], p); 
            if (!!set_contains(a, &k) != e || !!set_contains(b, (void*)&CALLER_SAVED_REG_IDS[k]) != e) { show(r[k], n[k]); printf("sequence %d of 8, position %d: expected %d\n", k, p, e); return 1; }
        }
        for (int g = -1; g < 17; g++) { int x = 0; for (int k = 0; k < 8; k++) x += CALLER_SAVED_REG_IDS[k] == g; if ((!x && set_contains(b, &g)) || ((g < 0 || g > 7) && set_contains(a, &g))) { printf("position %d: register %d reported\n", p, g); return 1; } }
        delete_set(a); delete_set(b);
        liveseqs_next(v);
    }
    delete_vector(v); return 0;
}
int main(int c, char** v) {
    s = atoi(v[1]) * 77777ULL + 5; int n = atoi(v[2]);
    R r[16];
    for (int k = 0; k <= 3; k++) if (enumerate(r, 0, k, 0)) return 1;
    for (int i = 0; i < n; i++) {
        int k = rnd(13), p = rnd(4);
        for (int j = 0; j < k; j++) { r[j].f = p; r[j].l = p + rnd(5); p = r[j].l + rnd(4); if (p == r[j].f) p++; }
        if (one(r, k, 110)) return 1;
    }
    for (int i = 0; i < n / 10 + 5; i++) if (many()) return 1;
    return 0;
}
