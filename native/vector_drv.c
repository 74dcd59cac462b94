/* Random operation histories on the real list against a reference sequence. */
#include "src/vector/vector.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef struct Item { int id; int val; } Item;
static int next_id, live[1 << 22], nlive;
static char tracebuf[1 << 16]; static int tp;
#define T(...) (tp += (tp < 60000 ? snprintf(tracebuf + tp, sizeof(tracebuf) - tp, __VA_ARGS__) : 0))
static Item* mk(int v) { Item* i = malloc(sizeof *i); i->id = next_id++; i->val = v; live[i->id] = 1; nlive++; return i; }
static void* cp(void* p) { return mk(((Item*)p)->val); }
static void fail(const char* m) { printf("FAIL: %s\nhistory: %s\n", m, tracebuf); fflush(stdout); _exit(1); }
static void del(void* p) { Item* i = p; if (live[i->id] != 1) fail("element released twice"); live[i->id] = 0; nlive--; i->val = -1; /* kept allocated so that ids stay unique */ }
static BaseType t_item = {cp, del};
#define MAXN 64
typedef struct { Vector* v; Item* m[MAXN]; int n; } L;
static void check(L* l, const char* op) {
    if (vector_size(l->v) != l->n) fail(op);
    for (int i = -2; i < l->n + 3; i++) {
        Item* g = vector_at(l->v, i);
        if (i < 0 || i >= l->n) { if (g) fail("element outside the list"); }
        else if (g != l->m[i]) fail(op);
        else if (live[g->id] != 1) fail("listed element was released");
    }
}
void __asan_on_error(void) { printf("memory error\nhistory: %s\n", tracebuf); fflush(stdout); }
int main(int c, char** a) {
    srand(atoi(a[1]) * 7919 + 13);
    int rounds = atoi(a[2]);
    for (int r = 0; r < rounds; r++) {
        tp = 0; tracebuf[0] = 0; next_id = 0; nlive = 0;
        L l[2];
        for (int j = 0; j < 2; j++) { l[j].v = new_vector(&t_item); l[j].n = 0; }
        int steps = 1 + rand() % 120, bias = rand() % 3;
        for (int s = 0; s < steps; s++) {
            L* x = &l[rand() % 4 == 0]; L* y = x == l ? l + 1 : l;
            int i = rand() % (x->n + 5) - 2, k = rand() % 16;
            if (k < 4 + bias) { if (x->n >= 40) continue; Item* it = mk(rand() % 9); T("push(L%d) ", (int)(x - l)); vector_push(x->v, it); x->m[x->n++] = it; check(x, "push"); }
            else if (k < 7) { if (!x->n) continue; T("pop(L%d) ", (int)(x - l)); Item* it = vector_pop(x->v); if (it != x->m[x->n - 1]) fail("pop result"); x->n--; del(it); check(x, "pop"); }
            else if (k == 7) { int n = rand() % 12 + x->n - 4; if (n > 40) continue; Item* it = mk(100 + rand() % 9); int v = it->val, id = it->id; T("fill(L%d,%d) ", (int)(x - l), n); vector_fill(x->v, n, it);
                if (live[id]) fail("fill keeps the item");
                if (vector_size(x->v) != (n > x->n ? n : x->n)) fail("fill length");
                for (int q = 0; q < vector_size(x->v); q++) { Item* g = vector_at(x->v, q); if (q < x->n) { if (g != x->m[q]) fail("fill old element"); } else { if (g->val != v) fail("fill new element"); for (int z = 0; z < q; z++) if (x->m[z] == g) fail("fill shares an element"); x->m[q] = g; } }
                if (n > x->n) x->n = n; check(x, "fill"); }
            else if (k == 8 || k == 9) { Item* it = mk(rand() % 9); T("set(L%d,%d) ", (int)(x - l), i); int ok = i >= 0 && i < x->n; Item* o = ok ? x->m[i] : 0; int rr = vector_set(x->v, i, it); if (rr != ok) fail("set result"); if (ok) { if (live[o->id]) fail("set keeps the old element"); x->m[i] = it; } else del(it); check(x, "set"); }
            else if (k == 10 || k == 11) { if (x->n >= 40) continue; Item* it = mk(rand() % 9); T("insert(L%d,%d) ", (int)(x - l), i); vector_insert(x->v, i, it); if (i >= 0 && i <= x->n) { memmove(x->m + i + 1, x->m + i, (x->n - i) * sizeof(Item*)); x->m[i] = it; x->n++; } else del(it); check(x, "insert"); }
            else if (k == 12 || k == 13) { T("erase(L%d,%d) ", (int)(x - l), i); int ok = i >= 0 && i < x->n; Item* o = ok ? x->m[i] : 0; vector_erase(x->v, i); if (ok) { if (live[o->id]) fail("erase keeps the element"); memmove(x->m + i, x->m + i + 1, (x->n - i - 1) * sizeof(Item*)); x->n--; } check(x, "erase"); }
            else if (k == 14) { if (x->n + y->n > 40) continue; T("extend(L%d) ", (int)(x - l)); vector_extend(x->v, y->v); memcpy(x->m + x->n, y->m, y->n * sizeof(Item*)); x->n += y->n; y->n = 0; check(x, "extend"); check(y, "extend other"); }
            else { T("copy(L%d) ", (int)(x - l)); Vector* w = vector_copy(x->v); if (vector_size(w) != x->n) fail("copy length");
                for (int q = 0; q < x->n; q++) { Item* g = vector_at(w, q); if (g == x->m[q] || g->val != x->m[q]->val) fail("copy element"); }
                int before = nlive; int n = x->n;
                if (rand() % 2) { delete_vector(w); if (nlive != before - n) fail("delete releases each element"); check(x, "copy"); }
                else { Item* z = mk(5); vector_push(w, z); check(x, "copy shares storage"); L t; t.v = x->v; 
                    for (int q = 0; q < x->n; q++) del(x->m[q]);
                    for (int q = 0; q < x->n; q++) live[x->m[q]->id] = 1, nlive++;
                    delete_vector(x->v); x->v = w; for (int q = 0; q <= n; q++) x->m[q] = vector_at(w, q); x->n = n + 1; check(x, "copy then push"); } }
        }
        for (int j = 0; j < 2; j++) delete_vector(l[j].v);
        if (nlive != 0) fail("elements released exactly once");
    }
    printf("ok\n");
    return 0;
}
