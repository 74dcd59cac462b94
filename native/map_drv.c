/* Random operation histories on the real map and set against a reference finite map.  args: seed rounds */
#include "src/map/map.h"
#include "src/set/set.h"
#include "src/common/type.h"
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char tracebuf[1 << 16]; static int tp;
#define T(...) (tp += (tp < 60000 ? snprintf(tracebuf + tp, sizeof(tracebuf) - tp, __VA_ARGS__) : 0))
static void fail(const char* m) { printf("FAIL: %s\nhistory: %s\n", m, tracebuf); fflush(stdout); _exit(1); }
void __asan_on_error(void) { printf("memory error\nhistory: %s\n", tracebuf); fflush(stdout); }
static void on_alarm(int s) { printf("FAIL: an operation does not terminate\nhistory: %s\n", tracebuf); fflush(stdout); _exit(1); }
#include <signal.h>
typedef struct { int id, magic; } O;
static int hmode, live;
static O* mk(int id) { O* o = malloc(sizeof *o); o->id = id; o->magic = 77; live++; return o; }
static void* cp(void* p) { O* o = p; if (o->magic != 77) fail("copied a released object"); return mk(o->id); }
static void dl(void* p) { O* o = p; if (o->magic != 77) fail("object released twice"); o->magic = 0; live--; free(o); }
static int hs(void* p) { int i = ((O*)p)->id; switch (hmode) { case 0: return i; case 1: return 3; case 2: return i % 2; case 3: return i * 5 + 1; case 4: return i / 3; default: return (i * 7919) & 1023; } }
static int cm(void* a, void* b) { if (((O*)a)->magic != 77 || ((O*)b)->magic != 77) fail("compared a released object"); return ((O*)a)->id - ((O*)b)->id; }
static HashableType tk = {cp, dl, hs, cm};
static BaseType tv = {cp, dl};
#define K 40
typedef struct { Map* m; O* key[K]; O* val[K]; } M;
static void check(M* x, int nk, const char* op) {
    for (int k = 0; k < nk; k++) {
        O* q = mk(k);
        O* g = map_get(x->m, q);
        if (g != x->val[k]) fail(op);
        if (map_contains(x->m, q) != (x->val[k] != NULL)) fail("contains");
        O d = {5, 77};
        if (map_get_with_default(x->m, q, &d) != (x->val[k] ? (void*)x->val[k] : (void*)&d)) fail("lookup with default");
        dl(q);
    }
    int seen[K] = {0};
    for (MapIter* it = map_iter_begin(x->m); !map_iter_end(it, x->m); it = map_iter_next(it, x->m)) {
        O* k = map_iter_key(it, x->m); O* v = map_iter_value(it, x->m);
        if (!k || !v || k->magic != 77) fail("iteration yields nothing or a released key");
        if (k->id < 0 || k->id >= nk || k != x->key[k->id] || v != x->val[k->id]) fail("iteration yields an absent entry");
        if (seen[k->id]++) fail("iteration visits a key twice");
    }
    for (int k = 0; k < nk; k++) if (seen[k] != (x->val[k] != NULL)) fail("iteration misses a key");
}
typedef struct { Set* s; char in[K]; } S;
static void scheck(Set* s, const char* in, int nk, const char* op) {
    for (int k = 0; k < nk; k++) { O* q = mk(k); if (!!set_contains(s, q) != in[k]) fail(op); dl(q); }
    int seen[K] = {0};
    for (SetIter* it = set_iter_begin(s); !set_iter_end(it, s); it = set_iter_next(it, s)) {
        O* k = set_iter_item(it, s);
        if (!k || k->magic != 77 || k->id < 0 || k->id >= nk || !in[k->id]) fail("set iteration yields an absent item");
        if (seen[k->id]++) fail("set iteration visits an item twice");
    }
    for (int k = 0; k < nk; k++) if (seen[k] != in[k]) fail("set iteration misses an item");
}
int main(int c, char** a) {
    signal(SIGALRM, on_alarm);
    srand(atoi(a[1]) * 7919 + 13);
    int rounds = atoi(a[2]);
    for (int r = 0; r < rounds; r++) {
        alarm(20);
        tp = 0; tracebuf[0] = 0; live = 0;
        hmode = rand() % 6;
        int nk = 1 + rand() % (K - 1), steps = 1 + rand() % 160, padd = 30 + rand() % 50;
        T("hash mode %d: ", hmode);
        M x; memset(&x, 0, sizeof x); x.m = new_map(&tk, &tv);
        for (int s = 0; s < steps; s++) {
            int k = rand() % nk, w = rand() % 100;
            if (w < padd) { O* ko = mk(k); O* vo = mk(1000 + s); T("add(%d) ", k); map_add(x.m, ko, vo); x.key[k] = ko; x.val[k] = vo; }
            else if (w < 97) { O* q = mk(k); T("remove(%d) ", k); map_remove(x.m, q); dl(q); x.key[k] = x.val[k] = NULL; }
            else { T("copy "); Map* m2 = map_copy(x.m);
                M y; memset(&y, 0, sizeof y); y.m = m2;
                for (MapIter* it = map_iter_begin(m2); !map_iter_end(it, m2); it = map_iter_next(it, m2)) {
                    O* ko = map_iter_key(it, m2); O* vo = map_iter_value(it, m2);
                    if (ko->id >= nk || y.val[ko->id]) fail("copy has a wrong or repeated key");
                    if (ko == x.key[ko->id] || vo == x.val[ko->id]) fail("copy shares an entry");
                    if (!x.val[ko->id] || vo->id != x.val[ko->id]->id) fail("copy has a wrong value");
                    y.key[ko->id] = ko; y.val[ko->id] = vo;
                }
                for (int j = 0; j < nk; j++) if (!x.val[j] != !y.val[j]) fail("copy misses a key");
                check(&x, nk, "original after copy");
                if (rand() % 2) { delete_map(m2); } else { delete_map(x.m); x = y; } }
            check(&x, nk, "lookup");
        }
        delete_map(x.m);
        if (live) fail("an entry is not released exactly once");
        S u[2];
        for (int j = 0; j < 2; j++) { u[j].s = new_set(&tk); memset(u[j].in, 0, K); }
        T("sets: ");
        int like = rand() % 3;
        for (int s = rand() % 60; s > 0; s--) {
            int j = rand() % 2, k = rand() % nk, w = rand() % 4;
            for (int both = 0; both < (like == 0 ? 2 : 1); both++, j = !j) {
                if (w) { T("add(S%d,%d) ", j, k); set_add(u[j].s, mk(k)); u[j].in[k] = 1; }
                else { T("remove(S%d,%d) ", j, k); O* q = mk(k); set_remove(u[j].s, q); dl(q); u[j].in[k] = 0; }
            }
            scheck(u[j].s, u[j].in, nk, "set membership");
        }
        char e[K]; Set* z; int sub = 1, sup = 1;
        T("intersection "); for (int k = 0; k < K; k++) e[k] = u[0].in[k] && u[1].in[k]; z = set_intersection(u[0].s, u[1].s); scheck(z, e, nk, "set intersection"); delete_set(z);
        T("union "); for (int k = 0; k < K; k++) e[k] = u[0].in[k] || u[1].in[k]; z = set_union(u[0].s, u[1].s); scheck(z, e, nk, "set union"); delete_set(z);
        T("difference "); for (int k = 0; k < K; k++) e[k] = u[0].in[k] && !u[1].in[k]; z = set_difference(u[0].s, u[1].s); scheck(z, e, nk, "set difference"); delete_set(z);
        for (int k = 0; k < K; k++) { if (u[1].in[k] && !u[0].in[k]) sub = 0; if (u[0].in[k] && !u[1].in[k]) sup = 0; }
        T("subset "); if (!!set_issubset(u[0].s, u[1].s) != sub) fail("set subset test");
        if (!!set_equals(u[0].s, u[1].s) != (sub && sup)) fail("set equality");
        z = set_copy(u[0].s); scheck(z, u[0].in, nk, "set copy"); { O* q = mk(0); set_remove(z, q); dl(q); } scheck(u[0].s, u[0].in, nk, "set after changing its copy"); delete_set(z);
        scheck(u[1].s, u[1].in, nk, "set argument changed");
        delete_set(u[0].s); delete_set(u[1].s);
        if (live) fail("a set item is not released exactly once");
    }
    /* the key types of the compiler */
    alarm(60);
    static const int ie[] = {0, 1, -1, 2, -2, INT_MAX, INT_MIN, INT_MIN + 1, INT_MAX - 1, 1 << 30, -(1 << 30), (1 << 30) + 1, 0x55555555, 587, 1174};
    for (int i = 0; i < (int)(sizeof ie / sizeof *ie); i++) for (int j = 0; j < (int)(sizeof ie / sizeof *ie); j++) {
        int p = ie[i], q = ie[j]; tp = 0; T("integers %d %d ", p, q);
        if ((t_hashable_integer.compare_object(&p, &q) == 0) != (p == q)) fail("integer key comparison");
        if (t_hashable_integer.hash_object(&p) < 0) fail("negative hash");
        if (p == q && t_hashable_integer.hash_object(&p) != t_hashable_integer.hash_object(&q)) fail("equal keys, different hashes");
    }
    for (int r = 0; r < 20000; r++) {
        char s[32], t[32]; int n = rand() % 30, m = rand() % 4 ? n : rand() % 30, md = rand() % 3;
        for (int i = 0; i < 30; i++) { s[i] = (char)(md == 0 ? 1 + rand() % 255 : md == 1 ? 0x80 + rand() % 128 : 'a' + rand() % 3); t[i] = rand() % 40 ? s[i] : (char)(1 + rand() % 255); }
        s[n] = 0; t[m] = 0; tp = 0; T("strings '%s' '%s' ", s, t);
        if ((t_hashable_string.compare_object(s, t) == 0) != (strcmp(s, t) == 0)) fail("string key comparison");
        if (t_hashable_string.hash_object(s) < 0) fail("negative hash");
        if (strcmp(s, t) == 0 && t_hashable_string.hash_object(s) != t_hashable_string.hash_object(t)) fail("equal keys, different hashes");
        char* z = t_hashable_string.copy_object(s); if (z == s || strcmp(z, s)) fail("string key copy"); t_hashable_string.delete_object(z);
    }
    printf("ok\n");
    return 0;
}
