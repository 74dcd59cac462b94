/* random intermediate code through the real register allocator, checked against liveness computed line by line */
#include "src/immc/immc.h"
#include "src/regalloc/regalloc.h"
#include "src/liveseq/liveseq.h"
#include "src/liveseq/liveness.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXL 2000
#define MAXV 400
static unsigned long long s = 1;
static unsigned rnd(unsigned n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(s >> 33) % n; }
typedef struct { int kind; /* 0 inst 1 label 2 data 3 external label */ int inst; int k[3], r[3]; int lab; int fn; int ext; } Ln;   /* operand kinds: 0 none 1 reg 2 ptr 3 mem 4 int 5 label */
static Ln L[MAXL]; static int nl; static int nv; static int nlab;
static int first[MAXV], last_[MAXV];
static Ln* emit(int kind) { Ln* l = &L[nl++]; memset(l, 0, sizeof(*l)); l->kind = kind; return l; }
static int OPS[] = { IMMC_INST_ADD, IMMC_INST_SUB, IMMC_INST_MUL, IMMC_INST_AND, IMMC_INST_SETLT, IMMC_INST_LOAD };
static int JS[] = { IMMC_INST_JEQ, IMMC_INST_JNEQ, IMMC_INST_JGT, IMMC_INST_JGEQ, IMMC_INST_JLT, IMMC_INST_JLEQ };
static int avail[MAXV], na;
static int pick(int* r) { if (na == 0) return 0; *r = avail[na - 1 - rnd(na < 5 || rnd(4) == 0 ? na : 5)]; return 1; }
static void src(Ln* l, int i) { int r; if (rnd(4) && pick(&r)) { l->k[i] = rnd(4) ? 1 : 2; l->r[i] = r; } else l->k[i] = 3 + rnd(2); }
static void def(int into) {
    Ln* l = emit(0); l->inst = OPS[rnd(6)]; src(l, 1); if (rnd(2)) src(l, 2);
    l->k[0] = 1; if (into >= 0) { l->r[0] = into; return; }
    if (na && rnd(8) == 0) { int r; pick(&r); l->r[0] = r; return; }
    l->r[0] = nv; avail[na++] = nv; nv++;
}
static void code(int depth, int n) {
    for (int i = 0; i < n && nl < MAXL - 60 && nv < MAXV - 8; i++) {
        int w = rnd(depth > 0 ? 9 : 6);
        if (w < 4) def(-1);
        else if (w < 5) { Ln* l = emit(0); l->inst = IMMC_INST_STORE; int r; if (pick(&r)) { l->k[0] = 2; l->r[0] = r; } else l->k[0] = 3; src(l, 1); }
        else if (w < 6) { if (na && rnd(3) == 0) { int j = rnd(na); avail[j] = avail[--na]; } else { Ln* l = emit(0); l->inst = IMMC_INST_CALL; l->k[1] = 5; l->lab = -1; if (rnd(2)) { l->k[0] = 1; l->r[0] = nv; avail[na++] = nv++; } } }
        else if (w < 8) {
            int a = nlab++, b = nlab++, na0 = na, keep[MAXV]; memcpy(keep, avail, sizeof(int) * na0);
            Ln* l = emit(0); l->inst = JS[rnd(6)]; l->k[0] = 5; l->lab = a; src(l, 1); src(l, 2);
            code(depth - 1, rnd(4));
            int res = -1; if (rnd(2)) { int sv = nv; def(-1); if (nv > sv) res = sv; }
            l = emit(0); l->inst = IMMC_INST_JMP; l->k[0] = 5; l->lab = b;
            na = na0; memcpy(avail, keep, sizeof(int) * na0);
            l = emit(1); l->lab = a; code(depth - 1, rnd(4));
            if (res >= 0) def(res);
            na = na0; memcpy(avail, keep, sizeof(int) * na0);
            l = emit(1); l->lab = b; if (res >= 0) avail[na++] = res;
        } else {
            int a = nlab++, b = nlab++, na0;
            Ln* l = emit(1); l->lab = a; int keep[MAXV]; na0 = na; memcpy(keep, avail, sizeof(int) * na);
            l = emit(0); l->inst = JS[rnd(6)]; l->k[0] = 5; l->lab = b; src(l, 1); src(l, 2);
            code(depth - 1, rnd(5));
            l = emit(0); l->inst = IMMC_INST_JMP; l->k[0] = 5; l->lab = a;
            na = na0; memcpy(avail, keep, sizeof(int) * na0); l = emit(1); l->lab = b;
        }
    }
}
static char nm[64]; static char* lname(int l) { if (l < 0) return "fn"; sprintf(nm, ".L%d", l); return nm; }
static ImmcOpe* ope(Ln* l, int i) {
    switch (l->k[i]) { case 0: return NULL; case 1: return l->r[i] % 2 ? new_signed_reg_immcope(IMMC_SUFFIX_LONG, l->r[i]) : new_unsigned_reg_immcope(IMMC_SUFFIX_QUAD, l->r[i]);
        case 2: return new_ptr_immcope(l->r[i]); case 3: return new_mem_immcope(8 + 4 * i); case 4: return new_signed_int_immcope(IMMC_SUFFIX_LONG, INTEGER_INT, 7 + i);
        default: return new_label_immcope(new_string(lname(l->lab))); }
}
static Immc* mk(Ln* l) {
    if (l->kind == 1) return new_label_immc(IMMC_LABEL_NORMAL, IMMC_VIS_NONE, new_string(lname(l->lab)));
    if (l->kind == 3) return new_label_immc(l->fn ? IMMC_LABEL_FUNCTION : IMMC_LABEL_VARIABLE, IMMC_VIS_GLOBAL, new_string("ext"));
    if (l->kind == 2) return new_int_data_immc(IMMC_DATA_LONG, new_signed_iliteral(INTEGER_INT, 5));
    return new_inst_immc(l->inst, ope(l, 0), ope(l, 1), ope(l, 2));
}
static void showl(int i) {
    Immc* m = mk(&L[i]); char* t = immc_tostring(m); printf("%3d  %s", i, t); if (!strchr(t, '\n')) printf("\n"); free(t); delete_immc(m);
}
static int fail(char* m, int at) { printf("%s (line %d)\n", m, at); for (int i = 0; i < nl; i++) showl(i); return 1; }
static int isj(int t) { if (t == IMMC_INST_JMP) return 2; for (int i = 0; i < 6; i++) if (JS[i] == t) return 1; return 0; }
static unsigned char live[MAXL + 1][MAXV];
static int one(void) {
    nl = 0; nlab = 0; int K = 1; Vector* v = new_vector(&t_immc);
    static int fb[64], fe[64], fv[64]; int nf = 0; static int FI[64][MAXV], LA[64][MAXV];
    int ne = 1 + rnd(4);
    for (int e = 0; e < ne; e++) {
        Ln* l = emit(3); l->fn = rnd(4) != 0;
        if (!l->fn) { int n = 1 + rnd(3); while (n--) emit(2); continue; }
        int b = nl - 1; nv = 0; na = 0;
        l = emit(0); l->inst = IMMC_INST_ENTER; l->k[1] = 4;
        code(rnd(4), rnd(9));
        if (rnd(2)) def(-1);
        l = emit(0); l->inst = IMMC_INST_LEAVE; l->k[1] = 4;
        fb[nf] = b; fe[nf] = nl; fv[nf] = nv;
        memset(live, 0, sizeof live);
        for (int ch = 1; ch;) { ch = 0;
            for (int i = nl - 1; i >= b; i--) {
                static unsigned char o[MAXV]; memset(o, 0, sizeof o);
                int j = L[i].kind == 0 ? isj(L[i].inst) : 0;
                if (j < 2 && i + 1 < nl) for (int r = 0; r < nv; r++) o[r] |= live[i + 1][r];
                if (j) for (int t = b; t < nl; t++) if (L[t].kind == 1 && L[t].lab == L[i].lab) for (int r = 0; r < nv; r++) o[r] |= live[t][r];
                if (L[i].kind == 0) {
                    if (L[i].k[0] == 1) o[L[i].r[0]] = 0;
                    for (int k = 0; k < 3; k++) if (L[i].k[k] == 2 || (k && L[i].k[k] == 1)) o[L[i].r[k]] = 1;
                }
                if (memcmp(o, live[i], nv)) { memcpy(live[i], o, nv); ch = 1; }
            } }
        for (int r = 0; r < nv; r++) { FI[nf][r] = -1; LA[nf][r] = 0; }
        for (int i = b; i < nl; i++) { if (L[i].kind == 0 && L[i].k[0] == 1) { int r = L[i].r[0]; if (FI[nf][r] < 0) FI[nf][r] = LA[nf][r] = i; } }
        for (int i = b; i < nl; i++) for (int r = 0; r < nv; r++) {
            /* live after line i */
            int j = L[i].kind == 0 ? isj(L[i].inst) : 0, a = 0;
            if (j < 2 && i + 1 < nl) a |= live[i + 1][r];
            if (j) for (int t = b; t < nl; t++) if (L[t].kind == 1 && L[t].lab == L[i].lab) a |= live[t][r];
            if (a && i + 1 > LA[nf][r]) LA[nf][r] = i + 1;
        }
        for (int r = 0; r < nv; r++) { int p = 0; for (int u = 0; u <= r; u++) p += u == r || FI[nf][r] < LA[nf][u]; if (p > K) K = p; }
        nf++;
    }
    K += rnd(3);
    for (int i = 0; i < nl; i++) vector_push(v, mk(&L[i]));
    RegAlloc* ra = new_regalloc(v, K); Vector *out, *seqs; RegAllocReturn* rr = regalloc_allocate_regs(ra); regallocret_assign(&out, &seqs, rr);
    if (vector_size(out) != nl) return fail("number of lines changed", -1);
    if (vector_size(seqs) != K) return fail("number of live-range sequences", -1);
    static int al[MAXV]; static int pos[64]; memset(pos, 0, sizeof pos);
    int f = 0;
    for (int r = 0; r < MAXV; r++) al[r] = -1;
    for (int i = 0; i < nl; i++) {
        int inf = f < nf && i >= fb[f] && i < fe[f];
        if (inf && i == fb[f]) for (int r = 0; r < MAXV; r++) al[r] = -1;
        Immc* g = vector_at(out, i); Immc* w = mk(&L[i]);
        if (g->type != w->type) return fail("line kind changed", i);
        if (g->type == IMMC_INST) {
            ImmcOpe* go[3] = { g->inst->dst, g->inst->fst_src, g->inst->snd_src }; ImmcOpe* wo[3] = { w->inst->dst, w->inst->fst_src, w->inst->snd_src };
            if (g->inst->type != w->inst->type) return fail("instruction changed", i);
            for (int k = 0; k < 3; k++) {
                if ((go[k] == NULL) != (wo[k] == NULL)) return fail("operand lost or invented", i);
                if (!wo[k]) continue;
                if (go[k]->type != wo[k]->type || go[k]->suffix != wo[k]->suffix) return fail("operand kind changed", i);
                if (L[i].k[k] == 1 || L[i].k[k] == 2) {
                    int m = go[k]->reg->reg_id; int* a = &al[L[i].r[k]];
                    if (m < 0 || m >= K) return fail("register not offered", i);
                    if (*a >= 0 && *a != m) return fail("a value is in two registers", i);
                    if (go[k]->reg->is_unsigned != wo[k]->reg->is_unsigned) return fail("signedness changed", i);
                    *a = m;
                } else if (L[i].k[k] == 3 && go[k]->mem_offset != wo[k]->mem_offset) return fail("memory operand changed", i);
                else if (L[i].k[k] == 5 && strcmp(go[k]->label_name, wo[k]->label_name)) return fail("label operand changed", i);
                else if (L[i].k[k] == 4 && go[k]->iliteral->signed_value != wo[k]->iliteral->signed_value) return fail("literal changed", i);
            }
        } else if (g->type == IMMC_LABEL && (strcmp(g->label->name, w->label->name) || g->label->type != w->label->type)) return fail("label changed", i);
        delete_immc(w);
        if (inf && i == fe[f] - 1) {
            for (int r = 0; r < fv[f]; r++) for (int u = 0; u < r; u++) if (FI[f][r] < LA[f][u] && al[r] == al[u]) { printf("values %d and %d live together in register %d\n", u, r, al[r]); return fail("shared register", FI[f][r]); }
            for (int r = 0; r < fv[f]; r++) {
                Liveseq* q = vector_at(seqs, al[r]); Liveness* x = vector_at(q->livenesses, pos[al[r]]++);
                if (!x || x->first_def_index != FI[f][r] || x->last_use_index != LA[f][r]) { if (x) printf("value %d: range [%d,%d) recorded, [%d,%d) expected\n", r, x->first_def_index, x->last_use_index, FI[f][r], LA[f][r]); return fail("live range recorded wrongly", FI[f][r]); }
            }
            f++;
        }
    }
    for (int k = 0; k < K; k++) { Liveseq* q = vector_at(seqs, k); if (vector_size(q->livenesses) != pos[k]) return fail("extra live range recorded", k); }
    delete_vector(out); delete_vector(seqs); delete_regalloc(ra);
    return 0;
}
int main(int c, char** v) {
    s = atoi(v[1]) * 77777ULL + 5; int n = atoi(v[2]);
    for (int i = 0; i < n; i++) if (one()) { printf("case %d\n", i); return 1; }
    return 0;
}
