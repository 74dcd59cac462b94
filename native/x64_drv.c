/* Reads intermediate-instruction cases, prints what the real generator emits for each.
   case line:  INSTNO ALIVEBITS PUSHED PADTOP DST FST SND
   operand:    -  |  R,w,idx,uns  |  I,w,uns,value  |  P,idx  |  M,off  |  L,name  |  A,w,idx  |  S,hex   (w: 0..4 suffix) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "src/common/type.h"
#include "src/immc/immc.h"
#include "src/liveseq/liveseq.h"
#include "src/liveseq/liveness.h"
#include "src/x64/x64.h"
#include "src/x64gen/inst.h"
#include "src/x64gen/x64gen.h"
#include "src/x64gen/util.h"

static ImmcOpe* ope(char* s) {
    char* a[6]; int n = 0;
    for (char* p = strtok(s, ","); p; p = strtok(NULL, ",")) a[n++] = p;
    switch (a[0][0]) {
        case 'R': return new_reg_immcope(atoi(a[1]), new_immcreg(atoi(a[2]), atoi(a[3])));
        case 'A': return new_arg_immcope(atoi(a[1]), new_immcreg(atoi(a[2]), 0));
        case 'I': {
            int w = atoi(a[1]), u = atoi(a[2]);
            unsigned long long v = strtoull(a[3], NULL, 10);
            IntegerLiteralType t = w == IMMC_SUFFIX_QUAD ? (u ? INTEGER_UNSIGNED_LONG : INTEGER_LONG) : (u ? INTEGER_UNSIGNED_INT : INTEGER_INT);
            return u ? new_unsigned_int_immcope(w, t, v) : new_signed_int_immcope(w, t, (long long)v);
        }
        case 'P': return new_ptr_immcope(atoi(a[1]));
        case 'M': return new_mem_immcope(atoi(a[1]));
        case 'L': return new_label_immcope(new_string(a[1]));
        case 'S': {
            int len = strlen(a[1]) / 2; char* b = malloc(len + 1);
            for (int i = 0; i < len; i++) { unsigned x; sscanf(a[1] + 2 * i, "%2x", &x); b[i] = (char)x; }
            return new_str_immcope(new_sliteral(b, len));
        }
    }
    return NULL;
}

int main(void) {
    static char line[65536], d[20000], f[20000], s[20000], al[64]; int inst, pushed, pad;
    while (fgets(line, sizeof line, stdin)) {
        if (sscanf(line, "%d %63s %d %d %19999s %19999s %19999s", &inst, al, &pushed, &pad, d, f, s) != 7) continue;
        Vector* immcs = new_vector(&t_immc);
        vector_push(immcs, new_inst_immc(inst, ope(d), ope(f), ope(s)));
        Vector* lvs = new_vector(&t_liveseq);
        for (int i = 0; i < NUM_CALLER_SAVED_REGS; i++) {
            Liveseq* q = new_liveseq();
            if (al[i] == '1') { Liveness* l = new_liveness(0); l->last_use_index = 1; vector_push(q->livenesses, l); }
            vector_push(lvs, q);
        }
        X64gen* g = new_x64gen(immcs, lvs);
#ifdef HAVE_PUSHED
        g->pushed_count = pushed;
        vector_push(g->paddings, new_integer(pad));
#endif
        printf("CASE\n"); fflush(stdout);
        Vector* codes = gen_inst_x64code(g);
        for (int i = 0; i < vector_size(codes); i++) { char* t = x64_tostring(vector_at(codes, i)); printf("%s", t); free(t); }
        printf("END %d", g->evacuation_count);
#ifdef HAVE_PUSHED
        printf(" %d", g->pushed_count);
#else
        printf(" %d", pushed);
#endif
        for (int i = 0; i < g->evacuation_count && i < NUM_CALLEE_SAVED_REGS; i++) printf(" %d", CALLEE_SAVED_REG_IDS[i]);
        printf("\n"); fflush(stdout);
    }
    return 0;
}
