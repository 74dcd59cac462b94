/* Random types, trees, literals, instructions and symbols: copy, change or release one side, look at the other; type equality
   against structural equality of a dump.  args: seed rounds */
#define UMLCC_DTYPE_H_PRIVATE
#include "src/dtype/dtype.h"
#include "src/srt/srt.h"
#include "src/ast/ast.h"
#include "src/immc/immc.h"
#include "src/symtab/symtab.h"
#include "src/tagtab/tagtab.h"
#include "src/ctoken/ctoken.h"
#include "src/liveseq/liveness.h"
#include "src/liveseq/liveseq.h"
#include "src/common/type.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef struct { char b[1 << 16]; int n; } Buf;
static Buf B1, B2, B3, *cur;
static const char* what;
#define W(...) (cur->n += (cur->n < 60000 ? snprintf(cur->b + cur->n, sizeof(cur->b) - cur->n, __VA_ARGS__) : 0))
static void fail(const char* m, const char* a, const char* b) { printf("FAIL: %s: %s\nfirst:  %s\nsecond: %s\n", what, m, a, b); fflush(stdout); _exit(1); }
void __asan_on_error(void) { printf("memory error in: %s\nobject: %s\n", what, B1.b); fflush(stdout); }
static unsigned long rs; static int step, tweak;
static int rnd(int n) { rs = rs * 6364136223846793005UL + 1442695040888963407UL; int r = (int)((rs >> 33) % n); if (step++ == tweak) r = (r + 1) % n; return r; }
static char* nm(void) { static const char* N[] = {"a", "b", "ab", "abc", "x1", "abd", ""}; return new_string((char*)N[rnd(6)]); }
static int equ; /* dump for equality: only what equality looks at */
static void dstr(char* s) { if (s) W("'%s'", s); else W("-"); }
static void ddt(DType* d) {
    if (!d) { W("socket"); return; }
    W("%d(", d->type);
    if (d->dpointer) ddt(d->dpointer->to_dtype);
    if (d->darray) { ddt(d->darray->of_dtype); W(" x%d", d->darray->size); }
    if (d->dtypedef) ddt(d->dtypedef->defined_dtype);
    if (d->dstruct) {
        dstr(d->dstruct->name); if (!equ) W(" n%d a%d", d->dstruct->nbytes, d->dstruct->alignment);
        if (d->dstruct->members && !(equ && d->dstruct->name)) for (int i = 0; i < vector_size(d->dstruct->members); i++) { DStructMember* m = vector_at(d->dstruct->members, i); W(" m"); dstr(m->name); ddt(m->dtype); if (!equ) W("@%d", m->memory_offset); }
    }
    if (d->denum) {
        dstr(d->denum->name);
        if (d->denum->members && !(equ && d->denum->name)) for (int i = 0; i < vector_size(d->denum->members); i++) { DEnumMember* m = vector_at(d->denum->members, i); W(" m"); dstr(m->name); W("=%d", m->value); }
    }
    if (d->dfunction) {
        for (int i = 0; i < vector_size(d->dfunction->params); i++) { DParam* p = vector_at(d->dfunction->params, i); W(" p"); if (!equ) dstr(p->name); ddt(p->dtype); }
        W("->"); ddt(d->dfunction->return_dtype);
    }
    W(")");
}
static DType* gdt(int depth, int sock) {
    int k = rnd(depth > 0 ? 16 : 8);
    DTypeType I[] = {DTYPE_CHAR, DTYPE_INT, DTYPE_UNSIGNED_INT, DTYPE_LONG, DTYPE_UNSIGNED_LONG, DTYPE_LONGLONG, DTYPE_UNSIGNED_LONGLONG};
    if (k == 0) return new_void_dtype();
    if (k < 8) return new_integer_dtype(I[k - 1]);
    int s = sock && rnd(6) == 0;
    switch (k) {
        case 8: case 9: return s ? new_socket_pointer_dtype() : new_pointer_dtype(gdt(depth - 1, sock));
        case 10: { int n = 1 + rnd(4); return s ? new_socket_array_dtype(n) : new_array_dtype(gdt(depth - 1, sock), n); }
        case 11: { int n = 8 * rnd(4); return new_named_struct_dtype(nm(), n, n ? 8 : 0); }
        case 12: { Vector* v = new_vector(&t_dstructmember); int n = 1 + rnd(4); for (int i = 0; i < n; i++) { char* x = nm(); DType* t = gdt(0, 0); if (t->type == DTYPE_VOID) { delete_dtype(t); t = new_integer_dtype(DTYPE_INT); } vector_push(v, new_dstructmember(x, t)); } return new_unnamed_struct_dtype(v); }
        case 13: { if (rnd(2)) return new_named_enum_dtype(nm()); Vector* v = new_vector(&t_denummember); int n = rnd(5); for (int i = 0; i < n; i++) { char* x = nm(); vector_push(v, new_denummember(x, rnd(7))); } return new_unnamed_enum_dtype(v); }
        case 14: { Vector* v = new_vector(&t_dparam); int n = rnd(6); for (int i = 0; i < n; i++) { char* x = rnd(2) ? nm() : NULL; DType* pt = gdt(depth - 1, 0); vector_push(v, x ? new_named_dparam(x, pt) : new_unnamed_dparam(pt)); } return s ? new_socket_function_dtype(v) : new_function_dtype(v, gdt(depth - 1, sock)); }
        default: return s ? new_socket_typedef_dtype() : new_typedef_dtype(gdt(depth - 1, sock));
    }
}
static void dil(IntegerLiteral* l) { if (!l) { W("-"); return; } W("i%d %lld %llu", l->type, l->signed_value, l->unsigned_value); }
static void dsl(StringLiteral* l) { if (!l) { W("-"); return; } W("s%d:", l->size); for (int i = 0; i < l->size; i++) W("%02x", (unsigned char)l->value[i]); }
static IntegerLiteral* gil(void) { IntegerLiteralType S[] = {INTEGER_INT, INTEGER_LONG, INTEGER_LONGLONG}, U[] = {INTEGER_UNSIGNED_INT, INTEGER_UNSIGNED_LONG, INTEGER_UNSIGNED_LONGLONG};
    long long v = (long long)rnd(1000) * 1000003LL * (rnd(2) ? 1 : 4999999999LL); return rnd(2) ? new_signed_iliteral(S[rnd(3)], -v) : new_unsigned_iliteral(U[rnd(3)], (unsigned long long)v + (1ULL << 63)); }
static StringLiteral* gsl(void) { int n = 1 + rnd(9); char* s = malloc(n); for (int i = 0; i < n; i++) s[i] = (char)rnd(256); return new_sliteral(s, n); }
static void dsrt(Srt* t) { W("[%d ", t->type); if (t->dtype) ddt(t->dtype); dstr(t->ident_name); W(" %d ", t->sliteral_id); dil(t->iliteral); dsl(t->sliteral); for (int i = 0; i < vector_size(t->children); i++) dsrt(vector_at(t->children, i)); W("]"); }
static Srt* gsrt(int d) { int k = rnd(d > 0 ? 7 : 4);
    switch (k) { case 0: { DType* t = gdt(2, 0); return new_identifier_srt(SRT_IDENT_EXPR, t, nm()); } case 1: { DType* t = gdt(1, 0); return new_iliteral_srt(t, gil()); } case 2: { DType* t = gdt(1, 0); return new_sliteral_srt(t, gsl()); } case 3: { DType* t = gdt(1, 0); return new_string_srt(SRT_IDENT_EXPR, t, rnd(9)); }
    case 4: { Srt* a = gsrt(d - 1); return new_srt(SRT_RET_STMT, 1, a); } default: { DType* t = gdt(1, 0); Srt* a = gsrt(d - 1); Srt* b = gsrt(d - 1); return new_dtyped_srt(k == 5 ? SRT_ADD_EXPR : SRT_SUB_EXPR, t, 2, a, b); } } }
static void dast(Ast* t) { W("[%d ", t->type); dstr(t->ident_name); dil(t->iliteral); dsl(t->sliteral); for (int i = 0; i < vector_size(t->children); i++) dast(vector_at(t->children, i)); W("]"); }
static Ast* gast(int d) { int k = rnd(d > 0 ? 5 : 3);
    switch (k) { case 0: return new_identifier_ast(AST_IDENT_EXPR, nm()); case 1: return new_iliteral_ast(AST_INT_EXPR, gil()); case 2: return new_sliteral_ast(AST_STRING_EXPR, gsl()); default: { Ast* a = gast(d - 1); Ast* b = gast(d - 1); return new_ast(k == 3 ? AST_MUL_EXPR : AST_ADD_EXPR, 2, a, b); } } }
static void dope(ImmcOpe* o) { if (!o) { W("-"); return; } W("<%d %d ", o->type, o->suffix); if (o->reg) W("r%d u%d", o->reg->reg_id, o->reg->is_unsigned); W(" %d ", o->mem_offset); dstr(o->label_name); dil(o->iliteral); dsl(o->sliteral); W(">"); }
static ImmcOpe* gope(void) { switch (rnd(9)) { case 0: return NULL; case 1: return new_signed_reg_immcope(IMMC_SUFFIX_LONG, rnd(9)); case 2: return new_unsigned_reg_immcope(IMMC_SUFFIX_QUAD, rnd(9)); case 3: return new_ptr_immcope(rnd(9)); case 4: return new_mem_immcope(rnd(99)); case 5: return new_label_immcope(nm()); case 6: return new_str_immcope(gsl()); case 7: return new_unsigned_arg_immcope(IMMC_SUFFIX_BYTE, rnd(9)); default: return new_int_immcope(IMMC_SUFFIX_QUAD, gil()); } }
static void dimmc(Immc* m) { W("{%d ", m->type); if (m->inst) { W("%d", m->inst->type); dope(m->inst->dst); dope(m->inst->fst_src); dope(m->inst->snd_src); } if (m->data) { W("d%d", m->data->type); dil(m->data->iliteral); dsl(m->data->sliteral); } if (m->label) { W("l%d %d ", m->label->type, m->label->visibility); dstr(m->label->name); } W("}"); }
static Immc* gimmc(void) { switch (rnd(4)) { case 0: return new_label_immc(IMMC_LABEL_FUNCTION, IMMC_VIS_GLOBAL, nm()); case 1: return new_int_data_immc(IMMC_DATA_QUAD, gil()); case 2: return new_str_data_immc(IMMC_DATA_STR, gsl()); default: { ImmcOpe* a = gope(); ImmcOpe* b = gope(); ImmcOpe* c = gope(); return new_inst_immc(IMMC_INST_ADD, a, b, c); } } }
static void dtok(CToken* t) { W("%d ", t->type); dstr(t->ident_name); dil(t->iliteral); dsl(t->sliteral); }
static CToken* gtok(void) { switch (rnd(4)) { case 0: return new_ctoken(CTOKEN_PLUS); case 1: return new_identifier_ctoken(CTOKEN_IDENT, nm()); case 2: return new_iliteral_ctoken(CTOKEN_INT, gil()); default: return new_sliteral_ctoken(CTOKEN_STRING, gsl()); } }
static void dsym(Symbol* s) { W("%d ", s->type); dstr(s->name); ddt(s->dtype); W(" %d ", s->memory_offset); dil(s->iliteral); }
static Symbol* gsym(void) { char* n = nm(); DType* d = gdt(2, 0); switch (rnd(3)) { case 0: return new_label_symbol(n, d); case 1: return new_memory_symbol(n, d, rnd(99)); default: return new_integer_symbol(n, d, gil()); } }
static void dlive(Liveseq* l) { W("%d %d", l->index, l->liveness_index); for (int i = 0; i < vector_size(l->livenesses); i++) { Liveness* v = vector_at(l->livenesses, i); W(" %d-%d", v->first_def_index, v->last_use_index); } }
static Liveseq* glive(void) { Liveseq* l = new_liveseq(); int n = rnd(4), x = 1 + rnd(3); for (int i = 0; i < n; i++) { Liveness* v = new_liveness(x); v->last_use_index = x + 1 + rnd(3); x = v->last_use_index + rnd(3); vector_push(l->livenesses, v); } n = rnd(5); for (int i = 0; i < n; i++) liveseq_goto_next(l); return l; }
static char* NM[] = {"a", "b", "ab", "abc", "x1", "abd"};
static void dtab(SymbolTable* t) { for (; t; t = t->outer_scope) { W("(%d", t->memory_nbytes); for (int i = 0; i < 6; i++) { Symbol* s = map_get(t->symbol_map, NM[i]); if (s) { W(" %s:", NM[i]); dsym(s); } } W(")"); } }
static SymbolTable* gtab(void) { SymbolTable* t = new_symboltable(); int n = rnd(10); for (int i = 0; i < n; i++) { if (rnd(3) == 0) t = symboltable_enter_scope(t); char* x = nm(); DType* d = gdt(1, 0); if (d->type == DTYPE_VOID) { delete_dtype(d); d = new_integer_dtype(DTYPE_INT); } if (!symboltable_define_memory(t, x, d)) { free(x); delete_dtype(d); } } return t; }
static void dtag(TagTable* t) { for (; t; t = t->outer_scope) { W("("); for (int i = 0; i < 6; i++) { DType* s = map_get(t->map, NM[i]); if (s) { W(" %s:", NM[i]); ddt(s); } } W(")"); } }
static TagTable* gtag(void) { TagTable* t = new_tagtable(); int n = rnd(6); for (int i = 0; i < n; i++) { if (rnd(3) == 0) t = tagtable_enter_scope(t); char* x = nm(); Vector* v = new_vector(&t_denummember); int m = 1 + rnd(3); for (int j = 0; j < m; j++) { char* y = nm(); vector_push(v, new_denummember(y, rnd(5))); } if (!tagtable_define_enum(t, x, v)) { free(x); delete_vector(v); } } return t; }
#define ROUND(name, T, gen, dump, copy, del) do { \
    what = name; tweak = -1; step = 0; rs = seed; T* x = gen; \
    cur = &B1; B1.n = 0; dump(x); T* c = copy(x); \
    cur = &B2; B2.n = 0; dump(c); if (strcmp(B1.b, B2.b)) fail("the copy differs from the original", B1.b, B2.b); \
    B2.n = 0; dump(x); if (strcmp(B1.b, B2.b)) fail("copying changed the original", B1.b, B2.b); \
    T *keep = r % 2 ? x : c, *drop = r % 2 ? c : x; del(drop); \
    for (int q = 0; q < 8; q++) { char* junk = malloc(8 + 8 * q); memset(junk, 0x5a, 8 + 8 * q); free(junk); } \
    B2.n = 0; dump(keep); if (strcmp(B1.b, B2.b)) fail("releasing one side changed the other", B1.b, B2.b); del(keep); } while (0)
static int isar(DType* d) { return d->type == DTYPE_CHAR || d->type == DTYPE_INT || d->type == DTYPE_UNSIGNED_INT || d->type == DTYPE_LONG || d->type == DTYPE_UNSIGNED_LONG || d->type == DTYPE_LONGLONG || d->type == DTYPE_UNSIGNED_LONGLONG || d->type == DTYPE_ENUM; }
static int eqd(DType* a, DType* b) { equ = 1; cur = &B1; B1.n = 0; ddt(a); cur = &B2; B2.n = 0; ddt(b); equ = 0; return strcmp(B1.b, B2.b) == 0; }
int main(int argc, char** argv) {
    unsigned long s0 = strtoul(argv[1], 0, 10); int rounds = atoi(argv[2]);
    for (int r = 0; r < rounds; r++) {
        unsigned long seed = s0 * 1000003UL + r * 7919UL;
        ROUND("dtype_copy", DType, gdt(3, 1), ddt, dtype_copy, delete_dtype);
        ROUND("srt_copy", Srt, gsrt(3), dsrt, srt_copy, delete_srt);
        ROUND("ast_copy", Ast, gast(3), dast, ast_copy, delete_ast);
        ROUND("iliteral_copy", IntegerLiteral, gil(), dil, iliteral_copy, delete_iliteral);
        ROUND("sliteral_copy", StringLiteral, gsl(), dsl, sliteral_copy, delete_sliteral);
        ROUND("immc_copy", Immc, gimmc(), dimmc, immc_copy, delete_immc);
        ROUND("ctoken_copy", CToken, gtok(), dtok, ctoken_copy, delete_ctoken);
        ROUND("symbol_copy", Symbol, gsym(), dsym, symbol_copy, delete_symbol);
        ROUND("liveseq_copy", Liveseq, glive(), dlive, liveseq_copy, delete_liveseq);
        ROUND("symboltable_copy", SymbolTable, gtab(), dtab, symboltable_copy, delete_symboltable);
        ROUND("tagtable_copy", TagTable, gtag(), dtag, tagtable_copy, delete_tagtable);
        what = "sliteral_zero_padding_copy"; rs = seed; tweak = -1; StringLiteral* l = gsl(); int n = l->size + rnd(5); StringLiteral* p = sliteral_zero_padding_copy(l, n);
        if (p->size != n) fail("size", "", ""); for (int i = 0; i < n; i++) if (p->value[i] != (i < l->size ? l->value[i] : 0)) fail("bytes differ", "", ""); delete_sliteral(l); delete_sliteral(p);
        for (int q = 0; q < 4; q++) {
            what = "dtype_equals"; rs = seed + q; step = 0; tweak = -1; DType* a = gdt(3, 0); rs = seed + q; step = 0; tweak = q ? (int)((seed / 7 + q * 5) % 40) : -1; DType* b = gdt(3, 0);
            int e = eqd(a, b); if (!!dtype_equals(a, b) != e) fail(e ? "equal types are told apart" : "different types are taken for equal", B1.b, B2.b);
            if (!!dtype_equals(b, a) != e) fail("not symmetric", B1.b, B2.b);
            if (!dtype_equals(a, a)) fail("not reflexive", B1.b, B1.b);
            what = "dtype_isassignable";
            for (int m = 0; m < 3; m++) { DType *x = m ? new_pointer_dtype(dtype_copy(a)) : dtype_copy(a), *y = m ? new_pointer_dtype(m == 2 ? new_void_dtype() : dtype_copy(b)) : dtype_copy(b);
                int w = (isar(x) && isar(y)) || (x->type == DTYPE_POINTER && y->type == DTYPE_POINTER && (eqd(x, y) || x->dpointer->to_dtype->type == DTYPE_VOID || y->dpointer->to_dtype->type == DTYPE_VOID));
                eqd(x, y); if (!!dtype_isassignable(x, y) != w || !!dtype_isassignable(y, x) != w) fail(w ? "assignable types are refused" : "types that are not assignable are accepted", B1.b, B2.b); delete_dtype(x); delete_dtype(y); }
            delete_dtype(a); delete_dtype(b);
        }
    }
    printf("OK %d rounds\n", rounds);
    return 0;
}
