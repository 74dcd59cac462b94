/* runs the stages one after another on one source text; prints every line of assembly, or every message */
#include "src/freader/freader.h"
#include "src/immcgen/immcgen.h"
#include "src/lexer/lexer.h"
#include "src/parser/parser.h"
#include "src/regalloc/regalloc.h"
#include "src/resolver/resolver.h"
#include "src/x64gen/x64gen.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int fail(Error* e) { fprintf(stderr, "%s\n", e->message); return 1; }
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "rb"); static char buf[1 << 20]; size_t n = fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[n] = 0; if (!n) return 2;
    char* text = malloc(n + 1); memcpy(text, buf, n + 1);
    Error* e = NULL; Vector *tk = NULL, *es = NULL, *al = NULL, *lv = NULL; Ast* ast = NULL; Srt* srt = NULL;
    lexerret_assign(&tk, &e, lexer_read_ctokens(new_lexer(text))); if (e) return fail(e);
    parserret_assign(&ast, &e, parser_create_ast(new_parser(tk))); if (e) return fail(e);
    resolverret_assign(&srt, &es, resolver_resolve_semantics(new_resolver(ast)));
    if (es) { for (int i = 0; i < vector_size(es); i++) fail((Error*)vector_at(es, i)); return 1; }
    regallocret_assign(&al, &lv, regalloc_allocate_regs(new_regalloc(immcgen_generate_immcode(new_immcgen(srt)), NUM_CALLER_SAVED_REGS)));
    Vector* xs = x64gen_generate_x64code(new_x64gen(al, lv));
    for (int i = 0; i < vector_size(xs); i++) fputs(x64_tostring((X64*)vector_at(xs, i)), stdout);
    return 0;
}
