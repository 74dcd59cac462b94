/* reads token lists (one per line: KIND, KIND:name, KIND=int, KIND$string) and prints the parser's tree for each, or ERR */
#include "src/parser/parser.h"
#include "src/ctoken/ctoken.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void dump(Ast* a) {
    printf("(%d", a->type);
    if (a->ident_name) printf(" :%s", a->ident_name);
    if (a->iliteral) printf(" =%lld", a->iliteral->signed_value);
    if (a->sliteral) printf(" $%s", a->sliteral->value);
    int n = vector_size(a->children);
    for (int i = 0; i < n; i++) { printf(" "); dump(vector_at(a->children, i)); }
    printf(")");
}
int main(int c, char** v) {
    static char buf[1 << 20];
    FILE* f = fopen(v[1], "r");
    while (fgets(buf, sizeof buf, f)) {
        Vector* ts = new_vector(&t_ctoken);
        for (char* t = strtok(buf, " \n"); t; t = strtok(NULL, " \n")) {
            char* e; int k = strtol(t, &e, 10); CToken* k2;
            if (*e == ':') k2 = new_identifier_ctoken(k, new_string(e + 1));
            else if (*e == '=') k2 = new_iliteral_ctoken(k, new_signed_iliteral(INTEGER_INT, atoll(e + 1)));
            else if (*e == '$') k2 = new_sliteral_ctoken(k, new_sliteral(new_string(e + 1), strlen(e + 1) + 1));
            else k2 = new_ctoken(k);
            vector_push(ts, k2);
        }
        Parser* p = new_parser(ts); Ast* a = NULL; Error* err = NULL;
        parserret_assign(&a, &err, parser_create_ast(p));
        if (err && a) printf("BOTH\n"); else if (err) { printf("ERR\n"); delete_error(err); } else { dump(a); printf("\n"); delete_ast(a); }
        fflush(stdout); delete_parser(p);
    }
    return 0;
}
