/* reads texts (a line with the length, then the bytes) and prints the scanner's tokens for each on one line, or ERR */
#include "src/lexer/lexer.h"
#include "src/ctoken/ctoken.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int c, char** v) {
    FILE* f = fopen(v[1], "rb"); long n;
    while (fscanf(f, "%ld", &n) == 1) {
        fgetc(f); char* s = malloc(n + 1); if (fread(s, 1, n, f) != (size_t)n) return 2;
        s[n] = 0; alarm(10);
        Lexer* l = new_lexer(s); Vector* ts = NULL; Error* err = NULL;
        lexerret_assign(&ts, &err, lexer_read_ctokens(l));
        if (err && ts) printf("BOTH");
        else if (err) { printf("ERR"); delete_error(err); }
        else {
            for (int i = 0; i < vector_size(ts); i++) {
                CToken* t = vector_at(ts, i); printf("%d", t->type);
                if (t->ident_name) printf(":%s", t->ident_name);
                if (t->iliteral) {
                    int u = iliteral_isunsigned(t->iliteral);
                    printf("=%d,%llu", t->iliteral->type, u ? t->iliteral->unsigned_value : (unsigned long long)t->iliteral->signed_value);
                }
                if (t->sliteral) { printf("$"); for (int k = 0; k < t->sliteral->size; k++) printf("%02x", (unsigned char)t->sliteral->value[k]); }
                printf(" ");
            }
            delete_vector(ts);
        }
        printf("\n"); fflush(stdout); delete_lexer(l);
    }
    return 0;
}
