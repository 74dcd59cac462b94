"""C03: tokens by longest match."""
import lex_spec as S
META = dict(technique="contract-based deductive verification (CVV: VCs from the clang AST of /repo, z3/cvc5); the text is an uninterpreted function with symbolic length, every loop of the scanner is cut with an invariant, the token tables are compared entry by entry with C's",
            level_note="every text of up to 2^26 bytes without NUL")
TRUSTED, ASSUMPTIONS = S.TRUSTED, S.ASSUMPTIONS
def prove(ctx):
    S.tu(); t = S.table_units()
    u = [("get_content_top", S.mk_top, S.h_top), ("new_lexer", S.mk, S.h_new), ("skip_white_spaces", S.mk, S.h_space), ("read_keyword_or_identifier", S.mk, S.h_word), ("read_integer_constant", S.mk, S.h_constant), ("read_integer_suffix", S.mk, S.h_suffix), ("read_punctuator", S.mk, S.h_punct),
         ("read_character_constant", S.mk, S.h_char), ("read_string_literal", S.mk, S.h_string), ("read_escape_seqence", S.mk, S.h_escape), ("lexer_read_ctokens", S.mk, S.h_main)]
    u += [(f"read_integer_constant_digits: {S.FIELD[f]}", S.mk, S.h_digits(f)) for f in ("digit_map", "octdigit_map", "hexdigit_map")] + list(t.values())
    ctx.prove_all([(n, (lambda c, n=n, m=m, h=h: c.prove_harness(n, m, h))) for n, m, h in u])
search, standin = S.native_checks("C03", 3000, 60000)
