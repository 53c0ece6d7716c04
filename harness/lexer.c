// Every valid JSON text is split into exactly its tokens (braces, brackets, commas, keys, primitives).
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "sym.h"
#include "lexing.h"
#include "textgen.h"
int sym_main(void) {
    ws(); value(0); ws(); doc[dlen] = 0;
    if (!sym_symbolic()) sym_dump("doc", doc, dlen);
    Lexer lx; initLexer(&lx, doc);
    sym_reach(1);
    for (int i = 0; i < ntk; i++) {
        Token t = nextToken(&lx);
        static const int T[8] = { 0, LCB, RCB, LB, RB, COM, KY, PRI };
        sym_reach(10 + tk[i].type);
        sym_assert(t.token_type == T[tk[i].type], "token type");
        if (t.token_type == KY || t.token_type == PRI) {
            int ok = 1; for (int k = 0; k < tk[i].len; k++) ok &= t.content[k] == doc[tk[i].off + k];
            ok &= t.content[tk[i].len] == 0;
            sym_assert(ok, t.token_type == KY ? "key text" : "primitive text");
        }
    }
    sym_assert(nextToken(&lx).token_type == END, "no further token after the last one");
    sym_sample("json", doc, dlen);
    destroyLexer(&lx);
    return 0;
}
