// Loading a file through bounded loads.
#include "textgen.h"
#include "path_processor.h"
static char okstart[1024];
int sym_main(void) {
    ws(); value(0); ws(); doc[dlen] = 0;
    for (int i = 1; i < ntk; i++) {
        int o = tk[i].type == T_KEY ? tk[i].off - 1 : tk[i].off;
        int p = tk[i - 1].type;
        if (doc[o] == '"' && (p == T_COM || p == T_LCB || p == T_LB)) okstart[o] = 1;
    }
    if (!sym_symbolic()) sym_dump("doc", doc, dlen);
    sym_sample("json", doc, dlen);
    sym_file_set(doc, dlen);
    int pos = 0, at = 0, loads = 0;
    for (;;) {
        char *s = loadBoundedInputStream(sym_file_name(), &pos);
        if (!s) break;
        if (!sym_symbolic()) sym_dump("load", s, strlen(s));
        if (at > 0) sym_assert(at < dlen && okstart[at], "a load starts at an opening quote");
        int l = 0;
        for (; s[l]; l++) { sym_assert(at < dlen && s[l] == doc[at], "the loads hold the file in order"); at++; }
        sym_assert(l > 0, "no empty load");
        sym_assert(pos == at, "the next position is the number of bytes loaded");
        free(s); loads++;
        sym_reach(10 + (loads > 9 ? 9 : loads));
    }
    sym_assert(at == dlen, "the loads hold the whole file");
    sym_reach(1);
    // the unbounded load
    char *s = loadInputStream(sym_file_name());
    sym_assert(s != NULL && memcmp(s, doc, dlen) == 0 && s[dlen] == 0, "loadInputStream");
    free(s);
    return 0;
}
