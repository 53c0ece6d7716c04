// Partitioning a text (in memory or in a file) into chunks.
#include "textgen.h"
#include "path_processor.h"
#ifndef MAXCORE
#define MAXCORE 5
#endif
static char okstart[1024];
static void check(PartitionInfo p, int n, const char *what) {
    char m1[120], m2[120], m3[120], m4[120];
    if (!sym_symbolic()) for (int i = 0; i < p.num_chunk && i < n; i++) sym_dump(what, p.stream[i] ? p.stream[i] : "(null)", p.stream[i] ? strlen(p.stream[i]) : 6);
    strcpy(m1, what); strcat(m1, ": chunk count"); strcpy(m2, what); strcat(m2, ": the chunks hold the whole text in order"); strcpy(m3, what); strcat(m3, ": chunk starts at an opening quote"); strcpy(m4, what); strcat(m4, ": no missing chunk");
    sym_assert(p.num_chunk >= 1 && p.num_chunk <= n, m1);
    int at = 0;
    for (int i = 0; i < p.num_chunk; i++) {
        sym_assert(p.stream[i] != NULL, m4);
        if (i > 0) { sym_assert(at < dlen && okstart[at], m3); sym_reach(20 + i); }
        int l = 0;
        int ok = 1; for (; p.stream[i][l] && at < dlen; l++) { ok &= p.stream[i][l] == doc[at]; at++; }
        sym_assert(ok && !p.stream[i][l], m2);
    }
    sym_assert(at == dlen, m2);
}
int sym_main(void) {
    int n = 1 + choose(MAXCORE);
    ws(); value(0); ws(); doc[dlen] = 0;
    for (int i = 1; i < ntk; i++) {
        int o = tk[i].type == T_KEY ? tk[i].off - 1 : tk[i].off;
        int p = tk[i - 1].type;
        if (doc[o] == '"' && (p == T_COM || p == T_LCB || p == T_LB)) okstart[o] = 1;
    }
    if (!sym_symbolic()) sym_dump("doc", doc, dlen);
    sym_sample("json", doc, dlen);
#ifndef FILE_ONLY
    { static char copy[1100]; memset(copy, '"', sizeof copy); char *c = (char *)malloc(dlen + 1); memcpy(c, doc, dlen + 1); PartitionInfo p = partitionInputStream(c, n); check(p, n, "partitionInputStream"); sym_assert(memcmp(c, doc, dlen + 1) == 0, "the input is left alone"); freeInputChunks(p); }
#endif
#ifndef MEM_ONLY
    { sym_file_set(doc, dlen); PartitionInfo p = partitionFile(sym_file_name(), n); check(p, n, "partitionFile"); freeInputChunks(p); }
#endif
    sym_reach(1);
    return 0;
}
