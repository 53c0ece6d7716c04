// Any bytes at all, well-formed or not, are tokenised, partitioned and loaded without a memory error and in finite time (C17).
#include "sym.h"
#include <string.h>
#include <stdio.h>
#include "path_processor.h"
#ifndef LEN
#define LEN 4
#endif
#ifndef MODES
#define MODES 1, 2, 3, 4
#endif
#ifndef CORES
#define CORES 3
#endif
static const int modes[] = { MODES };
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
int sym_main(void) {
    int mode = modes[choose(sizeof modes / sizeof modes[0])], l = choose(LEN + 1);
    char *s = (char *)malloc(l + 1);
    for (int i = 0; i < l; i++) { unsigned char c = sym_byte(); if (mode < 3) sym_assume(c != 0); s[i] = (char)c; }
    s[l] = 0;
    sym_sample("text", s, l);
    if (!sym_symbolic()) { char b[32]; snprintf(b, sizeof b, "%d", mode); sym_dump("mode", b, strlen(b)); sym_dump("text", s, l); }
    if (mode == 1) {
        Lexer *x = createLexer(s); int n = 0;
        while (nextToken(x).token_type != END) { n++; sym_assert(n <= l, "no more tokens than bytes"); }
        sym_assert(nextToken(x).token_type == END, "the end stays the end");
        freeLexer(x);
    } else if (mode == 2) {
        int cores = 1 + choose(CORES);
        PartitionInfo p = partitionInputStream(s, cores); int t = 0, ok = p.num_chunk >= (l > 0) && p.num_chunk <= cores;
        for (int i = 0; i < p.num_chunk; i++) t += strlen(p.stream[i]);
        sym_assert(ok && t == l, "the chunks add up to the text");
        freeInputChunks(p);
    } else if (mode == 3) {
        int cores = 1 + choose(CORES);
        sym_file_set(s, l);
        PartitionInfo p = partitionFile(sym_file_name(), cores);
        sym_assert(p.num_chunk >= 0 && p.num_chunk <= cores, "no more chunks than asked for");
        freeInputChunks(p);
    } else {
        sym_file_set(s, l);
        int at = 0, n = 0; char *t;
        while ((t = loadBoundedInputStream(sym_file_name(), &at)) != NULL) { free(t); n++; sym_assert(n <= l, "every load makes progress"); }
    }
    free(s);
    sym_reach(mode); sym_reach(10 + l);
    return 0;
}
