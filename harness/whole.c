// The whole life of a query over a document held in exactly sized memory: parse, run (serially, in parallel, over
// bounded loads of a file, with learned constraints), read the results, free everything (C17).
#include "doc.h"
#ifdef FILTERS
#include "filter.h"
#endif
#ifndef ROOTKIND
#define ROOTKIND 0
#endif
#include "path_processor.h"
#ifndef QUERIES
#define QUERIES "$.a"
#endif
#ifndef MODES
#define MODES 1, 2, 3, 4, 5
#endif
#ifndef CORES
#define CORES 3
#endif
static const char *const qs[] = { QUERIES };
static const int modes[] = { MODES };
static Step st[64];
static int same(Output *out, int n, const int *e, int ne) {
    if (n != ne) return 0;
    int r = 1;
    for (int i = 0; i < n; i++) {
        char *t = getOutputElement(out, i); const Nd *x = &nd[e[i]]; int l = x->end - x->start;
        for (int k = 0; k < l; k++) r &= t[k] == doc[x->start + k];
        r &= t[l] == 0;
    }
    return r;
}
int sym_main(void) {
    int nq = sizeof qs / sizeof qs[0];
    int qi = choose(nq), mode = modes[choose(sizeof modes / sizeof modes[0])];
    int ns = parse_query(qs[qi], st);
    char *q = (char *)malloc(strlen(qs[qi]) + 1); strcpy(q, qs[qi]);
    PathProcessor *pp = createPathProcessor(q);
    sym_assert(pp != NULL, "a valid query is accepted");
    memset(q, '#', strlen(q)); free(q);
    rootkinds = ROOTKIND;
    ConstraintTable *ct = NULL;
    if (mode == 5) {
#ifdef LEARN
        nodesleft = LEARN;
#endif
        gen_doc(); sym_file_set(doc, dlen);
        if (!sym_symbolic()) sym_dump("sample", doc, dlen);
        ct = collectDataConstraints(pp, sym_file_name());
        nodesleft = BUDGET; wsleft = WSBUDGET;
    }
    gen_doc();
#ifdef PREFIX
    dlen = 1 + choose(dlen - 1); doc[dlen] = 0;      // a document that breaks off
#endif
    int exp[ND_MAX], ne = 0, exi[ND_MAX], ni = 0;
    for (int o = 0; o < nnd; o++) for (int i = 0; i < nnd; i++) if (nd[i].ord == o) {
        if (match(i, st, ns) >> ns & 1) exp[ne++] = i;
        if (match_(i, st, ns, 3) >> ns & 1) exi[ni++] = i;
    }
    int differs = ne != ni; for (int i = 0; i < ne && !differs; i++) differs = exp[i] != exi[i];
#ifndef PREFIX
    if (differs || ne > MAX_OUTPUT) sym_stop();           // findings F01, F02; capacity
    // documents that exceed a capacity are outside; with the capacities lowered the explored ones reach them exactly
    for (int i = 0; i < ni; i++) { int l = nd[exi[i]].end - nd[exi[i]].start; if (l + 1 > MAX_STRING || l + 1 > MAX_TEXT) sym_stop(); if (l + 1 == MAX_STRING) sym_reach(6); if (l + 1 == MAX_TEXT) sym_reach(7); }
    for (int i = 0; i < nnd; i++) {
        int d = nd[i].kind == VOBJ || nd[i].kind == VARR; for (int p = nd[i].parent; p >= 0; p = nd[p].parent) d += nd[p].kind == VOBJ ? 2 : 1;
        if (d > MAX_STACK) sym_stop(); if (d == MAX_STACK) sym_reach(8);
        int l = nd[i].end - nd[i].start; if (nd[i].kind != VOBJ && nd[i].kind != VARR) { if (l + 1 > MAX_SIZE_PRIMITIVE) sym_stop(); if (l + 1 == MAX_SIZE_PRIMITIVE) sym_reach(9); }
        if (nd[i].keylen + 1 > MAX_KEY_TEXT) sym_stop(); if (nd[i].keylen + 1 == MAX_KEY_TEXT) sym_reach(20);
    }
#endif
    sym_sample(qs[qi], doc, dlen);
    if (!sym_symbolic()) { sym_dump("query", qs[qi], strlen(qs[qi])); sym_dump("doc", doc, dlen); for (int i = 0; i < ne; i++) sym_dump("expected", doc + nd[exp[i]].start, nd[exp[i]].end - nd[exp[i]].start); }
    Output *out = NULL; char *s = NULL; StreamingContext ci;
    int cores = mode == 1 || mode == 3 ? 1 : 2 + choose(CORES - 1);
    if (!sym_symbolic()) { char b[32]; snprintf(b, sizeof b, "%d cores %d", mode, cores); sym_dump("mode", b, strlen(b)); }
    if (mode <= 2) {
        s = (char *)malloc(dlen + 1); memcpy(s, doc, dlen + 1);
        memset(&ci, 0x5A, sizeof ci); initStreamingContext(&ci);
        out = mode == 1 ? serialPartialRun(pp, s, &ci) : parallelPartialRun(pp, s, cores, &ci);
        memset(s, '#', dlen); free(s);
        destroyStreamingContext(&ci);
    } else {
        sym_file_set(doc, dlen);
        out = mode == 3 ? serialRun(pp, sym_file_name()) : mode == 4 ? parallelRun(pp, sym_file_name(), cores) : parallelRunOpt(pp, sym_file_name(), cores, ct);
    }
    freePathProcessor(pp);
    if (ct) freeConstraintTable(ct);
    sym_reach(1); if (ne > 0) sym_reach(2); if (ne > 1) sym_reach(3); sym_reach(10 + mode); if (ne == MAX_OUTPUT) sym_reach(4);
    int n = getOutputSize(out);
    if (!sym_symbolic()) for (int i = 0; i < n; i++) sym_dump("got", getOutputElement(out, i), strlen(getOutputElement(out, i)));
#ifdef PREFIX
    unsigned sum = 0; for (int i = 0; i < n; i++) sum += strlen(getOutputElement(out, i));
    if (n > 0) sym_reach(5); sym_assert(n >= 0 && n <= MAX_OUTPUT && sum < 100000, "results can be read");
#else
    sym_assert(same(out, n, exp, ne), qs[qi]);
#endif
    freeOutput(out);
    return 0;
}
