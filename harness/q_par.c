// A query run in parallel over chunks (cut at any admissible place) gives the matching parts of the whole document.
// With LEARN=n the workers use constraints learned from another document of at most n values.
#include "doc.h"
#ifdef FILTERS
#include "filter.h"
#endif
#ifndef ROOTKIND
#define ROOTKIND 0
#endif
#include "path_processor.h"
#ifndef QUERIES
#define QUERIES "$.a"
#endif
#ifndef MAXCHUNKS
#define MAXCHUNKS 3
#endif
static const char *const qs[] = { QUERIES };
static Step st[64];
static int same(Output *out, int n, const int *e, int ne) {
    if (n != ne) return 0;
    int r = 1;
    for (int i = 0; i < n; i++) {
        char *t = getOutputElement(out, i); const Nd *x = &nd[e[i]]; int l = x->end - x->start;
        for (int k = 0; k < l; k++) r &= t[k] == doc[x->start + k];
        r &= t[l] == 0;
    }
    return r;
}
int sym_main(void) {
    int nq = sizeof qs / sizeof qs[0];
    int qi = choose(nq);
    int ns = parse_query(qs[qi], st);
    PathProcessor *pp = createPathProcessor((char *)qs[qi]);
    sym_assert(pp != NULL, "a valid query is accepted");
    ConstraintTable *ct = NULL;
#ifdef LEARN
    nodesleft = LEARN; gen_doc();
    static char sample[DOC_MAX]; int slen = dlen; memcpy(sample, doc, dlen + 1);
    if (!sym_symbolic()) sym_dump("sample", sample, slen);
    sym_file_set(sample, slen);
    ct = collectDataConstraints(pp, sym_file_name());
    sym_assert(ct != NULL, "constraints were learned");
    nodesleft = BUDGET; wsleft = WSBUDGET;
#endif
    rootkinds = ROOTKIND; gen_doc();
    int exp[ND_MAX], ne = 0, exi[ND_MAX], ni = 0;
    for (int o = 0; o < nnd; o++) for (int i = 0; i < nnd; i++) if (nd[i].ord == o) {
        if (match(i, st, ns) >> ns & 1) exp[ne++] = i;
        if (match_(i, st, ns, 3) >> ns & 1) exi[ni++] = i;
    }
    int differs = ne != ni; for (int i = 0; i < ne && !differs; i++) differs = exp[i] != exi[i];
    if (differs) sym_stop();           // findings F01 (C01), F02 (C02)
    // admissible cuts: before the opening quote of a key or of a string element of an array
    static int cuts[ND_MAX], use[ND_MAX]; int nc = 0, nu = 0;
    for (int i = 0; i < nnd; i++) { if (nd[i].keylen >= 0) cuts[nc++] = nd[i].keyoff - 1; else if (nd[i].parent >= 0 && nd[i].kind == VSTR) cuts[nc++] = nd[i].start; }
    PartitionInfo pi; static char *chunk[64]; pi.stream = chunk; pi.num_chunk = 0;
    int at = 0;
    for (int k = 0; k <= nc; k++) {
        int b = dlen;
        if (pi.num_chunk < MAXCHUNKS - 1) {
            for (int i = 0; i < nc; i++) if (cuts[i] > at && cuts[i] < b) b = cuts[i];
            while (b < dlen && !choose(2)) { int c = b; b = dlen; for (int i = 0; i < nc; i++) if (cuts[i] > c && cuts[i] < b) b = cuts[i]; }
        }
        char *s = (char *)malloc(b - at + 1); memcpy(s, doc + at, b - at); s[b - at] = 0;
        chunk[pi.num_chunk++] = s;
        if (!sym_symbolic()) sym_dump("chunk", s, b - at);
        at = b;
        if (at >= dlen) break;
    }
    if (pi.num_chunk < 2) sym_stop();
    (void)use; (void)nu;
    sym_sample(qs[qi], doc, dlen);
    if (!sym_symbolic()) { sym_dump("query", qs[qi], strlen(qs[qi])); sym_dump("doc", doc, dlen); for (int i = 0; i < ne; i++) sym_dump("expected", doc + nd[exp[i]].start, nd[exp[i]].end - nd[exp[i]].start); }
    ParallelAutomata pa; initParallelAutomata(&pa, pp->query_automaton);
#ifdef SCHED
    sym_thread_order = choose(3); sym_track_begin();
#endif
    executeParallelAutomata(&pa, pi, ct);
#ifdef SCHED
    sym_track_end();
#endif
    PredicateFilter pf; initPredicateFilter(&pf, pa.tuple_list, pp->query_context);
    Output *out = generateFinalOutput(&pf);
    int n = getOutputSize(out);
    if (!sym_symbolic()) for (int i = 0; i < n; i++) sym_dump("got", getOutputElement(out, i), strlen(getOutputElement(out, i)));
    sym_reach(1); if (ne > 0) sym_reach(2); if (ne > 1) sym_reach(3); sym_reach(2 + pi.num_chunk);
    sym_assert(same(out, n, exp, ne), qs[qi]);
    return 0;
}
