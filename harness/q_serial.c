// Serial evaluation of a path query against the reference path semantics.
#include "doc.h"
#ifdef FILTERS
#include "filter.h"
#endif
#ifndef ROOTKIND
#define ROOTKIND 0
#endif
#include "path_processor.h"
#ifndef QUERIES
#define QUERIES "$.a"
#endif
static const char *const qs[] = { QUERIES };
static Step st[64];
// exactly the listed nodes, in this order, each with its verbatim text
static int same(Output *out, int n, const int *e, int ne) {
    if (n != ne) return 0;
    int r = 1;
    for (int i = 0; i < n; i++) {
        char *t = getOutputElement(out, i); const Nd *x = &nd[e[i]]; int l = x->end - x->start;
        for (int k = 0; k < l; k++) r &= t[k] == doc[x->start + k];
        r &= t[l] == 0;
    }
    return r;
}
int sym_main(void) {
    int nq = sizeof qs / sizeof qs[0];
    int qi = choose(nq);
    int ns = parse_query(qs[qi], st);
    PathProcessor *pp = createPathProcessor((char *)qs[qi]);
    sym_assert(pp != NULL, "a valid query is accepted");
    rootkinds = ROOTKIND; gen_doc();
    int exp[ND_MAX], ne = 0, exi[2][ND_MAX], ni[2] = {0, 0};
    for (int o = 0; o < nnd; o++) for (int i = 0; i < nnd; i++) if (nd[i].ord == o) {
        if (match(i, st, ns) >> ns & 1) exp[ne++] = i;
        for (int f = 0; f < 2; f++) if (match_(i, st, ns, 1 + f) >> ns & 1) exi[f][ni[f]++] = i;
    }
    int differs[2]; for (int f = 0; f < 2; f++) { differs[f] = ne != ni[f]; for (int i = 0; i < ne && !differs[f]; i++) differs[f] = exp[i] != exi[f][i]; }
    StreamingContext ci; initStreamingContext(&ci);
    Output *out = serialPartialRun(pp, doc, &ci);
    sym_sample(qs[qi], doc, dlen);
    int n = getOutputSize(out);
    static char dbg[64];
    if (!sym_symbolic()) { sym_dump("query", qs[qi], strlen(qs[qi])); sym_dump("doc", doc, dlen); for (int i = 0; i < n; i++) sym_dump("got", getOutputElement(out, i), strlen(getOutputElement(out, i))); for (int i = 0; i < ne; i++) sym_dump("expected", doc + nd[exp[i]].start, nd[exp[i]].end - nd[exp[i]].start); }
    (void)dbg;
    sym_reach(1); if (ne > 0) sym_reach(2); if (ne > 1) sym_reach(3);
    sym_reach(10 + qi); if (ne) sym_reach(100 + qi);
    int ok = same(out, n, exp, ne);
    if (!ok && differs[0] && same(out, n, exi[0], ni[0])) sym_known("F01");
    if (!ok && differs[1] && same(out, n, exi[1], ni[1])) sym_known("F02");
    sym_assert(ok, qs[qi]);
    return 0;
}
