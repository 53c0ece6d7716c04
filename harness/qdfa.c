// The automaton compiled from a query accepts exactly the query's paths (C10).
// The query is generated step by step, the path is a symbolic sequence of array entries and keys.
#include "sym.h"
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include "dfa_builder.h"
#ifndef STEPS
#define STEPS 3
#endif
#ifndef WORD
#define WORD 4
#endif
#ifndef FILTERS
#define FILTERS 0
#endif
#ifndef KINDS
#define KINDS 12
#endif
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
enum { KEY, ANY, DKEY, DANY, ARR, RANGE, FILT };
static struct { int t; const char *k; int lo, hi; } st[STEPS + 1]; static int ns;
static char q[256]; static int ql;
static void pr(const char *s) { while (*s) q[ql++] = *s++; }
static const char *const vars[] = { "b", "c", "d.e", "b.c" };
static int fv[4], nfv, filt = -1;
static void gen_step(void) {
    int k = choose(KINDS + (FILTERS && filt < 0 ? 3 : 0)); st[ns].lo = 0; st[ns].hi = INT_MAX;
    switch (k < KINDS ? k : 99) {
        case 0: pr(".a"); st[ns].t = KEY; st[ns].k = "a"; break;
        case 1: pr(".bb"); st[ns].t = KEY; st[ns].k = "bb"; break;
        case 2: pr(".*"); st[ns].t = ANY; break;
        case 3: pr("[*]"); st[ns].t = ARR; break;
        case 4: pr("[1:3]"); st[ns].t = RANGE; st[ns].lo = 1; st[ns].hi = 3; break;
        case 5: pr("[2]"); st[ns].t = RANGE; st[ns].lo = 2; st[ns].hi = 3; break;
        case 6: pr("[:2]"); st[ns].t = RANGE; st[ns].hi = 2; break;
        case 7: pr("[1:]"); st[ns].t = RANGE; st[ns].lo = 1; break;
        case 8: pr("[0]"); st[ns].t = RANGE; st[ns].hi = 1; break;
        case 9: pr("..a"); st[ns].t = DKEY; st[ns].k = "a"; break;
        case 10: pr("..bb"); st[ns].t = DKEY; st[ns].k = "bb"; break;
        case 11: pr("..*"); st[ns].t = DANY; break;
        default: {
            st[ns].t = FILT; filt = ns; nfv = k - KINDS + 1; if (nfv > 2) nfv = 2;
            pr("[?("); 
            for (int i = 0; i < nfv; i++) { int v = fv[i] = choose(4); if (i) pr(choose(2) ? "&&" : "||"); pr("@."); pr(vars[v]); if (choose(2)) pr("==1"); }
            if (k - KINDS == 2) { pr("&&@."); pr(vars[fv[0]]); pr("<5"); }
            pr(")]"); break; }
    }
    ns++;
}
// one event: an array entry, or a key of up to three symbolic bytes
static char key[4];
static unsigned keyis(const char *k) { unsigned r = 1; int i = 0; do r &= key[i] == k[i]; while (k[i++] && i < 4); return r; }
static unsigned stepmask(unsigned p, int arr, unsigned *done) {
    unsigned r = 0; *done = 0;
    for (int s = 0; s < ns; s++) {
        unsigned in = (p >> s) & 1, c = 0;
        switch (st[s].t) {
            case KEY: c = arr ? 0 : keyis(st[s].k); break;
            case ANY: c = 1; break;
            case DKEY: r |= in << s; c = arr ? 0 : keyis(st[s].k); break;
            case DANY: r |= in << s; c = 1; break;
            default: c = arr;
        }
        c &= in; r |= c << (s + 1); *done |= c << s;
    }
    return r;
}
static int follow(JSONQueryDFA *d, int s, const char *path) {
    char b[16]; int n = 0;
    for (;; path++) { if (*path == '.' || !*path) { b[n] = 0; n = 0; s = dfaNextStateByStr(d, s, b); if (!*path) return s; } else b[n++] = *path; }
}
int sym_main(void) {
    int n = choose(STEPS + 1); pr("$"); for (int i = 0; i < n; i++) gen_step(); q[ql] = 0;
    if (FILTERS && filt < 0) sym_stop();
    for (int i = 0; i < ns; i++) if (filt >= 0 && ((st[i].t == DKEY && i >= filt) || st[i].t == DANY || (st[i].t == ANY && i >= filt))) sym_stop();   // see C02
    if (filt >= 0 && filt == ns - 1) sym_stop();
    sym_dump("query", q, ql);
    JSONQueryDFAContext ctx; JSONQueryDFA *d = buildJSONQueryDFA(q, &ctx);
    sym_sample("query", q, ql);
    int s = 1; unsigned p = 1, done = 0;
    for (int i = 0;; i++) {
        sym_reach(1);
        sym_assert((s != 0 && getDFAAcceptType(d, s) == DFA_OUTPUT_CANDIDATE) == ((p >> ns) & 1), "output exactly on the paths of the query");
        sym_assert((s != 0) || p == 0, "a path that can still match is alive");
        if (s == 0) break;
        if (i) {
            int idx = sym_range(0, 5), r = -1, nr = 0, other = 0;
            for (int k = 0; k < ns; k++) if (done >> k & 1) { if (st[k].t == RANGE) { r = k; nr++; } else other++; }
            JSONQueryIndexPair ip = getDFAArrayIndex(d, s); int none = ip.lower == 0 && ip.upper == 0;
            if (nr == 0) { sym_reach(2); sym_assert(none, "no index range where the query gives none"); }
            else if (nr == 1 && other == 0) {   // (an entry that completes a slice step and another step as well, below a descendant step: finding F01)
                sym_reach(3);
                sym_assert(!none && (idx >= ip.lower && idx < ip.upper) == (idx >= st[r].lo && idx < st[r].hi), "the index range of the step");
            }
            if (filt >= 0) {
                int isf = done >> filt & 1;
                sym_reach(isf ? 4 : 5);
                sym_assert((getDFAAcceptType(d, s) == DFA_PREDICATE) == isf, "filtered steps and only they are marked");
                if (isf) {
                    sym_assert(getContextSubtree(&ctx, s) != NULL, "the filter expression is attached");
                    int nd = nfv == 2 && fv[0] != fv[1] ? 2 : 1;
                    sym_assert(getContextSizeOfMapping(&ctx, s) == nd, "one condition state per property of the filter");
                    for (int k = 0; k < nd; k++) {
                        int t = getContextValueOfMapping(&ctx, s, k); ASTNode *v = t > 0 ? getContextSubtree(&ctx, t) : NULL;
                        sym_assert(v && v->node_type == jnt_variable, "a condition state knows its property");
                        sym_assert(!strcmp(v->string, vars[fv[0]]) || (nfv == 2 && !strcmp(v->string, vars[fv[1]])), "the property is one of the filter's");
                        sym_assert(follow(d, s, v->string) == t, "the condition state is where the property's path leads");
                        sym_assert(getDFAAcceptType(d, t) == DFA_CONDITION || getDFAAcceptType(d, t) == DFA_OUTPUT_CANDIDATE, "a condition state is marked");
                    }
                    int has = 0; for (int k = 0; k < getContextSizeOfPredicateStates(&ctx); k++) has |= getContextPredicateStates(&ctx, k) == s;
                    sym_assert(has, "the state is listed as a filtered one");
                }
            }
        }
        if (i == WORD) break;
        int arr = choose(2);
        if (!arr) { for (int k = 0; k < 3; k++) key[k] = (char)sym_byte(); key[3] = 0; }
        s = (int)sym_conc(dfaNextStateByStr(d, s, arr ? DFA_ARRAY : key));
        p = stepmask(p, arr, &done); done = (unsigned)sym_conc(done); p = (unsigned)sym_conc(p);
        if (p == 0 && s == 0 && done == 0) { sym_reach(6); break; }
    }
    return 0;
}
