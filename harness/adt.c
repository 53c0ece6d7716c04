// Stacks, lists and tables of the engine against reference models, under symbolic sequences of operations (C16).
#include "sym.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
typedef union { long num; char *str; } my_union_t;
#define DTP_UNION_TYPE
#include "path_processor.h"
#include "dragontooth.h"
#ifndef ADT
#define ADT 1
#endif
#ifndef N
#define N 5
#endif
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
static char hist[256]; static int hl;
static void note(const char *s) { while (*s && hl < 250) hist[hl++] = *s++; }
static void notei(int v) { char b[16]; snprintf(b, sizeof b, "%d", v); note(b); }
#define CHECK(c, m) do { if (!sym_symbolic()) sym_dump("history", hist, hl); sym_assert(c, m); } while (0)
#if ADT == 1      // syntax stacks
#define TOPS (MAX_STACK)
static SyntaxStack s[2]; static int ref[2][TOPS * 2], n[2];
static void full(int i) {
    int ok = syntaxStackSize(&s[i]) == n[i];
    CHECK(ok, "size of a syntax stack");
    SyntaxStack c = s[i];
    for (int k = n[i] - 1; k >= 0; k--) ok &= syntaxStackPop(&c) == ref[i][k];
    ok &= syntaxStackPop(&c) == INVALID;
    CHECK(ok, "contents of a syntax stack");
    CHECK(syntaxStackSize(&s[i]) == n[i], "popping a copy leaves the syntax stack alone");
}
int sym_main(void) {
    memset(s, 0xA5, sizeof s); initSyntaxStack(&s[0]); initSyntaxStack(&s[1]);
    static const int pre[] = { 0, 1, 9, MAX_STACK - 3 };
    int p = pre[choose(4)]; notei(p); note(" pushed;");
    for (int i = 0; i < p; i++) { syntaxStackPush(&s[0], i + 10); ref[0][n[0]++] = i + 10; }
    for (int t = 0; t < N; t++) {
        int op = choose(7), w = choose(2); static const char *const nm[] = { " push", " pop", " top", " second", " combine", " clear", "" };
        note(nm[op]); notei(w);
        if (op == 0) { if (n[w] == MAX_STACK) sym_stop(); int v = sym_byte(); syntaxStackPush(&s[w], v); ref[w][n[w]++] = v; }
        else if (op == 1) { int v = syntaxStackPop(&s[w]); CHECK(v == (n[w] ? ref[w][n[w] - 1] : INVALID), "syntax stack pop"); if (n[w]) n[w]--; }
        else if (op == 2) CHECK(syntaxStackTop(&s[w]) == (n[w] ? ref[w][n[w] - 1] : INVALID), "syntax stack top");
        else if (op == 3) CHECK(syntaxStackSecondTop(&s[w]) == (n[w] > 1 ? ref[w][n[w] - 2] : INVALID), "syntax stack second top");
        else if (op == 4) { if (n[0] + n[1] > MAX_STACK) sym_stop(); combineSyntaxStack(&s[w], &s[1 - w]); for (int i = 0; i < n[1 - w]; i++) ref[w][n[w]++] = ref[1 - w][i]; }
        else if (op == 5) { initSyntaxStack(&s[w]); n[w] = 0; }
        else break;
    }
    sym_sample("history", hist, hl);
    full(0); full(1); sym_reach(1); if (n[0] == MAX_STACK) sym_reach(2); if (n[1]) sym_reach(3);
    return 0;
}
#elif ADT == 2    // query stacks with one path
static QueryStack s; static QueryStackElement ref[MAX_STACK]; static int n;
static int eq(QueryStackElement a, QueryStackElement b) { return (a.query_state == b.query_state) & (a.count == b.count) & (a.matched_start == b.matched_start); }
static QueryStackElement sy(void) { QueryStackElement e; e.query_state = sym_byte(); e.count = sym_byte(); e.matched_start = sym_byte() - 1; return e; }
int sym_main(void) {
    memset(&s, 0xA5, sizeof s); initQueryStack(&s);
    static const int pre[] = { 0, 1, 9, MAX_STACK - 3 };
    int p = pre[choose(4)]; notei(p); note(" pushed;");
    for (int i = 0; i < p; i++) { QueryStackElement e = { i, i + 1, i + 2 }; queryStackPush(&s, e); ref[n++] = e; }
    for (int t = 0; t < N; t++) {
        int op = choose(6); static const char *const nm[] = { " push", " pop", " top", " second", " update", "" };
        note(nm[op]);
        if (op == 0) { if (n == MAX_STACK) sym_stop(); QueryStackElement e = sy(); queryStackPush(&s, e); ref[n++] = e; }
        else if (op == 1) { QueryStackElement e = queryStackPop(&s); CHECK(n ? eq(e, ref[n - 1]) : e.query_state == INVALID, "query stack pop"); if (n) n--; }
        else if (op == 2) { QueryStackElement e = queryStackTop(&s); CHECK(n ? eq(e, ref[n - 1]) : e.query_state == INVALID, "query stack top"); }
        else if (op == 3) { QueryStackElement e = queryStackSecondTop(&s); CHECK(n > 1 ? eq(e, ref[n - 2]) : e.query_state == INVALID, "query stack second top"); }
        else if (op == 4) { if (!n) continue; QueryStackElement e = sy(); queryStackTopUpdate(&s, e); ref[n - 1] = e; }
        else break;
    }
    sym_sample("history", hist, hl);
    sym_reach(1); if (n == MAX_STACK) sym_reach(2);
    int ok = 1; for (int k = n - 1; k >= 0; k--) ok &= eq(queryStackPop(&s), ref[k]);
    ok &= queryStackPop(&s).query_state == INVALID; CHECK(ok, "contents of a query stack");
    return 0;
}
#elif ADT == 3    // result lists
static char ref[2][MAX_OUTPUT][MAX_STRING]; static int n[2];
int sym_main(void) {
    Output *o[2]; o[0] = createOutput(); o[1] = createOutput(); static char buf[MAX_STRING];
    static const int pre[] = { 0, 3, MAX_OUTPUT - 2 };
    int p = pre[choose(3)]; notei(p); note(" added;");
    for (int i = 0; i < p; i++) { snprintf(buf, sizeof buf, "v%d", i); strcpy(ref[0][n[0]++], buf); addOutputElement(o[0], buf); }
    for (int t = 0; t < N; t++) {
        int op = choose(4), w = choose(2); static const char *const nm[] = { " add", " addlong", " remove", "" };
        note(nm[op]); notei(w);
        if (op == 0 || op == 1) {
            if (n[w] == MAX_OUTPUT) sym_stop();
            int l = op ? MAX_STRING - 1 : choose(3); memset(buf, 'l', sizeof buf);
            for (int i = l - 1; i >= 0 && i > l - 3; i--) { unsigned char c = sym_byte(); sym_assume(c != 0); buf[i] = (char)c; }
            buf[l] = 0; memcpy(ref[w][n[w]++], buf, l + 1);
            addOutputElement(o[w], buf); memset(buf, '#', sizeof buf);
        } else if (op == 2) { int k = choose(n[w] < 3 ? n[w] + 1 : 4); notei(k); removeOutputElement(o[w], k); n[w] -= k; }
        else break;
    }
    sym_sample("history", hist, hl);
    for (int w = 0; w < 2; w++) {
        CHECK(getOutputSize(o[w]) == n[w], "size of a result list");
        int ok = 1; for (int i = 0; i < n[w]; i++) { char *t = getOutputElement(o[w], i); int k = 0; for (;; k++) { ok &= t[k] == ref[w][i][k]; if (!sym_issym(ref[w][i][k]) && !ref[w][i][k]) break; } }
        CHECK(ok, "contents of a result list");
    }
    sym_reach(1); if (n[0] == MAX_OUTPUT) sym_reach(2); if (n[1]) sym_reach(3);
    freeOutput(o[0]); freeOutput(o[1]);
    return 0;
}
#elif ADT == 4    // tuple lists
static struct { int state, sp, ep, next; char text[MAX_TEXT]; } ref[MAX_TUPLE_LIST]; static int n;
static int eq(Tuple t, int i) {
    int ok = (t.state == ref[i].state) & (t.start_position == ref[i].sp) & (t.next_index == ref[i].next);
    if (ref[i].sp >= 0) ok &= t.end_position == ref[i].ep;
    else for (int k = 0;; k++) { ok &= t.text[k] == ref[i].text[k]; if (!sym_issym(ref[i].text[k]) && !ref[i].text[k]) break; }
    return ok;
}
int sym_main(void) {
    TupleList *tl = createTupleList(); static char buf[MAX_TEXT];
    static const int pre[] = { 0, 2, MAX_TUPLE_LIST - 2 };
    int p = pre[choose(3)]; notei(p); note(" added;");
    for (int i = 0; i < p; i++) { snprintf(buf, sizeof buf, "v%d", i); strcpy(ref[n].text, buf); ref[n].state = i; ref[n].sp = -1; ref[n++].next = -1; addTuple(tl, i, buf); }
    for (int t = 0; t < N; t++) {
        int op = choose(5); static const char *const nm[] = { " add", " addlong", " virtual", " link", "" };
        note(nm[op]);
        if (op < 3 && n == MAX_TUPLE_LIST) sym_stop();
        if (op < 2) {
            int l = op ? MAX_TEXT - 1 : choose(3); memset(buf, 'l', sizeof buf);
            for (int i = l - 1; i >= 0 && i > l - 3; i--) { unsigned char c = sym_byte(); sym_assume(c != 0); buf[i] = (char)c; }
            buf[l] = 0; memcpy(ref[n].text, buf, l + 1); ref[n].state = sym_byte(); ref[n].sp = -1; ref[n].next = -1;
            addTuple(tl, ref[n].state, buf); memset(buf, '#', sizeof buf); n++;
        } else if (op == 2) { ref[n].state = sym_byte(); ref[n].sp = sym_byte(); ref[n].ep = sym_byte(); ref[n].next = -1; addVirtualTuple(tl, ref[n].state, ref[n].sp, ref[n].ep); n++; }
        else if (op == 3) { if (n < 2) continue; int a = n - 1 - choose(n < 4 ? n : 4), b = choose(n < 3 ? n : 3); notei(a); note(">"); notei(b); linkTuples(tl, a, b); ref[a].next = b; CHECK(eq(getNextTuple(tl, a), b), "next tuple"); }
        else break;
    }
    sym_sample("history", hist, hl);
    CHECK(getTupleListSize(tl) == n, "size of a tuple list");
    int ok = 1; for (int i = 0; i < n; i++) ok &= eq(getTuple(tl, i), i);
    CHECK(ok, "contents of a tuple list");
    sym_reach(1); if (n == MAX_TUPLE_LIST) sym_reach(2);
    freeTupleList(tl);
    return 0;
}
#elif ADT == 5    // the table of learned constraints: a map from a key name (or "array") to the states seen, in order
static struct { int arr; char name[8]; int st[MAX_STATES]; int ns; } ref[MAX_CONSTRAINT]; static int n;
static int find(int arr, const char *name) { for (int i = 0; i < n; i++) if (ref[i].arr == arr && (arr || strcmp(ref[i].name, name) == 0)) return i; return -1; }
#ifdef FULLNAMES
#define NAMECHAR sym_range(1, 255)
#else
#define NAMECHAR sym_range('a', 'c')
#endif
static void rname(char *b) { int l = choose(3); for (int i = 0; i < l; i++) b[i] = (char)NAMECHAR; b[l] = 0; }
static void add(ConstraintTable *ct, int arr, char *name, int st) {
    int i = find(arr, name);
    if (i < 0) { if (n == MAX_CONSTRAINT) sym_stop(); i = n++; ref[i].arr = arr; strcpy(ref[i].name, name); ref[i].ns = 0; }
    int k = 0; while (k < ref[i].ns && ref[i].st[k] != st) k++;
    if (k == ref[i].ns) { if (k == MAX_STATES) sym_stop(); ref[i].st[ref[i].ns++] = st; }
    addConstraintInfo(ct, st, arr ? LB : KY, arr ? NULL : name);
}
int sym_main(void) {
    ConstraintTable *ct = createConstraintTable(); char nm[8];
    int p = choose(3); notei(p); note(" preamble;");
    if (p == 1) for (int i = 0; i < MAX_CONSTRAINT - 2; i++) { snprintf(nm, sizeof nm, "%c%d", 'a' + i % 3, i / 3); add(ct, 0, nm, 1 + i % 2); }
    if (p == 2) { add(ct, 1, "", 1); for (int i = 0; i < MAX_STATES - 2; i++) { strcpy(nm, "a"); add(ct, 0, nm, i); add(ct, 1, "", 2 * i); } }
    for (int t = 0; t < N; t++) {
        int op = choose(3); if (op == 2) break;
        note(op ? " array" : " key");
        if (!op) { rname(nm); int st = sym_range(0, 3); add(ct, 0, nm, st); memset(nm, '#', sizeof nm); } else add(ct, 1, "", sym_range(0, 3));
    }
    sym_sample("history", hist, hl);
    // every key learned, one arbitrary key, the array entry
    for (int q = -2; q < n; q++) {
        static ConstraintInfo ci; memset(&ci, 0xA5, sizeof ci); int arr = q == -2; if (q >= 0 && ref[q].arr) continue;
        if (q == -1) rname(nm); else if (q >= 0) { strcpy(nm, ref[q].name); if (n > 8 && q > 2 && q < n - 3) continue; }
        int i = find(arr, nm); ci.type = arr ? LB : KY; if (!arr) strcpy(ci.token_name, nm);
        updateStateInfo(ct, &ci);
        if (i < 0) { CHECK(ci.num_state <= 0, "nothing is known about an entry that was not learned"); sym_reach(2); continue; }
        CHECK(ci.num_state == ref[i].ns, "number of states of a learned entry");
        int ok = 1; for (int k = 0; k < ref[i].ns; k++) ok &= ci.state_set[k] == ref[i].st[k];
        CHECK(ok, "states of a learned entry"); sym_reach(3);
        // a looked up entry is a copy
        ci.state_set[0] = 77; memset(&ci, 0xA5, sizeof ci); ci.type = arr ? LB : KY; if (!arr) strcpy(ci.token_name, nm); updateStateInfo(ct, &ci);
        CHECK(ci.state_set[0] == ref[i].st[0], "a looked up entry is a copy");
    }
    sym_reach(1); freeConstraintTable(ct);
    return 0;
}
#elif ADT == 6    // units and unit lists
static struct { int ns, st[MAX_STATE], nu, ty[MAX_UNMATCHED_SYMBOL], ix[MAX_UNMATCHED_SYMBOL], nr, rs[MAX_STATE], rc[MAX_STATE]; char *b, *e; int state; } ref[MAX_UNIT + 1];
static UnitList ul; static int n; static Unit u; static char text[64];
int sym_main(void) {
    memset(&ul, 0xA5, sizeof ul); memset(&u, 0xA5, sizeof u); initUnitList(&ul); initUnit(&u);
    CHECK(getSizeUnitList(&ul) == 0, "a new unit list is empty");
    int p = choose(3); p = p == 2 ? MAX_UNIT - 2 : p; notei(p); note(" units;");
    for (int i = 0; i < p; i++) { addStartPosition(&u, text + i % 60); addEndPosition(&u, text + i % 60 + 1); ref[n].b = text + i % 60; ref[n].e = text + i % 60 + 1; addUnit(&ul, u); n++; initUnit(&u); memset(&ref[n], 0, sizeof ref[n]); }
    int pu = choose(2) ? MAX_UNMATCHED_SYMBOL - 2 : 0; for (int i = 0; i < pu; i++) { UnmatchedSymbol s = { i & 3, i }; addUnmatchedSymbol(&u, s); ref[n].ty[ref[n].nu] = i & 3; ref[n].ix[ref[n].nu++] = i; ref[n].state = UNIT_UNMATCHED; }
    for (int t = 0; t < N && n < MAX_UNIT; t++) {
        int op = choose(6); static const char *const nm[] = { " symbol", " states", " roots", " end", " add", "" };
        note(nm[op]);
        if (op == 0) { if (ref[n].nu == MAX_UNMATCHED_SYMBOL) sym_stop(); UnmatchedSymbol s; s.token_type = sym_byte(); s.index = sym_byte(); addUnmatchedSymbol(&u, s); ref[n].ty[ref[n].nu] = s.token_type; ref[n].ix[ref[n].nu++] = s.index; ref[n].state = UNIT_UNMATCHED; }
        else if (op == 1) { int a[3], k = 1 + choose(3); for (int i = 0; i < k; i++) ref[n].st[i] = a[i] = sym_byte(); addStartingStates(&u, a, k); ref[n].ns = k; a[0] = -7; }
        else if (op == 2) { TreeNode a[MAX_STATE]; memset(a, 0xA5, sizeof a); int k = choose(2) ? MAX_STATE : 2; for (int i = 0; i < k; i++) { a[i].query_state = ref[n].rs[i] = i < 2 ? sym_byte() : i; a[i].count = ref[n].rc[i] = i; } addRoots(&u, a, k); ref[n].nr = k; a[0].query_state = -7; }
        else if (op == 3) { addStartPosition(&u, text + t); addEndPosition(&u, text + t + 2); ref[n].b = text + t; ref[n].e = text + t + 2; }
        else if (op == 4) { addUnit(&ul, u); n++; initUnit(&u); memset(&ref[n], 0, sizeof ref[n]); }
        else break;
    }
    sym_sample("history", hist, hl);
    CHECK(getSizeUnitList(&ul) == n, "size of a unit list");
    for (int i = 0; i <= n; i++) {
        Unit *x = i < n ? &ul.units[i] : &u; int ok = x->count_unmatched_symbols == ref[i].nu - 1;
        ok &= x->start == ref[i].b; ok &= x->end == ref[i].e; ok &= x->has_pruned == UNPRUNED; ok &= x->unit_state == ref[i].state;
        if (ref[i].ns) { ok &= x->count_start_states == ref[i].ns - 1; for (int k = 0; k < ref[i].ns; k++) ok &= x->starting_states[k] == ref[i].st[k]; }
        for (int k = 0; k < ref[i].nu; k++) ok &= (x->unmatched_symbols[k].token_type == ref[i].ty[k]) & (x->unmatched_symbols[k].index == ref[i].ix[k]);
        if (ref[i].nr) { ok &= x->num_root == ref[i].nr; for (int k = 0; k < ref[i].nr; k++) ok &= (x->root_node[k].query_state == ref[i].rs[k]) & (x->root_node[k].count == ref[i].rc[k]); }
        CHECK(ok, "contents of a unit");
    }
    sym_reach(1); if (n == MAX_UNIT) sym_reach(2); if (n) sym_reach(3);
    return 0;
}
#elif ADT == 7    // the stack of all possible paths
#ifndef STATES
#define STATES 3
#endif
#ifndef NKEYS
#define NKEYS 4
#endif
static QueryStacks qs; static QueryStacksElement lv[N + 2]; static int depth;
static struct { int st, root[STATES + 1], parent[STATES + 1], nt; const char *tx[8]; int tc[8]; } rn[N + 2][STATES + 1]; static int rc[N + 2];
static int lvl_ok(JSONQueryDFA *qa) {     // the current level against the reference
    int d = depth, ok = 1; QueryStacksElement e = lv[d];
    ok &= e.end - e.start + 1 == rc[d]; if (!ok) return 0;
    for (int i = e.start; i <= e.end; i++) {
        int st = qs.node[i].query_state, j = -1;
        for (int k = 0; k < rc[d]; k++) if (rn[d][k].st == st) j = k;
        if (j < 0) return 0;
        if (d == 0) continue;
        int np = 0, nr = 0;
        for (int k = qs.node[i].parent_range.start; k <= qs.node[i].parent_range.end; k++) { int pi = qs.parent_pointers[k], f = 0; if (pi < lv[d - 1].start || pi > lv[d - 1].end) return 0; for (int x = 0; x < rc[d - 1]; x++) if (rn[d - 1][x].st == qs.node[pi].query_state && rn[d][j].parent[x]) f = 1; if (!f) return 0; np++; }
        for (int k = qs.node[i].root_range.start; k <= qs.node[i].root_range.end; k++) { int ri = qs.root_pointers[k], f = 0; if (ri < lv[0].start || ri > lv[0].end) return 0; for (int x = 0; x < rc[0]; x++) if (rn[0][x].st == qs.node[ri].query_state && rn[d][j].root[x]) f = 1; if (!f) return 0; nr++; }
        int wp = 0, wr = 0; for (int x = 0; x <= STATES; x++) { wp += rn[d][j].parent[x]; wr += rn[d][j].root[x]; }
        if (np != wp || nr != wr) return 0;
    }
    return 1;
}
int sym_main(void) {
    JSONQueryDFA *qa = createJSONQueryDFA(STATES + 1, 5); int start[STATES + 1];
    qa->names[1] = strdup("other"); qa->names[2] = strdup("array"); qa->names[3] = strdup("a"); qa->names[4] = strdup("b");
    for (int s = 1; s <= STATES; s++) for (int c = 1; c < 5; c++) qa->table[s * 5 + c] = sym_range(0, STATES);
    memset(&qs, 0xA5, sizeof qs);
    int k = 0; for (int s = 0; s <= STATES; s++) start[k++] = s;
    lv[0] = initQueryStacks(&qs, start, k); rc[0] = k; for (int i = 0; i < k; i++) { rn[0][i].st = i; rn[0][i].root[i] = 1; }
    start[0] = 99;
    if (choose(2)) {  // keep only some of them
        int keep[2] = { 1 + choose(STATES), 0 }, nk = 1; if (choose(2)) { keep[1] = 1 + choose(STATES); if (keep[1] == keep[0]) sym_stop(); nk = 2; }
        note("prune"); notei(keep[0]); notei(keep[1]); note(" ");
        lv[0] = pruneQueryPaths(&qs, keep, nk); rc[0] = nk; memset(rn[0], 0, sizeof rn[0]); for (int i = 0; i < nk; i++) { rn[0][i].st = keep[i]; rn[0][i].root[i] = 1; }
        sym_reach(4);
    } else if (choose(2)) { lv[0] = pruneQueryPaths(&qs, start, 0); note("prune- "); }
    TupleList *tl = createTupleList(); int ntx = 0; static const char *const tx[] = { "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7" };
    QueryStacksElement cur = lv[0];
    CHECK(lvl_ok(qa), "start states");
    for (int t = 0; t < N; t++) {
        int op = choose(4);
        if (op == 0) {
            static char *const keys[] = { NULL, "a", "zz", "b" }; char *key = keys[choose(NKEYS)]; note(" push "); note(key ? key : "[");
            int in = key == NULL ? 2 : strcmp(key, "a") == 0 ? 3 : strcmp(key, "b") == 0 ? 4 : 1, d = depth + 1;
            memset(rn[d], 0, sizeof rn[d]); rc[d] = 0;
            cur = queryStacksPush(&qs, cur, qa, key);
            for (int i = 0; i < rc[depth]; i++) {
                int s = rn[depth][i].st, to = (int)sym_conc(qa->table[s * 5 + in]); if (in > 2 && to == 0) to = (int)sym_conc(qa->table[s * 5 + 1]);
                int j = 0; while (j < rc[d] && rn[d][j].st != to) j++;
                if (j == rc[d]) { rn[d][j].st = to; rc[d]++; }
                rn[d][j].parent[i] = 1; for (int r = 0; r <= STATES; r++) rn[d][j].root[r] |= rn[depth][i].root[r];
            }
            depth = d; lv[d] = cur; CHECK(lvl_ok(qa), "states after a push");
        } else if (op == 1) {
            note(" pop"); if (depth == 0) sym_stop();
            cur = queryStacksPop(&qs); depth--;
            CHECK(cur.start == lv[depth].start && cur.end == lv[depth].end && lvl_ok(qa), "states after a pop");
            sym_reach(2);
        } else if (op == 2) {
            note(" result"); if (ntx == 8) sym_stop(); int i = cur.start + choose(cur.end - cur.start + 1), st = qs.node[i].query_state, before = getTupleListSize(tl);
            int virt = ntx & 1;
            if (virt) addVirtualTupleInfo(&qs, i, st, ntx, ntx + 1, tl); else addTupleInfo(&qs, i, st, (char *)tx[ntx], tl);
            int added = 0;
            for (int j = 0; j < rc[depth]; j++) if (rn[depth][j].st == st) for (int r = 0; r < rc[0]; r++) if (rn[depth][j].root[r]) { rn[0][r].tc[rn[0][r].nt] = ntx; rn[0][r].tx[rn[0][r].nt++] = tx[ntx]; added++; }
            CHECK(getTupleListSize(tl) == before + added, "a result is recorded once for every start state it is reached from");
            ntx++; sym_reach(3);
        } else break;
    }
    sym_sample("history", hist, hl);
    if (!sym_symbolic()) sym_dump("history", hist, hl);
    for (int i = lv[0].start; i <= lv[0].end; i++) for (int r = 0; r < rc[0]; r++) if (qs.node[i].query_state == rn[0][r].st) {
        int c = 0, at = qs.node[i].first_tuple_index, ok = 1;
        while (at >= 0 && c < rn[0][r].nt) { Tuple t = getTuple(tl, at); int x = rn[0][r].tc[c]; if (x & 1) ok &= t.start_position == x && t.end_position == x + 1; else ok &= t.start_position == -1 && strcmp(t.text, tx[x]) == 0; c++; if (at == qs.node[i].last_tuple_index) { at = -1; break; } at = t.next_index; }
        CHECK(ok && c == rn[0][r].nt && at < 0, "the results of a start state are linked in order");
    }
    sym_reach(1);
    return 0;
}
#elif ADT == 8    // filter stack; stacks of the scanner run-time
int sym_main(void) {
    int which = choose(3); note(which == 0 ? "filter stack" : which == 1 ? "run-time stack" : "union stack");
    static int ref[512]; int n = 0;
    if (which == 0) {
        static PredicateStack s; memset(&s, 0xA5, sizeof s); initPredicateStack(&s);
        int p = choose(2) ? MAX_STACK_ELEMENT - 2 : 0; for (int i = 0; i < p; i++) { PredicateStackElement e; memset(&e, 0, sizeof e); e.predicate_state = ref[n++] = i; e.output_buffer_pointer = 2 * i; pushPredicateStack(&s, e); }
        for (int t = 0; t < N + 2; t++) {
            int op = choose(4); if (op == 3) break;
            if (op == 0) { if (n == MAX_STACK_ELEMENT) sym_stop(); PredicateStackElement e; memset(&e, 0, sizeof e); e.predicate_state = ref[n] = sym_byte(); e.output_buffer_pointer = 2 * ref[n]; n++; pushPredicateStack(&s, e); }
            else if (!n) sym_stop();
            else { PredicateStackElement e = op == 1 ? popPredicateStack(&s) : getTopPredicateStack(&s); CHECK((e.predicate_state == ref[n - 1]) & (e.output_buffer_pointer == 2 * ref[n - 1]), "filter stack"); if (op == 1) n--; }
            CHECK(getPredicateStackSize(&s) == n, "size of a filter stack");
        }
        sym_reach(1);
    } else if (which == 1) {
        DTStack *s = dts_CreateStack();
        int p = choose(4); p = p == 1 ? 9 : p == 2 ? 19 : p == 3 ? 79 : 0; for (int i = 0; i < p; i++) dts_Push(s, ref[n++] = i);
        for (int t = 0; t < N + 2; t++) {
            int op = choose(6); if (op == 5) break;
            if (op == 0) dts_Push(s, ref[n++] = sym_byte());
            else if (op == 1) { if (!n) sym_stop(); CHECK(dts_Back(s) == (size_t)ref[n - 1], "top of a run-time stack"); }
            else if (op == 2) { size_t v = dts_Pop(s); if (n) n--; CHECK(v == (n ? (size_t)ref[n - 1] : 0), "run-time stack after a pop"); }
            else if (op == 3) { int k = choose(4); size_t v = dts_MultiPop(s, k); if (k <= n) n -= k; CHECK(v == (n ? (size_t)ref[n - 1] : 0), "run-time stack after several pops"); }
            else { dts_mRealloc(s, n + 2); dts_mPush(s, ref[n++] = sym_byte()); dts_mPush(s, ref[n++] = 5); }
        }
        while (n > 1) { n--; CHECK(dts_Pop(s) == (size_t)ref[n - 1], "contents of a run-time stack"); }
        dts_FreeStack(s); sym_reach(2);
    } else {
        DTStackUnion u, *s = &u; dts_UnionCtor(s); my_union_t v;
        int p = choose(3); p = p == 1 ? 9 : p == 2 ? 19 : 0; for (int i = 0; i < p; i++) { v.num = ref[n++] = i; dts_PushUnion(s, v); }
        for (int t = 0; t < N + 1; t++) {
            int op = choose(5); if (op == 4) break;
            if (op == 0) { v.num = ref[n++] = sym_byte(); dts_PushUnion(s, v); }
            else if (op == 1) { if (!n) sym_stop(); CHECK(dts_BackUnion(s).num == ref[n - 1], "top of a union stack"); }
            else if (op == 2) { v = dts_PopUnion(s); if (n) n--; CHECK(n ? v.num == ref[n - 1] : v.str == 0, "union stack after a pop"); }
            else { int k = choose(4); v = dts_MultiPopUnion(s, k); if (k <= n) n -= k; CHECK(n ? v.num == ref[n - 1] : v.str == 0, "union stack after several pops"); }
        }
        while (n > 1) { n--; CHECK(dts_PopUnion(s).num == ref[n - 1], "contents of a union stack"); }
        dts_UnionDtor(s); sym_reach(3);
    }
    sym_sample("history", hist, hl);
    return 0;
}
#endif
