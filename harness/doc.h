// Symbolic JSON document generator and reference path semantics (the oracle).
#ifndef DOC_H
#define DOC_H
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "sym.h"
enum { VNUM, VSTR, VOBJ, VARR, VTRUE, VFALSE, VNULL };
#define ND_MAX 64
#define DOC_MAX 900
typedef struct { int kind, parent, start, end, keyoff, keylen, idx; int ord; } Nd;
static Nd nd[ND_MAX]; static int nnd, ndone;
static char doc[DOC_MAX]; static int dlen;
#ifndef BUDGET
#define BUDGET 4
#endif
#ifndef MAXDEPTH
#define MAXDEPTH 3
#endif
#ifndef WSBUDGET
#define WSBUDGET 0
#endif
#ifndef PRIMKINDS
#define PRIMKINDS 2
#endif
#ifndef KEYLEN2
#define KEYLEN2 0
#endif
#ifndef SYMPRIM
#define SYMPRIM 1
#endif
#ifndef PADARR
#define PADARR 0      // every non-empty array starts with this many extra (concrete) elements
#endif
#ifndef PADDEPTH
#define PADDEPTH 0    // the generated value sits below this many levels {"z":[ ... ]}
#endif
#ifndef PADKEY
#define PADKEY ""     // every key starts with this text
#endif
#ifndef PADSTR
#define PADSTR ""     // every string value starts with this text
#endif
#ifndef ONLYKIND
#define ONLYKIND 0     // 1: containers are objects, 2: arrays
#endif
#ifndef NSIB
#define NSIB 64       // most children of one container
#endif
static int wsleft = WSBUDGET, nodesleft = BUDGET;
static int choose(int n) { if (n <= 1) return 0; return (int)sym_conc(sym_range(0, n - 1)); }
static void put(char c) { doc[dlen++] = c; }
static void puts_(const char *s) { while (*s) put(*s++); }
static void ws(void) {
    if (wsleft > 0) { if (choose(2)) { static const char W[4] = {' ', '\t', '\n', '\r'}; unsigned char c = sym_byte(); sym_assume(c == ' ' || c == '\t' || c == '\n' || c == '\r'); put((char)c); (void)W; wsleft--; } }
}
static char keychar(void) {
#ifdef KEYLOWER
    return (char)sym_range('a', 'z');
#else
    unsigned char c = sym_byte(); sym_assume(c >= 0x20 && c < 0x7f && c != '"' && c != '\\'); return (char)c;
#endif
}
static int newnode(int kind, int parent, int idx) {
    int i = nnd++; nd[i].kind = kind; nd[i].parent = parent; nd[i].idx = idx; nd[i].keylen = -1; nd[i].start = dlen; return i;
}
static void fin(int i) { nd[i].end = dlen; nd[i].ord = ndone++; }
#ifndef GEN_PRIM
#define GEN_PRIM gen_prim
static void gen_prim(int i) {
    switch (PRIMKINDS > 1 ? choose(PRIMKINDS) : 0) {
    case 0: nd[i].kind = VNUM; put(SYMPRIM ? (char)sym_range('0', '9') : '7'); break;
    case 1: nd[i].kind = VSTR; put('"'); puts_(PADSTR); if (SYMPRIM) put(keychar()); put('"'); break;
    case 2: nd[i].kind = VTRUE; puts_("true"); break;
    case 3: nd[i].kind = VFALSE; puts_("false"); break;
    case 4: nd[i].kind = VNULL; puts_("null"); break;
    case 5: nd[i].kind = VNUM; put('-'); put((char)sym_range('0', '9')); break;
    case 6: nd[i].kind = VNUM; put((char)sym_range('0', '9')); put('.'); put((char)sym_range('0', '9')); break;
    case 7: nd[i].kind = VSTR; put('"'); put('\\'); { unsigned char c = sym_byte(); sym_assume(c == '"' || c == '\\' || c == '/' || c == 'n'); put((char)c); } put('"'); break;
    case 8: nd[i].kind = VSTR; puts_("\"\""); break;
    }
}
#endif
static int rootkinds; // 0: object or array, 1: object only, 2: array only
static void gen_value(int parent, int idx, int depth, int keyoff, int keylen) {
    nodesleft--;
    int k;
    if (ONLYKIND) k = depth == 0 ? ONLYKIND : depth >= MAXDEPTH ? 0 : ONLYKIND * choose(2);
    else if (depth == 0) k = rootkinds ? rootkinds : 1 + choose(2);
    else if (depth >= MAXDEPTH) k = 0;
    else k = choose(3);
    if (k == 0) { int i = newnode(VNUM, parent, idx); nd[i].keyoff = keyoff; nd[i].keylen = keylen; GEN_PRIM(i); fin(i); return; }
    int i = newnode(k == 1 ? VOBJ : VARR, parent, idx); nd[i].keyoff = keyoff; nd[i].keylen = keylen;
    put(k == 1 ? '{' : '[');
    ws();
    int n = 0;
    if (k == 2 && PADARR && nodesleft > 0 && choose(2)) for (; n < PADARR; n++) { if (n) put(','); int j = newnode(VNUM, i, n); put('5'); fin(j); }
    while (nodesleft > 0 && n < PADARR + NSIB && choose(2)) {
        if (n) { put(','); ws(); }
        if (k == 1) {
            put('"'); int ko = dlen; puts_(PADKEY); put(keychar());
            if (KEYLEN2 && choose(2)) put(keychar());
            int kl = dlen - ko; put('"'); ws(); put(':'); ws();
            gen_value(i, n, depth + 1, ko, kl);
        } else gen_value(i, n, depth + 1, 0, -1);
        ws(); n++;
    }
    put(k == 1 ? '}' : ']');
    fin(i);
}
static void gen_doc(void) {
    nnd = ndone = dlen = 0; ws();
    int par = -1, stk[2 * PADDEPTH + 1], n = 0;
    for (int d = 0; d < PADDEPTH; d++) {
        int o = newnode(VOBJ, par, 0); if (par < 0) nd[o].keyoff = 0; put('{'); put('"'); int ko = dlen; put('z'); put('"'); put(':');
        int a = newnode(VARR, o, 0); nd[a].keyoff = ko; nd[a].keylen = 1; put('[');
        stk[n++] = o; stk[n++] = a; par = a;
    }
    gen_value(par, 0, 0, 0, -1);
    while (n > 0) { put(n & 1 ? '}' : ']'); fin(stk[--n]); }
    ws(); doc[dlen] = 0;
}

// ---- reference query semantics
enum { S_KEY, S_ANY, S_DKEY, S_DANY, S_ARR, S_RANGE, S_FILT };
static int keeps(int i, const char *e);   // whether the filter expression e holds for the object at node i (filter.h)
typedef struct { int t; const char *k; int lo, hi; } Step;
static int keyeq(const Nd *n, const char *k) {
    if (n->keylen < 0) return 0;
    int l = (int)strlen(k); if (l != n->keylen) return 0;
    return memcmp(doc + n->keyoff, k, l) == 0;
}
// set of matched prefixes of the path at node i.
// as_impl & 1: the behaviour recorded as known finding F01: an array element outside the range of a slice step
// drops every other way of continuing the path inside that element as well.
// as_impl & 2: known finding F02: between two filters next to each other an array passes the first one.
static unsigned match_(int i, const Step *st, int ns, int as_impl) {
    if (nd[i].parent < 0) return 1u;
    unsigned p = match_(nd[i].parent, st, ns, as_impl), r = 0;
    int arr = nd[nd[i].parent].kind == VARR;
    for (int s = 0; s < ns; s++) if (p & (1u << s)) {
        switch (st[s].t) {
        case S_KEY: if (!arr && keyeq(&nd[i], st[s].k)) r |= 1u << (s + 1); break;
        case S_ANY: r |= 1u << (s + 1); break;
        case S_DKEY: r |= 1u << s; if (!arr && keyeq(&nd[i], st[s].k)) r |= 1u << (s + 1); break;
        case S_DANY: r |= 1u << s; r |= 1u << (s + 1); break;
#ifdef FILTERS
        case S_FILT: if (arr && (nd[i].kind == VOBJ ? keeps(i, st[s].k) : (as_impl & 2) && nd[i].kind == VARR && st[s + 1].t == S_FILT)) r |= 1u << (s + 1); break;
#endif
        case S_ARR: if (arr) r |= 1u << (s + 1); break;
        case S_RANGE: if (arr && nd[i].idx >= st[s].lo && nd[i].idx < st[s].hi) r |= 1u << (s + 1); else if (arr && (as_impl & 1)) return 0; break;
        }
    }
    return r;
}
static unsigned match(int i, const Step *st, int ns) { return match_(i, st, ns, 0); }
// parse the query subset used by the harnesses (independent of the code under test)
static int parse_query(const char *q, Step *st) {
    int n = 0; memset(st, 0, 64 * sizeof *st); for (int i = 0; i < 64; i++) st[i].t = -1; static char names[64][48]; static int nn;
    if (*q++ != '$') return -1;
    while (*q) {
        if (q[0] == '.' && q[1] == '.') {
            q += 2; if (*q == '*') { q++; st[n++].t = S_DANY; continue; }
            char *d = names[nn++]; int l = 0; while (*q && *q != '.' && *q != '[') d[l++] = *q++; d[l] = 0; st[n].t = S_DKEY; st[n++].k = d;
        } else if (q[0] == '.') {
            q++; if (*q == '*') { q++; st[n++].t = S_ANY; continue; }
            char *d = names[nn++]; int l = 0; while (*q && *q != '.' && *q != '[') d[l++] = *q++; d[l] = 0; st[n].t = S_KEY; st[n++].k = d;
        } else if (q[0] == '[') {
            q++; if (*q == '*') { q += 2; st[n++].t = S_ARR; continue; }
            if (*q == '?') { q += 2; char *d = names[nn++]; int l = 0; while (!(q[0] == ')' && q[1] == ']')) d[l++] = *q++; d[l] = 0; q += 2; st[n].t = S_FILT; st[n++].k = d; continue; }
            int lo = 0, hi = 0x7fffffff, c = 0; if (*q >= '0' && *q <= '9') lo = 0; while (*q >= '0' && *q <= '9') lo = lo * 10 + *q++ - '0';
            if (*q == ':') { q++; c = 1; if (*q >= '0' && *q <= '9') { hi = 0; while (*q >= '0' && *q <= '9') hi = hi * 10 + *q++ - '0'; } }
            if (!c) hi = lo + 1;
            q++; st[n].t = S_RANGE; st[n].lo = lo; st[n++].hi = hi;
        } else return -1;
    }
    return n;
}
#endif
