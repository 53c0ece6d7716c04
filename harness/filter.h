// The truth of a filter expression for an object of the generated document (the oracle; independent of the code under test).
#ifndef FILTER_H
#define FILTER_H
#include "doc.h"
enum { FN, FNUM, FSTR, FBOOL };
typedef struct { int t, b; double n; const char *s; int l; } FV;
static const char *fe; static int fnode;
static FV fv(int t, int b) { FV v; memset(&v, 0, sizeof v); v.t = t; v.b = b; return v; }
static FV fnum(double d) { FV v = fv(FNUM, 0); v.n = d; return v; }
static int ftrue(FV v) { return v.t == FN ? 0 : v.t == FNUM ? v.n != 0 : v.t == FSTR ? 1 : v.b; }
static FV fvalue(int i) {
    const char *t = doc + nd[i].start; int l = nd[i].end - nd[i].start; FV v;
    switch (nd[i].kind) {
        case VOBJ: case VARR: case VTRUE: return fv(FBOOL, 1);
        case VFALSE: return fv(FBOOL, 0);
        case VNULL: return fv(FN, 0);
        case VSTR: v = fv(FSTR, 0); v.s = t + 1; v.l = l - 2; return v;
        default: if (t[0] == '-') return fnum(-(double)(t[1] - '0')); if (l == 3) return fnum((t[0] - '0') + (t[2] - '0') / 10.0); return fnum(t[0] - '0');
    }
}
// the node the variable a.b.c leads to from node i (the last one, where a key is repeated), or -1
static int flookup(int i, const char *path) {
    char seg[48]; int n = 0, r = -1;
    while (*path && *path != '.') seg[n++] = *path++;
    seg[n] = 0;
    for (int k = 0; k < nnd; k++) if (nd[k].parent == i && nd[i].kind == VOBJ && keyeq(&nd[k], seg)) { int x = *path ? flookup(k, path + 1) : k; if (x >= 0) r = x; }
    return r;
}
static FV for_(void);
static FV fprim(void) {
    if (*fe == '!') { fe++; return fv(FBOOL, !ftrue(fprim())); }
    if (*fe == '(') { fe++; FV v = for_(); fe++; return v; }
    if (*fe == '@') { char p[48]; int n = 0; fe += 2; while ((*fe >= 'a' && *fe <= 'z') || *fe == '.') p[n++] = *fe++; p[n] = 0; int k = flookup(fnode, p); return k < 0 ? fv(FN, 0) : fvalue(k); }
    if (*fe == '\'') { FV v = fv(FSTR, 0); v.s = ++fe; while (*fe != '\'') fe++, v.l++; fe++; return v; }
    int neg = *fe == '-'; if (neg) fe++; double d = 0; while (*fe >= '0' && *fe <= '9') d = d * 10 + *fe++ - '0'; return fnum(neg ? -d : d);
}
static int fcmp_(FV a, FV b) { int i = 0; for (; i < a.l && i < b.l; i++) if (a.s[i] != b.s[i]) return (unsigned char)a.s[i] < (unsigned char)b.s[i] ? -1 : 1; return a.l == b.l ? 0 : a.l < b.l ? -1 : 1; }
static FV frel(void) {
    FV a = fprim();
    static const char *const op[] = { "==", "!=", "<=", ">=", "<", ">" };
    for (int o = 0; o < 6; o++) { int l = (int)strlen(op[o]); if (strncmp(fe, op[o], l)) continue;
        fe += l; FV b = fprim(); int num = a.t == FNUM && b.t == FNUM, str = a.t == FSTR && b.t == FSTR, eq = a.t == b.t && (num ? a.n == b.n : str ? fcmp_(a, b) == 0 : a.b == b.b), lt = num ? a.n < b.n : str ? fcmp_(a, b) < 0 : 0, le = num || str ? lt || eq : 0;
        switch (o) { case 0: return fv(FBOOL, eq); case 1: return fv(FBOOL, !eq); case 2: return fv(FBOOL, le); case 3: return fv(FBOOL, (num || str) && !lt); case 4: return fv(FBOOL, lt); default: return fv(FBOOL, (num || str) && !le); } }
    return a;
}
static FV fand(void) { FV a = frel(); while (fe[0] == '&' && fe[1] == '&') { fe += 2; FV b = frel(); a = fv(FBOOL, ftrue(a) & ftrue(b)); } return a; }
static FV for_(void) { FV a = fand(); while (fe[0] == '|') { fe += 2; FV b = fand(); a = fv(FBOOL, ftrue(a) | ftrue(b)); } return a; }
static int keeps(int i, const char *e) { fe = e; fnode = i; return ftrue(for_()); }
#endif
