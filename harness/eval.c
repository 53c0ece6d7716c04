// A filter expression evaluates as ordinary arithmetic, comparison and logic over its operands (C15).
#include "sym.h"
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <ctype.h>
#include "jsonpath_evaluator.h"
#ifndef OPS
#define OPS 1
#endif
#ifndef KINDS
#define KINDS 14
#endif
#ifndef OPSET
#define OPSET 14
#endif
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
enum { NUL, NUM, STR, BOOL };
typedef struct { int t; double n; const char *s; int b; } V;
static char *dup_(const char *s) { char *r = (char *)malloc(strlen(s) + 1); strcpy(r, s); return r; }
static const char *const names[] = { "a", "ab", "d.e", "d" };
static PredicateCondition pc[8]; static V pv[8]; static char txt[8][16]; static int npc;
static char shown[512]; static int sl;
static void show(const char *s) { while (*s && sl < 500) shown[sl++] = *s++; }
static void shown_num(double d) { char b[32]; snprintf(b, sizeof b, "%g", d); show(b); }
// an operand: a reference to a property whose text is of some kind, or a literal
static ASTNode *leaf(V *v) {
    static const int kinds[] = { 4, 8, 2, 0, 5, 11, 10, 1, 3, 12, 9, 6, 7, 13 };
    int k = kinds[choose(npc > 0 ? KINDS + 1 : KINDS) % KINDS], again = 0;
    memset(v, 0, sizeof *v);
    if (k == 11) { static const double l[] = { 0, 3, 2.5, 12 }; v->t = NUM; v->n = l[choose(4)]; shown_num(v->n); return ASTNodeCreateNumber(v->n); }
    if (k == 12) { static const char *l[] = { "k", "", "kk" }; v->t = STR; v->s = l[choose(3)]; show("\""); show(v->s); show("\""); return ASTNodeCreateString(dup_(v->s)); }
    if (k == 13 && npc > 0) again = 1 + choose(npc);
    int i = again ? again - 1 : npc++;
    if (!again) {
        char *t = txt[i]; int d = 0, e = 0;
        pc[i].name = (char *)names[i]; pc[i].text = t;
        V *w = &pv[i]; memset(w, 0, sizeof *w);
        if (k >= 4 && k <= 7) d = sym_range(0, 9);
        if (k == 7) e = sym_range(0, 9);
        switch (k) {
            case 0: case 13: pc[i].text = NULL; break;
            case 1: strcpy(t, "null"); break;
            case 2: strcpy(t, "true"); w->t = BOOL; w->b = 1; break;
            case 3: strcpy(t, "false"); w->t = BOOL; break;
            case 4: t[0] = '0' + d; w->t = NUM; w->n = d; break;
            case 5: t[0] = '-'; t[1] = '0' + d; w->t = NUM; w->n = -(double)d; break;
            case 6: t[0] = '0' + d; strcpy(t + 1, ".5"); w->t = NUM; w->n = d + 0.5; break;
            case 7: t[0] = '0' + d; t[1] = '0' + e; w->t = NUM; w->n = 10 * d + e; sym_assume(d != 0); break;
            case 8: { unsigned char c = sym_byte(); sym_assume(c != 0 && c != '"' && c != '\\'); t[0] = '"'; t[1] = c; t[2] = '"'; static char s[8][2]; s[i][0] = c; w->t = STR; w->s = s[i]; break; }
            case 9: strcpy(t, "\"\""); w->t = STR; w->s = ""; break;
            case 10: w->t = BOOL; w->b = 1; break;      // an object or an array: it exists
        }
    }
    *v = pv[i];
    show("@."); show(names[i]);
    ASTNode *n = ASTNodeCreateRef(); char seg[8]; int s = 0;
    for (const char *p = names[i];; p++) if (*p == '.' || !*p) { seg[s] = 0; n = ASTNodeCreateConcat(n, ASTNodeCreateID(dup_(seg))); s = 0; if (!*p) break; } else seg[s++] = *p;
    return n;
}
static int truth(V v) { return v.t == NUL ? 0 : v.t == NUM ? v.n != 0 : v.t == STR ? 1 : v.b; }
static V val(int t, double n, int b) { V v; memset(&v, 0, sizeof v); v.t = t; v.n = n; v.b = b; return v; }
static int lex(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a < (unsigned char)*b ? -1 : *a != *b; }
static V apply(JSONPathOperatorType o, V x, V y) {
    int num = x.t == NUM && y.t == NUM, str = x.t == STR && y.t == STR, c = 0;
    switch (o) {
        case jot_or: return val(BOOL, 0, truth(x) | truth(y));
        case jot_and: return val(BOOL, 0, truth(x) & truth(y));
        case jot_equal: case jot_neq:
            c = x.t != y.t ? 0 : x.t == NUL ? 1 : num ? x.n == y.n : str ? lex(x.s, y.s) == 0 : x.b == y.b;
            return val(BOOL, 0, o == jot_equal ? c : !c);
        case jot_less: return val(BOOL, 0, num ? x.n < y.n : str ? lex(x.s, y.s) < 0 : 0);
        case jot_greater: return val(BOOL, 0, num ? x.n > y.n : str ? lex(x.s, y.s) > 0 : 0);
        case jot_leq: return val(BOOL, 0, num ? x.n <= y.n : str ? lex(x.s, y.s) <= 0 : 0);
        case jot_geq: return val(BOOL, 0, num ? x.n >= y.n : str ? lex(x.s, y.s) >= 0 : 0);
        default: break;
    }
    if (!num) return val(NUL, 0, 0);
    double r = 0;
    switch (o) {
        case jot_add: r = x.n + y.n; break;
        case jot_minus: r = x.n - y.n; break;
        case jot_multiply: r = x.n * y.n; break;
        case jot_div: if (x.n == 0 && y.n == 0) sym_stop(); r = x.n / y.n; break;   // 0/0 has no agreed meaning
        case jot_mod: {
            if (!(x.n > -1e15 && x.n < 1e15 && y.n > -1e15 && y.n < 1e15)) sym_stop();
            long a = (long)x.n, b = (long)y.n; if (b == 0) return val(NUL, 0, 0);
            r = (double)(a - a / b * b); break; }
        default: break;
    }
    return val(NUM, r, 0);
}
static ASTNode *expr(int ops, V *v) {
    if (ops == 0) return leaf(v);
    static const JSONPathOperatorType op[] = { jot_less, jot_equal, jot_and, jot_add, jot_not, jot_or, jot_neq, jot_geq, jot_mod, jot_minus, jot_leq, jot_greater, jot_multiply, jot_div };
    JSONPathOperatorType o = op[choose(OPSET)];
    if (o == jot_not) { V x; show("!("); ASTNode *n = ASTNodeCreateOperatorOne(jot_not, expr(ops - 1, &x)); show(")"); *v = val(BOOL, 0, !truth(x)); return n; }
    V x, y; int l = choose(ops);
    static const char *const t[] = { "||", "&&", "!", "==", "<", ">", "!=", "<=", ">=", "+", "-", "*", "/", "%" };
    show("("); ASTNode *a = expr(l, &x); show(t[o]); ASTNode *b = expr(ops - 1 - l, &y); show(")");
    *v = apply(o, x, y);
    return ASTNodeCreateOperator(o, a, b);
}
int sym_main(void) {
    V v; ASTNode *n = ASTNodeCreateFliter(expr(OPS, &v));
    int rev = npc > 1 ? choose(2) : 0;      // the order of the conditions does not matter
    if (rev) for (int i = 0; i < npc / 2; i++) { PredicateCondition t = pc[i]; pc[i] = pc[npc - 1 - i]; pc[npc - 1 - i] = t; }
    pc[npc].name = NULL;
    evaluatorModifyReference(n);
    if (!sym_symbolic()) { sym_dump("expression", shown, sl); for (int i = 0; i < npc; i++) sym_dump(pc[i].name, pc[i].text ? pc[i].text : "(missing)", pc[i].text ? strlen(pc[i].text) : 9); }
    sym_sample("expression", shown, sl);
    int got = evaluateExpression(n->left, pc), want = truth(v);
    sym_reach(1); sym_reach(want ? 2 : 3);
    sym_assert(got == want, "the expression has its value");
    int again = evaluateExpression(n->left, pc);      // evaluating does not change the operands
    sym_assert(again == want, "the expression has its value when evaluated again");
    return 0;
}
