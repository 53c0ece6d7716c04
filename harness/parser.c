// A query text is parsed into exactly the structure it denotes; a malformed text is rejected (C09).
// Default: a structure is generated, written down (fewest parentheses by the usual precedence, plus redundant ones and
// blanks) and compared with the tree the real scanner and parser build.
// -DTOKENS=n: every sequence of n tokens inside a context; -DRAW=n: every sequence of n bytes inside a context:
// accepted exactly when the recogniser below accepts it.
#include "sym.h"
#include <string.h>
#include <stdio.h>
#include "jsonpath_model.h"
#include "jsonpath_parser.h"
#ifndef STEPS
#define STEPS 2
#endif
#ifndef STEPKINDS
#define STEPKINDS 12
#endif
#ifndef EOPS
#define EOPS 1
#endif
#ifndef LEAFKINDS
#define LEAFKINDS 8
#endif
#ifndef NAMELEN
#define NAMELEN 2
#endif
#ifndef STRLEN
#define STRLEN 1
#endif
#ifndef WS
#define WS 0
#endif
#ifndef PARENS
#define PARENS 0
#endif
#ifndef OPSET
#define OPSET 14
#endif
#ifndef SYMLEAF
#define SYMLEAF 1       // how many names, numbers and strings have symbolic characters
#endif
#ifndef VAR
#define VAR 2           // how many of them are written in another way (wildcard, minus sign, two digits, other quotes, ...)
#endif
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
static char q[400]; static int ql;
static void put(char c) { q[ql++] = c; }
static void tok(const char *s) { while (*s) put(*s++); }
#if !defined TOKENS && !defined RAW
typedef struct T { int type, op; double num; char s[12]; int sl; struct T *l, *r; } T;
static T pool[128]; static int npool, wsleft = WS, parenleft = PARENS, opsleft = EOPS, stepsleft = STEPS, symleft = SYMLEAF, varleft = VAR;
static int alt(void) { if (varleft > 0 && choose(2)) { varleft--; return 1; } return 0; }
static int sym(void) { if (symleft > 0) { symleft--; return 1; } return 0; }
static T *mk(int type, T *l, T *r) { T *t = &pool[npool++]; t->type = type; t->l = l; t->r = r; return t; }
static void blank(void) { if (wsleft > 0 && choose(2)) { unsigned char c = sym_byte(); sym_assume(c == ' ' || c == '\t' || c == '\v' || c == '\f'); put((char)c); wsleft--; } }
static int letter(unsigned char c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '_'); }
static void name(T *t) {
    unsigned char c = 'a'; int y = sym();
    if (y) { c = sym_byte(); sym_assume(letter(c)); }
    t->s[t->sl++] = (char)c;
    if (alt()) for (int i = 1; i < NAMELEN; i++) { c = '0' + i; if (y) { c = sym_byte(); sym_assume(letter(c) | (c >= '0' && c <= '9')); } t->s[t->sl++] = (char)c; }
    for (int i = 0; i < t->sl; i++) put(t->s[i]);
}
static T *prop(void) { blank(); if (alt()) { tok("*"); return mk(jnt_wildcard, 0, 0); } T *t = mk(jnt_id, 0, 0); name(t); return t; }
static T *number(void) {
    int neg = alt(), y = sym(), d = y ? sym_range('0', '9') : '7'; T *t = mk(jnt_number, 0, 0);
    if (neg) { put('-'); blank(); }
    put((char)d); t->num = d - '0';
    if (alt()) { int e = y ? sym_range('0', '9') : '5', fr = choose(2); if (fr) put('.'); put((char)e); t->num = t->num * 10 + (e - '0'); if (fr) t->num /= 10; }
    if (neg) t->num = -t->num;
    return t;
}
static T *string(void) {
    T *t = mk(jnt_string, 0, 0); char d = alt() ? '"' : '\''; put(d);
    int y = sym(), n = y ? choose(STRLEN + 1) : 1;
    for (int i = 0; i < n; i++) {
        unsigned char c = 'x'; int esc = alt();
        if (esc) { c = d; if (y) { c = sym_byte(); sym_assume((c != 0) & (c != '\n')); } t->s[t->sl++] = '\\'; }
        else if (y) { c = sym_byte(); sym_assume((c != 0) & (c != (unsigned char)d) & (c != '\\')); }
        t->s[t->sl++] = (char)c;
    }
    for (int i = 0; i < t->sl; i++) put(t->s[i]);
    put(d); return t;
}
static const struct { const char *s; int op, prec; } ops[] = {
    { "||", jot_or, 1 }, { "&&", jot_and, 2 }, { "%", jot_mod, 5 }, { "-", jot_minus, 4 }, { "*", jot_multiply, 5 }, { "!", jot_not, 6 }, { "==", jot_equal, 3 },
    { "<", jot_less, 3 }, { "+", jot_add, 4 }, { "/", jot_div, 5 }, { "!=", jot_neq, 3 }, { ">", jot_greater, 3 }, { "<=", jot_leq, 3 }, { ">=", jot_geq, 3 } };
static T *leaf(void) {
    switch (choose(LEAFKINDS)) {
        case 0: { T *a = mk(jnt_reference, 0, 0); tok("@"); blank(); tok("."); return mk(jnt_concat, a, prop()); }
        case 1: return number();
        case 2: return string();
        case 3: { T *a = mk(jnt_reference, 0, 0); tok("@."); T *p = mk(jnt_concat, a, 0); p->r = prop(); blank(); tok("."); T *r = mk(jnt_concat, p, 0); r->r = prop(); return r; }
        case 4: tok("@"); return mk(jnt_reference, 0, 0);
        case 5: { T *a = mk(jnt_reference, 0, 0); tok("@"); blank(); tok(".."); return mk(jnt_parent_concat, a, prop()); }
        case 6: { T *a = mk(jnt_reference, 0, 0); tok("@.."); T *p = mk(jnt_parent_concat, a, 0); p->r = prop(); tok("."); T *r = mk(jnt_concat, p, 0); r->r = prop(); return r; }
        default: { T *a = mk(jnt_reference, 0, 0); tok("@."); T *p = mk(jnt_concat, a, 0); p->r = prop(); tok(".."); T *r = mk(jnt_parent_concat, p, 0); r->r = prop(); return r; }
    }
}
// the expression has to fit where only operators of at least this precedence may stand without parentheses
static T *expr(int min, int cmp, int nops) {
    int par = 0; T *t;
    if (parenleft > 0 && choose(2)) { parenleft--; par = 1; tok("("); min = 0; cmp = -1; blank(); }
    if (nops == 0) t = leaf();
    else {
        int o = choose(OPSET), p = ops[o].prec, eqop = ops[o].op == jot_equal || ops[o].op == jot_neq, q_ = 0;
        if (p < min || (p == 3 && cmp >= 0 && cmp != eqop)) { q_ = 1; tok("("); blank(); }
        t = mk(jnt_operator, 0, 0); t->op = ops[o].op;
        if (p == 6) { tok("!"); blank(); t->l = expr(6, -1, nops - 1); }
        else {
            int k = choose(nops); int c2 = p == 3 ? eqop : -1;
            t->l = expr(p, c2, k); blank(); tok(ops[o].s); blank(); t->r = expr(p + 1, -1, nops - 1 - k);
        }
        if (q_) { blank(); tok(")"); }
    }
    if (par) { blank(); tok(")"); }
    return t;
}
static T *item(void) { return choose(2) ? string() : number(); }
static T *step(T *l) {
    blank();
    int k = STEPKINDS ? choose(STEPKINDS) : 2;
    if (k < 2) { int d = k == 1; tok(d ? ".." : "."); T *t = mk(d ? jnt_parent_concat : jnt_concat, l, 0); t->r = prop(); return t; }
    T *t = mk(jnt_predicate, l, 0), *u, *v; tok("["); blank();
    switch (k) {
        case 2: { int n = opsleft > 0 ? 1 + choose(opsleft) : 0; opsleft -= n; tok("?"); blank(); tok("("); blank(); t->r = mk(jnt_fliter, expr(0, -1, n), 0); blank(); tok(")"); break; }
        case 3: u = number(); blank(); tok(":"); blank(); v = number(); t->r = mk(jnt_range, u, v); break;
        case 4: tok(":"); blank(); v = number(); t->r = mk(jnt_range, 0, v); break;
        case 5: u = number(); blank(); tok(":"); t->r = mk(jnt_range, u, 0); break;
        case 6: t->r = number(); break;
        case 7: tok("*"); t->r = mk(jnt_wildcard, 0, 0); break;
        case 8: t->r = string(); break;
        case 9: u = item(); blank(); tok(","); blank(); t->r = mk(jnt_concat, u, 0); t->r->r = item(); break;
        case 10: u = item(); tok(","); u = mk(jnt_concat, u, 0); u->r = item(); blank(); tok(","); t->r = mk(jnt_concat, u, 0); t->r->r = item(); break;
        default: { int n = opsleft > 0 ? choose(opsleft + 1) : 0; opsleft -= n; tok("("); blank(); t->r = mk(jnt_script, expr(0, -1, n), 0); blank(); tok(")"); break; }
    }
    blank(); tok("]"); return t;
}
static int eq(const ASTNode *n, const T *t) {
    if (!n || !t) return !n && !t;
    if ((int)n->node_type != t->type) return 0;
    int r = 1;
    switch (t->type) {
        case jnt_number: r = n->number == t->num; break;
        case jnt_string: case jnt_id: for (int i = 0; i < t->sl; i++) { r &= n->string[i] == t->s[i]; } r &= n->string[t->sl] == 0; break;
        case jnt_operator: if ((int)n->opt != t->op) return 0; break;
        default: break;
    }
    return r & eq(n->left, t->l) & eq(n->right, t->r);
}
int sym_main(void) {
    blank(); tok("$"); T *t = mk(jnt_root, 0, 0);
    while (stepsleft > 0 && choose(2)) { stepsleft--; t = step(t); }
    blank(); put(0);
    sym_sample("query", q, ql - 1);
    if (!sym_symbolic()) sym_dump("query", q, ql - 1);
    ASTNode *n = analysisJSONPath(q);
    sym_reach(1);
    sym_assert(eq(n, t), "the tree is the structure of the query");
    return 0;
}
#else
// ---- scanner and recogniser (the oracle)
enum { E_END, E_BAD, E_NAME, E_NUM, E_STR, E_PAR, E_EQ, E_NEQ, E_LEQ, E_GEQ, E_AND, E_OR };
static int tk[64], nt, at;
static int isl(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int isd(unsigned char c) { return c >= '0' && c <= '9'; }
static void scan(void) {
    const unsigned char *p = (unsigned char *)q;
    while (*p) {
        int t = E_BAD, l = 1; unsigned char c = *p;
        if (c == ' ' || c == '\t' || c == '\v' || c == '\f') { p++; continue; }
        if (isl(c)) { while (isl(p[l]) || isd(p[l])) l++; t = E_NAME; }
        else if (isd(c)) { while (isd(p[l])) l++; if (p[l] == '.' && isd(p[l + 1])) { l++; while (isd(p[l])) l++; } t = E_NUM; }
        else if (c == '"' || c == '\'') {
            int i = 1, ok = 1;
            while (p[i] && p[i] != c) { if (p[i] == '\\') { i++; if (!p[i] || p[i] == '\n') { ok = 0; break; } } i++; }
            if (ok && p[i]) { l = i + 1; t = E_STR; }
        }
        else if (c == '.') { if (p[1] == '.') { l = 2; t = E_PAR; } else t = c; }
        else if (c == '=') { if (p[1] == '=') { l = 2; t = E_EQ; } }
        else if (c == '!') { if (p[1] == '=') { l = 2; t = E_NEQ; } else t = c; }
        else if (c == '<') { if (p[1] == '=') { l = 2; t = E_LEQ; } else t = c; }
        else if (c == '>') { if (p[1] == '=') { l = 2; t = E_GEQ; } else t = c; }
        else if (c == '&') { if (p[1] == '&') { l = 2; t = E_AND; } }
        else if (c == '|') { if (p[1] == '|') { l = 2; t = E_OR; } }
        else if (c == '*' || c == '-' || c == '+' || c == '/' || c == '%' || c == '?' || c == '[' || c == ']' || c == '(' || c == ')' || c == '$' || c == '@' || c == ',' || c == ':') t = (int)sym_conc(c);
        tk[nt++] = t; p += l;
    }
    tk[nt] = E_END;
}
static int p_prop(void) { if (tk[at] == E_NAME || tk[at] == '*') { at++; return 1; } return 0; }
static int p_num(void) { if (tk[at] == E_NUM) { at++; return 1; } if (tk[at] == '-' && tk[at + 1] == E_NUM) { at += 2; return 1; } return 0; }
static int p_expr(void);
static int p_unary(void) {
    while (tk[at] == '!') at++;
    if (tk[at] == '@' || tk[at] == E_STR) at++;
    else if (tk[at] == '(') { at++; if (!p_expr()) return 0; if (tk[at] != ')') return 0; at++; }
    else if (!p_num()) return 0;
    while (tk[at] == '.' || tk[at] == E_PAR) { at++; if (!p_prop()) return 0; }
    return 1;
}
static int binop(int t) { return t == E_OR || t == E_AND || t == E_EQ || t == E_NEQ || t == E_LEQ || t == E_GEQ || t == '<' || t == '>' || t == '+' || t == '-' || t == '*' || t == '/' || t == '%'; }
static int p_expr(void) { if (!p_unary()) return 0; while (binop(tk[at])) { at++; if (!p_unary()) return 0; } return 1; }
static int p_item(void) { if (tk[at] == E_STR) { at++; return 1; } return p_num(); }
static int p_path(void) {
    if (tk[at++] != '$') return 0;
    for (;;) {
        if (tk[at] == E_END) return 1;
        if (tk[at] == '.' || tk[at] == E_PAR) { at++; if (!p_prop()) return 0; continue; }
        if (tk[at++] != '[') return 0;
        if (tk[at] == '*') at++;
        else if (tk[at] == ':') { at++; if (!p_num()) return 0; }
        else if (tk[at] == '?' || tk[at] == '(') { if (tk[at] == '?') at++; if (tk[at++] != '(') return 0; if (!p_expr()) return 0; if (tk[at++] != ')') return 0; }
        else {
            int num = tk[at] != E_STR;
            if (!p_item()) return 0;
            if (num && tk[at] == ':') { at++; p_num(); }
            else while (tk[at] == ',') { at++; if (!p_item()) return 0; }
        }
        if (tk[at++] != ']') return 0;
    }
}
#ifndef CONTEXTS
#define CONTEXTS { "", "" }, { "$", "" }, { "$[", "]" }, { "$[?(", ")]" }, { "$[?(@.a", ")]" }, { "$.a[1", ".b" }
#endif
static const char *const ctx[][2] = { CONTEXTS };
int sym_main(void) {
    int c = choose(sizeof ctx / sizeof ctx[0]);
    tok(ctx[c][0]);
#ifdef TOKENS
    static const char *const tt[] = { ".", "..", "a", "*", "[", "]", "1", "-", ":", "?", "(", ")", "@", "'s'", ",", "==", "!", "&&", "$", "#", "=~", "%", "\"", "+", "<=" };
    for (int i = 0; i < TOKENS && choose(i == 0 ? 1 : 2) == 0; i++) { put(' '); int k = choose(sizeof tt / sizeof tt[0]); tok(tt[k]); put(' '); }
#else
    for (int i = 0; i < RAW; i++) { unsigned char b = sym_byte(); sym_assume((b != 0) & (b != '\n')); put((char)b); }
#endif
    tok(ctx[c][1]); put(0);
    scan(); int ok = p_path();
    sym_sample(ok ? "well-formed" : "malformed", q, ql - 1);
    if (!sym_symbolic()) sym_dump(ok ? "well-formed" : "malformed", q, ql - 1);
    sym_reach(ok ? 2 : 3);
    sym_exit_ok = !ok;
    ASTNode *n = analysisJSONPath(q);
    sym_exit_ok = 0;
    sym_assert(ok, "a malformed query is rejected");
    sym_assert(n != NULL, "a well-formed query gives a tree");
    return 0;
}
#endif
