// Generator of valid JSON texts together with their token sequence.
#ifndef TEXTGEN_H
#define TEXTGEN_H
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "sym.h"
#ifndef BUDGET
#define BUDGET 4
#endif
#ifndef WSBUDGET
#define WSBUDGET 2
#endif
#ifndef MAXDEPTH
#define MAXDEPTH 3
#endif
#ifndef STRLEN
#define STRLEN 2
#endif
#ifndef PADSTR
#define PADSTR ""
#endif
#ifndef ESCBUDGET
#define ESCBUDGET 2
#endif
static char doc[1024]; static int dlen;
typedef struct { int type, off, len; } Tk;   // off: first byte (without the quote for keys)
enum { T_LCB = 1, T_RCB, T_LB, T_RB, T_COM, T_KEY, T_PRI };
static Tk tk[96]; static int ntk;
static int wsleft = WSBUDGET, nodesleft = BUDGET, escleft = ESCBUDGET;
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
static void put(int c) { doc[dlen++] = (char)c; }
static void tok(int type, int off, int len) { tk[ntk].type = type; tk[ntk].off = off; tk[ntk++].len = len; }
static void ws(void) { while (wsleft > 0 && choose(2)) { unsigned char c = sym_byte(); sym_assume(c == ' ' || c == '\t' || c == '\n' || c == '\r'); put(c); wsleft--; } }
static void strchars(void) {
    for (const char *s = PADSTR; *s; s++) put(*s);
    for (int n = 0; n < STRLEN && choose(2); n++) {
        int k = escleft > 0 ? choose(3) : 0;
        if (k == 0) { unsigned char c = sym_byte(); sym_assume(c >= 0x20 && c != '"' && c != '\\'); put(c); }
        else if (k == 1) { escleft--; unsigned char c = sym_byte(); sym_assume(c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't'); put('\\'); put(c); }
        else { escleft--; put('\\'); put('u'); put('0'); put('0'); put(sym_range('0', '7')); put(sym_range('0', '9')); }
    }
}
#ifndef PRIMS
#define PRIMS 5
#endif
#ifndef NUMSHAPES
#define NUMSHAPES 0
#endif
static void number(void) {
    if (!NUMSHAPES) { put(sym_range('0', '9')); return; }
    if (choose(2)) put('-');
    if (choose(2)) { put(sym_range('1', '9')); put(sym_range('0', '9')); } else put(sym_range('0', '9'));
    int k = choose(3);
    if (k == 1) { put('.'); put(sym_range('0', '9')); }
    if (k == 2) { put(choose(2) ? 'e' : 'E'); int s = choose(3); if (s) put(s == 1 ? '+' : '-'); put(sym_range('0', '9')); }
}
static void prim(void) {
    int o = dlen;
    switch (choose(PRIMS)) {
    case 0: number(); break;
    case 1: put('"'); strchars(); put('"'); break;
    case 2: memcpy(doc + dlen, "true", 4); dlen += 4; break;
    case 3: memcpy(doc + dlen, "false", 5); dlen += 5; break;
    default: memcpy(doc + dlen, "null", 4); dlen += 4; break;
    }
    tok(T_PRI, o, dlen - o);
}
static void value(int depth) {
    nodesleft--;
    int k = depth == 0 ? 1 + choose(2) : depth >= MAXDEPTH ? 0 : choose(3);
    if (k == 0) { prim(); return; }
    tok(k == 1 ? T_LCB : T_LB, dlen, 0); put(k == 1 ? '{' : '['); ws();
    for (int n = 0; nodesleft > 0 && choose(2); n++) {
        if (n) { tok(T_COM, dlen, 0); put(','); ws(); }
        if (k == 1) { put('"'); int o = dlen; strchars(); tok(T_KEY, o, dlen - o); put('"'); ws(); put(':'); ws(); }
        value(depth + 1); ws();
    }
    tok(k == 1 ? T_RCB : T_RB, dlen, 0); put(k == 1 ? '}' : ']');
}
#endif
