// A bracket notation denotes exactly its characters, through every consumer of CharSet.
#include "sym.h"
#include <string.h>
#include <string>
#include "Lexer/charset.hpp"
#include "Lexer/regex_model.hpp"
#include "Lexer/set_converter.hpp"
#include "Lexer/equivalence_class.hpp"
using namespace dragontooth;
#ifndef ITEMS
#define ITEMS 2
#endif
#ifndef WIN
#define WIN 5
#endif
#ifndef BASES
#define BASES 'a', 0x2b, 0x7c, 0xc8, 1
#endif
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
static char txt[96]; static int tl;
static int lo[8], hi[8], ni;
static void put(int c) { txt[tl++] = c; }
static int hexd(int v, int up) { return v < 10 ? '0' + v : (up ? 'A' : 'a') + v - 10; }
// one character, written in one of the supported ways; returns its code
static int ch(int base, int kinds) {
    int k = choose(kinds);
    if (k == 0) { int c = sym_range(base, base + WIN - 1); sym_assume(c != '-' && c != '\\' && c != 0); if (tl == 0) sym_assume(c != '^'); put(c); return c; }
    put('\\');
    switch (k) {
        case 1: { static const char e[] = "ntrfv", v[] = "\n\t\r\f\v"; int i = choose(5); put(e[i]); return v[i]; }
        case 2: { int c = sym_conc(sym_range(base, base + WIN - 1)); int n = choose(3), up = choose(2); put("xuU"[n]); for (int i = 0; i < (n == 0 ? 0 : n == 1 ? 2 : 6); i++) put('0'); put(hexd(c >> 4, up)); put(hexd(c & 15, up)); return c; }
        default: { static const char e[] = "-\\^]"; int i = choose(4); put(e[i]); return e[i]; }
    }
}
extern "C" int sym_main(void) {
    static const int bases[] = { BASES };
    int base = bases[choose(sizeof bases / sizeof bases[0])];
    int neg = choose(2);
    if (neg) put('^');
    int n = 1 + choose(ITEMS);
    for (ni = 0; ni < n; ni++) {
        lo[ni] = hi[ni] = ch(base, KINDS);
        if (choose(2)) { put('-'); hi[ni] = ch(base, KINDS); sym_assume(hi[ni] >= lo[ni]); }
    }
    txt[tl] = 0;
    sym_dump("notation", txt, tl);
    int x = sym_range(base > 3 ? base - 2 : 1, base + WIN + 1 < 255 ? base + WIN + 1 : 255);
#ifdef FULL
    x = sym_range(1, 255);
#endif
    int in = 0;
    for (int i = 0; i < n; i++) in |= lo[i] <= x && x <= hi[i];
    if (neg) in = !in;
    sym_sample("charset", txt, tl);
    switch (choose(3)) {
        case 0: {
            RegexSet r(txt); SetConverter c; c.Convert(&r);
            sym_reach(1); sym_assert(r.isEdge(x) == (in != 0), "set converter"); break; }
        case 1: {
            CharSet s((std::string(txt))); EquivalenceClass ec; ec.Add(s); if (choose(2)) ec.Rearrage();
            std::set<regex_char> m = ec.makeSet(s);
            sym_reach(2); sym_assert((m.find(ec.getClass(x)) != m.end()) == (in != 0), "equivalence class set"); break; }
        case 2: {
            CharSet s((std::string(txt))); CharSet c(s);
            sym_reach(3); sym_assert(c == s, "a copy equals the original"); 
            EquivalenceClass ec; ec.Add(c); std::set<regex_char> m = ec.makeSet(c);
            sym_assert((m.find(ec.getClass(x)) != m.end()) == (in != 0), "set of a copy"); break; }
    }
    return 0;
}
