// Generator of regular expressions, and the language oracle (C11, C12).
// The expression is generated (shape, operators, characters, sets); the word is symbolic.  The oracle computes,
// for the expression itself, the set of positions of the word where a match can end, as a symbolic bit mask.
#include "sym.h"
#include <string.h>
#include <string>
#include <set>
#include <vector>
#include "Lexer/charset.hpp"
#include "Lexer/regex_model.hpp"
#include "Lexer/set_converter.hpp"
#include "Lexer/ecset_converter.hpp"
#include "Lexer/regex_builder.hpp"
#include "Lexer/equivalence_class.hpp"
#include "Lexer/dfa_simple.hpp"
#include "Lexer/model_core.hpp"
using namespace dragontooth;
#ifndef LEAVES
#define LEAVES 3
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef SETSMAX
#define SETSMAX 1
#endif
#ifndef KIDS
#define KIDS 3
#endif
#ifndef NEST
#define NEST 3
#endif
#ifndef LETTERS
#define LETTERS 2
#endif
#ifndef WORD
#define WORD 4
#endif
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
enum { LEAF, SET, CAT, ALT, REF };
struct Nd { int k, opt, n; Nd* c[4]; int lo, hi, neg; RegexItem* it; };
static Nd pool[32]; static int np, leaves, ops, sets, refs;
static char rx[128]; static int rl;
static void pr(const char* s) { while (*s) rx[rl++] = *s++; }
static RegexRefMapper* mapper; static int names;
static Nd* gen(int max, int depth) {   // uses 1..max leaves
    Nd* x = &pool[np++];
    int kind = (max >= 2 && depth < NEST) ? choose(3) : 0;
    if (kind == 0) {
        leaves++;
        int w = leaves == 1 ? 0 : choose(LETTERS);
        int s = sets < SETSMAX ? choose(3) : 0;
        if (s == 0) { x->k = LEAF; x->lo = x->hi = 'a' + w; char t[2] = { (char)x->lo, 0 }; pr(t); x->it = new RegexChar((regex_char)x->lo); }
        else { sets++; x->k = SET; x->lo = 'a'; x->hi = 'a' + w; x->neg = s == 2; const char* t = s == 2 ? (w ? "^a-b" : "^a") : (w ? "a-b" : "a"); pr("["); pr(t); pr("]"); x->it = new RegexSet(t); }
    } else {
        x->k = kind == 1 ? CAT : ALT;
        RegexList* l = new RegexList(kind == 2);
        int left = max; pr("(");
        int want = 2 + choose(max < KIDS ? max - 1 : KIDS - 1);
        for (int i = 0; i < want; i++) {
            int before = leaves; if (i && kind == 2) pr("|");
            x->c[x->n++] = gen(left - (want - 1 - i), depth + 1); left -= leaves - before;
        }
        for (int i = 0; i < x->n; i++) l->Add(x->c[i]->it);
        pr(")"); x->it = l;
    }
    if (ops < OPS) { x->opt = choose(4); if (x->opt) { ops++; static const char* o[] = { "", "?", "*", "+" }; pr(o[x->opt]); x->it->setOpt(x->opt == 1 ? RegexItem::re_optional : x->opt == 2 ? RegexItem::re_repetition : RegexItem::re_nonzero_repetition); } }
#ifdef REFS
    if (refs < 1 && choose(2)) {   // name the expression and refer to it
        refs++;
        mapper->Define("n", x->it); RegexItem* r = mapper->Find("n");
        Nd* y = &pool[np++]; y->k = REF; y->n = 1; y->c[0] = x; y->it = r; pr("{}");
        if (ops < OPS) { y->opt = choose(4); if (y->opt) { ops++; static const char* o[] = { "", "?", "*", "+" }; pr(o[y->opt]); r->setOpt(y->opt == 1 ? RegexItem::re_optional : y->opt == 2 ? RegexItem::re_repetition : RegexItem::re_nonzero_repetition); } }
        return y;
    }
#endif
    return x;
}
static int word[WORD];
typedef unsigned M;   // bit p set: a match can end at position p
static M once(Nd* x, M from);
static M match(Nd* x, M from) {
    if (x->opt == 0) return once(x, from);
    M r = 0, cur = from;
    if (x->opt == 1) return from | once(x, from);
    for (int i = 0; i <= WORD; i++) { cur = once(x, cur); r |= cur; }
    return x->opt == 2 ? r | from : r;
}
static M once(Nd* x, M from) {
    switch (x->k) {
        case LEAF: case SET: {
            M r = 0;
            for (int p = 0; p < WORD; p++) { unsigned in = (word[p] >= x->lo) & (word[p] <= x->hi); in ^= x->neg; r |= (((from >> p) & 1) & in) << (p + 1); }
            return r; }
        case CAT: { for (int i = 0; i < x->n; i++) from = match(x->c[i], from); return from; }
        case ALT: { M r = 0; for (int i = 0; i < x->n; i++) r |= match(x->c[i], from); return r; }
        default: return match(x->c[0], from);
    }
}
