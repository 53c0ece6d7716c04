// Equivalence classes: two characters share a class exactly when every added set, string or character
// contains both or neither; a set is converted to exactly the classes of its members.
#include "sym.h"
#include <string.h>
#include <string>
#include <set>
#include <vector>
#include "Lexer/charset.hpp"
#include "Lexer/regex_model.hpp"
#include "Lexer/ecset_converter.hpp"
#include "Lexer/equivalence_class.hpp"
using namespace dragontooth;
#ifndef SETS
#define SETS 2
#endif
#ifndef WIN
#define WIN 4
#endif
#ifndef BASES
#define BASES 'a', 0xfa, 1
#endif
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
static int base, sum;
struct Def { int neg, n; int lo[2], hi[2]; int parts; char txt[16]; };
static Def d[SETS];
static int in(const Def& s, int x) { int r = 0; for (int i = 0; i < s.n; i++) r |= (s.lo[i] <= x) & (x <= s.hi[i]); return s.neg ? !r : r; }
static int sc(void) { int c = (int)sym_conc(sym_range(base, base + WIN - 1)); sym_assume(c <= 255 && c != '-' && c != '\\' && c != '^' && c != 0); return c; }
class EC2 : public ECSetConverter { public: EquivalenceClass* get() { return ec; } };
extern "C" int sym_main(void) {
    static const int bases[] = { BASES };
    base = bases[choose(sizeof bases / sizeof bases[0])];
    int n = 1 + choose(SETS), viaModel = choose(2), rearr = viaModel ? 1 : choose(2);
    EquivalenceClass* ec; EC2 conv;
    if (viaModel) ec = conv.get(); else ec = new EquivalenceClass();
    RegexList root(true);
    std::vector<RegexSet*> sets(n, (RegexSet*)0); std::vector<RegexChar*> chars(n, (RegexChar*)0);
    for (int k = 0; k < n; k++) {
        Def& s = d[k]; int sh = choose(viaModel ? 4 : 5), t = 0; s.parts = 1;
        if (sh == 0) { s.n = 1; s.lo[0] = s.hi[0] = sc(); }
        else if (sh == 4) { s.n = 2; s.parts = 2; s.lo[0] = s.hi[0] = sc(); s.lo[1] = s.hi[1] = sc(); }
        else {
            s.neg = sh == 2; if (s.neg) s.txt[t++] = '^';
            s.n = sh == 3 ? 2 : 1;
            for (int i = 0; i < s.n; i++) { s.lo[i] = sc(); s.hi[i] = (i == 1) ? s.lo[i] : sc(); sym_assume(s.lo[i] <= s.hi[i]); s.txt[t++] = s.lo[i]; if (i == 0) { s.txt[t++] = '-'; s.txt[t++] = s.hi[i]; } }
        }
        sym_dump("shape", &sh, sizeof sh); sym_dump("lo", s.lo, sizeof s.lo); sym_dump("hi", s.hi, sizeof s.hi);
        if (viaModel) {
            if (sh == 0) root.Add(chars[k] = new RegexChar((regex_char)s.lo[0])); else root.Add(sets[k] = new RegexSet(s.txt));
        } else if (sh == 0) ec->Add((regex_char)s.lo[0]);
        else if (sh == 4) { std::vector<regex_char> v; v.push_back(s.lo[0]); v.push_back(s.lo[1]); ec->Add(v); }
        else { CharSet c((std::string(s.txt))); ec->Add(c); }
    }
    if (viaModel) { conv.PrescanAll(&root); conv.Rearrage(); conv.ConvertAll(&root); }
    else if (rearr) ec->Rearrage();
    int x = sym_range(1, 255), y = sym_range(1, 255);
    // membership vectors
    int same = 1;
    for (int k = 0; k < n; k++) {
        const Def& s = d[k];
        if (s.parts == 2) same &= ((x == s.lo[0]) == (y == s.lo[0])) & ((x == s.lo[1]) == (y == s.lo[1]));
        else same &= in(s, x) == in(s, y);
    }
    regex_char cx = ec->getClass(x), cy = ec->getClass(y);
    sym_reach(1 + viaModel);
    sym_assert((cx == cy) == (same != 0), "same class exactly when every set contains both or neither");
    sym_assert(cx >= 1 && cx < ec->getSum(), "class numbers are 1 .. getSum()-1");
    for (int k = 0; k < n; k++) {
        const Def& s = d[k];
        if (viaModel) {
            if (chars[k]) sym_assert((chars[k]->getChar() == cx) == (x == s.lo[0]), "a character becomes its class");
            else sym_assert(sets[k]->isEdge(cx) == (in(s, x) != 0), "a set in a model becomes the classes of its members");
        } else if (s.parts == 1 && s.txt[0]) {
            CharSet c((std::string(s.txt))); std::set<regex_char> m = ec->makeSet(c); sym_reach(3);
            sym_assert((m.find(cx) != m.end()) == (in(s, x) != 0), "a set becomes the classes of its members");
        }
    }
    if (rearr) {   // every class number below getSum() is used
        std::set<regex_char> used; for (int i = 1; i < 256; i++) used.insert(ec->getClass(i));
        sym_reach(4); sym_assert((int)used.size() == (int)ec->getSum() - 1, "after rearranging no class number is unused");
    }
    return 0;
}
