// A regular expression and the automaton built from it accept the same words (C12).
#include "regexgen.h"
extern "C" int sym_main(void) {
    mapper = new RegexRefMapper();
    Nd* t = gen(LEAVES, 0);
    rx[rl] = 0; sym_dump("regex", rx, rl);
    RegexModel model; model.Add(t->it);
    IPassable* r;
#ifdef ECONLY
    int useEC = 1;
#else
    int useEC = choose(2);
#endif
    EquivalenceClass* ec = 0;
    static SetConverter sc; static ECSetConverter* ecc; static RegexBuilder* b;
    ecc = new ECSetConverter(); b = new RegexBuilder();
    if (useEC) r = ecc->Execute(&model, 0); else r = sc.Execute(&model, 0);
    ec = model.ec;
    b->Execute(r, 0);
    DFA* d = model.at(0)->dfa;
    for (int i = 0; i < WORD; i++) word[i] = sym_range(1, 255);
    M acc = match(t, 1);
    sym_sample("regex", rx, rl);
    int s = 1;
    for (int i = 0;; i++) {
        sym_reach(1 + useEC);
        sym_assert((s != 0 && d->isStopState(s) != 0) == (((acc >> i) & 1) != 0), "the automaton accepts exactly the words of the expression");
        if (i == WORD) break;
        if (s == 0) { sym_assert(((acc >> i) & 1) == 0, "dead"); s = 0; continue; }
        s = (int)sym_conc(d->nextState(s, useEC ? ec->getClass(word[i]) : word[i]));
    }
    return 0;
}
