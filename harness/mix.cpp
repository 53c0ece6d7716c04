// Combining the automata of several rules, compressing the result, and the C run-time that reads the tables
// (C11, C18).  The combined automaton, driven by a symbolic word from the start state of each condition, must be
// alive exactly while some rule of that condition is, and report the highest rule that accepts (0 when none does).
#include "regexgen.h"
#include "Lexer/dfa_mixer.hpp"
#include "Lexer/dfa_compressed.hpp"
#ifdef RUNTIME
#include "dragontooth.h"
#endif
#ifndef COND
#define COND 0
#endif
#ifndef RULES
#define RULES 2
#endif
extern "C" int sym_main(void) {
    mapper = new RegexRefMapper();
    RegexModel model; Nd* t[RULES]; int cond[RULES];
    int n = 1 + choose(RULES);
    int usecond = COND, hasx = 0;
    for (int k = 0; k < n; k++) {
        if (k) pr("  ");
        leaves = k ? 1 : 0; sets = 0;
        t[k] = gen(LEAVES, 0);
        model.Add(t[k]->it);
        cond[k] = usecond ? choose(4) : 0;     // none, default, x, default and x
        if (cond[k] & 1) model.at(k)->prerequisites.insert("default");
        if (cond[k] & 2) { model.at(k)->prerequisites.insert("x"); hasx = 1; }
        static const char* cn[] = { "", "<d>", "<x>", "<dx>" }; pr(cn[cond[k]]);
    }
    rx[rl] = 0; sym_dump("rules", rx, rl);
    static ECSetConverter* ecc; ecc = new ECSetConverter();
    RegexBuilder* b = new RegexBuilder(); DFAMixer* mixer = new DFAMixer();
    mixer->Execute(b->Execute(ecc->Execute(&model, 0), 0), 0);
    DFA* m = model.main_dfa;
    int start = hasx ? 1 + choose(2) : 1;
    for (int i = 0; i < WORD; i++) word[i] = sym_range(1, 255);
    int st[RULES]; M acc[RULES];
    for (int k = 0; k < n; k++) {
        int active = start == 1 ? (cond[k] == 0 || (cond[k] & 1)) : (cond[k] & 2) != 0;
        st[k] = active; acc[k] = active ? match(t[k], 1) : 0;
    }
    sym_sample("rules", rx, rl);
#ifdef RUNTIME
    DFACompressed* dc = (DFACompressed*)m; DTLexerState ls; memset(&ls, 0, sizeof ls);
    ls.m_base = dc->m_base.data(); ls.m_next = dc->m_next.data(); ls.m_check = dc->m_check.data(); ls.m_default = dc->m_default.data();
    ls.m_stop_state = dc->getStopState().data(); ls.bottom = dc->getBottom();
#endif
    int s = start;
    for (int i = 0;; i++) {
        int want = 0;
        for (int k = 0; k < n; k++) want = ((acc[k] >> i) & 1) ? k + 1 : want;
        int alive = 0; for (int k = 0; k < n; k++) alive |= st[k] != 0;
        sym_reach(start);
        if (i) sym_assert((s != 0) == (alive != 0), "alive exactly while some rule is");
        sym_assert((s ? m->isStopState(s) : 0) == want, "the combined automaton reports exactly the last rule that accepts");
        if (i == WORD || s == 0) break;
        int c = model.ec->getClass(word[i]);
        int ns = m->nextState(s, c);
#ifdef RUNTIME
        sym_reach(3);
        sym_assert((int)dtl_nextState(&ls, s, c) == ns, "the run-time moves as the automaton does");
        sym_assert((int)dtl_isStopState(&ls, s) == m->isStopState(s), "the run-time reports the same rule");
#endif
        for (int k = 0; k < n; k++) st[k] = st[k] ? (int)sym_conc(model.at(k)->dfa->nextState(st[k], c)) : 0;
        s = (int)sym_conc(ns);
    }
    return 0;
}
