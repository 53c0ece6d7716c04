// The C run-time as a scanner (C18): the tokens dtl_Next returns for a symbolic text are those the rules' automata
// dictate: run from the start state of the current condition as far as any rule can go, then apply the last
// accepting rule and its action (return, ignore, change of condition, push and pop of conditions).
#define LETTERS 1
#include "regexgen.h"
#include "Lexer/dfa_mixer.hpp"
#include "Lexer/dfa_compressed.hpp"
#include "dragontooth.h"
#ifndef TEXT
#define TEXT 4
#endif
static RegexModel model;
static uint32_t codes[16], toks[16]; static int cond[16];
static int rule(RegexItem* it, int c, uint32_t code, const char* show) {
    model.Add(it); int k = model.size() - 1;
    if (c & 1) model.at(k)->prerequisites.insert("default");
    if (c & 2) model.at(k)->prerequisites.insert("x");
    cond[k] = c; codes[k + 1] = code; toks[k + 1] = 100 + k; pr(show); return k;
}
extern "C" int sym_main(void) {
    mapper = new RegexRefMapper();
    Nd* g = gen(LEAVES, 0); int cg = 1 + choose(3);
    rule(g->it, cg, 0, cg == 1 ? "<d> " : cg == 2 ? "<x> " : "<dx> ");
    { RegexChar* b = new RegexChar((regex_char)' '); if (choose(2)) { b->setOpt(RegexItem::re_nonzero_repetition); pr("+"); } rule(b, 3, ac_ignore, "blank<dx>ignore "); }
    { int a = choose(3); uint32_t ig = a && choose(2) ? ac_ignore : 0; if (ig) pr("ignore,"); rule(new RegexChar((regex_char)'c'), 1, ig | (a == 0 ? 0u : a == 1 ? ac_begin | (2u << 16) : ac_push | (2u << 8)), a == 0 ? "c<d>return " : a == 1 ? "c<d>begin x " : "c<d>push x "); }
    { int a = choose(4); rule(new RegexChar((regex_char)'c'), 2, a == 0 ? 0u : a == 1 ? ac_begin | (1u << 16) : a == 2 ? ac_pop : ac_push | (2u << 8), a == 0 ? "c<x>return" : a == 1 ? "c<x>begin d" : a == 2 ? "c<x>pop" : "c<x>push x"); }
    rule(new RegexChar((regex_char)'p'), 2, ac_pop, " p<x>pop");
    rx[rl] = 0; sym_dump("rules", rx, rl);
    static ECSetConverter* ecc; ecc = new ECSetConverter();
    RegexBuilder* b = new RegexBuilder(); DFAMixer* mixer = new DFAMixer();
    mixer->Execute(b->Execute(ecc->Execute(&model, 0), 0), 0);
    DFACompressed* dc = (DFACompressed*)model.main_dfa;
    static char text[TEXT + 1]; for (int i = 0; i < TEXT; i++) text[i] = (char)sym_range(i ? 0 : 1, 255);
    DTLexerState* ls = dtl_Create();
    ls->m_base = dc->m_base.data(); ls->m_next = dc->m_next.data(); ls->m_check = dc->m_check.data(); ls->m_default = dc->m_default.data();
    ls->m_stop_state = dc->getStopState().data(); ls->bottom = dc->getBottom(); ls->m_action = codes; ls->m_token = toks;
    ls->m_ec = model.ec->getVector().data();
    dtl_SetBuffer(ls, text);
    int begin = 1, sp = 0, pos = 0; int stack[32]; int n = model.size();
    for (int calls = 0; calls < TEXT + 2; calls++) {
        // what must come
        int start = pos, want = -2, len = 0, rl_ = 0, st[16];
        if (text[pos] == 0) want = DTL_EOF;
        else for (;;) {
            for (int k = 0; k < n; k++) st[k] = (cond[k] & begin) ? 1 : 0;
            for (;;) {
                if (text[pos] == 0) break;
                int c = (int)sym_conc(model.ec->getClass((unsigned char)text[pos])), ns[16], alive = 0;
                for (int k = 0; k < n; k++) { ns[k] = st[k] ? (int)sym_conc(model.at(k)->dfa->nextState(st[k], c)) : 0; alive |= ns[k]; }
                if (!alive) break;
                memcpy(st, ns, sizeof st); pos++;
            }
            int r = 0; for (int k = 0; k < n; k++) if (st[k] && model.at(k)->dfa->isStopState(st[k])) r = k + 1;
            if (!r) { want = -1; break; }
            uint32_t code = codes[r];
            if (code & ac_push) { stack[sp++] = begin; begin = (code >> 8) & 255; }
            if (code & ac_begin) begin = (code >> 16) & 255;
            if (code & ac_pop) { if (sp == 0) sym_stop(); begin = stack[--sp]; }   // (a pop without a push is outside)
            if (code & ac_ignore) { if (pos == start) sym_stop(); start = pos; if (text[pos] == 0) { want = DTL_EOF; break; } continue; }
            if (pos == start) sym_stop();       // a rule that accepts the empty word would be returned for ever
            want = toks[r]; len = pos - start; rl_ = r; break;
        }
        DTLexerToken tk; memset(&tk, 0, sizeof tk);
        int got = dtl_Next(ls, &tk);
        sym_reach(1); if (want > 0) sym_reach(2); else if (want == 0) sym_reach(3); else sym_reach(4);
        if (sp) sym_reach(5);
        sym_assert(got == want, "the token returned");
        if (want > 0) {
            sym_assert(tk.size == (size_t)len && tk.data == text + start, "the text of the token");
            sym_assert((int)tk.rule == rl_, "the rule of the token");
        }
        if (want <= 0) break;
    }
    dtl_Free(ls);
    return 0;
}
