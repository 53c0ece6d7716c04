// The compressed transition table (C11) and the C run-time reading it (C18): rows of a transition table are added in the
// orders the mixer uses; every transition must come back unchanged.  The rows are built so that all the
// storage schemes are met: constant rows, sparse rows, dense rows, rows that differ little from an earlier one.
#include "sym.h"
#include <string.h>
#include <vector>
#include "Lexer/dfa_compressed.hpp"
#ifdef RUNTIME
#include "dragontooth.h"
#endif
using namespace dragontooth;
#ifndef ROWS
#define ROWS 3
#endif
#ifndef IM
#define IM 15
#endif
#ifndef DEV
#define DEV 1
#endif
static int choose(int n) { return n <= 1 ? 0 : (int)sym_conc(sym_range(0, n - 1)); }
static const int ST = 5;   // target states 0 .. ST (more than the rows added: the table is sized by the maximum)
extern "C" int sym_main(void) {
    static DFACompressed* d; d = new DFACompressed(IM);
    static std::vector<int>* row[ROWS + 1];
    int order = ROWS > 2 ? choose(2) : 0;
    for (int s = 1; s <= ROWS; s++) {
        std::vector<int>* v = row[s] = new std::vector<int>(IM);
        int kind = choose(s > 1 ? 4 : 3), from = 1;
        if (kind == 3) { from = s > 2 ? 1 + choose(s - 1) : 1; *v = *row[from]; }
        else { int c = choose(3); for (int a = 1; a < IM; a++) (*v)[a] = kind == 0 ? c : kind == 1 ? 0 : (a + c) % ST + 1; }
        (*v)[0] = 0;
        int nd = choose(DEV + 1);
        if (kind == 3 && choose(2)) for (int r = IM > 30 ? 5 + 10 * (s - 2) : 5, a = r; a < r + 9; a++) (*v)[a] = (*v)[a] % ST + 1;   // differs in nine places
        for (int i = 0; i < nd; i++) { static const int at[] = { 1, 4, IM - 1 }; int a = at[choose(3)]; (*v)[a] = choose(3) * 2; }
        sym_dump("row", v->data(), IM * sizeof(int));
    }
    for (int i = 1; i <= ROWS; i++) {
        int s = order && i >= 2 ? (i == 2 ? 3 : i == 3 ? 2 : i) : i;
        d->addEdge(s, *row[s], ST + 1);
    }
    int a = sym_range(1, IM - 1);
#ifdef RUNTIME
    DTLexerState ls; memset(&ls, 0, sizeof ls);
    ls.m_base = d->m_base.data(); ls.m_next = d->m_next.data(); ls.m_check = d->m_check.data(); ls.m_default = d->m_default.data(); ls.bottom = d->getBottom();
#endif
    for (int s = 1; s <= ROWS; s++) {
        int want = row[s]->data()[a];
        sym_reach(1); if (d->m_default[s] > 0) sym_reach(2); else if (d->m_base[s] == INT32_MIN) sym_reach(3);
        sym_assert(d->nextState(s, a) == want, "a transition comes back unchanged");
#ifdef RUNTIME
        sym_assert((int)dtl_nextState(&ls, s, a) == want, "the run-time returns the transition");
#endif
    }
    sym_assert(d->nextState(0, a) == 0, "the error state has no way out");
    return 0;
}
