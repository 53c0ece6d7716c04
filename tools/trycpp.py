#!/usr/bin/env python3
# development aid: trycpp.py HARNESS "src1 src2" MAXV [-D...] [conc:file...]
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from symlib import *
t = Tree(); o = Obj(t)
defs = [a for a in sys.argv[4:] if not a.startswith("conc:")]
exp = lambda L: [x for s in L for x in (getattr(t, s)() if s in ("query_c", "parser_c", "dfa_cpp") else [t.d + "/" + s])]
srcs, conc = exp(sys.argv[2].split()), exp([a[5:] for a in sys.argv[4:] if a.startswith("conc:")])
b = o.link_sym(HAR + "/" + sys.argv[1], srcs, defs=defs, concrete=conc)
st = run(b, time_s=int(os.environ.get("T", "100")), maxv=int(sys.argv[3]))
print({k: v for k, v in st.items() if k not in ("viol", "samples", "engine_msgs", "knownhits", "stderr")}); print({m[1] for m in st["engine_msgs"]})
if os.environ.get("S"): print(st["samples"][:6])
if st["viol"]:
    n = o.link_native(HAR + "/" + sys.argv[1], srcs + conc, defs=defs)
    seen = {}
    for v in sorted(st["viol"], key=lambda v: len(v[2])):
        k = (v[0], v[1]); seen[k] = seen.get(k, 0) + 1
        if seen[k] > 3: continue
        r = replay(n, v[2]); print("==", v[0], v[1], r[0], v[2]); print("\n".join(r[1].splitlines()[:int(os.environ.get("L", "12"))]))
    print(seen)
print(len(functions(b)[0]), "functions")
