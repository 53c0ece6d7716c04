#!/usr/bin/env python3
# development aid: tryadt.py HARNESS MAXV [-D...] [cap:NAME=V] : one run in address-sanitizer mode
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from symlib import *
caps = dict(Tree.CAPS)
for a in sys.argv[3:]:
    if a.startswith("cap:"): k, v = a[4:].split("="); caps[k] = int(v)
t = Tree(caps); o = Obj(t, asan=True)
defs = [a for a in sys.argv[3:] if a.startswith("-")]
b = o.link_sym(HAR + "/" + sys.argv[1], t.query_c(), defs=defs, concrete=t.parser_c() + t.dfa_cpp())
st = run(b, time_s=int(os.environ.get("T", "100")), maxv=int(sys.argv[2]))
print({k: st[k] for k in ("paths", "violations", "known", "pruned", "timeout", "incomplete", "wall_s", "reach", "queries_z3")}, {m[1] for m in st["engine_msgs"]})
if st["viol"]:
    n = o.link_native(HAR + "/" + sys.argv[1], t.query_c() + t.parser_c() + t.dfa_cpp(), defs=defs); seen = {}
    for v in sorted(st["viol"], key=lambda v: len(v[2])):
        k = (v[0], v[1]); seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2: continue
        r = replay(n, v[2]); print("==", v[0], v[1], r[0], v[2]); print("\n".join(r[1].splitlines()[:int(os.environ.get("L", "12"))]))
    print(seen)
